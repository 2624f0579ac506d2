// Members of containers that nothing in the engine instantiates on its own.
#include "utils/PolygonsPointIndex.h"
//= instance
template bool cura::PathsPointIndex<cura::Shape>::operator<(const cura::PathsPointIndex<cura::Shape>&) const;
//END
//= instance
template bool cura::PathsPointIndex<cura::Shape>::operator==(const cura::PathsPointIndex<cura::Shape>&) const;
//END
//= instance
template bool cura::PathsPointIndex<cura::Shape>::operator!=(const cura::PathsPointIndex<cura::Shape>&) const;
//END
//= instance
template cura::PathsPointIndex<cura::Shape>& cura::PathsPointIndex<cura::Shape>::operator--();
//END
//= instance
template cura::PathsPointIndex<cura::Shape> cura::PathsPointIndex<cura::Shape>::prev() const;
//END
