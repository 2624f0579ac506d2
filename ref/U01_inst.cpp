// Members of containers that nothing in the engine instantiates on its own.
#include "utils/LayerVector.h"
//= instance
template int& cura::LayerVector<int>::operator[](const cura::LayerIndex&);
//END
//= instance
template const int& cura::LayerVector<int>::operator[](const cura::LayerIndex&) const;
//END
//= instance
template int& cura::LayerVector<int>::at(const cura::LayerIndex&);
//END
//= instance
template const int& cura::LayerVector<int>::at(const cura::LayerIndex&) const;
//END
//= instance
template int& cura::LayerVector<int>::front();
//END
//= instance
template std::vector<int>::iterator cura::LayerVector<int>::iterator_at(const cura::LayerIndex&);
//END
//= instance
template std::vector<int>::const_iterator cura::LayerVector<int>::iterator_at(const cura::LayerIndex&) const;
//END
//= instance
template int cura::LayerVector<int>::get(const cura::LayerIndex&) const noexcept;
//END
//= instance
template cura::LayerIndex cura::LayerVector<int>::getLayer(const std::vector<int>::const_iterator&) const;
//END
//= instance
template cura::LayerIndex cura::LayerVector<int>::getLayer(const std::vector<int>::const_reverse_iterator&) const;
//END
//= instance
template void cura::LayerVector<int>::pop_back();
//END
//= instance
template void cura::LayerVector<int>::push_back(const int&);
//END
//= instance
template void cura::LayerVector<int>::reserve(size_t);
//END
//= instance
template void cura::LayerVector<int>::resize(size_t);
//END
//= instance
template void cura::LayerVector<int>::clear();
//END
//= instance
template std::vector<int>::reverse_iterator cura::LayerVector<int>::rbegin();
//END
//= instance
template std::vector<int>::reverse_iterator cura::LayerVector<int>::rend();
//END
//= instance
template void cura::LayerVector<int>::init(bool, size_t);
//END
//= instance
template bool cura::LayerVector<int>::empty() const;
//END
//= instance
template size_t cura::LayerVector<int>::size() const;
//END
//= instance
template const int& cura::LayerVector<int>::front() const;
//END
//= instance
template void cura::LayerVector<int>::push_back(int&&);
//END
//= instance
template std::vector<int>::const_reverse_iterator cura::LayerVector<int>::rbegin() const;
//END
