# mk.sh NAME "headline" "extra usings" patterns...
N=$1; H=$2; U=$3; shift 3
cd /verif
{ echo "// $H"
  for i in algorithm array unordered_set unordered_map set map list vector deque memory numeric optional functional string; do echo "#include <$i>"; done
  for i in Application Slice Scene sliceDataStorage LayerPlan FffGcodeWriter TreeSupport SkirtBrim MeshGroup geometry/Polygon geometry/OpenPolyline geometry/SingleShape geometry/MixedLinesSet utils/polygonUtils utils/ExtrusionLine raft; do echo "#include \"$i.h\""; done
  for p in "$@"; do for f in $(cd /repo; git ls-files | grep -E "^$p\$" ); do python3 tools/incs.py $f; done; done | sort -u | grep -v 'BoostInterface\|opentelemetry'
  for p in "$@"; do (cd /repo; git ls-files include | grep -E "^$p\$" | sed 's!include/!#include "!;s!$!"!'); done
  echo "#include \"ref.h\""; echo; echo "namespace ref"; echo "{"; echo "using namespace cura;"; printf "$U\n"
  python3 tools/mkref.py "$@"
  echo "//END"; echo "}  // namespace ref"; } > ref/$N.cpp
wc -l ref/$N.cpp
