#pragma once
// Stand-in for the (absent) scripta logging library: visual-debug logging, no effect on slicing.
#include <string>
namespace scripta {
struct CellVDI { template<class... A> CellVDI(A&&...) {} };
struct PointVDI { template<class... A> PointVDI(A&&...) {} };
struct StructureVDI { template<class... A> StructureVDI(A&&...) {} };
template<class... A> inline void log(A&&...) {}
template<class... A> inline void setAll(A&&...) {}
}
