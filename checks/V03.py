"""Points, boxes, colours and matrices: every operation computes what its reference computes for every axis."""
import facts, spec

REFS = ['G01.cpp', 'G04.cpp', 'G06.cpp', 'M01.cpp', 'whole/G06/VoxelGrid_h.cpp', 'whole/G01/Point2LL_h.cpp']
TUS = lambda: facts.tu_list() + ['@ref/' + r for r in REFS]
CLASSES = r'^(ClipperLib::operator<|cura::(Point[23](LL|D|F|DF)|AABB|AABB3D|Point3?Matrix|PointMatrix|Matrix4x3D|VoxelGrid|TextureDataProvider|SVG::RgbColor|Mesh)::|' \
          r'cura::(operator *(\+|-|\*|/|%|\+=|-=|\*=|/=|==|<<)|dot|cross|turn90CCW|rotate|normal|vSize\w*|shorterTh[ae]n|make_point|pointHash|lerp|distance)$)'


def check(rep, P):
    n = spec.run(rep, P, REFS, only=CLASSES)
    rep.need('functions_compared', 60)
    rep.assumptions += ['library containers, algorithms and number parsing behave as modelled in sa/stdmodel.py']
    return spec.METHOD + ' Restricted to the operations on points, boxes, colours and matrices; the reference of each treats the axes alike.'
