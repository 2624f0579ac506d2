cd /verif
mk() { bash tools/mk.sh "$@" 2>/tmp/mass.$1.err | tail -1 >/dev/null; }
mk G01 "Plane and space geometry primitives." "" src/utils/linearAlg2D.cpp include/utils/linearAlg2D.h include/utils/math.h 'include/geometry/Point(2LL|3LL|2D|3Matrix).h' 'src/geometry/Point(2LL|3LL|Matrix).cpp' 'src/utils/(Matrix4x3D|Segment3LL|PlanarPolygon3LL).cpp' 'include/utils/(Point3D|Point3F|Point2F|Segment3LL|Coord_t).h' 'include/settings/types/.*.h' &
mk G02 "Paths and sets of paths." "" 'src/geometry/(Closed|Open|Mixed|Lines|Points|Poly|Single|Parts|Mended).*.cpp' 'include/geometry/(Closed|Open|Mixed|Lines|Points|Poly|Single|Parts|Segment).*.h' 'src/geometry/conversions/.*.cpp' &
mk G03 "Operations on areas." "" 'src/geometry/Shape.cpp' 'include/geometry/Shape.h' &
mk G04 "Bounding boxes." "" 'src/utils/AABB.cpp' 'src/utils/AABB3D.cpp' &
mk G05 "Closest points and walking along polygons." "" 'src/utils/polygonUtils.cpp' 'include/utils/polygonUtils.h' 'src/utils/Polygons.*.cpp' 'include/utils/PolygonsPointIndex.h' 'src/utils/ListPolyIt.cpp' 'include/utils/ListPolyIt.h' &
mk G06 "Spatial grids." "" 'include/utils/(Sparse.*|SpatialLookup|SquareGrid|VoxelGrid|VoxelUtils).h' 'src/utils/(SquareGrid|SpatialLookup|VoxelGrid|VoxelUtils).cpp' &
mk U01 "General containers and helpers." "" 'include/utils/(UnionFind|LayerVector|algorithm|string|orderOptimizer|gettime|PairHash).h' 'src/utils/(MinimumSpanningTree|Date|gettime).cpp' &
mk W01 "Stitching and connecting of lines." "" 'src/utils/(PolylineStitcher|MixedPolylineStitcher|PolygonConnector).cpp' 'include/utils/PolygonConnector.h' &
wait
mk W02 "Simplification." "" 'src/utils/Simplify.cpp' 'include/utils/Simplify.h' &
mk X01 "Variable-width lines." "" 'src/utils/Extrusion.*.cpp' 'include/utils/Extrusion.*.h' &
mk P01 "Progress." "" 'src/progress/.*.cpp' 'include/progress/.*.h' &
mk T01 "Time estimates." "" 'src/timeEstimate.cpp' 'include/timeEstimate.h' 'src/pathPlanning/SpeedDerivatives.cpp' 'include/pathPlanning/TimeMaterialEstimates.h' &
mk H01 "Temperatures." "" 'src/Preheat.cpp' 'src/settings/FlowTempGraph.cpp' 'include/settings/FlowTempGraph.h' 'src/pathPlanning/NozzleTempInsert.cpp' 'include/pathPlanning/NozzleTempInsert.h' &
mk I01 "Infill patterns." "" 'src/infill/(Abstract|Gyroid|Regular|Sierp|SubDiv|Zigzag|NoZigZag|Image).*.cpp' 'include/infill/(Abstract|Gyroid|Regular|Sierp|SubDiv|Zigzag|NoZigZag|Image|Density|Uniform).*.h' &
mk I02 "Lightning infill." "" 'src/infill/Lightning.*.cpp' 'include/infill/Lightning.*.h' &
mk I03 "Infill." "" 'src/infill.cpp' 'include/infill.h' &
wait
mk M01 "Meshes." "" 'src/mesh.cpp' 'include/mesh.h' 'src/utils/(MeshUtils|OBJ).cpp' 'src/(TextureDataProvider|SlicedUVCoordinates).cpp' 'src/MeshGroup.cpp' &
mk R01 "Raft and adaptive layers." "" 'src/raft.cpp' 'src/settings/AdaptiveLayerHeights.cpp' &
mk S05 "Feature configurations." "" 'src/settings/(MeshPathConfigs|PathConfigStorage|ZSeamConfig).cpp' 'src/GCodePathConfig.cpp' 'src/pathPlanning/GCodePath.cpp' &
mk Q01 "Ordering." "" 'src/(path_ordering|PathOrderMonotonic|PathAdapter).cpp' 'include/(PathOrder|PathOrderMonotonic|PathOrderOptimizer|path_ordering|PathAdapter).h' 'src/utils/scoring/.*.cpp' 'include/utils/scoring/.*.h' &
mk K01 "Combing." "" 'src/pathPlanning/(Comb|LinePolygonsCrossings).cpp' 'include/pathPlanning/(Comb|LinePolygonsCrossings).h' &
mk TS1 "Tree support." "" 'src/TreeSupport.*.cpp' 'include/TreeSupport.*.h' 'src/TreeModelVolumes.cpp' 'include/TreeModelVolumes.h' &
mk SK1 "Skirt and brim." "" 'src/SkirtBrim.cpp' 'include/SkirtBrim.h' &
mk BR1 "Bridges." "" 'src/bridge/.*.cpp' 'include/bridge/.*.h' &
wait
mk L01 "From mesh to layers." "" 'src/(slicer|layerPart|multiVolumes|Mold|ConicalOverhang|WallsComputation|skin|TopSurface|SupportInfillPart).cpp' 'include/(slicer|layerPart|skin).h' &
mk L02 "Layer data." "" 'src/sliceDataStorage.cpp' 'include/sliceDataStorage.h' 'src/(InterlockingGenerator|ExtruderTrain|Scene|Slice).cpp' 'include/InterlockingGenerator.h' &
mk A01 "Variable-width walls." "" 'src/arachne/.*.cpp' 'include/arachne/.*.h' 'src/WallToolPaths.cpp' 'src/utils/VoronoiUtils.cpp' 'include/utils/VoronoiUtils.h' &
mk GC1 "G-code export." "" 'src/gcode_export/.*.cpp' 'include/gcode_export/.*.h' &
mk GC2 "Layer plans." "" 'src/(LayerPlan|LayerPlanBuffer|ExtruderPlan|PrintInformation).cpp' 'include/(LayerPlanBuffer|LayerPlan|ExtruderPlan).h' &
mk GC3 "Writing." "" 'src/(FffGcodeWriter|FffPolygonGenerator|FffProcessor|InfillOrderOptimizer|InsetOrderOptimizer|support).cpp' 'include/(FffProcessor).h' &
mk PT1 "Prime tower." "" 'src/PrimeTower/.*.cpp' 'include/PrimeTower/.*.h' &
mk AP1 "Application." "" 'src/(Application|main|MeshMaterialSplitter).cpp' 'src/communication/CommandLine.cpp' 'src/settings/SettingContainers.*.cpp' &
mk SV1 "Output files." "" 'src/utils/(SVG|ToolpathVisualizer).cpp' 'include/utils/(SVG|ToolpathVisualizer).h' &
mk GF1 "Gradual flow." "" 'include/gradual_flow/.*.h' 'include/utils/actions/.*.h' 'include/utils/views/.*.h' 'include/utils/types/.*.h' 'include/utils/format/.*.h' &
wait
