def P(id, title, statement, over, quant, why, files, mech, tech='', note='', reason=''):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, reason=reason)


PROPS = [
P('C01', 'Work items of a parallel section never race',
  'Whenever slicing work is distributed over threads, two work items that may run at the same time never touch the same data with one of them modifying it, unless both hold a common lock while doing so. The same holds between the threads that produce ordered results and the thread that consumes them.',
  ['schedules', 'inputs'], 'every interleaving of the items of every parallel section, for every model and setting',
  'A race needs a particular interleaving; the tests run single functions on tiny inputs and never explore schedules.',
  ['include/utils/ThreadPool.h', 'src/TreeModelVolumes.cpp', 'include/TreeModelVolumes.h', 'src/TreeSupport.cpp', 'src/TreeSupportTipGenerator.cpp', 'src/slicer.cpp', 'src/layerPart.cpp', 'src/support.cpp', 'src/FffPolygonGenerator.cpp', 'src/FffGcodeWriter.cpp', 'src/MeshMaterialSplitter.cpp', 'src/skin.cpp'],
  [('parallel_for / run_multiple_producers_ordered_consumer call sites', 'include/utils/ThreadPool.h'), ('lazily filled area caches', 'src/TreeModelVolumes.cpp'), ('per-layer results written by index', 'src/layerPart.cpp')],
  'interprocedural effect + must-lockset analysis over access paths, pairwise conflict check per parallel section',
  'Sound up to the aliasing assumptions in the evidence; conflicts inside a documented ordered chunk are not judged.'),
P('C02', 'Parallel sections run every item exactly once and then finish',
  'A parallel loop runs its body exactly once for every item of its range and returns only after the last one is done, and an ordered producer/consumer run hands every produced result to the consumer once, one at a time, in index order. No thread can sleep through the event it waits for.',
  ['schedules', 'inputs'], 'every range length, chunk size, thread count and interleaving',
  'Tests only see the interleavings that happen; lost wake-ups, spurious wake-ups and off-by-one chunks need rare ones.',
  ['include/utils/ThreadPool.h', 'src/utils/ThreadPool.cpp', 'src/LayerPlanBuffer.cpp'],
  [('chunk partition and completion count', 'include/utils/ThreadPool.h'), ('ring buffer of pending results', 'include/utils/ThreadPool.h'), ('worker loop', 'src/utils/ThreadPool.cpp')],
  'typestate / protocol rules on the CFG (wait loops, notify-after-write, lock state around callbacks) and value-graph comparison of the partition arithmetic',
  'The protocol rules are necessary conditions of the guarantee for the code as structured; the C++ memory model and std::condition_variable are trusted.'),
P('C03', 'Locks are taken in one order and always released',
  'No thread can wait for a lock while it holds one that another thread acquires in the opposite order, nor for a lock it holds already, nor start or wait for parallel work while holding a lock that the work needs. Every lock taken is released on every way out of its scope.',
  ['schedules', 'programs'], 'every pair of threads and every path through the locking code',
  'A deadlock needs two threads at the right instant; the tests have no concurrent scenario.',
  ['include/utils/ThreadPool.h', 'src/TreeModelVolumes.cpp', 'src/TreeSupportTipGenerator.cpp', 'src/LayerPlanBuffer.cpp', 'src/communication/ArcusCommunicationPrivate.cpp', 'src/progress/Progress.cpp'],
  [('mutex acquisitions through scoped guards', 'src/TreeModelVolumes.cpp'), ('explicit lock/unlock around work', 'include/utils/ThreadPool.h')],
  'lock-order graph over interprocedural must/may-held locksets; acquire/release typestate on the CFG',
  'Locks are identified by access path of the mutex.'),
P('C04', 'The same input always gives the same output',
  'Slicing the same model with the same settings gives the same toolpaths regardless of thread timing, memory layout, time of day or earlier runs. Nothing that ends up in the output depends on shared random state, the clock, object addresses or the order in which threads finish.',
  ['schedules', 'histories', 'configurations'], 'every schedule, address-space layout and run history',
  'One run in a test cannot differ from itself; dependence on addresses or thread order shows only across runs.',
  ['src/FffGcodeWriter.cpp', 'src/InfillOrderOptimizer.cpp', 'src/FffPolygonGenerator.cpp', 'src/infill/LightningTreeNode.cpp', 'include/PathOrderOptimizer.h', 'src/TreeSupport.cpp'],
  [('random numbers', 'src/FffPolygonGenerator.cpp'), ('hash containers keyed by address', 'include/PathOrderOptimizer.h'), ('containers appended to by parallel items', 'src/TreeSupportTipGenerator.cpp')],
  'inventory of every source of variation in the resolved program (random state, clocks, addresses, address-ordered walks, static and global state, arrival-order appends from interprocedural effects), each followed to its use',
  'Decides absence of the enumerated sources; floating-point differences between machines are out of scope.'),
P('C05', 'Lock-protected caches are never touched without their lock',
  'Shared results that are computed on demand by several threads are looked up, inserted and iterated only while the lock that belongs to that very collection is held. A reader can therefore never observe a collection while another thread restructures it.',
  ['schedules'], 'every interleaving of callers of objects that own locks',
  'Looking up under the wrong lock works in every single-threaded test.',
  ['src/TreeModelVolumes.cpp', 'include/TreeModelVolumes.h', 'src/LayerPlanBuffer.cpp', 'src/TreeSupportTipGenerator.cpp'],
  [('area caches and their mutexes', 'include/TreeModelVolumes.h'), ('layer plan buffer', 'src/LayerPlanBuffer.cpp')],
  'guarded-by inference: interprocedural must-lockset of every access to every member of a lock-owning class',
  'The lock of a member is inferred from its writers; methods not reachable from concurrent code are exempt.'),
P('S01', 'A setting resolves to the most specific value that applies',
  'A setting asked of an object yields its own value if it has one; otherwise, if the setting is limited to an extruder, that extruder\'s value; otherwise the value inherited from its parent. A setting found nowhere is an error, never a silent default.',
  ['configurations', 'inputs'], 'every combination of own, limited-to-extruder and inherited values at every depth',
  'The tests sample a handful of containers; the lookup order must hold for all keys and nesting.',
  ['src/settings/Settings.cpp', 'include/settings/Settings.h'],
  [('value lookup', 'src/settings/Settings.cpp'), ('presence query', 'src/settings/Settings.cpp')],
  'value-graph (gated value numbering) equivalence of the lookup with the specified precedence',
  'The map operations of the standard library are trusted.'),
P('S02', 'Setting texts are decoded into the unit the engine works in',
  'Every typed reading of a setting converts the text the same way everywhere: lengths in millimetres become micrometres, percentages become fractions, angles in degrees become the angle unit asked for, and times, speeds, temperatures and accelerations keep their unit. Booleans are true exactly for the documented spellings.',
  ['inputs', 'configurations'], 'every setting text and every value type',
  'Tests check a few literals per type; a wrong factor or a dropped spelling for one type escapes them.',
  ['src/settings/Settings.cpp', 'include/settings/types/Ratio.h', 'include/settings/types/Angle.h', 'include/settings/types/Temperature.h', 'include/settings/types/Velocity.h', 'include/settings/types/Duration.h', 'include/utils/Coord_t.h'],
  [('typed getters', 'src/settings/Settings.cpp'), ('unit value types', 'include/settings/types/Ratio.h')],
  'value-graph equivalence of each typed getter with its specified conversion',
  'Number parsing by the standard library is trusted.'),
P('S03', 'Each textual option selects the alternative it names',
  'Every documented text of an option setting selects its own alternative, no two alternatives of one option share all their texts, and a text that is not known falls back to one fixed documented alternative. No alternative of an option is unreachable.',
  ['inputs', 'configurations'], 'every option type and every text',
  'Tests try few options; a swapped or shadowed text only affects users of that option.',
  ['src/settings/Settings.cpp', 'include/settings/EnumSettings.h'],
  [('option decoders', 'src/settings/Settings.cpp')],
  'exhaustive extraction of the text-to-alternative table from the decision structure of each option decoder, compared with the documented table',
  'The documented table is the option list of the front end\'s setting definitions, transcribed in the check.'),
P('S04', 'A setting means the same quantity wherever it is read',
  'Every part of the engine that reads a given setting reads it as the same kind of quantity and unit. No part reads a length as a plain number, a ratio as a percentage, or a duration as a length when another part does not.',
  ['configurations', 'programs'], 'every reading of every setting key in the program',
  'A mis-typed reading is a silent factor 1000 or 100 in one feature; tests exercise few features with few settings.',
  ['src/settings/Settings.cpp', 'src/FffGcodeWriter.cpp', 'src/support.cpp', 'src/skin.cpp', 'src/infill.cpp', 'src/settings/PathConfigStorage.cpp', 'src/settings/MeshPathConfigs.cpp'],
  [('typed setting reads', 'include/settings/Settings.h')],
  'whole-program collection of (key, quantity) pairs from the type-checked reads, with constant propagation of keys, against the quantity every setting stands for',
  'Keys built at run time are resolved only where all parts are constants.'),
P('V01', 'Every ordering used for sorting or keyed storage is consistent',
  'Every comparison used to sort or to key an ordered collection is a strict weak ordering: nothing precedes itself, two items never both precede each other, and precedence and equivalence are transitive. Sorting therefore neither corrupts memory nor depends on the incoming order beyond ties.',
  ['inputs'], 'all triples of values',
  'A comparison that fails on equal or extreme values works on nearly every sample.',
  ['include/utils/AABB3D.h', 'include/geometry/Point2LL.h', 'include/SpaceFillType.h', 'src/TreeSupport.cpp', 'src/utils/polygonUtils.cpp', 'src/infill.cpp', 'src/InsetOrderOptimizer.cpp'],
  [('comparators passed to sort and to ordered containers', 'src/TreeSupport.cpp'), ('less-than operators of value types', 'include/geometry/Point2LL.h')],
  'abstract evaluation of every comparator over all order types of the compared projections (irreflexivity, asymmetry, transitivity of precedence and equivalence)',
  'Projections are treated as totally ordered; comparators outside the decidable fragment are listed as undecided.'),
P('V02', 'Objects that are equal have equal hashes',
  'Two keys that compare equal always hash to the same value, so a keyed collection finds every entry that was stored. Neither equality nor the hash depends on something the other ignores in a way that breaks this.',
  ['inputs'], 'all pairs of keys of every hashed type',
  'A hash over a field that equality ignores fails only for the keys that differ there.',
  ['include/geometry/Point2LL.h', 'include/utils/PairHash.h', 'include/TreeSupportUtils.h', 'include/utils/ExtrusionLine.h', 'include/utils/PolygonsPointIndex.h'],
  [('hash specialisations and functors', 'include/geometry/Point2LL.h')],
  'dependency sets of hash and equality value graphs: hash dependencies must be contained in the equality projections; value-graph equivalence with reference functions',
  'std::hash of fundamental types is trusted.'),
P('V03', 'Points, boxes and matrices treat all axes alike',
  'Arithmetic and containment on points, boxes, colours and matrices apply the same rule to every axis: what is done to one coordinate is done to the others with that coordinate substituted. Adding and subtracting, growing and including are therefore independent of the orientation of the model.',
  ['inputs'], 'all coordinates',
  'Tests use few, often symmetrical, points; a coordinate used twice or left out passes them.',
  ['include/geometry/Point3LL.h', 'src/geometry/Point3LL.cpp', 'include/geometry/Point2LL.h', 'src/utils/AABB.cpp', 'src/utils/AABB3D.cpp', 'include/utils/Point3D.h', 'include/utils/Point3F.h', 'include/utils/Point2F.h', 'include/utils/VoxelGrid.h'],
  [('vector operators', 'src/geometry/Point3LL.cpp'), ('bounding boxes', 'src/utils/AABB3D.cpp')],
  'value-graph (gated value numbering) equivalence of every vector, box, colour and matrix operation with its per-axis reference',
  'Functions outside the fragment are reported as undecided.'),
P('V04', 'Squared distances, areas and products of coordinates keep their width',
  'Squared distances, areas, cross products and other products of lengths keep their full width: a product of two coordinates is never formed in, or stored into, a 32-bit integer or a single-precision number, and a product of four coordinates is never formed in a 64-bit integer. A model of any supported size is handled without silent wrap-around of such a quantity.',
  ['inputs'], 'all coordinates of the supported build volume',
  'Overflow shows only for large models or long distances, which the tests do not use.',
  ['src/utils/linearAlg2D.cpp', 'src/utils/polygonUtils.cpp', 'include/geometry/Point2LL.h', 'src/geometry/Shape.cpp', 'include/utils/Coord_t.h', 'src/MeshUtils.cpp'],
  [('coordinate type', 'include/utils/Coord_t.h')],
  'whole-program inference of the degree in lengths of every value (a flow-insensitive fixpoint over declarations, fields, returns and arguments of the typed program), and a rule on every conversion and integer product of a value of that degree',
  'Narrowing of a single coordinate (degree one) is not judged: the code does so deliberately for small distances.'),
P('F01', 'No result depends on an uninitialised value',
  'Every data member and every local is given a value on every path before it is read. No result, including the fields of a structure a function returns, depends on whatever the memory happened to contain.',
  ['programs', 'inputs'], 'all constructors and all paths',
  'Uninitialised memory is often zero in small tests.',
  ['src/BeadingStrategy/WideningBeadingStrategy.cpp', 'include/sliceDataStorage.h', 'include/LayerPlan.h', 'include/pathPlanning/GCodePath.h', 'include/timeEstimate.h', 'include/skin.h'],
  [('constructors and default member values', 'include/sliceDataStorage.h'), ('structures returned by value', 'src/BeadingStrategy/WideningBeadingStrategy.cpp')],
  'definite-initialisation dataflow on the CFG for locals and aggregate fields, and constructor coverage of scalar members',
  'Members of class type are initialised by their constructors, which are checked themselves.'),
P('B01', 'Wrapped wall strategies answer like what they wrap unless they refine it',
  'A wall-distribution strategy that refines another one passes every question it does not refine on to the wrapped strategy, with the same argument, and returns its answer unchanged. Where it does refine, all cases outside its refinement are answered by the wrapped strategy.',
  ['configurations', 'inputs'], 'every stacking of strategies, thickness and bead count',
  'Tests exercise few stackings; a question answered by the outer default instead of the wrapped strategy shifts walls only in those configurations.',
  ['src/BeadingStrategy/LimitedBeadingStrategy.cpp', 'src/BeadingStrategy/OuterWallInsetBeadingStrategy.cpp', 'src/BeadingStrategy/InnerWallInsetBeadingStrategy.cpp', 'src/BeadingStrategy/RedistributeBeadingStrategy.cpp', 'src/BeadingStrategy/WideningBeadingStrategy.cpp', 'src/BeadingStrategy/BeadingStrategyFactory.cpp'],
  [('virtual queries of a strategy', 'include/BeadingStrategy/BeadingStrategy.h')],
  'override coverage of every virtual query in every wrapper class plus value-graph equivalence of each override with its specified answer',
  'The two wrapped queries that inset and limiting wrappers do not pass on are recorded as findings.'),
P('B02', 'Every bead has exactly one width and one location',
  'Whatever strategy computes the walls of a thickness, the result lists one width and one location per bead, reports the thickness it was asked about, and says how much of it is left over. The outer and inner halves mirror each other where the strategy promises symmetry.',
  ['inputs', 'configurations'], 'every thickness, bead count and stacking of strategies',
  'Mismatched lists appear only for the bead counts that take the faulty branch.',
  ['src/BeadingStrategy/DistributedBeadingStrategy.cpp', 'src/BeadingStrategy/LimitedBeadingStrategy.cpp', 'src/BeadingStrategy/RedistributeBeadingStrategy.cpp', 'src/BeadingStrategy/WideningBeadingStrategy.cpp', 'src/BeadingStrategy/OuterWallInsetBeadingStrategy.cpp'],
  [('beading results', 'include/BeadingStrategy/BeadingStrategy.h')],
  'path-wise abstract interpretation of the list lengths (symbolic size difference) and definite assignment of the reported fields',
  'Lengths are tracked as a difference domain; loops must preserve the difference.'),
]

from props2 import REFPROPS
PROPS += REFPROPS

NA = [
]
