import json, os
_F = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'reffiles.json')))
TECH = 'value-graph (gated value numbering) equivalence of every listed function with a reference function that states what it must compute'
NOTE = 'Decides the listed functions, each as a whole over all inputs; calls of other specified functions are kept as calls and library operations are trusted. Functions outside the fragment are reported as undecided.'
WHY = 'The guarantee ranges over all inputs and configurations; the tests sample a few points of a few functions, and a wrong branch, factor or operand elsewhere passes them.'


def R(id, refs, title, statement, quant, over=('inputs', 'configurations'), why=WHY, mech=None, least=None):
    files = []
    for r in refs:
        files += [f for f in _F.get(r, []) if f not in files]
    mech = mech or [('specified functions (ref/%s)' % r, _F[r][0]) for r in refs if _F.get(r)]
    return dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files[:14], mech=mech, tech=TECH, note=NOTE, reason='', refs=refs)


REFPROPS = [
R('G01', ['G01.cpp'], 'Points, vectors, matrices and units compute what they are named for',
  'Adding, scaling, rotating, measuring and comparing points, vectors, segments and matrices gives the mathematical result for every coordinate, with the rounding each operation documents. Questions about lines (which side, how far, where they cross, what angle they enclose) are answered by the defining formula, degenerate inputs included. Angles, layer numbers, temperatures and durations obey the arithmetic of their unit.',
  'all points, vectors, matrices, angles and layer numbers', ('inputs',)),
R('G02', ['G02.cpp'], 'Polylines, polygons and collections of lines keep their structure',
  'Open, implicitly closed and explicitly closed lines report the segments, length, validity and closedness that their point lists define; reversing, translating, splitting, joining and iterating preserve every point and its order. A collection of lines answers for exactly the lines it holds: sizes, lengths, transformations, removals and offsets treat every member, and nothing else.',
  'every list of lines and every index', ('inputs',)),
R('G03', ['G03.cpp'], 'Shape operations are the set operations they are named for',
  'Union, intersection, difference, offset, smoothing, hull, sorting into parts and containment tests combine exactly the operands they are given, with the fill rule, order and rounding the operation names. Queries (area, inside, empty parts, small pieces) describe the shape as it is and change nothing.',
  'all shapes, distances and options', ('inputs',)),
R('G04', ['G04.cpp'], 'A bounding box contains exactly what was put into it',
  'A box built from or extended by points, shapes, lines or other boxes is the smallest one that contains them, an empty box contains nothing and does not influence what it is merged with. Overlap, containment, middle, size, rounding and growth are computed from both corners in every dimension.',
  'all boxes and all included items', ('inputs',)),
R('G05', ['G05.cpp'], 'Queries along polygon outlines find the right place',
  'Looking for the closest, next, inside or outside place on an outline examines every candidate segment, wraps around at the ends and returns the place, segment index and owning polygon that belong together. Moving a point inside or outside respects the requested distance and limit, and iterating over an outline by index visits each vertex once in either direction.',
  'all outlines, points, distances and starting places', ('inputs',)),
R('G06', ['G06.cpp'], 'Spatial grids visit every cell that a place, line or area touches',
  'A place maps to one cell, also for negative coordinates, and the lower corner of a cell maps back to it. Walking a line, a disc, a polygon or a dilation visits every cell the figure touches, stops exactly when the visitor says so, and a nearby search returns all and only the stored items in range.',
  'all places, radii, lines and cell sizes', ('inputs',)),
R('W01', ['W01.cpp'], 'Stitching and bridging loose lines keeps every line exactly once',
  'Joining pieces of lines into longer lines or closed loops consumes each input piece once, joins only ends that are near enough and may be joined in that direction, and leaves an even or odd marking intact. Bridging nested outlines inserts two parallel connections of the right width and cuts the outlines only between them.',
  'all sets of lines, gap sizes and directions', ('inputs',)),
R('W02', ['W02.cpp'], 'Simplifying a line stays within the permitted deviation',
  'Vertices are removed only when the removal moves the line by no more than the permitted deviation (and, for lines of varying width, changes the extruded area by no more than permitted), end points of open lines stay, and shapes that would collapse are handled as documented. Short segments and colinear vertices go first, and every settings-dependent limit is applied in the unit it is given in.',
  'all lines and all limits', ('inputs', 'configurations')),
R('X01', ['X01.cpp'], 'Lines of varying width describe one extruded area consistently',
  'Length, area, shortest part, closedness, conversion and reversal of a line of varying width follow from its list of junctions, all of which are kept in order with their own width and nesting number. The outline of a segment is computed from the widths at both of its ends.',
  'all lists of junctions', ('inputs',)),
R('U01', ['U01.cpp'], 'Text, order and bookkeeping helpers are exact',
  'Numbers are written to text with the documented precision and without losing sign or value, text comparison ignores case only, encodings are reversible, and layer-indexed containers translate negative layers to the right slot. Ordering and spanning-tree helpers return each item once.',
  'all values, texts and indices', ('inputs',)),
R('P01', ['P01.cpp'], 'Progress only moves forward and ends complete',
  'The reported overall progress is the share of finished stages plus the finished share of the current one, weighted by the expected duration of each stage. It is computed from the same stage table everywhere, layers are reported under their own number, and each stage passes to the next one in order.',
  'every sequence of stages and layers', ('inputs', 'histories')),
R('T01', ['T01.cpp'], 'Print time estimates follow the motion model of the machine',
  'The estimated time of a move follows the trapezoid of its entry, cruise and exit speeds under the acceleration, jerk and speed limits set at that moment, and planning backward and forward over the buffered moves never lets a move exceed what its neighbours allow. Travel, retraction and each printed feature are booked under their own heading and the totals are the sums over all of them.',
  'every sequence of moves and limits', ('inputs', 'histories')),
R('H01', ['H01.cpp'], 'Temperature planning uses the material and nozzle data of its extruder',
  'The time needed to heat up or cool down between two temperatures follows from the heating and cooling speeds of the extruder in question and whether it is extruding, and never becomes negative. A flow rate is translated to a temperature by interpolating the two neighbouring entries of the table, and beyond its ends by the end entries.',
  'all extruders, temperatures and flow rates'),
R('I01', ['I01.cpp'], 'Infill pattern generators place their lines as the pattern defines',
  'Each infill pattern places its lines at the spacing, angle, shift and layer-dependent offset its definition gives, and connects them along the outline only where it says so. Recursive and density-driven patterns subdivide only where the wanted density asks for it and hand the remaining density on without loss.',
  'all spacings, angles, layers and density fields'),
R('I02', ['I02.cpp'], 'Lightning infill trees stay connected and reach what they must support',
  'A branch is attached to the nearest place that may carry it, a tree keeps every node reachable from its root through propagation, straightening and pruning, and the places that still need support shrink exactly by what a new branch supports. Angles and radii follow from the layer height and the settings of the mesh.',
  'all layers, outlines and trees'),
R('I03', ['I03.cpp'], 'Infill of an area honours its pattern, width, overlap and walls',
  'Filling an area runs the generator of the requested pattern, places the requested extra walls first and fills only what they leave, and multiplies, shifts, connects and orders the lines as asked. Line patterns cut every scan line with all outlines and fill the parts that are inside, at the requested spacing and phase.',
  'all areas, patterns and options'),
R('M01', ['M01.cpp'], 'Models are read and kept as the connected surface they describe',
  'Every face of a model is stored with vertices merged within the documented distance, its neighbours found across each edge in the right direction, and degenerate faces left out. Bounding boxes, transformations and texture look-ups use all vertices and the coordinates, image size and channel that belong to them.',
  'all models, textures and transformations', ('inputs',)),
R('R01', ['R01.cpp'], 'Raft and adaptive layer heights follow their settings layer by layer',
  'The total raft height, the number of raft layers of each kind, the filler layers and the extra offset of the first model layer follow from the settings of the extruder that prints that kind of layer, and every raft layer has exactly one kind. Adaptive layer heights stay between the permitted bounds, change by at most the permitted step and follow the slope and area rules.',
  'all raft and layer settings', ('configurations', 'inputs')),
R('S05', ['S05.cpp'], 'Each printed feature uses its own width, speed, flow and jerk settings',
  'The width, flow, speed, acceleration and jerk with which a feature is printed come from the settings of that feature in that region, not from those of another feature. Derived amounts (volume per length, first-layer and overhang overrides, retraction and z-hop decisions) are computed from those values by the documented rules.',
  'every feature and every assignment of the feature settings', ('configurations',)),
R('Q01', ['Q01.cpp'], 'Print order and start points follow the chosen strategy',
  'Every path handed in is printed exactly once, paths are taken in nearest-first or monotonic order subject to the given precedence constraints, and a start point is chosen by the seam strategy: shortest, sharpest corner, given position, random or by texture. Scores of alternative start points combine the criteria with their weights, and closed paths start at a vertex of their own outline.',
  'all sets of paths, constraints and seam settings'),
R('K01', ['K01.cpp'], 'Travel avoids printed outlines wherever it can',
  'A travel move is kept inside the part where start and end allow it, crosses outlines only at the found crossing places, goes around obstacles at the requested distance and is replaced by a retracted move when no path or only too long a path exists. The detour follows the shorter way around each crossed outline.',
  'all outlines, start and end places', ('inputs', 'configurations')),
R('TS1', ['TS1.cpp'], 'Tree support branches grow, merge and rest only where they may',
  'The radius of a branch, the speed and distance it may move, the layers at which it may merge and the areas it must keep clear of follow from its distance to the top, its placement and the settings of its group. Cached areas are looked up under the same rounded radius and layer they were stored under, and merged branches keep the most demanding of the properties of both.',
  'all branches, radii, layers and settings'),
R('SK1', ['SK1.cpp'], 'Skirt and brim surround the first layer as configured',
  'Each extruder gets the number of skirt or brim lines, the gap and the minimal length its settings ask for, brims grow outward line by line from what was already placed, and outside or inside brims appear only where enabled. Length still missing after the regular lines is added by extra lines.',
  'all first layers and adhesion settings', ('configurations', 'inputs')),
R('BR1', ['BR1.cpp'], 'Bridge direction is chosen from what supports the bridge',
  'The angle of a bridge is the one whose lines are best supported by the layer below, computed from all regions that overlap it, and no angle is reported where nothing is bridged. Overlaps of lines with the supporting regions are exact interval operations in the rotated frame.',
  'all bridges and supports', ('inputs',)),
R('L01', ['L01.cpp'], 'Slices, parts, walls and skin partition each layer',
  'Slicing assigns each face to the layers it crosses and joins the cuts into closed outlines with the configured closing of gaps; outlines are sorted into parts, parts into walls, skin and infill, and each settings-dependent shrink, grow and expansion is applied to the area it is named for. Skin above and below looks at the configured number of neighbouring layers, clipped at the first and last layer.',
  'all meshes, layers and settings'),
R('L02', ['L02.cpp'], 'Stored layer data answer for all parts of the scene',
  'Questions about the slice (which extruders are used, what outlines a layer has, which heights and limits apply) consider every mesh, support and adhesion part that is printed, each under the settings of the mesh or extruder it belongs to. Layer numbers below zero address the raft and interlocked regions alternate between both models.',
  'all scenes and layers', ('inputs', 'configurations')),
R('A01', ['A01.cpp'], 'The wall skeleton keeps its graph consistent',
  'Every half-edge of the skeleton has its twin, predecessor and successor set consistently while edges are inserted, collapsed and split, and distances, upward directions and local maxima are decided by the defining comparison. Bead counts, transitions and junctions are propagated along the edges in both directions with the settings of the wall strategy.',
  'all skeleton graphs', ('inputs',)),
R('GC1', ['GC1.cpp'], 'G-code output tracks the machine state it drives',
  'Position, extrusion amount, retraction, temperatures, fan, acceleration, jerk and active extruder written to the output match the state kept about the machine: nothing is written twice without need and nothing is skipped that changes the state. Each dialect gets the commands, units and number formats it understands, and retraction, z-hop and extruder switches are undone by exactly what was done.',
  'every sequence of commands in every dialect', ('inputs', 'histories', 'configurations')),
R('GC2', ['GC2.cpp'], 'Layer plans contain every planned move with its own settings',
  'Each extrusion, travel, wall, infill line and temperature or fan change asked for is added to the plan of the extruder and island that is active, with the width, flow, speed and feature type it was asked with. Minimum layer time, back pressure, overhang and coasting adjust speeds and flows only within the limits configured, and buffered layers are passed on in order.',
  'every sequence of planning calls', ('inputs', 'histories', 'configurations')),
R('GC3', ['GC3.cpp'], 'Each layer is written with all of its features in the configured order',
  'For every layer and extruder all features that are present are printed once: walls, skin, infill, support and its interfaces, raft, skirt and prime tower, in the order and with the extruder the settings of the mesh choose. Settings-dependent angles, patterns, overlaps and seam positions of a feature are read from the settings of that feature.',
  'all layers, extruders and settings'),
R('PT1', ['PT1.cpp'], 'The prime tower primes every extruder that needs it',
  'On every layer on which extruders change, each extruder that has to be primed gets its ring or filling of the tower, on the other layers the tower is kept standing as configured, and its brim, base and outline follow the settings. The extruder order and the place where the tower is entered are consistent over all layers.',
  'all sequences of extruder changes', ('configurations', 'inputs')),
R('AP1', ['AP1.cpp'], 'Command line and scene set-up do what the arguments say',
  'Every command line option acts on the object selected by the options before it: settings go to the last named extruder, mesh or group, models are loaded with the settings in force, and unknown or incomplete options are reported. Setting definitions are read with inheritance, and what is sent back over the chosen connection matches what was computed.',
  'all argument lists', ('inputs',)),
R('SV1', ['SV1.cpp'], 'Exported drawings show the objects at their true place and scale',
  'Every point, line, area and label written to a drawing or visual record is transformed by the same scale and origin, each element that is opened is closed, and colours, widths and layers are those asked for. A drawing is complete for all lines and areas passed to it.',
  'all drawings', ('inputs',)),
R('GF1', ['GF1.cpp'], 'Gradual flow splits paths without changing what is printed',
  'A path whose flow must change is cut into pieces whose lengths add up to the original and whose flow steps stay within the permitted change per time, in either direction. Points, widths and order of the path are unchanged, and paths that need no change are passed through untouched.',
  'all paths and limits', ('inputs', 'configurations')),
]
