import json
D='delynoi/src/'; I='delynoi/include/delynoi/'
def P(id,title,st,over,text,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if obs: a["observe_at"]=obs
    if state: a["state"]=state
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
SM="The repository's tests are nine programs that each mesh one fixed domain once, on one thread, with no fault, and check nothing about the result."
V=[D+'voronoi/TriangleVoronoiGenerator.cpp',D+'voronoi/DelaunayToVoronoi.cpp',D+'voronoi/TriangleDelaunayGenerator.cpp',I+'voronoi/lib/triangle.c',I+'models/Mesh.h',D+'models/Region.cpp']
props=[
P('C01','The Voronoi mesh tiles the domain',
 'The cells of a generated Voronoi mesh are simple counter-clockwise polygons that exactly cover the region minus its holes: no gap, no overlap, nothing outside, edges matching edge to edge, and no unused or repeated mesh point. This holds for every region (concave, with inner holes, with holes cut out of its outline), every set of seeds clearly further apart than the comparison tolerance, and whatever the process, or any other thread, meshed before or at the same time.',
 ['inputs','histories','schedules','fault_sequences'],'every region and seed set in general or degenerate (grid, ring, collinear) position, every earlier history of calls including failed ones, every interleaving with other callers',
 SM+' Errors that need a concave corner, a hole, a degenerate seed pattern, leftovers of an earlier (failed) mesh or a second thread are never reached.',
 V,[('conforming Delaunay of the seeds and the outline, then one cell per vertex from circumcentres and boundary parts','DelaunayToVoronoi'),('Triangle library state is set up anew per call and per thread','triangle.c, TriangleDelaunayGenerator::callTriangle')],['TriangleVoronoiGenerator::getMesh().getPoints()/getPolygons()']),
P('C02','Each seed has its own cell and cells are Voronoi cells',
 'In a generated Voronoi mesh every seed that lies in the domain is inside exactly one cell, and no point of that cell that is visible from it lies nearer to another seed than to its own generating site. Seeds outside the region or inside a hole get no cell and do not disturb the others, whatever was meshed before or concurrently.',
 ['inputs','histories','schedules','fault_sequences'],'every seed set, region, history of earlier meshes and interleaving',SM,
 V,[('cells are gathered around the vertices of a conforming Delaunay triangulation','DelaunayToVoronoi::getMesh')],['TriangleVoronoiGenerator::getMesh()']),
P('C03','The conforming triangulation covers the domain and is Delaunay',
 'The conforming Delaunay triangulation handed out for a region is made of counter-clockwise non-degenerate triangles that exactly cover the region minus its holes, uses every seed of the domain as a vertex, keeps the outline and hole edges as unions of triangle edges, and is Delaunay: no triangle has a neighbour\'s opposite vertex inside its circumcircle, whose centre it reports. It is the same for the first and for any later request to the same generator and whatever else the process meshed before or at the same time.',
 ['inputs','histories','schedules','fault_sequences'],'every seed set and region, every order and number of requests to one generator, every history and interleaving',SM+' No test asks one generator twice.',
 [V[2],V[3],I+'voronoi/TriangleDelaunayGenerator.h'],[('Triangle called with the switches of a conforming Delaunay triangulation','TriangleDelaunayGenerator::getConformingDelaunayTriangulation'),('holes are passed by an inner point','callTriangle')],['TriangleDelaunayGenerator::getConformingDelaunayTriangulation()']),
P('C04','The constrained triangulation keeps segments and adds no points',
 'The constrained Delaunay triangulation exactly covers the region minus its holes, its vertices are exactly the seeds in the domain plus the region\'s own points (no points are added), every requested restricted segment, outline edge and hole edge is an edge (or a chain of edges) of it, and every other edge is locally Delaunay. The answer depends only on the seeds, the region and the segments of this request, never on earlier requests of any kind to the same or another generator.',
 ['inputs','histories','schedules','fault_sequences'],'every seed set, region and set of restricted segments, every sequence of requests to one generator, every interleaving',SM+' Restricted segments are not tested at all.',
 [V[2],V[3],I+'voronoi/TriangleDelaunayGenerator.h'],[('Triangle without the conforming switch; restricted segments appended to the region\'s','TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation')],['TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation(...)']),
P('C05','Neighbour queries agree with the cells of the mesh',
 'For every mesh handed out, imported or copied, the neighbour lookup of a segment answers exactly the (one or two) cells that have this edge, with -1 for the missing side of a boundary edge and (-1,-1) for a segment that is no edge, and the lookup of a point answers exactly the cells that touch it. A cell names exactly its own vertices and edges. Asking never changes the mesh, in any order of queries, repetitions, copies and concurrent readers.',
 ['inputs','histories','schedules'],'every mesh from every source, every order of queries (including absent segments), every interleaving of readers',SM+' No test queries neighbours.',
 [I+'models/Mesh.h',D+'models/neighbourhood/SegmentMap.cpp',D+'models/neighbourhood/PointMap.cpp',D+'models/neighbourhood/NeighboursBySegment.cpp',D+'voronoi/DelaunayToVoronoi.cpp'],[('hash map of segments to neighbours filled while cells are added','SegmentMap, PointMap')],['Mesh::getNeighbours, getNeighboursByPoint, getSegments, getPointMap']),
P('C06','A mesh handed out never changes by later use of the library',
 'The points, cells and neighbour relations of a mesh, and the result of a region query, keep their values while other meshes are generated, the generator or region it came from is reused, changed or destroyed, copies of it are made, changed or destroyed, or other callers work. A copy equals its original and is independent of it.',
 ['histories','schedules','fault_sequences'],'every history of calls after the mesh was handed out, on any caller, including failing ones',SM+' No test looks at a mesh twice.',
 [I+'models/Mesh.h',V[0],V[2],D+'models/neighbourhood/SegmentMap.cpp',D+'models/Region.cpp'],[('results are handed out by value','Mesh copy constructor and assignment')],['Mesh getters after later calls']),
P('C07','Same input, same result: nothing but the input decides',
 'Generating, triangulating, region editing and deterministic seed generation give bit-identical results when repeated with the same arguments and settings: independent of what the process did earlier, of the time of day, of the contents of fresh memory, of entropy sources and environment, of which thread asks and of process restarts. Only the documented random generators may differ.',
 ['histories','configurations','schedules'],'every pair of executions of the same calls in different environments, at different times and after different histories',SM+' A test process runs one history in one environment.',
 V+[D+'models/generator/PointGenerator.cpp'],[('no hidden state: results are computed from arguments; Triangle\'s random number state is reset per triangulation','triangleinit, callTriangle')],['all results']),
P('C08','Concurrent independent callers get what each gets alone',
 'Threads that use their own regions, generators and meshes at the same time (each on its own objects, in any interleaving, from the very first call in the process) each get exactly the results and outcomes they get when running alone, and none of them crashes, hangs or deadlocks, also when calls of other threads fail.',
 ['schedules','histories','fault_sequences'],'every interleaving at every memory access of two to four callers, every combination of their calls, with failing calls among them',SM+' All tests are single-threaded.',
 [V[3],V[2],D+'config/DelynoiConfig.cpp',D+'voronoi/DelaunayToVoronoi.cpp',D+'models/generator/functions/functions.cpp',D+'models/polygon/Polygon.cpp'],[('Triangle globals are per thread','triangle.c PERTHREAD'),('configuration created once','DelynoiConfig::instance')],['all results per caller']),
P('C09','One shared configuration; no setting is lost or made up',
 'All callers see one configuration object, from the first concurrent use on; a setting made by a caller stays in force until a caller sets that field again, every value read is the default or one that was set for that field, and fields do not disturb each other. Settings govern what is made after them: circles get the configured number of points and exports the configured number of decimals.',
 ['schedules','histories','configurations'],'every interleaving of first uses, setters and getters; every combination of settings',SM+' No test changes a setting or races its creation.',
 [D+'config/DelynoiConfig.cpp',I+'config/DelynoiConfig.h',D+'models/polygon/Circle.cpp','lib/utilities/include/utilities/utilities.h'],[('function-local static singleton','DelynoiConfig::instance')],['DelynoiConfig getters, CircularHole points, exported digits'],[{"name":"the configuration","meaning":"discretisation grade, tolerance, Clipper scale, output precision","where":"DelynoiConfig"}]),
P('C10','Concurrent readers of one mesh or region see it whole',
 'Callers that concurrently read, query, copy, export or mesh from one shared mesh, region or seed list (without changing it) each observe exactly its contents, and it is unchanged afterwards. Their exports to different files are each complete.',
 ['schedules','histories'],'every interleaving of two to four readers of one object',SM+' All tests are single-threaded.',
 [I+'models/Mesh.h',D+'models/Region.cpp',D+'models/polygon/Polygon.cpp',D+'models/neighbourhood/SegmentMap.cpp',D+'models/neighbourhood/PointMap.cpp'],[('const or by-value access without caches','Mesh and Region getters')],['results of the readers']),
P('C11','A failed meshing attempt is an exception, and a retry is clean',
 'When memory runs out at any point of generating a mesh or triangulation, or when the caller\'s own code fails, the call ends with an exception: it never crashes, exits, hangs or hands out a partial mesh, and objects the caller holds stay as they were. Once the resource is back, the same call, and any other call on this or another thread, gives the same result as if the failure had never happened.',
 ['fault_sequences','histories','schedules'],'a failure at every allocation of every call, repeated failures, failures while other callers work',SM+' No test makes an allocation fail.',
 [V[2],V[3],V[0],V[1]],[('trytriangulate turns Triangle\'s exits into exceptions; no state survives a call','triangle.c, callTriangle')],['outcome and results of the failing call, its retry and later calls']),
P('C12','A failing change leaves the region as it was',
 'When changing a region (new outline, seeds given, generated or read from a file, holes added) fails for any reason (out of memory, unreadable or malformed file, self-intersecting outline, hole completely outside, exception in a user\'s functor), the region keeps the outline, holes and seeds it had, stays usable, and repeating the change once the cause is gone has the same effect as if it had never failed.',
 ['fault_sequences','histories','inputs'],'every operation, every allocation or file call at which it can fail, every earlier history of the region',SM+' No test lets a region operation fail.',
 [D+'models/Region.cpp',D+'models/polygon/Polygon.cpp',D+'models/generator/PointGenerator.cpp','lib/utilities/src/utilities.cpp'],[('changes are built aside and swapped in','Region::mutate, setSeeds, addSeedsFromFile, generateSeedPoints')],['Region getters after the exception']),
P('C13','A region is always the sum of the changes made to it',
 'After any sequence of changes, copies and assignments, a region\'s outline, holes, seeds, edges, bounding box, area and point queries are those of a simple model: the outline last set, minus the intersecting holes since, the list of inner holes since they were last cleared, and the given or generated seeds that lie inside the outline and outside the holes, in order (a seed on the outline is inside, a seed on the edge of a hole is in the hole). Copies are equal when made and independent afterwards.',
 ['histories','inputs','schedules'],'every sequence of region operations, interleaved with other callers working on other regions',SM+' They use one or two operations per region and check none.',
 [D+'models/Region.cpp',D+'models/polygon/Polygon.cpp',D+'models/hole/CircularHole.cpp',D+'models/hole/PolygonalHole.cpp'],[('seeds are filtered on entry and on change of outline','Region::setSeeds, cleanSeeds')],['Region getters']),
P('C14','An export is complete and exact, or it is an error',
 'When writing a mesh, its segments, its point map, a region or a Triangle input file returns normally, the file holds every point (with the configured decimals), every cell, segment, seed and hole, in the documented layout, and nothing else; if anything could not be written (cannot open, disk full, write or close error, out of memory), the call throws. Exporting never changes the object, and a retry after a failure replaces the file with a complete one.',
 ['fault_sequences','inputs','histories','schedules'],'every failing, short or interrupted write, at every file call, for every object, setting and earlier content of the file',SM+' Tests export to a working disk and do not read the file.',
 [I+'models/Mesh.h',D+'models/Region.cpp',V[2],'lib/utilities/include/utilities/utilities.h','lib/utilities/src/utilities.cpp'],[('closeFile reports a stream that has failed','utilities::closeFile')],['the simulated file after the call']),
P('C15','A seeds file is taken completely or not at all',
 'Reading seeds from a file adds exactly the points listed in it that belong to the region, with the values written there; a file that is missing, truncated, malformed, has fewer points than announced or cannot be read to the end raises an exception and leaves the region\'s seeds unchanged.',
 ['fault_sequences','inputs','crash_points'],'every well-formed file, every truncation and corruption of it, every read failure at every file call, short reads and interruptions',SM+' One well-formed file is read from a working disk.',
 [D+'models/Region.cpp','lib/utilities/src/utilities.cpp'],[('strict numbers, counted lines','utilities::readCount, readLine, toDouble')],['Region::getSeedPoints, thrown exception']),
P('C16','A mesh file is taken completely or not at all',
 'Loading a mesh from a file gives exactly the points, cells and neighbour relations written there, so that what was exported and loaded again is the same mesh; a file that is missing, truncated, malformed or inconsistent, or cannot be read to the end, raises an exception and leaves the mesh object as it was.',
 ['fault_sequences','inputs','crash_points','histories'],'every exported mesh, every truncation and corruption of its file, every read failure, several loads into one object',SM+' The only loading test does not even compile.',
 [I+'models/Mesh.h','lib/utilities/src/utilities.cpp'],[('the mesh is read aside and swapped in when complete','Mesh::createFromStream')],['Mesh getters, thrown exception']),
P('C17','What was saved and acknowledged survives; a torn save is noticed',
 'After a crash and restart of the process at any point, a mesh whose export had returned normally and whose file survived loads to the same mesh, and work continued in the new process gives the same results as without the crash. A file torn by the crash either loads to the complete mesh it holds or is rejected with an exception, and saving again repairs it.',
 ['crash_points','fault_sequences','histories'],'a crash at every file call and memory access of a history of saves and loads, every torn or lost file, up to four process lifetimes',SM+' No test loads what another process saved.',
 [I+'models/Mesh.h','lib/utilities/include/utilities/utilities.h'],[('complete or throw on both sides','Mesh::printInFile, createFromFile')],['files and meshes after restart']),
P('C18','Generated seeds obey their rules under any randomness',
 'A point generator produces nX times nY points, in row order over the bounding box, each coordinate obeying its rule (random values stay in their bounds, integers are integers, noise stays within its limits, displacement alternates, independent-variable rules keep the free coordinate), for every stream the random source can deliver and every interleaving of callers that generate at the same time. Random rules can reach their whole range.',
 ['inputs','schedules','configurations'],'every random stream, rule, box and grid size, including 1 by n, repeated use of one generator, concurrent generators and failing user functors',SM+' Tests draw one random stream and check nothing.',
 [D+'models/generator/PointGenerator.cpp',D+'models/generator/functions/FunctorClasses.cpp',D+'models/generator/functions/functions.cpp',D+'models/generator/noise',I+'models/generator'],[('one rule object per axis','PointGenerator::generate')],['generated points, Functor::apply']),
P('C20','Polygon measures are those of its corners, whatever was asked before',
 'The area, signed area, diameter, centroid, average, longest edge, convexity, turning direction, corners and point containment that a polygon or a cell of a mesh answers are those of its corners as they are now: in any order of questions, asked again, after other questions, in copies made before or after, after the corners were put in counterclockwise order or replaced, after failed calls, for cells of generated, copied and loaded meshes, and whatever other threads ask of theirs. Points that the tolerance leaves undecided are excepted.',
 ['histories','inputs','schedules','fault_sequences'],'every history of questions and changes of a polygon (its measures are computed once and kept), for every simple polygon and every cell, with failing allocations',SM+' No test asks a polygon for more than its area.',
 [D+'models/polygon/Polygon.cpp',D+'utilities/convexHull.cpp',D+'utilities/geometryFunctions.cpp'],[('measures are computed when first asked for and forgotten when the corners change','Polygon::getArea, getDiameter, getCentroid, fixCCW, mutate')],['Polygon getters']),
P('C21','The triangulations of a polygon partition it',
 'Dividing a polygon or a cell of a mesh into triangles by cutting ears, from its centre, or by Delaunay triangulation yields triangles that partition it: their corners are corners of the polygon, named as in the list of points that was given (plus the centre, appended to that list, for the centre scheme), they meet edge to edge, cover every side once and add up to the area of the polygon; n corners give n-2 triangles (n from the centre). This holds for convex and concave simple polygons, either orientation, with flat corners, wherever the corners are in the list; only the centre scheme refuses concave polygons, with an exception. It does not depend on what was meshed before, on earlier failures, or on other threads.',
 ['inputs','histories','schedules','fault_sequences'],'every simple polygon and every cell of generated or loaded meshes, in any history, interleaving and with failing allocations',SM+' No test triangulates a polygon.',
 [D+'triangulation/EarTriangulationGenerator.cpp',D+'triangulation/CenterTriangulationGenerator.cpp',D+'triangulation/DelaunayTriangulationGenerator.cpp',D+'models/polygon/Polygon.cpp',D+'models/polygon/Triangle.cpp'],[('an ear is a corner that turns the way of the polygon and holds no other corner','EarTriangulationGenerator::getEar')],['TriangulationGenerator::triangulate']),
P('C26','Lists and maps answer from the whole history of changes',
 'After any sequence of changes, including ones that failed, a list of unique elements holds each pushed element once, in order of insertion and wherever it was forced in again, and every position it reports (from push_back, push_list, indexOf) is where that element is; a map of segments or points holds exactly the neighbours entered, in order, whichever way round a segment is named. Removing the first or any element, clearing, swapping and copying keep this. A failed change leaves the container as it was (a bulk insertion keeps the elements before the failure), and the text and the export of values are complete or an error.',
 ['histories','fault_sequences','schedules'],'every sequence of insertions, forced insertions, removals, swaps, copies and queries, with memory running out at any allocation of any of them, and other callers working on their own containers meanwhile',SM+' They only ever push and never remove, and no allocation fails.',
 ['lib/utilities/include/utilities/UniqueList.h',D+'models/neighbourhood/SegmentMap.cpp',D+'models/neighbourhood/PointMap.cpp',D+'models/neighbourhood/NeighboursBySegment.cpp',D+'models/neighbourhood/NeighboursByPoint.cpp','lib/utilities/src/utilities.cpp'],[('a vector of elements and a map of their positions, changed together','UniqueList')],['UniqueList, SegmentMap and PointMap queries after every change']),
P('C27','Boundary points of a mesh are marked as such',
 'In every generated Voronoi mesh and triangulation (also the constrained one with requested segments), the points marked as boundary points are exactly those that lie on the boundary of the mesh: the outline of the region and the edges of its holes. It does not depend on what else lies at the same place (a seed, a corner, the circumcenter of a triangle), on what was meshed before, on failures in between, or on other threads.',
 ['inputs','histories','schedules','fault_sequences'],'every region and seed set in general or degenerate position, every history of requests, every interleaving',SM+' No test asks a point whether it is on the boundary.',
 [D+'voronoi/DelaunayToVoronoi.cpp',D+'voronoi/TriangleDelaunayGenerator.cpp',I+'models/basic/Point.h',I+'voronoi/lib/triangle.c'],[('boundary markers of Triangle; midpoints and corners the cells take from the boundary','Point::isInBoundary, DelaunayToVoronoi::getCircumcenter')],['Point::isInBoundary of all mesh points against the edges with only one cell']),
]
import os
na=[
('C19','Point, segment and angle predicates are right',"Orientation, containment, intersection, distance and angle ordering of points and segments are geometrically right within the configured tolerance, for every input.",['delynoi/src/models/basic'],'no schedule, time, I/O, randomness, fault or state is involved: a pure function of its arguments, so there is nothing to simulate'),
('C22','Hole subtraction is the exact boolean difference','Adding a hole that crosses the outline leaves exactly the set difference of region and hole, up to the Clipper scale, for every pair of polygons.',['delynoi/src/models/Region.cpp','delynoi/src/models/hole'],'a pure geometric function; region histories (C12, C13) check it on the well-separated cases they generate, its general correctness has no nondeterminism to simulate'),
('C23','Self-intersecting outlines are rejected everywhere','Every way to build a polygon or region from a self-intersecting outline is rejected with an exception.',['delynoi/src/models/polygon/Polygon.cpp'],'a pure input validation of constructors; the change of an existing region is covered by C12/C13'),
('C24','Convex hull, bounding box and rotating calipers are right','Hull, box, diameter and width computations are right for every point set.',['delynoi/src/utilities','lib/utilities'],'pure functions of their input'),
('C25','Hashes and orders of points and segments are consistent with equality','Equal points or segments have equal hashes and compare equal in every container.',['delynoi/src/models/basic','delynoi/include/delynoi/models/neighbourhood'],'pure functions of their input; their effect on shared containers is observed in C05'),
]
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
    for id,t,s,fl,r in na:
        f.write(json.dumps(P(id,t,s,['inputs'],'every input',SM,fl,[('pure functions',fl[0])]))+'\n')
T={'C01':'','C02':'','C03':''}
base="deterministic simulation with fault injection: "
tech={
'C01':base+"seeded histories, interleavings and allocation faults; exact tiling oracle on every mesh",
'C02':base+"seeded histories, interleavings and faults; nearest-site oracle on every mesh",
'C03':base+"seeded request histories and interleavings; coverage and empty-circle oracle",
'C04':base+"seeded request histories with restricted segments; edge, vertex-set and local Delaunay oracle",
'C05':base+"seeded histories and concurrent queries; adjacency recomputed from the cells",
'C06':base+"seeded histories; snapshots of every handed-out object compared after every later call",
'C07':base+"every history run again in another simulated environment (memory, time, entropy, history, restart), results compared bit for bit",
'C08':base+"seeded interleavings at every memory access of real threads; each caller compared with its solo run",
'C09':base+"seeded interleavings of first use, setters and getters; history check",
'C10':base+"seeded interleavings of readers of shared objects; comparison with the sequential result",
'C11':base+"allocation and caller-code failures at seeded points of every call; retry compared with the fault-free run",
'C12':base+"allocation, file and input failures at seeded points of region changes; state before = state after",
'C13':base+"seeded histories of region operations against a reference model",
'C14':base+"simulated disk with failing, short, interrupted and full writes; files checked byte by byte against the object",
'C15':base+"simulated disk with torn, corrupted and failing seed files; all-or-nothing oracle",
'C16':base+"simulated disk with torn, corrupted and failing mesh files; round-trip and all-or-nothing oracle",
'C17':base+"crash and restart at seeded points with torn and lost files; durability oracle over process lifetimes",
'C18':base+"simulated entropy streams, interleavings and functor failures; rule model per generator",
'C27':base+"seeded histories, interleavings and allocation faults; marks against the edges with one cell, combinatorially",
'C20':base+"seeded histories of questions to polygons and cells, with failing allocations, against the corners",
'C21':base+"seeded histories, interleavings and allocation faults; combinatorial partition oracle on every polygon divided",
'C26':base+"seeded histories of container changes with failing allocations, against a reference model",
}
m={"version":1,"setup_cmd":"python3 build.py","checks":[{"property":p['id'],"quick_cmd":"python3 check.py %s"%p['id'],"thorough_cmd":"python3 check.py %s --tier thorough"%p['id'],"technique":tech[p['id']],"level":"exploration",
 "level_note":"Sampled, not exhaustive: no violation in the seeded runs explored (tens of runs per second and core). The library runs as compiled real code under a simulator that owns scheduling, memory, disk, clock, environment and entropy; trusted are the seams and the oracles in /verif/sim, sequentially consistent memory, and inputs whose features are clearly larger than the comparison tolerance. Every reported violation is reproduced from its minimised replay file in a fresh process."} for p in props],
 "not_applicable":[{"property":id,"reason":r[0].upper()+r[1:]+"."} for id,t,s,fl,r in na]}
json.dump(m,open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/MANIFEST.json','w'),indent=1); open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/MANIFEST.json','a').write('\n')
