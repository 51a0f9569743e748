import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
R='crates/mapping-algorithms/src/'
KD=R+'kd_tree/mod.rs'
DS=R+'point_clouds/downsample.rs'
LX=R+'point_clouds/lex_sort.rs'
NN=R+'point_clouds/nearest_neighbour.rs'
PC=R+'point_clouds/mod.rs'
IC=R+'point_clouds/icp/mod.rs'
IH=R+'point_clouds/icp/helpers.rs'
IT=R+'point_clouds/icp/types.rs'
IS=R+'types/isometry.rs'
UT=R+'utils/mod.rs'
GR=R+'polygons/graham_scan.rs'
JA=R+'polygons/jarvis_march.rs'
PO=R+'polygons/mod.rs'
PI=R+'polygons/point_in_polygon.rs'
BR=R+'lines/bresenham.rs'
GE=R+'geo/haversine.rs'
p('C01','A KD-tree is the set of its points, with exact nearest neighbours',
 'Whatever the order, duplication and timing in which points reach a KD-tree (one by one or as a cloud, between queries, and with stored points rewritten in place without changing their coordinates\' relative order), it holds exactly the set of distinct points it was given, each once; its length, emptiness and both traversals say the same. A nearest query at any moment returns a held point at the minimum distance from the target, and nothing only if the tree is empty. Two trees given the same points by different routes answer every query with the same distance.',
 ['histories','inputs','fault_sequences'],
 'All sequences of inserts, bulk builds, in-place rewrites and queries, over all delivery faults (loss, duplication, reordering, delay) between the sender of the points and the tree.',
 'The tests insert a handful of fixed points once and query a few targets; they never insert a point again after its node has grown branches, never compare different insertion orders, and cannot cover the histories.',
 [KD,UT,NN],
 [('tree nodes','one stored point each, split by the dimension of its depth','KDNode'),('element count','number of stored points','KDTree')],
 [('descent by coordinate of the depth, equal goes right','KDNode::insert'),('branch pruning by distance to the splitting plane','KDNode::nearest')],
 ['insert','From<&[Point]>','nearest','len','is_empty','traverse_tree','traverse_tree_mut'])
p('C02','KD-tree operations are all-or-nothing when they die inside',
 'If an operation on a KD-tree is cut short at any instant (a failed allocation, or a panic in a comparison, in a caller\'s closure or in a logger), the tree afterwards holds exactly the points from before the operation, or those plus the point being inserted, and its length agrees with its contents. Repeating the operation, and everything after it, gives what it would have given had the first attempt never happened.',
 ['crash_points','histories'],
 'All histories of inserts, queries, clones and traversals, with an unwind injected at any allocation, scalar operation, callback, traced function entry or log record inside any of them.',
 'No test interrupts an operation; the crash points are inside the library and only reachable with an injected unwind.',
 [KD],
 [('element count','must follow the structure','KDTree'),('branch links','attached only when complete','KDNode')],
 [('node built before it is linked','KDNode::insert'),('count raised after the node is linked','KDTree::insert')],
 ['insert','nearest','len','traverse_tree','traverse_tree_mut','clone'])
p('C03','Published KD-tree snapshots stay what they were',
 'A clone of a KD-tree taken at any moment keeps answering with exactly the points held at that moment, however the original is changed, rebuilt or dropped afterwards and whatever other tasks do with the original or the clone. Readers of the same snapshot, preempted at any point inside a query, get the answers a single undisturbed reader gets.',
 ['schedules','histories','crash_points'],
 'All interleavings, at every point inside library calls, of one writer that inserts, rewrites points in place, publishes clones and dies, with several readers of those clones.',
 'The tests are sequential and never clone a tree; sharing between a clone and its original, or state kept between queries, is invisible to them.',
 [KD],[('tree nodes','owned by exactly one tree','KDNode')],[('deep derive(Clone)','KDTree, KDNode'),('queries take a shared reference and keep no state','KDTree::nearest')],
 ['clone','nearest','traverse_tree','traverse_tree_mut','len'])
p('C04','Voxel downsampling: one exact centroid per occupied voxel, however it runs',
 'Downsampling a point cloud returns exactly one point for every voxel (cell of the grid of the given size with a corner at the origin, each coordinate rounded towards minus infinity) holding at least one input point, namely the mean of the input points in it, and nothing else; the input is left alone. The set of points returned does not depend on the order of the input, on the hash seed of the process, on the std or no_std build, or on earlier attempts that died inside.',
 ['inputs','histories','fault_sequences','configurations'],
 'All clouds assembled from reordered and duplicated deliveries, all voxel sizes, point types and dimensions, hash seeds, both builds, and injected crashes followed by retries.',
 'The tests use a fixed cloud and check only the number or a few of the points, under one hash seed and build; negative coordinates, order and hash dependence and retries after a crash are not reached.',
 [DS],[('voxel map','points gathered by integer voxel index','downsample_point_cloud_voxel')],
 [('floor of coordinate over voxel size as the key','downsample_point_cloud_voxel'),('sum divided by count per voxel','downsample_point_cloud_voxel')],
 ['downsample_point_cloud_voxel'])
p('C05','Graham scan gives the hull, independent of order, hash seed and partial merging',
 'For any set of points, of signed, unsigned or floating point coordinates whose turns the type can represent, the Graham scan returns the vertices of its convex hull, each once, in clockwise order and without points in the middle of an edge, or nothing if there are fewer than three points or all lie on one line. The hull is the same for every order in which the points arrive, with duplicates, when a voxel size is given (then it is the hull of the voxel centroids, also if the input was promised to be sorted) and when hulls of parts of the set, computed elsewhere, are merged by computing the hull of their vertices.',
 ['inputs','histories','configurations','fault_sequences'],
 'All multisets of points in every delivery order and split between sensors, scalar types, voxel sizes, hash seeds, builds, and crashes inside followed by retries.',
 'The tests check a few fixed clouds in one order; permutations, hash seeds of the voxel map, the combination of promised order with downsampling, and merging are not covered.',
 [GR,PO,LX,DS],[('sorted cloud','both chains walk it in opposite directions','graham_scan')],
 [('lexicographic sort before the scan','graham_scan'),('pop while the turn is not strictly right','build_hull_segment'),('orientation test','calculate_determinant')],
 ['graham_scan and its premade variants'])
p('C06','Jarvis march terminates with the hull boundary, independent of order',
 'For any set of points, of signed, unsigned or floating point coordinates whose turns the type can represent, in any order and with any duplicates, the Jarvis march returns after finitely many steps. It returns every distinct input point on the boundary of the convex hull, those in the middle of edges included, each once, in clockwise order, or nothing if there are fewer than three points or all lie on one line; with a voxel size the same holds for the voxel centroids under every hash seed.',
 ['inputs','histories','configurations','fault_sequences'],
 'All multisets of points in every delivery order, scalar types, voxel sizes, hash seeds, builds, and crashes inside followed by retries.',
 'The tests check a few fixed clouds in the one order for which ties between collinear points happen to work out; termination for all orders is out of their reach.',
 [JA,PO,DS],[('current vertex and end point','the edge under construction','jarvis_march')],
 [('smallest point as start','jarvis_march'),('choose the end point with nothing to its left','jarvis_march'),('orientation test','calculate_determinant')],
 ['jarvis_march and its premade variants'])
p('C07','Interrupted ICP, resumed from any checkpoint, ends bit for bit like icp()',
 'A caller that drives registration one iteration at a time, whose process may die inside any iteration and restart from its last, an older, or a compact checkpoint (the transform and error, with the transformed cloud recomputed), reaches exactly the result that one undisturbed call of the complete algorithm gives: the same transform, error and iteration number bit for bit, or the same failure. Every iteration repeated after a restart repeats its result, and a full call that dies and is repeated gives that same result.',
 ['crash_points','histories','schedules'],
 'All pairs of clouds and configurations, in both precisions and dimensions, with crashes at any point inside steps, restarts from any earlier checkpoint, and other registrations interleaved.',
 'The tests run icp once per case on one fixed pair of clouds and never stop or resume it; hidden state between steps or a full loop differing from the steps it is made of cannot show.',
 [IC,IH,IS],[('current transform, error and transformed cloud','all the state of a registration','icp_iteration arguments')],
 [('icp is a loop of icp_iteration','icp'),('transformed cloud computed from the source, not accumulated','icp_iteration')],
 ['icp','icp_iteration','transform_point_cloud'])
p('C08','Every ICP step is rigid, optimal for its pairs and honest about its error',
 'Whatever the start transform, and however targets get lost, replaced by stale ones or interrupted by crashes, each registration step leaves the transform rigid and the transformed cloud equal to it applied to the source, and minimises over all proper rigid motions the sum of squared distances from the moved points to the target points nearest before the step; it reports that sum and the two centroids, it reports convergence exactly when its error is under the absolute threshold or differs from the previous error by less than the interval, and the error against one target never grows. Using a KD-tree of the target or not makes no difference, a step without a target fails and changes nothing, and empty clouds, zero iterations and thresholds that are not positive (beyond rounding) or NaN are refused with the matching error. Once faults stop, registration ends after at most its iteration limit, and failing to converge is reported exactly when the limit is used up.',
 ['inputs','histories','fault_sequences','configurations'],
 'All clouds (degenerate ones included), start transforms, configurations and step sequences with lost, stale and repeated targets and crashes.',
 'The tests look at the end of a few registrations within a tolerance; single steps, degenerate clouds, foreign states and the stopping rule at each step are not examined.',
 [IC,IH,IT,IS,UT,NN,KD],[('current transform','source to target so far','icp_iteration'),('current error','error of the last step','icp_iteration')],
 [('pair each point with its nearest target','icp_iteration'),('rotation from the SVD of the covariance, reflection flipped','update_transform, verify_rotation_matrix_determinant'),('stopping rule','icp_iteration')],
 ['icp','icp_iteration'])
p('C09','Lexicographic sorting loses nothing, even when it dies half way',
 'The three lexicographic sorts return (or leave in place) exactly the input points in lexicographic order of their coordinates, for every input without NaN, and refuse every cloud with a NaN anywhere, whatever its size, without changing it. If the in-place sort dies in the middle of a comparison, the cloud still holds exactly the same points, and repeating the sort succeeds; the other two never touch their input.',
 ['inputs','crash_points','histories'],
 'All clouds (sizes, dimensions, duplicates, infinities, NaN at any place) and an unwind at any comparison, allocation or traced function entry.',
 'The tests sort one small cloud of each kind; they neither interrupt a sort nor place a NaN in every position and size.',
 [LX,R+'types/is_nan.rs'],[('cloud being sorted','a permutation of the input at every instant','lex_sort_in_place')],
 [('NaN check before sorting','lex_sort, lex_sort_ref, lex_sort_in_place'),('coordinate by coordinate comparison','lex_sort*')],
 ['lex_sort','lex_sort_ref','lex_sort_in_place'])
p('C10','Calls are isolated from each other and from the environment',
 'The result of every public call depends on its arguments only: it is bit for bit what the same call gives alone in a fresh process (the order of downsampled points aside), no matter which calls came before or are in progress in other tasks at any interleaving, which earlier calls died inside, what the entropy source yields or how the clock jumps. No call changes its input, and no call after a crashed one misbehaves.',
 ['schedules','histories','crash_points','configurations'],
 'All interleavings and histories of calls over the whole public interface, with related and repeated arguments, injected crashes, entropy changes and clock jumps.',
 'Every test makes one call in an undisturbed process; caches, scratch buffers and other hidden state shared between calls need particular sequences or interleavings of related calls to show.',
 [KD,DS,LX,NN,PC,IC,IH,IS,PO,GR,JA,PI,BR,GE,UT],[('none','the library keeps no state between calls','whole crate')],
 [('functions of their arguments','whole crate'),('results of the hash map not order-dependent','downsample_point_cloud_voxel, graham_scan, jarvis_march')],
 ['every public function'])
p('C11','Watching the library does not change what it does',
 'The result of every public call is bit for bit the same at every log level and every tracing level, while levels change in the middle of calls, and with a logger or subscriber that itself calls into the library, is preempted or dies. A call whose logger died can be repeated with the right result.',
 ['configurations','schedules','crash_points','histories'],
 'All log and tracing levels, changes of level at any point, re-entrant and dying loggers, over histories of calls of the whole public interface.',
 'The tests install no logger or subscriber, so code behind log and span macros never runs in them.',
 [IC,KD,DS,LX,NN,PC,IH,IS,PO,GR,JA,PI,BR,GE,UT],[('log level and subscriber','process-wide, outside the library','log, tracing')],
 [('log records and spans only read','log::trace! and tracing::instrument throughout')],
 ['every public function'])
p('C12','Generated point clouds are reproducible',
 'Generating a point cloud gives exactly the requested number of points, every coordinate inside the range of its dimension, ends included. The same request gives the same points bit for bit in every process and at every moment: independent of the entropy source, the clock, earlier or concurrent calls and crashes inside them.',
 ['configurations','histories','schedules','crash_points'],
 'All requests (type, dimension, number, ranges) under every entropy source, clock jump, history, interleaving and crash.',
 'No test calls it to check its result; reproducibility across processes and histories is a statement about two executions.',
 [PC],[('random generator','seeded with a constant per call','generate_point_cloud')],
 [('fixed seed','generate_point_cloud')],
 ['generate_point_cloud'])
p('C13','A corrupted coordinate does no damage beyond itself',
 'When one coordinate is damaged on its way to the library (a flipped bit, a NaN, an infinity, a huge value), what is said about the other points stays right: transforming, batch point-in-polygon tests and nearest-neighbour searches answer for every other point as before, downsampling loses at most the centroid of the voxel that lost a point, sorting keeps the same points, a KD-tree keeps and finds all readable points and takes no NaN, and a point with a non-finite coordinate is never reported inside a polygon. No call hangs, no registration reports convergence to a non-finite transform or error, and the Graham scan gives no hull for NaN. Once the coordinate is repaired, every call gives again exactly what it gave before the damage.',
 ['fault_sequences','inputs','histories'],
 'All positions and kinds of damage to one coordinate of any input, before, during and after related calls, with crashes and preemption.',
 'The tests contain next to no non-finite or wildly wrong values, and none checks what happens to the other points or to later calls.',
 [KD,DS,LX,NN,PC,IC,IH,IS,PO,GR,JA,PI,R+'types/is_nan.rs'],[('none','damage must not outlive the damaged value','whole crate')],
 [('NaN checks','lex_sort*, KDTree::insert'),('comparisons instead of unwraps where NaN may come','find_nearest_neighbour_naive, KDNode::nearest')],
 ['every public function taking points'])
p('C19','Calls give back all memory they take, however they end',
 'Every call of the public interface gives back all the memory it took, except what it returns to its caller and what a tree needs for the points it holds, whether it returns or dies at any instant (a failed allocation, a panic in a comparison, closure or logger). So repeating calls for ever, with the same or with new arguments, in any interleaving, never makes a process grow; offering a tree points it already holds takes nothing; and dropping a tree, a clone or a result frees all of it.',
 ['histories','crash_points','schedules'],
 'All calls of the public interface and whole lives of trees, repeated hundreds of times with equal or changing arguments by interleaved tasks, with an unwind injected at any allocation, scalar operation, callback, span or log record.',
 'Tests make each call once and never look at the allocator; caches without bounds, leaked buffers and what is lost only on the way out of a dying call show over many repetitions.',
 [KD,DS,LX,NN,PC,IC,IH,PO,GR,JA,PI,BR,GE,UT],[('live allocations','owned by a result, a tree or a call under way','whole crate')],
 [('every buffer owned by a value that is dropped','whole crate'),('nodes boxed and owned by their parent','KDNode')],
 ['every public function','drop of KDTree'])
p('C20','The std and the no_std build give the same answers',
 'A node that runs the std build and one that runs the no_std build give the same answer to the same call: bit for bit where neither trigonometry nor registration takes part (the order of downsampled points aside), within rounding where one does, and the same kind of refusal where a call is refused. This holds whatever calls came before on either node, which of them died inside, how calls interleave, what the entropy source yields and how the clock jumps.',
 ['configurations','histories','schedules','crash_points'],
 'All calls of the public interface on both builds, each with its own history, crashes, preemption, entropy and clock.',
 'The test suite runs in one configuration; no test compares two, nor puts either through crashes and histories first.',
 [KD,DS,LX,NN,PC,IC,IH,IS,PO,GR,JA,PI,BR,GE,UT,R+'lib.rs'],[('none','a configuration must not show in an answer','whole crate')],
 [('cfg(feature = "std") alternatives','HashMap or BTreeMap, f64 methods or libm, throughout')],
 ['every public function'])
# not claimed
p('C14','Point-in-polygon answers follow the even-odd rule',
 'A point is reported inside a polygon exactly if a ray from it crosses the polygon\'s edges an odd number of times, and a batch gives for every point what the single query gives.',
 ['inputs'],'All polygons and points.','The tests use a few fixed polygons.',[PI],[],[('ray crossing','does_ray_intersect_polygon_segment')],['is_single_point_in_polygon','are_multiple_points_in_polygon'])
p('C15','Bresenham lines are connected and stay within half a cell of the segment',
 'The rasterised line starts at the start cell and ends at the end cell, moves one cell at a time along the longer axis, and never strays more than half a cell from the segment.',
 ['inputs'],'All pairs of points.','The tests use a few fixed segments.',[BR],[],[('error accumulation','plot_bresenham_line')],['plot_bresenham_line'])
p('C16','Great-circle distance and bearing obey spherical geometry',
 'Distance is symmetric, zero for equal points and within rounding of the spherical law of cosines; bearing lies in its range and matches the initial direction of the great circle.',
 ['inputs'],'All pairs of coordinates.','The tests use a few fixed pairs.',[GE],[],[('haversine formula','calculate_haversine_distance')],['calculate_haversine_distance','calculate_sphere_bearing'])
p('C17','Centroids, extents and transforms of clouds have the right values',
 'The centroid of a cloud is the mean of its points, the extents of a polygon are the tight bounds of its vertices, and transforming a cloud applies the isometry to each point in order.',
 ['inputs'],'All clouds.','The tests use a few fixed clouds.',[PC,PO],[],[('fold over the points','calculate_point_cloud_center, calculate_polygon_extents, transform_point_cloud')],['calculate_point_cloud_center','calculate_polygon_extents','transform_point_cloud'])
p('C18','Premade variants and builders equal the generic functions they wrap',
 'Every premade single or double precision function gives exactly what the generic function gives for that type, and a configuration holds exactly what its builder was given.',
 ['inputs','configurations'],'All arguments of the premade functions.','The tests call a few of them once.',[IT,IC,DS,GR,JA,PI,BR,GE,NN,PC,LX],[],[('macros that forward','impl_* macros')],['single_precision','double_precision','ICPConfiguration::builder'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import subprocess
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
