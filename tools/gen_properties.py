#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long strings stay reviewable)."""
import json, os
I='ndt_gslam/include/ndt_gslam/'
S='ndt_gslam/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The map-to-odometry transform always places the robot at its SLAM pose",
  "Every sensor message the node accepts from its inputs produces exactly one map-to-odometry transform, stamped with that message's time and with the configured frame names. Composing the most recent transform with the odometry pose of the last accepted scan gives the SLAM pose computed for that scan, and before any scan has been accepted the transform is the identity. Scans that were refused re-broadcast the last valid transform unchanged.",
  ["histories","schedules","fault_sequences"],
  "every sequence of scans, odometry and pose messages, in every delivery order, delay, loss, duplication and with transform lookups failing at any point, in each subscription mode",
  "There is no test of the node at all; the claim is over message histories and transform-lookup failures, which only exist with a running middleware.",
  ["ndt_gslam/src/graph_slam2d_node.cpp",I+"graph_slam2d_node.h"],
  [("message callbacks","odom_cb, pose_cb, laser_cb"),("prepareAllData","odometry lookup, cloud projection, acceptance"),("updateTFTrans / TF broadcast","after each processed message")],
  [("last broadcast transform","correction between odometry and map frame")],["transforms sent to the TF broadcaster"])
p("C02","Refused sensor data never reaches the SLAM state and no motion is lost",
  "A scan whose odometry or sensor transform cannot be obtained, or which has too few points, leaves the SLAM state and every published output unchanged. The motion handed to the SLAM algorithm with each accepted scan is exactly the odometry displacement since the previously accepted scan, so the motions of all accepted scans compose to the total odometry displacement whatever was refused in between.",
  ["histories","fault_sequences"],
  "every interleaving of good scans, sparse scans and scans whose transform lookups fail or throw",
  "No test drives the node; the property is about sequences in which refused messages sit between accepted ones.",
  ["ndt_gslam/src/graph_slam2d_node.cpp"],
  [("prepareAllData","graph_slam2d_node.cpp"),("point-count gate","graph_slam2d_node.cpp"),("preparePoseData / doAlgorithm","motion relative to last accepted odometry")])
p("C03","Every accepted scan publishes one complete, well-formed set of outputs",
  "Each scan accepted after the first publishes exactly one map, one local window map, one map cloud and one window cloud, plus pose-graph markers when enabled, all in the configured map frame. Sizes match the declared dimensions, occupancy values are -1 or 0..100, all coordinates are finite, the window message and its cloud show the same distributions inside the declared extent, the window carries the time of the last scan entered into it, and no stamp runs ahead of the time of publication.",
  ["histories","fault_sequences","configurations"],
  "every sensor history under message loss, duplication, reordering, clock jumps and lookup failures, and every launch configuration",
  "Nothing in the test suite publishes or inspects a message.",
  ["ndt_gslam/src/graph_slam2d_node.cpp",I+"ndt_slam_algorithm.h",I+"ndt/ndt_mapper.h",I+"utils/msgs_conversions.h"],
  [("doAlgorithm","publishing sequence"),("occupancy and NDT window message builders","ndt_mapper.h, ndt_grid2d.h, msgs_conversions.h")])
p("C04","The pose estimate never loses or double-counts odometry motion",
  "Between scan-match corrections the reported pose moves by exactly the odometry motion supplied, whether or not each motion was large enough to trigger matching. When scan matching fails, the pose falls back to dead reckoning over all motion since the last successful match. In a static, feature-rich room most scans taken after the robot moved are matched, and the pose stays within a bounded error of the true robot pose.",
  ["histories","fault_sequences"],
  "every sequence of small and large motions, sensor blackouts, odometry noise and matching failures at any point",
  "The estimate depends on the whole history of which motions were matched, deferred or failed; no test runs the algorithm.",
  [I+"ndt_slam_algorithm.h",I+"registration/d2d_ndt2d_robust.h",I+"registration/ndt2d.h"],
  [("update","ndt_slam_algorithm.h: deferral of small motions, match, fallback")],
  [("pose","current estimate in the map"),("deferred motion","motion accumulated since last match")])
p("C05","Launch parameters take effect exactly as documented",
  "Frame names, transform prefix, subscription mode, key-frame distance, window radius, loop distances, loop score threshold and graph publication follow the values given at start-up, and documented defaults apply to those not given. An out-of-range loop score threshold is rejected at start-up.",
  ["configurations","histories"],
  "every combination of present, absent and extreme parameter values, observed over whole runs",
  "No test creates a node with parameters; effects of key-frame and window parameters only show over a trajectory.",
  ["ndt_gslam/src/graph_slam2d_node.cpp",I+"ndt_slam_algorithm.h",I+"slam_optimizer/slam2d_policy.h","README.md"],
  [("initParameters","graph_slam2d_node.cpp"),("setters","ndt_slam_algorithm.h")])
p("C06","Key frames are added by travelled distance and chained by odometry edges",
  "A new key frame is created exactly when the estimated displacement since the last one exceeds the configured spacing, except that motion too small to trigger matching counts only once it does. Every pair of consecutive key frames is linked by exactly one odometry constraint whose value is the motion between them, so composing the chain reproduces the last key-frame pose when no loop has been closed.",
  ["histories","configurations"],
  "every trajectory, spacing setting and pattern of matched, deferred and failed motions",
  "Requires long trajectories through the full algorithm; unit tests stop at single containers.",
  [I+"ndt_slam_algorithm.h",I+"slam_optimizer/slam2d.h"],
  [("update","ndt_slam_algorithm.h: key-frame decision"),("addPose / addConstrain","slam2d.h")])
p("C07","Loop closures are only created where the matcher and distances allow",
  "A loop constraint is created only for a pair of poses whose alignment the matcher accepted, whose path distance along the graph is at least the configured minimum and which are spatially within the configured maximum, and it carries the transform the matcher returned. Every earlier pose that satisfies the conditions is offered to the matcher, until the limit on matches per search is reached, and repeated detection starts from a clean traversal state so results do not depend on earlier calls.",
  ["histories","inputs","fault_sequences"],
  "every pose graph built by arbitrary motion, every subset of accepted, refused and non-converging matches, and every order of detection calls",
  "No test instantiates the loop detector; the property quantifies over graph shapes and detection histories.",
  [I+"slam_optimizer/loop_detector.h",I+"slam_optimizer/slam2d.h"],
  [("loop candidate search","loop_detector.h"),("tryLoopClose","slam2d.h")])
p("C08","Optimisation keeps the graph anchored, consistent and in step with its data",
  "Optimising never moves the first pose and never produces a non-finite pose. When all constraints agree with each other, optimisation recovers exactly the configuration they describe, and the stored map data of each pose is moved to the optimised pose. When accepted loops contradict the odometry mildly, the result is the configuration of least error. Without a newly accepted loop, optimisation leaves all poses as they were.",
  ["histories","inputs","fault_sequences"],
  "every pose graph, initial error, loop set including wrong loops, and interleaving of adding poses, detecting loops and optimising",
  "No test runs the optimiser; one hand-made graph could not cover accumulated histories of optimise/extend/optimise.",
  [I+"slam_optimizer/slam2d.h",I+"slam_optimizer/slam2d_policy.h",I+"slam_optimizer/graph_slam_interfaces.h"],
  [("optimalize / write-back","slam2d.h")])
p("C09","The published map equals its frames merged at their current poses",
  "The combined map contains exactly the distributions of the stored key frames placed at their current poses, except those seen through by the beams of a later frame; where several fall into one map cell the most recently captured frame's is kept. It is the same whether frames were added one at a time or recomputed from scratch, and moving frames followed by recomputation leaves no trace of the old placement.",
  ["histories","inputs"],
  "every sequence of adding frames, changing frame poses and recomputing, including allocation failure part-way",
  "The tests never build a map; equality is over histories of frame changes.",
  [I+"ndt/ndt_mapper.h",I+"ndt/ndt_grid2d.h"],
  [("addFrame / updateFrame / recalc","ndt_mapper.h"),("mergeIn / transform","ndt_grid2d.h")])
p("C10","The occupancy grid is placed correctly in the map frame",
  "Interpreting a published occupancy grid by the standard convention (first cell at the origin corner, rows growing along the second axis), every map point lies in a known cell and every occupied cell contains map distributions; the grid is never mirrored or shifted relative to the other outputs.",
  ["histories","inputs","configurations"],
  "every set of frames at every pose and resolution",
  "No test produces an occupancy grid; geometry errors show only for asymmetric worlds and off-origin grids.",
  [I+"ndt/ndt_mapper.h",I+"ndt/ndt_grid2d.h"],
  [("calcOccupancyGridMsg","ndt_mapper.h"),("occupancy grid builder","ndt_grid2d.h")])
p("C11","Moving the local window conserves the robot pose and the map content",
  "When the local map window follows the robot, the window origin composed with the returned remainder equals the robot pose that was requested, the remainder is smaller than one cell, and every retained distribution keeps its world position. Exactly the cells that leave the window are dropped.",
  ["histories","inputs"],
  "every sequence of moves, cell sizes, window sizes and insertions between moves",
  "No test instantiates the grid; rounding errors accumulate only over long move histories.",
  [I+"ndt/ndt_grid2d.h",I+"ndt/voxel_grid2d.h"],
  [("move","ndt_grid2d.h"),("translate","voxel_grid2d.h")])
p("C12","The cell grid behaves as a two-dimensional map from location to cell",
  "Whatever is inserted, appended, replaced or removed at a location is what a later lookup at any point of the same cell returns, and locations outside the grid are refused. Enlarging, copying, clearing, neighbour queries and the valid-cell count agree with that content, and enlarging or translating never moves, duplicates or loses a cell that stays inside; an operation that fails for lack of memory leaves the grid usable and its content unchanged.",
  ["histories","inputs","fault_sequences"],
  "every sequence of operations, cell sizes, extents and locations including cell borders, and an allocation failure injected at any allocation",
  "The grid header is only parsed by the build; no test executes it.",
  [I+"ndt/voxel_grid2d.h"],
  [("addCell/removeCell/getCell","voxel_grid2d.h"),("enlarge/translate/clear/copy","voxel_grid2d.h"),("neighbour queries","voxel_grid2d.h")],
  [("cell array","row-major storage addressed by location")])
p("C13","Ray tracing visits exactly the cells on the beam and always terminates",
  "Tracing from a start to an end location visits only cells that the straight segment passes through or touches, in order away from the start and each at most once, without gaps, and stops at the end location or the grid border. Zero-length and border-aligned beams terminate and touch nothing outside the segment.",
  ["inputs","histories"],
  "every pair of end points, cell size and grid extent, after any history of enlargements and translations",
  "No test traces a ray; failures sit at short beams, exact borders and axis-aligned beams.",
  [I+"ndt/voxel_grid2d.h"],
  [("rayTrace","voxel_grid2d.h")])
p("C14","A map cell is a sound summary of the points merged into it",
  "After any sequence of point insertions, merges, transformations and ray updates, a cell's occupancy stays in its valid range, its mean and point count are the pooled mean and count, its covariance is symmetric and well conditioned and its stored inverse is the inverse. Merging a cell that holds no distribution changes nothing, and transforming then merging gives the same as merging then transforming.",
  ["histories","inputs"],
  "every sequence of insertions, merges, transforms, ray updates, copies and serialisations of arbitrary point sets, including degenerate (collinear, coincident) ones",
  "The cell source is compiled but never executed by a test; numerical safety depends on histories of merges.",
  [I+"ndt/ndt_cell.h",S+"ndt/ndt_cell.cpp"],
  [("addPoint/computeGaussian","ndt_cell.cpp"),("operator+= / transform","ndt_cell.cpp"),("updateOccupancy","ndt_cell.cpp")])
p("C15","Scan registration does not depend on thread scheduling",
  "Parallel scan matching returns the same alignment, score and convergence flag for the same inputs under every interleaving of its worker threads, and equivalent results when fewer threads are granted than requested.",
  ["schedules","inputs","fault_sequences"],
  "every interleaving of the worker threads, every number of granted threads and every pair of scans",
  "No test runs a registration; real thread schedules are neither controlled nor repeatable.",
  [I+"registration/correlative_estimation2d.h",I+"registration/ndt2d.h",I+"registration/d2d_ndt2d.h",I+"registration/d2d_ndt2d_robust.h"],
  [("parallel search regions","correlative_estimation2d.h"),("parallel derivative sums","ndt2d.h, d2d_ndt2d.h")])
p("C16","Disk trouble while saving debug data neither stops nor alters mapping",
  "If a debug cloud cannot be written because the disk is full, read-only or fails part-way, the node keeps running and every later output is the same as if the write had succeeded.",
  ["fault_sequences","histories"],
  "every pattern of failing, short and refused writes during every mapping history that attempts loop closures",
  "No test performs or fails these writes.",
  [I+"slam_optimizer/ndt_scanmatcher.h"],
  [("debug cloud dump","ndt_scanmatcher.h")],None,["simulated disk behind pcl::io"])
p("C17","Output depends only on the messages received",
  "Two runs of the node that receive the same messages in the same order produce bit-identical output (publication times aside), whatever the order in which worker threads run, the content of fresh memory, the wall-clock time, the presence of files from earlier sessions, or earlier runs that were killed at an arbitrary point.",
  ["histories","crash_points","fault_sequences"],
  "every message history, every kill-and-restart point and every initial memory content and wall clock",
  "Uninitialised state and hidden clock dependence do not show in a single test execution.",
  ["ndt_gslam/src/graph_slam2d_node.cpp",I+"ndt_slam_algorithm.h",I+"slam_optimizer/loop_detector.h",I+"slam_optimizer/ndt_scanmatcher.h",I+"ndt/ndt_grid2d.h"],
  [("all constructors","initial state"),("wall-clock seam","ndt_scanmatcher.h")])
p("C18","Robust constraints weaken wrong loops without bending correct ones",
  "A switchable constraint contributes its relative-pose error scaled by a switch that always stays between zero and one, and a mixture constraint always evaluates with its most probable component. Their analytic derivatives match the error they report, and when optimisation is interrupted and resumed any number of times a graph with some wrong loop constraints still recovers the true poses.",
  ["inputs","histories","fault_sequences"],
  "every measurement, information matrix, mixture, pair of poses and switch value, every outlier pattern and every point at which optimisation is interrupted",
  "The files are compiled but no test evaluates or optimises a robust constraint.",
  [S+"slam_optimizer/switchable_constraints/edge_se2Switchable.cpp",S+"slam_optimizer/switchable_constraints/vertex_switchLinear.cpp",S+"slam_optimizer/switchable_constraints/edge_switchPrior.cpp",S+"slam_optimizer/max_mixture/edge_se2_mixture.cpp",S+"slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp"],
  [("computeError/linearizeOplus","edge_se2Switchable.cpp, edge_se2_mixture.cpp"),("oplusImpl","vertex_switchLinear.cpp"),("best component","edge_se2_mixture.cpp")])
p("C19","Robust constraints survive saving, and damaged files are reported",
  "Writing a switch, prior, switchable or mixture constraint and reading it back restores a constraint with the same values and the same error. Reading a file that was cut off or failed at any byte reports failure instead of silently yielding a half-read constraint, and a write that cannot complete reports failure.",
  ["crash_points","fault_sequences","inputs"],
  "every constraint value and every truncation point or write failure point of its saved form",
  "No test saves or loads a constraint; truncation points are far too many to enumerate by hand.",
  [S+"slam_optimizer/switchable_constraints/edge_se2Switchable.cpp",S+"slam_optimizer/switchable_constraints/edge_switchPrior.cpp",S+"slam_optimizer/switchable_constraints/vertex_switchLinear.cpp",S+"slam_optimizer/max_mixture/edge_se2_mixture.cpp",S+"slam_optimizer/max_mixture/edge_se2_pointxy_mixture.cpp"],
  [("read/write","each constraint class")])
p("C20","The pose graph container stays consistent under any history of changes",
  "After any sequence of adding and removing poses and constraints, lookups by identifier return exactly what was stored, counts and iteration cover exactly the live elements in order, each pose lists exactly the live constraints that enter or leave it, and unknown identifiers are refused. An operation that fails for lack of memory leaves the graph as it was before.",
  ["histories","fault_sequences"],
  "every sequence of additions, removals, re-use of freed identifiers, lookups and iterations, and an allocation failure at any allocation",
  "The six existing tests add a few elements and remove one; they never iterate over holes, check incidence after removal, or fail an allocation.",
  [I+"slam_optimizer/pose_graph.h"],
  [("addNode/addEdge/removeEdge","pose_graph.h"),("iterators","pose_graph.h")],
  [("node and edge tables","identifier to element")])
p("C23","Registration results depend only on the scans, settings and guess",
  "Whatever a matcher object did before - other scans, refused or failed alignments, changed or rejected settings, an alignment interrupted by lack of memory - aligning the same scans with the same settings and guess gives the same flag, alignment and score as a new matcher. A converged alignment is a finite planar rigid motion, and the aligned cloud is the scan moved by exactly it. The correlative estimate lies within the configured search range around the guess. The robust matcher converges only with a score of at least the configured threshold and with the scans overlapping.",
  ["histories","fault_sequences","inputs"],
  "every history of scans, settings, guesses, failed alignments and allocation failures on one matcher object",
  "No test performs a registration; the node keeps two matcher objects alive for its whole life, so what an earlier alignment left behind shows only in histories.",
  [I+"registration/correlative_estimation2d.h",I+"registration/ndt2d.h",I+"registration/d2d_ndt2d.h",I+"registration/d2d_ndt2d_robust.h"],
  [("computeTransformation","every matcher"),("setInputSource / setInputTarget and setters","every matcher"),("robust acceptance","d2d_ndt2d_robust.h")],
  [("matcher object","scans, settings and scratch data kept between alignments")])
p("C24","Registration finds a scan again that shows the same surroundings",
  "When a scan is a copy of its reference moved by one of the motions the correlative search covers - also with points missing, stray points added and measurement noise - the correlative estimate is that motion. Started near the true motion, the fine matchers converge and most of their alignments are nearer to it than the guess was. The robust matcher accepts a good part of moved copies within its range, and what it accepts is nearly always the true motion.",
  ["inputs","histories","fault_sequences"],
  "every reference scan, motion, guess in range, damage to the scan and earlier use of the matcher; the statements about most alignments hold for large random samples",
  "No test performs a registration; a single hand-made pair neither shows a bias of the search table nor derivatives that are wrong in part.",
  [I+"registration/correlative_estimation2d.h",I+"registration/correlative_estimation_tools.h",I+"registration/ndt2d.h",I+"registration/d2d_ndt2d.h",I+"registration/d2d_ndt2d_robust.h",I+"registration/ndt_reg_tools.h"],
  [("lookup table and search","correlative_estimation_tools.h"),("score derivatives and line search","ndt2d.h, d2d_ndt2d.h, ndt_reg_tools.h"),("acceptance","d2d_ndt2d_robust.h")])
p("C25","Entering a scan into a window or key frame adds exactly its measurements",
  "After a scan, given as points or as a grid built from it, is entered at a pose, each cell of the grid with enough new measurements holds their distribution at its place - in place of the earlier one when the grid may grow, pooled with it when its extent is fixed - and is shown occupied. Everywhere else no distribution appears or changes; an earlier one disappears, and a cell turns from unknown to free, only where a beam from the scan's origin to a measured cell passes; cells along beams become known. An entry interrupted by a failing allocation leaves no cell with anything else than its old, its new or the pooled distribution, and repeating the entry works.",
  ["inputs","histories","fault_sequences"],
  "every scan, pose, cell size, window content and sequence of entries and window moves, and a failing allocation at any point of an entry",
  "Tests build one grid from one cloud; they never look at what a second scan does to the content of the first.",
  [I+"ndt/ndt_grid2d.h",I+"ndt/voxel_grid2d.h",S+"ndt/ndt_cell.cpp"],
  [("initialize, mergeIn, mergeInTraced, createGrid, transform","ndt_grid2d.h"),("addCell, enlarge","voxel_grid2d.h")])
p("C26","The published map shows the surroundings where the robot saw them",
  "Until a loop is closed, every surface in the published map cloud and in the window cloud lies where an accepted scan, placed at the pose reported for that scan, measured one, within the size of a map cell. When a key frame enters the map, most of the surfaces its first scan measured densely are shown. The occupancy grid published with the cloud has a known cell under every surface of the cloud, and no occupied cell without one. The local window stays centred on the robot whenever a scan is matched.",
  ["histories","inputs","fault_sequences"],
  "every drive through every static room, with refused and useless scans, odometry errors and failed matches anywhere",
  "No test drives the system; a wrong pose or frame anywhere between scan and map shows only in the content of the map.",
  [I+"ndt_slam_algorithm.h",I+"ndt/ndt_mapper.h",I+"ndt/ndt_grid2d.h",I+"graph_slam2d_node.h"],
  [("updateGraph: key-frame content","ndt_slam_algorithm.h"),("addFrame, addToMap","ndt_mapper.h"),("getPclMap, getOccupancyGrid","ndt_slam_algorithm.h")])
# pure functions: stated, not claimed
p("C21","Planar transform and angle helpers form a consistent algebra",
  "Converting between pose vectors, angles and transform matrices loses nothing, composing with the inverse gives the identity, and normalised angles stay within one turn.",
  ["inputs"],
  "every finite pose and angle",
  "The tests sample fifteen hand-picked values.",
  [I+"utils/eigen_tools.h"],[("transform and angle helpers","eigen_tools.h")])
p("C22","Covariance inversion always yields a usable information matrix",
  "Inverting a covariance gives a finite, symmetric information matrix, and propagating uncertainty along a chain of motions never shrinks it.",
  ["inputs"],
  "every symmetric covariance, including singular ones",
  "The headers are only parsed, never executed, by the tests.",
  [I+"utils/covariance_inverse.h",I+"utils/covariance_wrapper.h"],[("inverse and composition","covariance_inverse.h, covariance_wrapper.h")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
