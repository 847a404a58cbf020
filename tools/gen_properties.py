#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand; the .jsonl is committed).
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or [],"hook_needed":None}})

A="avoidance/src/avoidance_node.cpp"; CM="avoidance/src/common.cpp"; CH="avoidance/include/avoidance/common.h"
LN="local_planner/src/nodes/local_planner_nodelet.cpp"; LP="local_planner/src/nodes/local_planner.cpp"
PF="local_planner/src/nodes/planner_functions.cpp"; SP="local_planner/src/nodes/star_planner.cpp"
LW="local_planner/src/nodes/waypoint_generator.cpp"; TS="local_planner/src/utils/trajectory_simulator.cpp"
SW="safe_landing_planner/src/nodes/waypoint_generator.cpp"; SWN="safe_landing_planner/src/nodes/waypoint_generator_node.cpp"
SL="safe_landing_planner/src/nodes/safe_landing_planner.cpp"; SN="safe_landing_planner/src/nodes/safe_landing_planner_node.cpp"
GR="safe_landing_planner/include/safe_landing_planner/grid.hpp"; GP="global_planner/src/library/global_planner.cpp"
GN="global_planner/src/nodes/global_planner_node.cpp"

p("C01","Failsafe status follows the documented timeout table",
 "The avoidance node commands FLIGHT_TERMINATION exactly when both the age of the last data and the time since start exceed the termination timeout; otherwise, when the data age exceeds the critical timeout and the startup grace time has passed, it requests hover and reports CRITICAL (only if a position was ever received, else the status is left unchanged). In every remaining case it reports ACTIVE unless a hover is requested, and it never clears a hover request itself; the termination timeout is the longest of the three.",
 ["inputs","histories"],"every pair of durations, every hover/position flag combination",
 "ROS-dependent test that samples a few durations and is not among the 22 tests that run here.",
 [A,"avoidance/include/avoidance/avoidance_node.h"],[("AvoidanceNode::checkFailsafe",A),("constructor timeouts",A)],["companion status","hover flag"])
p("C02","Local planner publishes setpoints only while healthy",
 "In each command cycle the local planner node evaluates the failsafe table before producing output and publishes a position/trajectory setpoint only if the resulting system status is ACTIVE and it has a position. While it waits for its first position longer than the termination timeout it reports FLIGHT_TERMINATION instead of publishing.",
 ["histories","schedules"],"every command cycle and message history",
 "No test drives the command loop; the tests construct the node only.",
 [LN],[("LocalPlannerNodelet::cmdLoopCallback",LN),("LocalPlannerNodelet::calculateWaypoints",LN)],["setpoint publishers","companion status"])
p("C03","Heartbeat reports the current companion state",
 "Every companion status message that any of the planners sends carries component id 196, a current timestamp and exactly the companion state held at that time, and the periodic status timer always sends one.",
 ["histories"],"every status cycle and every state value","Message contents are never checked by a test.",
 [A,SN,"safe_landing_planner/src/nodes/safe_landing_planner_node.cpp"],[("publishSystemStatus",A),("publishSystemStatus",SN)],["mavros companion_process status"])
p("C04","Obstacle-distance message contents and gating",
 "The range message for the flight controller has one bin per azimuth bin of the histogram: NaN-free semantics are that a bin outside every camera field of view is reported as unknown, a bin inside with no obstacle as maximum range plus 1 cm, and otherwise as the obstacle distance in metres. It is published only when the bin size is positive and collision prevention is not known to be disabled (a negative parameter disables it, an unset one does not).",
 ["inputs"],"all histograms, fields of view and parameter values including NaN","Tests cover one cloud and one FOV and cannot run here.",
 [LP,LN],[("LocalPlanner::updateObstacleDistanceMsg",LP),("LocalPlannerNodelet::publishLaserScan",LN)],["obstacle distance topic"])
p("C05","Waypoint trajectory messages are well formed",
 "A trajectory message built from a waypoint carries position, velocity and yaw of that waypoint in its first point, NaN accelerations, the negated yaw rate, waypoint representation, NaN time horizons, only the first point flagged valid, and NaN in every field of the four unused points.",
 ["inputs"],"every pose and twist","One test example; not executed here.",
 [CM,SWN],[("transformToTrajectory",CM),("fillUnusedTrajectoryPoint",CM),("publishTrajectorySetpoints",SWN)],["mavros trajectory topic"])
p("C06","Bezier trajectory messages are well formed",
 "A trajectory message built from Bezier control points carries the five control points in order, converted from NED to ENU in position and yaw, Bezier representation, all five points flagged valid, and the duration in the last time-horizon slot with NaN in the other four.",
 ["inputs"],"every set of five control points and every duration","No test of the message; ROS dependent.",
 [CM],[("transformToBezier",CM),("fillControlPoint",CM)],["mavros trajectory topic"])
p("C07","Trajectory simulation integrates constant jerk exactly",
 "Simulating a trajectory produces exactly ceil(duration / step) states starting after the start state; each state is the previous one advanced by the constant-jerk motion equations (position, velocity, acceleration and time) with one and the same jerk and step length. The start state and the limits given at construction are never altered by a simulation.",
 ["inputs"],"every start state, limit set, direction and duration","Tests sample three smooth scenarios with tolerances.",
 [TS],[("generate_trajectory",TS),("simulate_step_constant_jerk",TS)],["returned timepoints"])
p("C08","Simulated motion respects jerk, acceleration and velocity limits",
 "The jerk applied in a simulation step is a PD law towards the desired velocity and zero acceleration whose norm is clamped to the jerk limit; a step that would exceed the acceleration limit is shortened to reach it, or, if that is not possible within the step, keeps its length and uses zero jerk. The desired velocity points along the unit goal direction, with its horizontal norm clamped to the horizontal limit and its vertical component clamped between the descend and climb limits.",
 ["inputs"],"every limit set, state and goal direction","Tests sample limits that are rarely active.",
 [TS,"local_planner/include/local_planner/trajectory_simulator.h"],[("jerk_for_velocity_setpoint",TS),("norm_clamp","local_planner/include/local_planner/trajectory_simulator.h"),("xy_norm_z_clamp",TS)],["returned timepoints"])
p("C09","State machine iteration and transition lookup",
 "One iteration of the generic state machine runs the handler of the current state exactly once; a repeat result keeps the state and any other result replaces it by the table's entry for that (state, result), which is the table's declared error state when no entry exists. The state changes in no other way.",
 ["histories","programs"],"every state enumeration, table and sequence of handler results","The 4 tests walk fixed paths of one 5-state machine.",
 ["avoidance/include/avoidance/usm.h"],[("StateMachine::iterateOnce","avoidance/include/avoidance/usm.h"),("USM_TABLE / USM_STATE / USM_MAP","avoidance/include/avoidance/usm.h")],["getState"])
p("C10","Local planner mode machine: legal moves only",
 "The local planner's avoidance modes are try-path, direct, altitude change and loiter; each mode runs its own behaviour, the mode changes only along the published transition table, and any unlisted result falls back to loiter. A mode change requested by an external trigger (loiter requested, or a different mode becomes applicable) is consumed in the same cycle in which it is seen.",
 ["histories"],"every mode and every handler outcome","Only a few mode sequences are tested, none here.",
 [LW],[("WaypointGenerator::chooseNextState",LW),("WaypointGenerator::runCurrentState",LW),("runTryPath/runDirect/runLoiter/runAltitudeChange",LW)],["waypoint type"])
p("C11","Safe landing state machine: legal moves only",
 "The landing state machine starts in go-to, dispatches each state to its own behaviour, moves only along the published transition table with go-to as fallback, never leaves the landing state by itself, and reaches landing only through a grid evaluation that selected a landable patch. Any reset request is consumed and sends the machine to its fallback without publishing a setpoint in that step.",
 ["histories"],"every state, every reset moment and every grid","A handful of sequences, not executed here.",
 [SW],[("WaypointGenerator::chooseNextState",SW),("runCurrentState and state handlers",SW)],["published setpoints","state"])
p("C12","Landing decision per grid cell",
 "A grid cell is declared landable only if it was observed at least the configured number of times and its height standard deviation does not exceed the configured threshold, and, when neighbourhood smoothing is enabled, only if more than the configured number of cells in its neighbourhood pass that test and at most the configured number of neighbours differ in mean height by more than the configured step. Every cell's decision is rewritten, landable or not, in every evaluation.",
 ["inputs","configurations"],"every grid content and configuration","Tests use two synthetic grids and are not executed here.",
 [SL],[("SafeLandingPlanner::isLandingPossible",SL)],["grid land layer"])
p("C13","Landing grid storage stays consistent",
 "All layers of the landing grid always have the same square dimension ceil(size / cell size) implied by the most recent resize, every resize and reset clears all of them, setters and getters address exactly the requested cell, the area limits are centred on the given position, and blending with the previous grid is the convex combination of mean and variance that leaves counters and decisions untouched.",
 ["inputs","histories"],"every size, index, value and blending weight","Two tests check the dimension and one setter.",
 [GR],[("Grid",GR)],["Grid getters"])
p("C14","Landing grid is built only from points inside the grid area",
 "Only finite points strictly inside the horizontal grid limits contribute, each to the single cell containing it, and a contribution updates that cell's counter, running mean and running variance consistently (count first). Every cloud starts from a cleared grid centred on the vehicle.",
 ["inputs"],"every cloud and vehicle position","Few clouds sampled; not executed here.",
 [SL],[("SafeLandingPlanner::processPointcloud",SL),("SafeLandingPlanner::isInsideGrid",SL),("SafeLandingPlanner::computeGridIndexes",SL),("computeOnlineMeanVariance",SL)],["grid layers"])
p("C15","Landing grid message: writer and reader agree",
 "The landing grid message lists mean and decision of every cell exactly once in the order in which the landing waypoint generator reads them back, with the dimensions, size, cell size and current cell index it declares; the generator rebuilds its grid to the declared size and cell size whenever they differ and then holds the same values in the same cells.",
 ["inputs","histories"],"every grid size and content","Writer and reader live in two processes; no test links them.",
 [SN,SWN],[("publishSerialGrid",SN),("gridCallback",SWN)],["grid message"])
p("C16","Histogram resolution conversion",
 "Upsampling is possible only on a half-resolution histogram and doubles both dimensions so that each source cell fills a 2x2 block; downsampling is possible only on a full-resolution histogram and halves both dimensions so that each cell is the mean of its 2x2 block. A call in the wrong resolution throws a logic error and changes nothing.",
 ["inputs","histories"],"every histogram content and call sequence","No histogram test is among the tests that run.",
 ["avoidance/src/histogram.cpp"],[("Histogram::upsample","avoidance/src/histogram.cpp"),("Histogram::downsample","avoidance/src/histogram.cpp")],["get_dist"])
p("C17","Histogram cell access, emptiness and clearing",
 "A fresh or cleared histogram of a resolution has 180/res by 360/res cells, all zero, and counts as empty; it is non-empty exactly when some cell exceeds the smallest positive float. Reading wraps any integer elevation and azimuth index into the valid range and returns the value last stored in that cell.",
 ["inputs"],"every index pair including negative and very large ones, every content","No histogram test is among the tests that run.",
 ["avoidance/src/histogram.cpp","avoidance/include/avoidance/histogram.h"],[("Histogram","avoidance/include/avoidance/histogram.h")],["get_dist","isEmpty"])
p("C18","Computed cell indices always lie inside their arrays",
 "Every histogram and grid index computed from a direction or position is clamped or tested against the dimension of the array it addresses before that array is accessed, for every input including directions exactly on a boundary.",
 ["inputs"],"all angles, resolutions and positions","Tests sample regular angles only.",
 [CM,PF,SL],[("polarToHistogramIndex",CM),("generateNewHistogram/getCostMatrix/padPolarMatrix",PF)],["array accesses"])
p("C19","Cloud cleaning keeps exactly the finite points",
 "Cleaning a camera cloud keeps every point whose three coordinates are finite, in order, and drops all others, updates size, height and density flags accordingly, and returns the cloud's frame together with the extreme point of each axis direction (none for an empty result).",
 ["inputs"],"every cloud, with NaN and infinities in any position","One random cloud is tested, not executed here.",
 [CM],[("removeNaNAndGetMaxima",CM)],["cloud, maxima"])
p("C20","Obstacle memory of the local planner is bounded and fresh",
 "The processed cloud contains a new sensor point only if it is not NaN and strictly between minimum and maximum sensor range, and a remembered point only if it is within range, at most the configured age, outside every current field of view and its histogram cell is not already covered by enough new data. A remembered point's age grows by the elapsed time in every cycle and a new point's age is zero.",
 ["inputs","histories"],"every cloud, history and elapsed time","Tests check counts for hand-made clouds; not executed here.",
 [PF],[("processPointcloud",PF)],["final_cloud intensity"])
p("C21","Transform buffer never extrapolates and stays ordered",
 "A transform is stored only if it is strictly newer than the newest stored one for the same frame pair, and transforms older than the buffer length relative to it are dropped. A lookup succeeds only if the requested time lies between two stored transforms of that frame pair, and then returns that time with linearly interpolated translation and spherically interpolated rotation; otherwise it reports failure.",
 ["inputs","histories"],"every insertion history and query time","Tests insert a few regular sequences; not executed here.",
 ["avoidance/src/transform_buffer.cpp"],[("insertTransform","avoidance/src/transform_buffer.cpp"),("getTransform","avoidance/src/transform_buffer.cpp"),("interpolateTransform","avoidance/src/transform_buffer.cpp")],["getTransform result"])
p("C22","Shared state is accessed only under its lock",
 "Data exchanged between threads (transform store, flight-controller parameters, camera clouds, buffered transform requests, waypoint generator state, octomap and planner state, landing clouds and grids) is either atomic or read and written only while the mutex dedicated to it is held.",
 ["schedules"],"every interleaving of callbacks, timers and worker threads","Tests are single threaded.",
 ["avoidance/src/transform_buffer.cpp",A,LN,LW,GN,SN],[("TransformBuffer::mutex_","avoidance/src/transform_buffer.cpp"),("param_cb_mutex_",A),("camera_mutex_, buffered_transforms_mutex_",LN),("running_mutex_",LW),("GlobalPlannerNode::mutex_",GN),("cloud_msg_mutex_, transformed_cloud_mutex_",SN)])
p("C23","Locks cannot deadlock",
 "No thread ever acquires a mutex it already holds, all threads acquire nested mutexes in one global order, every acquired mutex is released on every exit, and a condition is waited for only with its own mutex held and re-tested after waking.",
 ["schedules"],"every interleaving","Tests are single threaded.",
 [LN,SN,GN,LW],[("lock_guard/unique_lock sites",LN)])
p("C24","Worker threads live within the objects they use",
 "A worker thread is started only after every object it uses has been created, and an object that owns a worker thread asks it to stop, wakes it and joins it before it is destroyed.",
 ["schedules"],"every start-up and shutdown interleaving","Nodes are never started or shut down concurrently in tests.",
 [A,LN,SN],[("AvoidanceNode::init/destructor",A),("LocalPlannerNodelet::InitializeNodelet/destructor",LN),("SafeLandingPlannerNode::startNode/destructor",SN)])
p("C25","Every reconfigurable parameter takes effect",
 "Every parameter a node offers for dynamic reconfiguration is, on each reconfigure request, copied unmodified (except for documented range clamps) into the state that its computation actually reads, and no two parameters are interchanged.",
 ["configurations"],"every parameter and value","Tests set parameters directly or once.",
 ["local_planner/cfg/LocalPlannerNode.cfg","safe_landing_planner/cfg/SafeLandingPlannerNode.cfg","safe_landing_planner/cfg/WaypointGeneratorNode.cfg","global_planner/cfg/GlobalPlannerNode.cfg",LP,SL,SW,GN],[("dynamicReconfigure* callbacks",LN)])
p("C26","Flight controller parameters are stored under their own name",
 "A flight-controller parameter received by callback or by polling updates exactly the model parameter of that name, from the real or integer field that matches its type, polling only on a successful answer; unknown names change nothing. The poll counts as complete only when every polled parameter has a finite value.",
 ["inputs","fault_sequences"],"every parameter name and every service failure","No test covers the callbacks.",
 [A],[("px4ParamsCallback",A),("checkPx4Parameters",A)])
p("C27","Look-ahead tree search is bounded and well formed",
 "The look-ahead search expands at most the configured number of nodes, gives each at most the configured number of children, expands no node twice, always expands an open node of least total cost within the maximum path length, and adds a child only if no existing node is within 0.2 m of it. Every child records its parent, an increased depth and a cost that accumulates its parent's, and the returned path is the parent chain from the best end node to the root.",
 ["inputs","configurations"],"every histogram, cloud, configuration and cost","Tests run three obstacle scenarios; not executed here.",
 [SP],[("StarPlanner::buildLookAheadTree",SP)],["path_node_positions_","tree_"])
p("C28","Setpoint selection along the planned path",
 "The setpoint taken from a planned path is interpolated between the two path nodes whose time window contains the elapsed time; if the path has fewer than two nodes or the elapsed time lies beyond its end, no path setpoint is reported. The result lies on the segment between the two nodes' positions, measured from the newest end of the path.",
 ["inputs","histories"],"every path, elapsed time and speed","Tests sample straight paths; not executed here.",
 [PF],[("getSetpointFromPath",PF),("interpolateBetweenSetpoints",PF)])
p("C29","Candidate ranking keeps the cheapest directions",
 "From a cost matrix the planner returns the requested number of cheapest cells in order of non-decreasing cost, each with the polar direction of its own cell, and never more than the matrix has cells.",
 ["inputs"],"every cost matrix and candidate count","Two matrices tested; not executed here.",
 [PF],[("getBestCandidatesFromCostMatrix",PF)])
p("C30","Angle wrapping and polar conversions",
 "Angle wrapping returns the equivalent angle in the half-open range around zero, polar wrapping folds elevations beyond the poles by turning the azimuth half a circle, and the conversions between Cartesian, histogram-polar, flight-controller-polar and histogram-cell representations follow their documented axis conventions so that a cell's centre maps back to that cell.",
 ["inputs"],"all angles and points","Tests sample angles; not executed here.",
 [CM],[("wrapPolar, wrapAngleToPlusMinusPI/180",CM),("polar*/cartesian* conversions",CM)])
p("C31","NED/ENU conversions are componentwise and self-inverse",
 "Converting a vector between NED and ENU swaps the horizontal components and negates the vertical one in both directions, yaw conversion in both directions is a quarter turn minus the yaw wrapped to one turn, yaw-rate conversion negates, and message/vector conversions copy each component to its namesake.",
 ["inputs"],"all vectors and angles","Tests sample a few vectors; not executed here.",
 [CH,CM],[("toNED/toENU/toEigen/toPoint/toVector3",CH)])
p("C32","Flight mode and mission intake",
 "The flight mode reported by the flight controller is mapped to the planner's mode exactly for the known mode names and to no mode otherwise; a goal from the flight controller's trajectory is accepted only when its corresponding point is flagged valid, and the armed state and the mission speed are taken from the received message only.",
 ["inputs","histories"],"every mode string and message","Only constructor tests.",
 [LN,SWN,GN],[("stateCallback",LN),("fcuInputGoalCallback",LN),("trajectoryCallback",SWN),("missionCallback",A)])
p("C33","Cruise speed never exceeds what the sensor horizon allows",
 "The speed the local planner requests is the commanded mission or cruise speed, but never more than the speed from which it can stop (with the vehicle's jerk and acceleration limits) within the sensor range, and close to the goal it is reduced so that a step never overshoots the goal.",
 ["inputs","configurations"],"every limit set, range and goal distance","No such test runs here.",
 [LP,LW,CH],[("getMaxSpeed/computeMaxSpeedFromBrakingDistance",LP),("adaptSpeed",LW)])
p("C34","Waypoint output is always a usable setpoint",
 "The local waypoint generator outputs, for every mode, a position and velocity setpoint derived from the same smoothed goto point, falls back to holding the current position when no finite goto point exists, and reinitialises its smoothing from the measured state whenever planning resumes after an interruption.",
 ["histories","inputs"],"every mode sequence and NaN pattern","Tests follow one nominal approach; not executed here.",
 [LW],[("getPathMsg/smoothWaypoint/updateState",LW)])
p("C35","Global search only passes through legal, unvisited cells",
 "The global path search enters only cells whose risk and altitude are within the configured limits (the last-resort flat search exempts its target cell from the risk limit), expands each search node at most once, stops at the iteration limit, reports success only when it really reached a node that matches the goal, and returns a path that starts at the start, follows recorded parents and ends at the goal.",
 ["inputs","configurations"],"every map, start, goal and configuration","No global planner logic is tested.",
 ["global_planner/include/global_planner/search_tools.h",GP],[("findSmoothPath","global_planner/include/global_planner/search_tools.h"),("GlobalPlanner::isLegal/getOpenNeighbors",GP)])
p("C36","Global planner reacts to blocked goals and unusable maps",
 "The global planner plans only with a map and a goal, declares the goal blocked instead of producing a path when the goal cell is occupied or the search fails, never reports a path together with a blocked goal, and replans when the current path becomes blocked by a map update.",
 ["histories"],"every map/goal history","No global planner logic is tested.",
 [GP,GN],[("GlobalPlanner::getGlobalPath/findPath/updateFullOctomap",GP),("GlobalPlannerNode::planPath/octomapFullCallback",GN)])
p("C37","Grid cells and search nodes: equality, order and hash agree",
 "Two cells or search nodes that compare equal have equal hashes, their ordering is a strict order on the same components, a cell's centre converts back to the same cell, and distances between cells use the corresponding axis differences.",
 ["inputs"],"all indices and positions","No global planner logic is tested.",
 ["global_planner/include/global_planner/cell.h","global_planner/src/library/cell.cpp","global_planner/include/global_planner/node.h","global_planner/src/library/node.cpp"],[("Cell","global_planner/src/library/cell.cpp"),("Node","global_planner/src/library/node.cpp")])
p("C38","Cached risks never outlive the map they were computed from",
 "A cached cell risk, heuristic or path risk is reused only while the map, goal and risk parameters it was computed from are unchanged: replacing the map or the risk parameters clears cached risks, and setting a goal clears cached heuristics.",
 ["histories"],"every interleaving of map updates, goals and queries","No global planner logic is tested.",
 [GP],[("updateFullOctomap/setGoal/getRisk",GP)])
p("C39","Path post-processing keeps the end points and stays within its margin",
 "Simplifying or smoothing a global path keeps its first and last point, removes an intermediate point only when the direct connection costs no more than the configured margin above the original one, and performs no more rounds than configured.",
 ["inputs","configurations"],"every path and risk map","No global planner logic is tested.",
 ["global_planner/include/global_planner/search_tools.h","global_planner/include/global_planner/bezier.h",GN],[("simplifyPath/smoothPath","global_planner/include/global_planner/search_tools.h"),("publishPath",GN)])
p("C40","State diagram tool lists every transition",
 "The state-diagram generator emits exactly one edge per mapping of the transition table, labelled with its transition name, and for each state shows where an error leads: on the mapping already leading to the error state, or as an extra dotted fallback edge, unless the state maps errors explicitly.",
 ["inputs"],"every transition table","Three fixed tables are compared.",
 ["tools/generate_flow_diagram.py"],[("extract_transitions","tools/generate_flow_diagram.py"),("make_dot_file_string","tools/generate_flow_diagram.py")])
p("C41","Visualization never influences planning",
 "The visualization components only read the planners' data and publish markers: nothing they do writes state that a planning decision reads.",
 ["histories"],"every data set and configuration","Side effects of visualization are not tested.",
 ["local_planner/src/nodes/local_planner_visualization.cpp","safe_landing_planner/src/nodes/safe_landing_planner_visualization.cpp"],[("LocalPlannerVisualization","local_planner/src/nodes/local_planner_visualization.cpp")])
p("C42","Field-of-view membership",
 "A direction counts as inside a camera's field of view exactly when its azimuth and elevation lie within half the opening angle of the camera's axis (with azimuth wrap-around), inside a set when inside any member, and in exactly one field of view only when a single member contains it; edge scaling falls linearly from one at the axis to zero at the edge and is applied only at outer edges.",
 ["inputs"],"all directions and camera sets","Tests sample a few directions; not executed here.",
 [CM],[("pointInsideFOV/pointInsideYawFOV/isInWhichFOV/isOnEdgeOfFOV/scaleToFOV",CM)])
p("C43","Search tree nodes start clean",
 "A newly created look-ahead node is open, at depth zero, with zero cost and zero heuristic, remembers its origin and exactly the given position and velocity (zero when none is given), and setting costs assigns heuristic and total cost without exchanging them or changing anything else.",
 ["inputs"],"all positions, velocities and costs","No test that runs exercises the node type.",
 ["local_planner/src/nodes/tree_node.cpp"],[("TreeNode","local_planner/src/nodes/tree_node.cpp")])
p("C44","Planned motion keeps clear of obstacles",
 "In closed loop, a vehicle following the planned setpoints keeps at least the configured clearance from every obstacle the sensors have seen.",
 ["inputs","histories","schedules"],"every scene, vehicle dynamics and sensor history","Needs closed-loop dynamics over unbounded runtime values.",
 [LP,SP],[("cost function and look-ahead tree",PF)])
p("C45","Planning keeps up with the command rate",
 "Each planning and command cycle finishes within its period on the target computer, so that setpoints keep arriving at the flight controller's required rate.",
 ["schedules","inputs"],"every load and scene","Real-time behaviour depends on hardware and load.",
 [LN,GN],[("command and planner loops",LN)])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
