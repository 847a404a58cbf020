"""Which obligations decide which property."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from run import E, R
P = {}       # property -> (meta, [obligations])
INDEX = {}   # callee -> reference definitions
def ref(*es):
    for e in es: INDEX.setdefault(e.impl, []).append(e)
    return list(es)
def prop(pid, explain, obs, assume=()):
    P[pid] = ({"explain": explain, "assume": list(assume)}, obs)
EQ = "Every listed function is summarised into a gated value graph (one pass of abstract evaluation over the syntax tree, loops as recurrences/closed forms) and proved equal to its reference definition for all inputs; "
H = "avoidance::Histogram::"
hist = {n: ref(E(H + n, "Histogram_" + n, "histogram"))[0] for n in ("wrapIndex", "get_dist", "set_dist", "setZero", "isEmpty", "upsample", "downsample")}
hist["ctor"] = ref(E(H + "Histogram", "Histogram_ctor", "histogram", np=1, pt=["int"], ctor=True))[0]
prop("C16", EQ + "the references double/halve the grid cell by cell and throw without effect in the wrong resolution.", [hist["upsample"], hist["downsample"]])
prop("C17", EQ + "dimensions, zero fill, modular index, stored cell, emptiness quantifier.", [hist[n] for n in ("ctor", "wrapIndex", "get_dist", "set_dist", "setZero", "isEmpty")])
# ------------------------------------------------------------------------------------------------ landing grid storage
G = "avoidance::Grid::"
grid = [ref(E(G + "Grid", "Grid_ctor", "grid", np=2, ctor=True))[0]]
for n in ("reset", "resize", "setMean", "setVariance", "increaseCounter", "setCounter", "getRowColSize", "getGridSize", "getCellSize", "setFilterLimits", "getGridLimits", "combine"):
    grid += ref(E(G + n, "Grid_" + n, "grid"))
for n in ("getMean", "getVariance", "getCounter"):
    grid += ref(E(G + n, "Grid_" + n + "s", "grid", np=0), E(G + n, "Grid_" + n, "grid", np=1))
prop("C13", EQ + "all layers resized to ceil(size / cell) squared and cleared together; accessors address the given cell; limits centred; blend convex.", grid)
# ------------------------------------------------------------------------------------------------ trajectory simulator, tree nodes
S = "avoidance::TrajectorySimulator::"
sim_ctor = ref(E(S + "TrajectorySimulator", "TrajectorySimulator_ctor", "simulator", np=3, ctor=True))[0]
sim_step = ref(E(S + "simulate_step_constant_jerk", "simulate_step_constant_jerk", "simulator"))[0]
sim_pd = ref(E(S + "jerk_for_velocity_setpoint", "jerk_for_velocity_setpoint", "simulator"))[0]
sim_gen = ref(E(S + "generate_trajectory", "generate_trajectory", "simulator"))[0]
prop("C07", EQ + "state recurrence of the integrator, number of states, constants untouched.", [sim_ctor, sim_step, sim_gen])
prop("C08", EQ + "PD jerk clamp, acceleration-limited step, desired-velocity limits.", [sim_ctor, sim_pd, sim_gen])
N = "avoidance::TreeNode::"
tree = ref(E(N + "TreeNode", "TreeNode_ctor", "simulator", np=0, ctor=True), E(N + "TreeNode", "TreeNode_ctor3", "simulator", np=3, pt=["int"], ctor=True))
for n in ("setCosts", "getPosition", "getVelocity"): tree += ref(E(N + n, "TreeNode_" + n, "simulator"))
prop("C43", EQ + "constructor and setter field values.", tree)
# ------------------------------------------------------------------------------------------------ state machines
usm = []
for area, en in (("usm", "PlannerState"), ("usm_slp", "SLPState")):
    for n, r in (("StateMachine", "StateMachine_ctor"), ("iterateOnce", "StateMachine_iterateOnce"), ("getState", "StateMachine_getState")):
        usm += ref(E("usm::StateMachine<avoidance::%s>::%s" % (en, n), r, area, ctor=(n == "StateMachine")))
prop("C09", EQ + "both instantiations of the generic machine.", usm)
# ------------------------------------------------------------------------------------------------ common conversions
A = "avoidance::"
def refs(area, names, prefix=A):
    r = []
    for n in names:
        if isinstance(n, str): r += ref(E(prefix + n, n.split("::")[-1], area))
        else: r += ref(E(prefix + n[0], n[1], area, **n[2]))
    return r
F, V = dict(pt=["const avoidance::FOV"]), dict(pt=["std::vector"])
ang = refs("common", ["wrapAngleToPlusMinusPI", "wrapAngleToPlusMinus180", "wrapPolar", "indexAngleDifference", "angleDifference", "getAngularVelocity", "nextYaw",
  "getYawFromQuaternion", "getPitchFromQuaternion", "distance2DPolar", "polarHistogramToCartesian", "polarFCUToCartesian", "histogramIndexToPolar", "polarToHistogramIndex",
  ("cartesianToPolarHistogram", "cartesianToPolarHistogram_v", dict(np=2)), ("cartesianToPolarHistogram", "cartesianToPolarHistogram_f", dict(np=4)),
  ("cartesianToPolarFCU", "cartesianToPolarFCU_v", dict(np=2)), ("cartesianToPolarFCU", "cartesianToPolarFCU_p", dict(np=1)), "createPoseMsg"])
prop("C30", EQ + "wrapping, folding and the four polar conventions.", ang)
conv = refs("common", ["toNED", "toENU", "yawToNEDdeg", "yawToNEDrad", "yawToENUdeg", "yawToENUrad", "pitchtoNED", "pitchToENU", "toPoint", "toVector3", "toQuaternion", "toXYZ", "toTwist", "toPoseStamped",
  ("toEigen", "toEigen_point", dict(pt=["geometry_msgs::Point"])), ("toEigen", "toEigen_vector", dict(pt=["geometry_msgs::Vector3"])), ("toEigen", "toEigen_xyz", dict(pt=["PointXYZ&"])),
  ("toEigen", "toEigen_xyzi", dict(pt=["PointXYZI&"])), ("toEigen", "toEigen_q", dict(pt=["geometry_msgs::Quaternion"])),
  ("toXYZI", "toXYZI_v", dict(pt=["Eigen::Matrix"])), ("toXYZI", "toXYZI_f", dict(np=4)), ("toXYZI", "toXYZI_p", dict(pt=["PointXYZ&"])), "quaternionFromRPY", "orientationToNED", "orientationToENU"])
prop("C31", EQ + "componentwise conversions.", conv)
msgs = refs("common", ["fillUnusedTrajectoryPoint", "transformToTrajectory", "fillControlPoint", "transformToBezier"])
prop("C05", EQ + "every field of the waypoint trajectory message.", msgs[:2])
prop("C06", EQ + "every field of the Bezier trajectory message.", msgs[2:])
clean = refs("common", ["removeNaNAndGetMaxima", "updateFOVFromMaxima"])
prop("C19", EQ + "filtered subsequence, flags and extreme points.", clean[:1])
fov = refs("common", [("pointInsideFOV", "pointInsideFOV", F), ("pointInsideFOV", "pointInsideFOV_any", V), ("pointInsideYawFOV", "pointInsideYawFOV", F), ("pointInsideYawFOV", "pointInsideYawFOV_any", V),
  ("histogramIndexYawInsideFOV", "histogramIndexYawInsideFOV", F), ("histogramIndexYawInsideFOV", "histogramIndexYawInsideFOV_any", V), "isInWhichFOV", "isOnEdgeOfFOV", "scaleToFOV"])
prop("C42", EQ + "membership in one and several fields of view, edge scaling.", fov + clean[1:])
# ------------------------------------------------------------------------------------------------ local planner functions
NOARR = dict(opts={"noarr": True})
pf = {n: refs("planner", [(n, n, NOARR) if n in ("getCostMatrix", "generateNewHistogram", "compressHistogramElevation", "processPointcloud") else n])[0] for n in ("processPointcloud", "generateNewHistogram", "compressHistogramElevation", "costFunction", "generateCostImage", "colorImageIndex", "getConicKernel",
  "getBestCandidatesFromCostMatrix", "smoothPolarMatrix", "padPolarMatrix", "getCostMatrix", "getSetpointFromPath")}
prop("C20", EQ + "which points are kept and with which age.", [pf["processPointcloud"]])
prop("C28", EQ + "segment selection, interpolation and validity.", [pf["getSetpointFromPath"]])
prop("C29", EQ + "ranking and cost terms.", [pf[n] for n in ("getBestCandidatesFromCostMatrix", "costFunction", "generateCostImage", "colorImageIndex", "getConicKernel", "smoothPolarMatrix", "padPolarMatrix", "getCostMatrix")])
prop("C18", EQ + "indices.", [pf["generateNewHistogram"], pf["compressHistogramElevation"]])
# ------------------------------------------------------------------------------------------------ look-ahead search
star = refs("star", ["treeHeuristicFunction", "setParams", "setPose", "setGoal", "setPointcloud", "setClosestPointOnLine", ("buildLookAheadTree", "buildLookAheadTree", dict(opts={"noarr": True}, opaque={N + n: None for n in ("TreeNode", "setCosts", "getPosition", "getVelocity")}))], A + "StarPlanner::")
prop("C27", EQ + "expansion order, children, cost accumulation, path extraction.", star)
# ------------------------------------------------------------------------------------------------ transform buffer
tfb = refs("transform", ["getKey", "interpolateTransform", "insertTransform", "getTransform"], A + "tf_buffer::TransformBuffer::")
prop("C21", EQ + "key, bracketing, interpolation factor, insertion order and ageing.", tfb)
# ------------------------------------------------------------------------------------------------ avoidance node
AN = A + "AvoidanceNode::"
an = {n: ref(E(AN + n, n, "node"))[0] for n in ("setSystemStatus", "getSystemStatus", "publishSystemStatus", "statusLoopCallback", "checkFailsafe", "px4ParamsCallback", "checkPx4Parameters", "missionCallback", "getPX4Parameters", "getMissionItemSpeed")}
an["ctor"] = ref(E(AN + "AvoidanceNode", "AvoidanceNode_ctor", "node", np=2, ctor=True))[0]
prop("C01", EQ + "the failsafe table and its timeouts.", [an[n] for n in ("ctor", "checkFailsafe", "setSystemStatus", "getSystemStatus")])
prop("C03", EQ + "contents of the status message and its timer.", [an[n] for n in ("publishSystemStatus", "statusLoopCallback")])
prop("C26", EQ + "name to field mapping of callback and poll.", [an[n] for n in ("px4ParamsCallback", "checkPx4Parameters", "getPX4Parameters")])
prop("C33", EQ + "speed computation.", [an[n] for n in ("missionCallback", "getMissionItemSpeed")])
# ------------------------------------------------------------------------------------------------ local waypoint generator
WG = A + "WaypointGenerator::"
wg = {n: ref(E(WG + n, n, "wpgen"))[0] for n in ("getSystemTime", "chooseNextState", "runCurrentState", "runTryPath", "runDirect", "runLoiter", "runAltitudeChange", "calculateWaypoint", "getWaypoints",
  "setPlannerInfo", "setSmoothingSpeed", "getOfftrackPointsForVisualization", "setFOV", "updateState", "transformPositionToVelocityWaypoint", "smoothWaypoint", "nextSmoothYaw", "adaptSpeed", "getPathMsg", "isAltitudeChange")}
wg["ctor"] = ref(E(WG + "WaypointGenerator", "WaypointGenerator_ctor", "wpgen", np=0, ctor=True))[0]
prop("C10", EQ + "mode table, dispatch, trigger consumption and the transitions each mode requests.", [wg[n] for n in ("ctor", "chooseNextState", "runCurrentState", "runTryPath", "runDirect", "runLoiter", "runAltitudeChange", "calculateWaypoint", "isAltitudeChange")])
prop("C34", EQ + "goto point, smoothing, yaw and pose of the output.", [wg[n] for n in ("getWaypoints", "calculateWaypoint", "setPlannerInfo", "setSmoothingSpeed", "setFOV", "updateState", "smoothWaypoint", "nextSmoothYaw", "adaptSpeed", "getPathMsg", "runTryPath", "runDirect", "runLoiter", "runAltitudeChange", "transformPositionToVelocityWaypoint")])
# ------------------------------------------------------------------------------------------------ local planner
LPn = A + "LocalPlanner::"
lp = {n: ref(E(LPn + n, n, "lplanner"))[0] for n in ("setState", "dynamicReconfigureSetParams", "setGoal", "applyGoal", "setPreviousGoal", "setFOV", "getHFOV", "getVFOV", "getFOV", "getSensorRange", "getOrientation",
  "getGoal", "getPosition", "getPointcloud", "getTree", "getObstacleDistanceData", "runPlanner", "create2DObstacleRepresentation", "generateHistogramImage", "determineStrategy", "getAvoidanceOutput", "setDefaultPx4Parameters")}
lp["ctor"] = ref(E(LPn + "LocalPlanner", "LocalPlanner_ctor", "lplanner", np=0, ctor=True))[0]
lp["msg"], lp["msg0"] = ref(E(LPn + "updateObstacleDistanceMsg", "updateObstacleDistanceMsg", "lplanner", np=1), E(LPn + "updateObstacleDistanceMsg", "updateObstacleDistanceMsg0", "lplanner", np=0))
star_rc = ref(E(A + "StarPlanner::dynamicReconfigureSetStarParams", "dynamicReconfigureSetStarParams", "lplanner"))[0]
prop("C04", EQ + "bins, ranges and gating of the range message.", [lp[n] for n in ("msg", "msg0", "create2DObstacleRepresentation", "getObstacleDistanceData", "determineStrategy")])
prop("C25", EQ + "each configuration value is copied to its own parameter.", [lp["dynamicReconfigureSetParams"], star_rc])
P["C20"][1].append(lp["runPlanner"])
P["C33"][1].extend([lp["getAvoidanceOutput"], wg["adaptSpeed"]])
# ------------------------------------------------------------------------------------------------ local planner nodelet
LN = A + "LocalPlannerNodelet::"
ln = {n: ref(E(LN + n, n, "lnodelet"))[0] for n in ("numTransformedClouds", "updatePlannerInfo", "positionCallback", "velocityCallback", "stateCallback", "cmdLoopCallback", "setSystemStatus", "getSystemStatus", "checkFailsafe",
  "calculateWaypoints", "clickedGoalCallback", "updateGoalCallback", "fcuInputGoalCallback", "distanceSensorCallback", "pointCloudCallback", "dynamicReconfigureCallback", "publishLaserScan", "transformBufferThread", "startNode", "readParams", "pointCloudTransformThread", "initializeCameraSubscribers")}
ln["threadFunction"] = E(LN + "threadFunction", "threadFunction", "lnodelet", opaque={LN + "updatePlannerInfo": None, LN + "numTransformedClouds": None, A + "LocalPlannerVisualization::visualizePlannerData": "event"})
for n in ("InitializeNodelet", "onInit"): ln[n] = E(LN + n, n, "lnodelet")
L_ = lambda *ns: [ln[n] for n in ns]
prop("C02", EQ + "the command cycle: position wait, failsafe evaluation before output, the ACTIVE gate and everything it publishes.", L_("cmdLoopCallback", "calculateWaypoints", "checkFailsafe", "setSystemStatus", "getSystemStatus", "InitializeNodelet", "startNode"))
prop("C32", EQ + "mode names, goal acceptance, airborne and waypoint-type flags, and what a planning cycle receives.", L_("stateCallback", "fcuInputGoalCallback", "updateGoalCallback", "clickedGoalCallback", "positionCallback", "velocityCallback",
  "updatePlannerInfo", "distanceSensorCallback", "calculateWaypoints", "InitializeNodelet", "readParams") + [an["missionCallback"]])
P["C04"][1].extend(L_("publishLaserScan", "threadFunction"))
P["C25"][1].extend(L_("dynamicReconfigureCallback", "onInit"))
P["C21"][1].extend(L_("transformBufferThread", "pointCloudCallback", "pointCloudTransformThread"))
P["C20"][1].extend(L_("updatePlannerInfo", "threadFunction", "pointCloudTransformThread", "initializeCameraSubscribers", "numTransformedClouds"))
# ------------------------------------------------------------------------------------------------ safe landing planner
def group(cls, area, names, opts={}):
    d = {}
    for n in names.split():
        kw = opts.get(n, {})
        k = n
        if n == "ctor": d[n] = E(cls + "::" + cls.rsplit("::", 1)[-1], cls.rsplit("::", 1)[-1] + "_ctor", area, ctor=True, **kw)
        else: d[n] = ref(E(cls + "::" + n, n, area, **kw))[0]
    return d
sp = group(A + "SafeLandingPlanner", "slp", "isInsideGrid computeGridIndexes computeOnlineMeanVariance setPose getPositionIndex getPreviousGrid getGrid getSmoothingSize processPointcloud processRawGrid isLandingPossible runSafeLandingPlanner dynamicReconfigureSetParams", {"isLandingPossible": dict(opts={"noarr": True})})
sn = group(A + "SafeLandingPlannerNode", "slpnode", "dynamicReconfigureCallback positionCallback pointCloudCallback rawGridCallback startNode checkFailsafe publishSystemStatus cmdLoopCallback publishSerialGrid pointCloudTransformThread")
sw = group(A + "SLPWaypointGenerator", "slpwp", "chooseNextState runCurrentState initializeMask calculateWaypoint updateSLPState withinLandingRadius inVerticalRange runGoTo runGoToLand runAltitudeChange runLoiter runLand evaluatePatch runEvaluateGrid landingAreaHeightPercentile")
sg = group(A + "WaypointGeneratorNode", "slpwpnode", "ctor startNode cmdLoopCallback dynamicReconfigureCallback positionCallback trajectoryCallback stateCallback gridCallback fillUnusedTrajectorySetpoints publishTrajectorySetpoints", {"ctor": dict(np=1, keys=["this.%s_" % k for k in ("pose_sub", "trajectory_sub", "state_sub", "grid_sub", "trajectory_pub")])})
S_ = lambda d, names: [d[n] for n in names.split()]
prop("C11", EQ + "transition table, dispatch, reset consumption, and the transition, decision flags and setpoint of every landing mode.", S_(sw, "chooseNextState runCurrentState initializeMask calculateWaypoint updateSLPState withinLandingRadius inVerticalRange runGoTo runGoToLand runAltitudeChange runLoiter runLand evaluatePatch runEvaluateGrid landingAreaHeightPercentile") + S_(sg, "stateCallback"))
prop("C12", EQ + "per-cell test, smoothing counts and thresholds, and when the decision is taken.", S_(sp, "isLandingPossible runSafeLandingPlanner"))
prop("C14", EQ + "inside test, cell index, running moments, counter order and the clearing of the grid.", S_(sp, "processPointcloud isInsideGrid computeGridIndexes computeOnlineMeanVariance processRawGrid setPose runSafeLandingPlanner"))
prop("C15", EQ + "every field the writer stores and every field the reader takes.", S_(sn, "publishSerialGrid rawGridCallback") + S_(sg, "gridCallback") + S_(sp, "processRawGrid getPositionIndex getPreviousGrid getGrid getSmoothingSize"))
P["C01"][1].extend(S_(sn, "checkFailsafe cmdLoopCallback"))
P["C03"][1].extend(S_(sn, "publishSystemStatus cmdLoopCallback"))
P["C05"][1].extend(S_(sg, "publishTrajectorySetpoints fillUnusedTrajectorySetpoints"))
P["C20"][1].extend(S_(sn, "pointCloudTransformThread"))
P["C25"][1].extend(S_(sp, "dynamicReconfigureSetParams") + S_(sn, "dynamicReconfigureCallback") + S_(sg, "dynamicReconfigureCallback"))
P["C32"][1].extend(S_(sg, "trajectoryCallback stateCallback positionCallback ctor startNode cmdLoopCallback"))
P["C14"][1].extend(S_(sn, "positionCallback pointCloudCallback pointCloudTransformThread startNode"))
# ------------------------------------------------------------------------------------------------ global planner: cells and nodes
GP_ = "global_planner::"
def one(impl, name, area, **kw): return ref(E(impl, name, area, **kw))[0]
CE, ND = GP_ + "Cell::", GP_ + "Node::"
gc = [one(CE + "Cell", "Cell_tuple", "cell", np=1, pt=["std::tuple"], ctor=True), one(CE + "Cell", "Cell_xyz", "cell", np=3, ctor=True), one(CE + "Cell", "Cell_xy", "cell", np=2, ctor=True),
  one(CE + "Cell", "Cell_point", "cell", np=1, pt=["geometry_msgs::Point"], ctor=True)]
gc += [one(CE + n, n, "cell") for n in "xIndex yIndex zIndex xPos yPos zPos toPoint manhattanDist distance2D distance3D diagDistance2D diagDistance3D angle getNeighborFromYaw getFlowNeighbors getDiagonalNeighbors getNeighbors".split()]
for op, n in (("==", "eq"), ("!=", "ne"), ("<", "lt"), (">", "gt"), ("<=", "le"), (">=", "ge"), ("+", "plus"), ("-", "minus")):
    gc.append(one(GP_ + "operator" + op, "cell_" + n, "cell", pt=["const global_planner::Cell&"]))
GO = GP_ + "GoalCell::"
goal = [one(GO + "GoalCell", "GoalCell_cell", "cell", np=3, ctor=True), one(GO + "GoalCell", "GoalCell_xyz", "cell", np=5, ctor=True), one(GO + "withinPlanRadius", "withinPlanRadius", "cell"), one(GO + "withinPositionRadius", "withinPositionRadius", "cell")]
gn = [one(ND + n, "node_" + n, "cell") for n in "isEqual isSmaller nextNode getNeighbors".split()] + [one(ND + n, n, "cell") for n in "getLength getRotation getXYRotation getCells".split()]
gn += [one(GP_ + "NodeWithoutSmooth::" + n, "plain_" + n, "cell") for n in "isEqual nextNode getRotation".split()] + [one(GP_ + "SpeedNode::" + n, "speed_" + n, "cell") for n in "nextNode getNeighbors".split()]
gn += [one(GP_ + "CompareDist::operator()", "farther_cell", "cell", pt=["const std::pair<global_planner::Cell"]), one(GP_ + "CompareDist::operator()", "farther_ptr", "cell", pt=["const std::pair<std::shared_ptr"]),
  one(GP_ + "HashNodePtr::operator()", "ptr_hash", "cell"), one(GP_ + "EqualsNodePtr::operator()", "ptr_eq", "cell")]
gm = [one(GP_ + "angleToRange", "angleToRange", "cell"), one(GP_ + "posterior", "posterior", "cell"), one(GP_ + "interpolate", "mix", "cell", pt=["double"])]
# ------------------------------------------------------------------------------------------------ global planner: risk, search, paths
GL = GP_ + "GlobalPlanner::"
gl = group(GP_ + "GlobalPlanner", "global", "calculateAccumulatedHeightPrior setPose setGoal setPath setFrame setRobotRadius updateFullOctomap getOpenNeighbors isNearWall getEdgeDist getSingleCellRisk getAltPrior isOccupied isLegal getRiskOfCurve getTurnSmoothness getEdgeCost riskHeuristic smoothnessHeuristic altitudeHeuristic getHeuristic createPoseMsg getPathWithRiskMsg getPathInfo getStartNode getGlobalPath stop findPath")
gl["risk"], gl["noderisk"] = one(GL + "getRisk", "getRisk_cell", "global", pt=["const global_planner::Cell&"]), one(GL + "getRisk", "getRisk_node", "global", pt=["const global_planner::Node&"])
gl["msg0"], gl["msg"] = one(GL + "getPathMsg", "getPathMsg0", "global", np=0), one(GL + "getPathMsg", "getPathMsg1", "global", np=1)
gl["yaw"] = one(GP_ + "nextYaw", "cellYaw", "global")
gs = {n: one(GP_ + i, n, "search", **kw) for n, i, kw in (("bezierPoint", "quadraticBezier", {}), ("bezierCurve", "threePointBezier", dict(np=4)), ("smoothed", "smoothPath", {}), ("mixPoints", "interpolate", dict(pt=["const geometry_msgs::Point&"])), ("halfway", "middlePoint", {}),
  ("pointDistance", "distance", dict(pt=["const geometry_msgs::Point&"])), ("poseDistance", "distance", dict(pt=["const geometry_msgs::PoseStamped&"])), ("simplified", "simplifyPath", {}), ("search", "findSmoothPath", {}), ("searchCells", "findPathOld", {}), ("searchFlat", "find2DPath", {}),
  ("info0", "SearchInfo::SearchInfo", dict(np=0, ctor=True)), ("info3", "SearchInfo::SearchInfo", dict(np=3, ctor=True)))}
gw = group(GP_ + "GlobalPlannerNode", "globalnode", "setNewGoal popNextGoal planPath setIntermediateGoal dynamicReconfigureCallback velocityCallback positionCallback moveBaseSimpleCallback fcuInputGoalCallback octomapFullCallback setCurrentPath cmdLoopCallback plannerLoopCallback publishGoal publishPath publishSetpoint isCloseToGoal")
prop("C35", EQ + "legality, neighbours, edge costs and heuristics; expansion, relaxation, limit and path extraction of the searches.", [gs[n] for n in "search searchCells searchFlat info0 info3".split()] + goal + S_(gl, "findPath getOpenNeighbors isLegal noderisk getEdgeCost getEdgeDist getTurnSmoothness getHeuristic altitudeHeuristic smoothnessHeuristic riskHeuristic getStartNode"))
prop("C36", EQ + "when a path is produced, when the goal is blocked, and the planning cycle.", S_(gl, "getGlobalPath findPath setGoal stop updateFullOctomap isOccupied getSingleCellRisk setPath") + S_(gw, "popNextGoal planPath setIntermediateGoal setNewGoal octomapFullCallback plannerLoopCallback fcuInputGoalCallback moveBaseSimpleCallback"))
import hashes, visual
prop("C37", EQ + "every operator of cells and nodes; a hash may read only what the equality compares.", gc + gn + gm + [R("hash-agrees-with-equality", hashes.agree, min=6)])
prop("C41", "Effect rules over the visualization classes and every function they call: writes through what they are given, globals, sinks, topics, results.", [R("reads-only", visual.effects, min=15), R("own-topics", visual.topics, min=20), R("no-feedback", visual.readers, min=5)], ["topic names are compared as written, before remapping"])
prop("C38", EQ + "when each cache is filled, read and cleared.", S_(gl, "risk noderisk setGoal updateFullOctomap getHeuristic getPathInfo setPath") + S_(gw, "dynamicReconfigureCallback octomapFullCallback"))
prop("C39", EQ + "the simplification and smoothing loops and what is published.", [gs[n] for n in "bezierPoint bezierCurve smoothed mixPoints halfway pointDistance poseDistance simplified".split()] + S_(gl, "msg0 msg createPoseMsg yaw") + S_(gw, "publishPath setCurrentPath"))
P["C25"][1].append(gw["dynamicReconfigureCallback"])
import live
P["C25"][1].append(R("takes-effect", live.live, min=60))
P["C33"][1].append(gw["publishSetpoint"])
P["C05"][1].append(gw["publishSetpoint"])
P["C01"][1].append(gw["cmdLoopCallback"])
# ------------------------------------------------------------------------------------------------ threads
import locks
LK = "Every function that can run concurrently (thread bodies, subscriptions, timers, lambdas handed to them, and what they call) is walked with the set of mutexes certainly held; "
prop("C22", LK + "each access of guarded data must hold its mutex.", [R("guarded-by", locks.guarded, min=300)], ["the guard table in checks/locks.py names the data each mutex protects; vehicle state members of the local node that no mutex is dedicated to are outside it"])
prop("C23", LK + "acquisitions must form an acyclic order, never repeat, be released on every exit, and waits must be re-tested.", [R("lock-order", locks.order, min=20), R("condition-waits", locks.waits, min=3)])
prop("C24", LK + "thread starts, stop requests, wake-ups, joins and destruction order.", [R("thread-stop-protocol", locks.stops, min=3), R("created-before-threads", locks.created, min=6), R("spinners-stopped-first", locks.spinners, min=3)])

# ------------------------------------------------------------------------------------------------ state diagram tool
import flow
prop("C40", "The Python tool's syntax tree is evaluated on the same value graphs as the C++ code and every function (main included: file read, file written, usage exit) is proved equal to its reference definition for all inputs; one edge per mapping, its label, and where an error leads.",
  [R("state-diagram-tool", flow.rule, min=7)], ["tables are well formed as the tool requires: an index or an unpacking that would raise is left open", "names are compared as text; a library function without a model is uninterpreted"])
