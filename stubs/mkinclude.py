#!/usr/bin/env python3
"""mkinclude.py OUT REPO: forwarding headers for every ROS-ish include + config/message headers generated from REPO."""
import os, re, sys, types
HERE = os.path.dirname(os.path.abspath(__file__))
FWD = """ros/ros.h ros/time.h ros/duration.h ros/console.h ros/callback_queue.h ros/param.h ros/package.h ros/timer.h ros/subscriber.h ros/publisher.h
dynamic_reconfigure/server.h nodelet/nodelet.h nodelet/loader.h pluginlib/class_list_macros.h pluginlib/class_list_macros.hpp
std_msgs/Header.h std_msgs/ColorRGBA.h std_msgs/Bool.h std_msgs/Float64.h std_msgs/UInt32.h std_msgs/String.h std_msgs/Float64MultiArray.h std_msgs/Int64MultiArray.h std_msgs/MultiArrayDimension.h
geometry_msgs/Point.h geometry_msgs/Vector3.h geometry_msgs/Quaternion.h geometry_msgs/Pose.h geometry_msgs/Twist.h geometry_msgs/PoseStamped.h geometry_msgs/PointStamped.h geometry_msgs/TwistStamped.h geometry_msgs/Vector3Stamped.h geometry_msgs/TransformStamped.h geometry_msgs/PoseArray.h
nav_msgs/Path.h nav_msgs/GridCells.h nav_msgs/Odometry.h
sensor_msgs/PointCloud2.h sensor_msgs/Image.h sensor_msgs/CameraInfo.h sensor_msgs/Range.h sensor_msgs/LaserScan.h sensor_msgs/image_encodings.h sensor_msgs/point_cloud2_iterator.h
visualization_msgs/Marker.h visualization_msgs/MarkerArray.h
mavros_msgs/Trajectory.h mavros_msgs/State.h mavros_msgs/Altitude.h mavros_msgs/CompanionProcessStatus.h mavros_msgs/Param.h mavros_msgs/ParamGet.h mavros_msgs/SetMode.h mavros_msgs/Waypoint.h mavros_msgs/WaypointList.h mavros_msgs/PositionTarget.h
tf/transform_listener.h tf/transform_datatypes.h tf/transform_broadcaster.h tf/tf.h
pcl/point_cloud.h pcl/point_types.h pcl/filters/filter.h pcl_conversions/pcl_conversions.h pcl_ros/point_cloud.h pcl_ros/transforms.h pcl/common/transforms.h
octomap/octomap.h octomap/OcTree.h octomap/AbstractOcTree.h octomap_msgs/conversions.h octomap_msgs/Octomap.h yaml-cpp/yaml.h""".split()

def put(path, txt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == txt: return
    except OSError: pass
    open(path, "w").write(txt)

def load_cfg(path):
    """Run a dynamic_reconfigure .cfg with a recording stand-in generator; returns list of parameters."""
    out = []
    class G:
        def add(self, name, type, level, desc="", default=None, min=None, max=None, edit_method=""):
            out.append(dict(name=name, type=type, level=level, default=default, min=min, max=max))
        def add_group(self, *a, **k): return self
        def const(self, *a): return None
        def enum(self, *a): return ""
        def generate(self, pkg, node, name):
            self.names = (pkg, node, name); return 0
    names = {}
    class G2(G):
        def generate(self, pkg, node, name): names.update(pkg=pkg, node=node, name=name); return 0
    m = types.ModuleType("dynamic_reconfigure"); m2 = types.ModuleType("dynamic_reconfigure.parameter_generator_catkin")
    m2.ParameterGenerator = G2
    m2.int_t, m2.double_t, m2.bool_t, m2.str_t = "int", "double", "bool", "str"
    m.parameter_generator_catkin = m2
    sv = {k: sys.modules.get(k) for k in ("dynamic_reconfigure", "dynamic_reconfigure.parameter_generator_catkin")}
    sys.modules["dynamic_reconfigure"] = m; sys.modules["dynamic_reconfigure.parameter_generator_catkin"] = m2
    try: exec(compile(open(path).read(), path, "exec"), {"__name__": "__main__", "exit": lambda *a: None})
    finally:
        for k, v in sv.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return names, out

CT = {"int": "int", "double": "double", "bool": "bool", "str": "std::string"}
def lit(t, v):
    if v is None: return "{}"
    if t == "bool": return "true" if v else "false"
    if t == "str": return '"%s"' % v
    return repr(v)
MT = {"float64": "double", "float32": "float", "Header": "std_msgs::Header", "int32": "int32_t", "uint32": "uint32_t", "bool": "bool", "string": "std::string"}

def main(out, repo):
    for f in FWD: put(f"{out}/{f}", "#pragma once\n#include <ros_stub.h>\n")
    for h in ("ros_stub.h", "tf_vector.h", "tf_transform.h"): put(f"{out}/{h}", open(f"{HERE}/{h}").read())
    params = {}
    for pkg in ("local_planner", "safe_landing_planner", "global_planner"):
        d = f"{repo}/{pkg}/cfg"
        for c in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if not c.endswith(".cfg"): continue
            names, ps = load_cfg(f"{d}/{c}")
            params[c] = ps
            ns = names["pkg"]; cls = names["name"] + "Config"
            body = "".join(f"  {CT[p['type']]} {p['name']} = {lit(p['type'], p['default'])};\n" for p in ps)
            put(f"{out}/{pkg}/{cls}.h", f"#pragma once\n#include <ros_stub.h>\nnamespace {ns} {{\nclass {cls} {{ public:\n{body}"
                f"  static const {cls}& __getDefault__() {{ static {cls} c; return c; }}\n}};\n}}\n")
        d = f"{repo}/{pkg}/msg"
        for c in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if not c.endswith(".msg"): continue
            cls = c[:-4]; body = ""
            for l in open(f"{d}/{c}"):
                l = l.split("#")[0].split()
                if len(l) < 2: continue
                t, n = l[0], l[1]; arr = t.endswith("[]"); t = t[:-2] if arr else t
                ct = MT.get(t) or t.replace("/", "::")
                body += f"  {'std::vector<%s>' % ct if arr else ct} {n}{{}};\n"
            put(f"{out}/{pkg}/{cls}.h", f"#pragma once\n#include <ros_stub.h>\nnamespace {pkg} {{\nstruct {cls} {{\n{body}  STUB_PTRS({cls})\n}};\nSTUB_FREEPTRS({cls})\n}}\n")
    return params
if __name__ == "__main__": main(sys.argv[1], sys.argv[2])
