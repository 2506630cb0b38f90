#!/usr/bin/env python3
"""Generate C++ message/service structs: the standard messages from the table below, the repository's
own (controller_manager_msgs) from its .msg/.srv files.   usage: gen_msgs.py REPO OUTDIR"""
import os, re, sys
STD = {
 "builtin_interfaces/Time": "int32 sec\nuint32 nanosec",
 "builtin_interfaces/Duration": "int32 sec\nuint32 nanosec",
 "std_msgs/Header": "builtin_interfaces/Time stamp\nstring frame_id",
 "std_msgs/String": "string data",
 "std_msgs/Bool": "bool data",
 "std_msgs/Float64": "float64 data",
 "std_msgs/ColorRGBA": "float32 r\nfloat32 g\nfloat32 b\nfloat32 a",
 "std_msgs/Float64MultiArray": "float64[] data",
 "lifecycle_msgs/State": "uint8 PRIMARY_STATE_UNKNOWN=0\nuint8 PRIMARY_STATE_UNCONFIGURED=1\nuint8 PRIMARY_STATE_INACTIVE=2\n"
   "uint8 PRIMARY_STATE_ACTIVE=3\nuint8 PRIMARY_STATE_FINALIZED=4\nuint8 TRANSITION_STATE_CONFIGURING=10\n"
   "uint8 TRANSITION_STATE_CLEANINGUP=11\nuint8 TRANSITION_STATE_SHUTTINGDOWN=12\nuint8 TRANSITION_STATE_ACTIVATING=13\n"
   "uint8 TRANSITION_STATE_DEACTIVATING=14\nuint8 TRANSITION_STATE_ERRORPROCESSING=15\nuint8 id\nstring label",
 "lifecycle_msgs/Transition": "uint8 TRANSITION_CONFIGURE=1\nuint8 TRANSITION_CLEANUP=2\nuint8 TRANSITION_ACTIVATE=3\nuint8 TRANSITION_DEACTIVATE=4\nuint8 id\nstring label",
 "geometry_msgs/Vector3": "float64 x\nfloat64 y\nfloat64 z",
 "geometry_msgs/Point": "float64 x\nfloat64 y\nfloat64 z",
 "geometry_msgs/Quaternion": "float64 x\nfloat64 y\nfloat64 z\nfloat64 w 1",
 "geometry_msgs/Pose": "geometry_msgs/Point position\ngeometry_msgs/Quaternion orientation",
 "geometry_msgs/Wrench": "geometry_msgs/Vector3 force\ngeometry_msgs/Vector3 torque",
 "geometry_msgs/WrenchStamped": "std_msgs/Header header\ngeometry_msgs/Wrench wrench",
 "sensor_msgs/Imu": "std_msgs/Header header\ngeometry_msgs/Quaternion orientation\nfloat64[9] orientation_covariance\n"
   "geometry_msgs/Vector3 angular_velocity\nfloat64[9] angular_velocity_covariance\n"
   "geometry_msgs/Vector3 linear_acceleration\nfloat64[9] linear_acceleration_covariance",
 "sensor_msgs/MagneticField": "std_msgs/Header header\ngeometry_msgs/Vector3 magnetic_field\nfloat64[9] magnetic_field_covariance",
 "sensor_msgs/NavSatStatus": "int8 STATUS_UNKNOWN=-2\nint8 STATUS_NO_FIX=-1\nint8 STATUS_FIX=0\nuint16 SERVICE_UNKNOWN=0\nuint16 SERVICE_GPS=1\nint8 status -2\nuint16 service",
 "sensor_msgs/NavSatFix": "uint8 COVARIANCE_TYPE_UNKNOWN=0\nuint8 COVARIANCE_TYPE_APPROXIMATED=1\nuint8 COVARIANCE_TYPE_DIAGONAL_KNOWN=2\nuint8 COVARIANCE_TYPE_KNOWN=3\n"
   "std_msgs/Header header\nsensor_msgs/NavSatStatus status\nfloat64 latitude\n"
   "float64 longitude\nfloat64 altitude\nfloat64[9] position_covariance\nuint8 position_covariance_type",
 "sensor_msgs/Range": "uint8 ULTRASOUND=0\nuint8 INFRARED=1\nstd_msgs/Header header\nuint8 radiation_type\nfloat32 field_of_view\nfloat32 min_range\nfloat32 max_range\nfloat32 range\nfloat32 variance",
 "trajectory_msgs/JointTrajectoryPoint": "float64[] positions\nfloat64[] velocities\nfloat64[] accelerations\nfloat64[] effort\nbuiltin_interfaces/Duration time_from_start",
 "trajectory_msgs/JointTrajectory": "std_msgs/Header header\nstring[] joint_names\ntrajectory_msgs/JointTrajectoryPoint[] points",
 "diagnostic_msgs/KeyValue": "string key\nstring value",
 "diagnostic_msgs/DiagnosticStatus": "uint8 OK=0\nuint8 WARN=1\nuint8 ERROR=2\nuint8 STALE=3\nuint8 level\nstring name\nstring message\nstring hardware_id\ndiagnostic_msgs/KeyValue[] values",
 "diagnostic_msgs/DiagnosticArray": "std_msgs/Header header\ndiagnostic_msgs/DiagnosticStatus[] status",
 "control_msgs/GenericHardwareState": "uint8 health_status\nstring[] error_domain\nuint8 operational_mode\nuint8 power_state",
 "control_msgs/HardwareDeviceStatus": "string device_id\ncontrol_msgs/GenericHardwareState[] hardware_status",
 "control_msgs/HardwareStatus": "std_msgs/Header header\nstring hardware_id\ncontrol_msgs/HardwareDeviceStatus[] hardware_device_states",
 "rcl_interfaces/ParameterDescriptor": "string name\nuint8 type\nstring description\nstring additional_constraints\nbool read_only\nbool dynamic_typing\n"
   "rcl_interfaces/FloatingPointRange[] floating_point_range\nrcl_interfaces/IntegerRange[] integer_range",
 "rcl_interfaces/FloatingPointRange": "float64 from_value\nfloat64 to_value\nfloat64 step",
 "rcl_interfaces/IntegerRange": "int64 from_value\nint64 to_value\nuint64 step",
 "rcl_interfaces/SetParametersResult": "bool successful\nstring reason",
}
PRIM = {"bool": "bool", "byte": "uint8_t", "char": "uint8_t", "float32": "float", "float64": "double", "string": "std::string",
        "wstring": "std::u16string", **{f"{s}int{n}": f"{s}int{n}_t" for s in ("", "u") for n in (8, 16, 32, 64)}}
def snake(n):
    n = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", n)
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n).lower()
def struct(pkg, name, text, local):
    inc, consts, fields = set(), [], []
    for line in text.split("\n"):
        line = re.sub(r"#.*", "", line).strip()
        if not line: continue
        m = re.match(r"([\w/<>=]+?)(\[[<=\d]*\])?\s+(\w+)\s*=\s*(.+)$", line)
        if m and m.group(3).isupper():
            t = PRIM[m.group(1)]
            v = m.group(4).strip()
            consts.append(f"  static constexpr {t if t != 'std::string' else 'const char *'} {m.group(3)} = {v};")
            continue
        parts = line.split(None, 2)
        t, n, dflt = parts[0], parts[1], parts[2] if len(parts) > 2 else None
        m = re.match(r"([\w/]+)(?:<=\d+)?(\[([<=\d]*)\])?$", t)
        base, arr, size = m.group(1), m.group(2), m.group(3)
        if base in PRIM: ct = PRIM[base]
        else:
            if "/" not in base: base = local + "/" + base
            p, b = base.split("/")[0], base.split("/")[-1]
            ct = f"{p}::msg::{b}"; inc.add(f"{p}/msg/{snake(b)}.hpp")
        if arr is None:
            fields.append((ct, n, dflt if dflt else ("0" if base in PRIM and ct not in ("std::string", "bool", "std::u16string") else ("false" if ct == "bool" else ""))))
        elif size and size.isdigit(): fields.append((f"std::array<{ct}, {size}>", n, ""))
        else: fields.append((f"std::vector<{ct}>", n, ""))
    o = [f"struct {name}", "{"]
    o += [f"  using SharedPtr = std::shared_ptr<{name}>;", f"  using ConstSharedPtr = std::shared_ptr<const {name}>;", f"  using UniquePtr = std::unique_ptr<{name}>;"]
    o += consts
    for ct, n, d in fields:
        o.append(f"  using _{n}_type = {ct};")
        o.append(f"  {ct} {n}{{{d}}};")
    for ct, n, d in fields:
        o.append(f"  {name} & set__{n}(const {ct} & v) {{ {n} = v; return *this; }}")
    o.append(f"  bool operator==(const {name} & o) const {{ return true{''.join(f' && {n} == o.{n}' for _, n, _ in fields)}; (void)o; }}")
    o.append(f"  bool operator!=(const {name} & o) const {{ return !(*this == o); }}")
    o.append("};")
    return inc, "\n".join(o)
def emit(out, pkg, kind, name, inc, body):
    d = os.path.join(out, pkg, kind); os.makedirs(d, exist_ok=True)
    txt = "#pragma once\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n"
    txt += "".join(f'#include "{i}"\n' for i in sorted(inc)) + f"namespace {pkg}::{kind}\n{{\n{body}\n}}\n"
    p = os.path.join(d, snake(name) + ".hpp")
    if not (os.path.exists(p) and open(p).read() == txt): open(p, "w").write(txt)
def main(repo, out):
    for k, text in STD.items():
        pkg, name = k.split("/")
        inc, body = struct(pkg, name, text, pkg); emit(out, pkg, "msg", name, inc, body)
    base = os.path.join(repo, "controller_manager_msgs"); pkg = "controller_manager_msgs"
    for f in sorted(os.listdir(base + "/msg")):
        if f.endswith(".msg"):
            inc, body = struct(pkg, f[:-4], open(f"{base}/msg/{f}").read(), pkg); emit(out, pkg, "msg", f[:-4], inc, body)
    for f in sorted(os.listdir(base + "/srv")):
        if f.endswith(".srv"):
            name = f[:-4]; lines = open(f"{base}/srv/{f}").read().split("\n")
            i = next(i for i, l in enumerate(lines) if l.strip() == "---")
            i1, b1 = struct(pkg, name + "_Request", "\n".join(lines[:i]), pkg)
            i2, b2 = struct(pkg, name + "_Response", "\n".join(lines[i + 1:]), pkg)
            emit(out, pkg, "srv", name, i1 | i2, f"{b1}\n{b2}\nstruct {name} {{ using Request = {name}_Request; using Response = {name}_Response; }};")
main(sys.argv[1], sys.argv[2])
