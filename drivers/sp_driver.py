"""Runs the real spawner, unspawner and hardware spawner against a pretended controller manager.

The ROS client library, the message packages and the file lock are stand-ins defined here; every
request is recorded, and answered by a small controller manager or as the script asks for."""
import json
import os
import shutil
import sys
import tempfile
import time
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "controller_manager"))
SCRATCH = tempfile.mkdtemp(prefix="sp_driver")
os.environ["ROS_HOME"] = SCRATCH


class Bag:
    def __init__(self, **k):
        self.__dict__.update(k)


def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    sys.modules[name] = m
    p, _, c = name.rpartition(".")
    if p:
        setattr(sys.modules[p], c, m)
    return m


def service(name, **consts):
    class Request(Bag):
        pass
    for k, v in consts.items():
        setattr(Request, k, v)
    return type(name, (), {"Request": Request, "name": name})


class W:  # the world: controllers and hardware with their states, and the current run
    ctl, hw, par, calls, faults, used, ns = {}, {}, [], [], {}, set(), "/"
    held = []
    nodes, locks, pending, waits, lock_fails, waiting, down = 0, 0, None, 0, 0, False, False


class Unanswered:
    def result(self):
        return None


class Answered:
    def __init__(self, r):
        self.r = r

    def result(self):
        return self.r


def key_of(srv, r):
    if srv == "ListControllers":
        return "list"
    if srv == "ListHardwareComponents":
        return "hwlist"
    if srv == "SwitchController":
        c = list(r.activate_controllers) or list(r.deactivate_controllers)
        return ("act." if r.activate_controllers else "dea.") + (c[0] if len(c) == 1 else "*")
    if srv == "SetParameters":
        n = r.parameters[0].name
        return "par." + n
    short = {"LoadController": "load", "ConfigureController": "conf", "UnloadController": "unl", "SetHardwareComponentState": "hw"}
    return short.get(srv, srv) + "." + r.name


def tidy(v):
    """parameter values with the scratch directory taken out"""
    return str(v).replace(SCRATCH + "/", "")


def record(cm, srv, r):
    k = key_of(srv, r)
    e = {"k": k, "cm": cm}
    if srv == "SwitchController":
        to = r.timeout
        e.update(act=list(r.activate_controllers), dea=list(r.deactivate_controllers), strict=int(r.strictness),
                 asap=bool(r.activate_asap), to=int(to))
    if srv == "SetParameters":
        e["v"] = tidy(r.parameters[0].value)
    if srv == "SetHardwareComponentState":
        e["v"] = [int(r.target_state.id), r.target_state.label]
    return e


def effect(srv, r):
    c = W.ctl
    if srv == "ListControllers":
        return Bag(controller=[Bag(name=n, state={"U": "unconfigured", "I": "inactive", "A": "active"}[s]) for n, s in c.items()])
    if srv == "ListHardwareComponents":
        return Bag(component=[Bag(name=n) for n in W.hw])
    if srv == "LoadController":
        ok = r.name not in c
        if ok:
            c[r.name] = "U"
    elif srv == "ConfigureController":
        ok = c.get(r.name) in ("U", "I")
        if ok:
            c[r.name] = "I"
    elif srv == "UnloadController":
        ok = c.get(r.name) in ("U", "I")
        if ok:
            del c[r.name]
    elif srv == "SwitchController":
        a, d = list(r.activate_controllers), list(r.deactivate_controllers)
        ok = all(c.get(n) == "I" for n in a) and all(c.get(n) == "A" for n in d)
        if ok:
            c.update({n: "A" for n in a})
            c.update({n: "I" for n in d})
    elif srv == "SetParameters":
        W.par.append([r.parameters[0].name, tidy(r.parameters[0].value)])
        return Bag(results=[Bag(successful=True)])
    elif srv == "SetHardwareComponentState":
        ok = r.name in W.hw
        if ok:
            W.hw[r.name] = r.target_state.label
        return Bag(ok=ok, state=r.target_state)
    return Bag(ok=ok)


def refusal(srv, r):
    if srv == "SetParameters":
        return Bag(results=[Bag(successful=False)])
    return Bag(ok=False, state=Bag())


class Client:
    def __init__(self, typ, name):
        self.typ, self.name = typ, name
        self.cm, self.srv = name.rsplit("/", 1)

    def gone(self):
        # the service of a fault "gone" is not there; the key does not matter, only the service does
        short = {"ListControllers": "list", "ListHardwareComponents": "hwlist", "LoadController": "load", "ConfigureController": "conf",
                 "UnloadController": "unl"}.get(self.typ.name)
        return W.faults.get("gone." + short) == "gone" if short else False

    def service_is_ready(self):
        return not self.gone() and not W.down

    def wait_for_service(self, t=None):
        if W.down:
            return False
        return not self.gone()

    def call_async(self, r):
        e = record(self.cm, self.typ.name, r)
        again = W.pending is r
        if not again and e["k"] not in ("list", "hwlist"):
            W.calls.append(e)
            W.held.append(W.locks > 0)
        W.pending = r
        f = W.faults.get(e["k"], "")
        first = e["k"] not in W.used
        W.used.add(e["k"])
        if f == "lost":
            return Unanswered()
        if f == "late" and first:
            effect(self.typ.name, r)
            return Unanswered()
        if f == "int0" and first:
            return "int"
        if f == "int1" and first:
            effect(self.typ.name, r)
            return "int"
        if f == "no" and first:
            W.pending = None
            return Answered(refusal(self.typ.name, r))
        W.pending = None
        return Answered(effect(self.typ.name, r))


def spin_until_future_complete(node, future, executor=None, timeout_sec=None):
    if future == "int":
        raise KeyboardInterrupt()


class Node:
    def __init__(self, name, *a, **k):
        self.name = name
        W.nodes += 1

    def get_namespace(self):
        return W.ns

    def get_name(self):
        return self.name

    def get_logger(self):
        return Log()

    def create_client(self, typ, name):
        return Client(typ, name)

    def destroy_node(self):
        W.nodes -= 1


class Log:
    def __getattr__(self, n):
        return lambda *a, **k: None


class Timeout(Exception):
    pass


class FileLock:
    def __init__(self, path, *a, **k):
        assert path.startswith(SCRATCH), path
        self.held = False

    @property
    def is_locked(self):
        return self.held

    def acquire(self, timeout=None, **k):
        if W.lock_fails > 0:
            W.lock_fails -= 1
            raise Timeout()
        self.held = True
        W.locks += 1

    def release(self, force=False):
        if self.held:
            W.locks -= 1
        self.held = False


class Endless(Exception):
    pass


def sleep(t):
    if W.nodes:  # nothing left to do but wait
        W.waiting = True
        W.waits += 1
        W.held_while_waiting = W.locks > 0
        if W.waits == 3:
            raise KeyboardInterrupt()
        if W.waits > 50:
            raise Endless()


def remove_ros_args(args=None):
    out, ros = [], False
    for a in args:
        if a == "--ros-args":
            ros = True
        elif ros and a == "--":
            ros = False
        elif not ros:
            out.append(a)
    return out


class Duration:
    def __init__(self, seconds=0):
        self.s = seconds

    def to_msg(self):
        return self.s


module("rclpy", init=lambda *a, **k: None, shutdown=lambda *a, **k: None, spin_until_future_complete=spin_until_future_complete, ok=lambda: True)
module("rclpy.utilities", remove_ros_args=remove_ros_args)
module("rclpy.logging", get_logger=lambda n: Log())
module("rclpy.node", Node=Node)
module("rclpy.duration", Duration=Duration)
module("rclpy.signals", SignalHandlerOptions=Bag(NO=0))
module("rclpy.parameter", get_parameter_value=lambda string_value: string_value)
module("filelock", FileLock=FileLock, Timeout=Timeout)
module("controller_manager_msgs")
module("controller_manager_msgs.srv", SwitchController=service("SwitchController", BEST_EFFORT=1, STRICT=2, AUTO=3, FORCE_AUTO=4),
       **{n: service(n) for n in ("ConfigureController", "ListControllers", "ListControllerTypes", "ListHardwareComponents",
                                  "ListHardwareInterfaces", "LoadController", "ReloadControllerLibraries", "SetHardwareComponentState",
                                  "UnloadController", "CleanupController")})
module("rcl_interfaces")
module("rcl_interfaces.msg", Parameter=Bag)
module("rcl_interfaces.srv", SetParameters=service("SetParameters"))


class State(Bag):
    PRIMARY_STATE_UNKNOWN, PRIMARY_STATE_UNCONFIGURED, PRIMARY_STATE_INACTIVE, PRIMARY_STATE_ACTIVE, PRIMARY_STATE_FINALIZED = range(5)


module("lifecycle_msgs")
module("lifecycle_msgs.msg", State=State)
time.sleep = sleep

from controller_manager import spawner, unspawner, hardware_spawner  # noqa: E402
from controller_manager import controller_manager_services as services  # noqa: E402

# files a parameter file option can name: one per controller, one for all, one for others
for n in ("c1", "c2", "c3"):
    with open(os.path.join(SCRATCH, n + ".yaml"), "w") as f:
        f.write("%s:\n  ros__parameters:\n    type: pkg/%s\n    fallback_controllers: [fb_%s]\n" % (n, n, n))
with open(os.path.join(SCRATCH, "wild.yaml"), "w") as f:
    f.write("/**:\n  ros__parameters:\n    type: pkg/any\n")
with open(os.path.join(SCRATCH, "ns.yaml"), "w") as f:
    f.write("/ns/c1:\n  ros__parameters:\n    type: pkg/ns1\n/**/c2:\n  ros__parameters:\n    type: pkg/any2\n")
with open(os.path.join(SCRATCH, "other.yaml"), "w") as f:
    f.write("someone_else:\n  ros__parameters:\n    type: pkg/else\n")


def argv_spawner(o):
    glob = []
    if o["cm"]:
        glob += ["-c", o["cm"]]
    if o["group"]:
        glob += ["--activate-as-group"]
    if o["unl"]:
        glob += ["-u"]
    if o["asap"] != "default":
        glob += ["--switch-asap" if o["asap"] == "yes" else "--no-switch-asap"]
    glob += ["--controller-manager-timeout", "5"] + (["--switch-timeout", str(o["to"])] if o["to"] != 5 else [])

    def own(c):
        a = []
        for p in c["pf"]:
            a += ["-p", os.path.join(SCRATCH, p)]
        for r in c["ra"]:
            a += ["--controller-ros-args", " ".join(r)]
        return a + (["--load-only"] if c["lo"] else []) + (["--inactive"] if c["ina"] else [])

    cs = o["ctls"]
    if o["adv"]:
        a = [x for c in cs for x in ["--controller", c["n"]] + own(c)]
    else:
        a = [c["n"] for c in cs] + own(cs[0])
    a = a + glob if o["last"] else glob + a
    if o["rpf"]:
        a += ["--ros-args", "--params-file", os.path.join(SCRATCH, o["rpf"])]
    return a


def step(o):
    if o["op"] == "RESET":
        W.ctl, W.hw = {}, {}
        return {"res": "OK"}
    if o["op"] == "EXT":
        for n in o["ctl"]:
            if o["ctl"][n] == "-":
                W.ctl.pop(n, None)
            else:
                W.ctl[n] = o["ctl"][n]
        W.hw = {n: "unconfigured" for n in o["hw"]}
        return {"res": "OK"}
    W.held = []
    W.par, W.calls, W.used, W.pending, W.waits, W.waiting, W.held_while_waiting = [], [], set(), None, 0, False, False
    W.nodes = W.locks = 0
    W.ns, W.lock_fails = o.get("ns", "/"), o.get("lockf", 0)
    W.faults = {f["k"]: f["f"] for f in o["faults"]}
    services.SingletonServiceCaller._clients.clear()
    if o["op"] == "SPAWN":
        argv, main = argv_spawner(o), spawner.main
    elif o["op"] == "UNSPAWN":
        argv, main = o["names"] + (["-c", o["cm"]] if o["cm"] else []) + (["--switch-timeout", str(o["to"])] if o["to"] != 5 else []), unspawner.main
    else:
        argv = o["names"] + (["-c", o["cm"]] if o["cm"] else []) + ["--controller-manager-timeout", "5"] + ["--" + o["what"]]
        main = hardware_spawner.main
    sys.argv = ["prog"] + argv
    err = sys.stderr
    try:
        sys.stderr = open(os.devnull, "w")
        r = main()
        code = 0 if r in (None, 0) else 1
        why = ""
    except SystemExit as e:
        code, why = (0 if e.code in (None, 0) else 1), "exit %s" % e.code
    except (Exception, KeyboardInterrupt) as e:
        code, why = 1, "%s: %s" % (type(e).__name__, e)
    finally:
        sys.stderr.close()
        sys.stderr = err
    return {"res": code, "why": tidy(why), "calls": W.calls, "par": W.par, "ctl": dict(W.ctl), "hws": dict(W.hw), "waited": W.waiting,
            "held": W.held, "lockw": W.held_while_waiting, "lock": W.locks, "node": W.nodes}


def run():
    with open(sys.argv[1]) as f:
        ops = [json.loads(x) for x in f if x.strip()]
    out = open(sys.argv[2], "w")
    import signal
    signal.signal = lambda *a: None
    for o in ops:
        e = dict(o)
        e.update(step(o))
        out.write(json.dumps(e) + "\n")
        out.flush()


try:
    run()
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
