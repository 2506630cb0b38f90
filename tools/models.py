"""The models: which specification, driver and generators decide which properties."""
import json
import os
import time

import vlib
from vlib import Finding, CheckError  # noqa: F401


class Model:
    name = ""
    props = ()   # decided by this model
    also = ()    # decided by another model first, by this one as well
    driver = ""
    trace_spec = ""
    trace_cfg = ""
    driver_timeout = 200
    env = {}
    technique = ("TLA+ specification checked with TLC; TLC-generated behaviours replayed on the real code and the "
                 "recorded traces validated against the specification by TLC")
    note = ""
    # (spec, cfg, walks per worker, depth) per tier
    gens = {"quick": [], "thorough": []}
    # (spec, cfg) of exhaustive model checking per tier
    mcs = {"quick": [], "thorough": []}

    covered = ()
    cover_mcs = ()

    def scripts_extra(self, tier, seed):
        return []

    def adapt(self, ops):
        return vlib.fix_ops(ops)

    def run(self, prop, tier, seed):
        vlib.build(self.driver)
        t0 = time.time()
        self.covered = self.cover_mcs = ()
        tasks = []
        for gi, (spec, cfg, num, depth) in enumerate(self.gens[tier]):
            for j in range(vlib.JOBS):
                tasks.append((spec, cfg, num, depth, seed * 100000 + sum(map(ord, prop)) % 97 * 1000 + gi * 100 + j))
        second = prop in self.also and tier == "quick"
        extra = [] if second else self.scripts_extra(tier, seed)
        chunks = [extra[i::vlib.JOBS] for i in range(vlib.JOBS)] if extra else []

        def one(t):
            if isinstance(t, list):
                scripts, tag = t, f"x{id(t)}"
            else:
                spec, cfg, num, depth, s = t
                scripts = [self.adapt(x) for x in vlib.generate(spec, cfg, num, depth, s)]
                tag = f"{cfg}-{s}"
            fs, st = vlib.conform(self, scripts, tag)
            return fs, st, scripts

        res = vlib.pmap(one, tasks + [c for c in chunks if c])
        findings = [f for r in res for f in r[0]]
        mine = [f for f in findings if f.prop == prop and not is_known(f)]
        mine.sort(key=lambda f: len(f.script))
        ok = []
        for f in mine[:8]:  # a rejection is reported only if it repeats
            fs, _ = vlib.conform(self, [f.script], "confirm")
            again = [g for g in fs if g.prop == prop and not is_known(g)]
            if again:
                f.model = self.name
                ok.append(f)
        if mine and not ok:
            vlib.log("not repeatable:", mine[0].what)
        mcs = list(self.cover_mcs)
        for spec, cfg in [] if second else self.mcs[tier]:
            m = vlib.model_check(spec, cfg)
            if not m["ok"]:
                raise CheckError(f"model checking {spec}/{cfg} failed:\n" + m["out"][-3000:])
            m.pop("out")
            mcs.append(m)
        cov = {
            "states": sum(m["states"] for m in mcs) + sum(r[1]["states"] for r in res),
            "transitions": sum(m["transitions"] for m in mcs) + sum(r[1]["events"] for r in res),
            "traces_validated_against_impl": sum(r[1]["traces"] for r in res),
            "events_validated": sum(r[1]["events"] for r in res),
            "model_checking_runs": mcs,
            "known_findings_seen": sum(1 for f in findings if f.prop == prop and is_known(f)),
            "other_properties_contradicted": sorted({f.prop for f in findings if not is_known(f)} - {prop}),
            "operations": self.op_counts(res),
            "samples": [[{k: v for k, v in e.items() if k in ("op", "c", "to", "out", "res", "calls", "i", "a", "b")}
                         for e in res[0][1]["sample"][:12]]] if res else [],
        }
        if self.covered:
            cov["graphs_covered"] = self.covered
        return ok, "model_checking", cov

    @staticmethod
    def op_counts(res):
        c = {}
        for r in res:
            for s in r[2]:
                for o in s:
                    c[o["op"]] = c.get(o["op"], 0) + 1
        return c


class RM(Model):
    name = "RM"
    props = ("H01", "H02", "H03", "H04", "H05", "H06", "H07")
    driver = "rm_driver"
    note = ("spec/RM.tla is explored exhaustively for small robots (RMMC) and bound to the real resource manager by "
            "replaying generated and covering behaviours; beyond the exhaustive bounds the evidence is the sampled "
            "behaviours. Trusts the ROS stand-ins in shim/ and the driver's projection of the state.")
    trace_spec = "RMTrace"
    trace_cfg = "RMTrace.cfg"
    gens = {"quick": [("RMGen", "RMGen.cfg", 40, 60)],
            "thorough": [("RMGen", "RMGen.cfg", 600, 60)]}
    mcs = {"quick": [("RMMC", "RMMC3.cfg"), ("RMMC", "RMMC4.cfg"), ("RMMC", "RMMC5.cfg")],
           "thorough": [("RMMC", "RMMC%d.cfg" % i) for i in (1, 2, 3, 4, 5)]}

    def scripts_extra(self, tier, seed):
        x = vlib.cover("RMMC", "RMMC5c.cfg")
        if tier == "thorough":
            x += vlib.cover("RMMC", "RMMC4c.cfg")
        return x


class HAS(Model):
    name = "HAS"
    props = ("H09",)
    driver = "rm_driver"
    note = ("spec/HAS.tla extends spec/RM.tla by components with a thread of their own; the point at which a triggered "
            "cycle runs is chosen by the generated behaviour. Trusts the ROS stand-ins in shim/, in particular its "
            "stand-in of the asynchronous handler.")
    trace_spec = "HASTrace"
    trace_cfg = "HASTrace.cfg"
    gens = {"quick": [("HASGen", "HASGen.cfg", 60, 60)],
            "thorough": [("HASGen", "HASGen.cfg", 1000, 60)]}
    mcs = {"quick": [("HASMC", "HASMC1.cfg")],
           "thorough": [("HASMC", "HASMC%d.cfg" % i) for i in (1, 2, 3)]}

    def scripts_extra(self, tier, seed):
        return vlib.cover("HASMC", "HASMC1c.cfg")


class CM(Model):
    name = "CM"
    props = ("M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "M09", "M11", "H08", "C02")
    also = ("H01", "H02", "H03", "H04", "H05", "H06")
    driver = "cm_driver"
    note = ("spec/CM.tla describes the controller manager over spec/RM.tla; generated behaviours are replayed on the real "
            "controller manager with scripted controllers and hardware, with a control loop on a thread of its own. "
            "Trusts the ROS stand-ins in shim/ and the driver's projection of the state.")
    trace_spec = "CMTrace"
    trace_cfg = "CMTrace.cfg"
    gens = {"quick": [("CMGen", "CMGen.cfg", 25, 60), ("CMGen", "CMGenS.cfg", 120, 4)],
            "thorough": [("CMGen", "CMGen.cfg", 400, 60), ("CMGen", "CMGenS.cfg", 1000, 4)]}

    mcs = {"quick": [],
           "thorough": [("CMMC", "CMMC%d.cfg" % i) for i in (2, 4, 5, 3, 6, 1)]}
    # graphs of which transitions are replayed, and how many of them
    covers = {"quick": [(2, 0, 9999), (4, 0, 700), (5, 0, 9999), (1, 0, 700), (3, 0, 300), (6, 0, 700)],
              "thorough": [(i, 0, 99999) for i in range(1, 7)] + [(2, 1, 99999), (5, 1, 60000), (4, 1, 60000)]}

    def scripts_extra(self, tier, seed):
        def one(c):
            robot, faults, limit = c
            return vlib.cover_walks("CMMC", "CMMC%dc%d.cfg" % (robot, faults), limit, seed)
        res = vlib.pmap(one, self.covers[tier])
        self.covered = [{"graph": "CMMC%dc%d" % c[:2], "transitions_replayed": r[1], "transitions": r[2]}
                        for c, r in zip(self.covers[tier], res)]
        self.cover_mcs = [r[3] for r in res]
        return [w for r in res for w in r[0]]

    def post(self, events):
        for e in events:
            if e["op"] == "START":
                seen = [c["c"] for c in e["calls"] if c["cb"] != "init"]
                names = [c["n"] for c in e["comps"]]
                e["order"] = sorted(names, key=lambda n: seen.index(n) if n in seen else 999)
        return events


class LIM(Model):
    name = "LIM"
    driver_timeout = 60
    props = ("L01", "L02")
    driver = "lim_driver"
    note = ("spec/LIM.tla gives the command a limiter lets through as a function of its history; the claims of the "
            "property are checked on it for every limit set, history and request of a small grid (LIMMC), and the real "
            "limiters are compared with it value by value on generated histories. Values are dyadic, so that the "
            "comparison is exact except behind the gains of the soft limits (2^-16).")
    trace_spec = "LIMTrace"
    trace_cfg = "LIMTrace.cfg"
    gens = {"quick": [("LIMGen", "LIMGen.cfg", 150, 50)],
            "thorough": [("LIMGen", "LIMGen.cfg", 3000, 50)]}
    mcs = {"quick": [("LIMMC", "LIMMC1q.cfg"), ("LIMMC", "LIMMC2q.cfg")],
           "thorough": [("LIMMC", "LIMMC1.cfg"), ("LIMMC", "LIMMC2.cfg")]}


class RL(Model):
    name = "RL"
    driver_timeout = 60
    props = ("L04",)
    driver = "rl_driver"
    note = ("spec/RL.tla gives the limits a joint of a robot description has and what reaches the hardware when a command "
            "is set through a loan and when the control loop enforces the limits (the limiting itself: LIM.tla); its claims "
            "are checked on a small grid (RLMC), and the real resource manager is compared with it value by value, as its "
            "hardware sees the commands, on generated robots and command histories.")
    trace_spec = "RLTrace"
    trace_cfg = "RLTrace.cfg"
    gens = {"quick": [("RLGen", "RLGen.cfg", 120, 60)],
            "thorough": [("RLGen", "RLGen.cfg", 3000, 60)]}
    mcs = {"quick": [("RLMC", "RLMC1.cfg")],
           "thorough": [("RLMC", "RLMC1.cfg"), ("RLMC", "RLMC2.cfg")]}


class RLC(RL):
    name = "RLC"
    driver = "rlc_driver"
    note = ("The same comparison for the limits in the control loop: controllers of the real controller manager set the "
            "commands, and what the hardware is given to write is compared with RL.tla cycle by cycle.")
    gens = {"quick": [("RLCGen", "RLCGen.cfg", 60, 40)],
            "thorough": [("RLCGen", "RLCGen.cfg", 1500, 40)]}
    mcs = {"quick": [], "thorough": []}

    def post(self, events):
        return [dict(x, _s=e["_s"], _k=e["_k"]) for e in events for x in e["ev"]]


class TRAJ(Model):
    name = "TRAJ"
    driver_timeout = 60
    props = ("L03",)
    driver = "lim_driver"
    note = ("spec/TRAJ.tla gives the trajectory point a limiter lets through; the claims of the property are checked on "
            "it for every point of a small grid of one and two joints (TRAJMC), and the real limiter is compared with it "
            "value by value (exactly: all values are dyadic) on generated points.")
    trace_spec = "TRAJTrace"
    trace_cfg = "TRAJTrace.cfg"
    gens = {"quick": [("TRAJGen", "TRAJGen.cfg", 400, 60)],
            "thorough": [("TRAJGen", "TRAJGen.cfg", 8000, 60)]}
    mcs = {"quick": [("TRAJMC", "TRAJMC1.cfg"), ("TRAJMC", "TRAJMC2.cfg")],
           "thorough": [("TRAJMC", "TRAJMC1.cfg"), ("TRAJMC", "TRAJMC2.cfg")]}


class PACE(Model):
    name = "PACE"
    props = ("X01",)
    driver = "loop_driver"
    note = ("spec/PACE.tla is the schedule of the control loop; its claims are checked for every sequence of cycle "
            "durations on a coarse clock (PACEMC), and the real control node (its main function, in virtual time, with a "
            "hardware component that takes as long as told) is compared with it cycle by cycle to the nanosecond.")
    trace_spec = "PACETrace"
    trace_cfg = "PACETrace.cfg"
    gens = {"quick": [("PACEGen", "PACEGen.cfg", 60, 60)],
            "thorough": [("PACEGen", "PACEGen.cfg", 1500, 60)]}
    mcs = {"quick": [("PACEMC", "PACEMC.cfg")], "thorough": [("PACEMC", "PACEMC.cfg")]}


class STAT(Model):
    name = "STAT"
    driver_timeout = 60
    props = ("K01",)
    driver = "stat_driver"
    note = ("spec/STAT.tla keeps count, sums and extremes of the finite samples since the last reset; that they describe "
            "the samples is checked for every history over a few values (STATMC), and the real statistics are compared "
            "with it after every operation of generated histories, also far from zero.")
    trace_spec = "STATTrace"
    trace_cfg = "STATTrace.cfg"
    gens = {"quick": [("STATGen", "STATGen.cfg", 300, 60)],
            "thorough": [("STATGen", "STATGen.cfg", 10000, 60)]}
    mcs = {"quick": [("STATMC", "STATMC.cfg")], "thorough": [("STATMC", "STATMC4.cfg")]}


class HND(Model):
    name = "HND"
    driver_timeout = 60
    props = ("D01",)
    driver = "handle_driver"
    note = ("spec/HND.tla keeps the values of handles, their copies, loans and locks; that holders of one handle agree and "
            "that nothing else changes is checked for every history of a small world (HNDMC), untorn reads under the lock "
            "protocol for every interleaving (HNDLOCK), and real handles, loans and component accessors are compared with "
            "the model after every operation of generated histories, with locks held by other threads.")
    trace_spec = "HNDTrace"
    trace_cfg = "HNDTrace.cfg"
    gens = {"quick": [("HNDGen", "HNDGen.cfg", 400, 60)],
            "thorough": [("HNDGen", "HNDGen.cfg", 10000, 60)]}
    mcs = {"quick": [("HNDMC", "HNDMC.cfg"), ("HNDLOCK", "HNDLOCK.cfg")],
           "thorough": [("HNDMC", "HNDMC.cfg"), ("HNDMC", "HNDMC3.cfg"), ("HNDLOCK", "HNDLOCK.cfg"), ("HNDLOCK", "HNDLOCK3.cfg")]}


class TR(Model):
    name = "TR"
    driver_timeout = 60
    props = ("T01", "T02")
    driver = "tr_driver"
    note = ("spec/TR.tla gives the maps of the three transmissions and which handle sets and descriptions they accept; that "
            "the maps are inverse and preserve power is checked for every geometry and value of a small grid (TRMC), that "
            "acceptance and roles do not depend on the order of handles for every small handle set (TRSET), and the real "
            "transmissions, made directly or by their loaders from parsed descriptions, are compared with the model value "
            "by value. Geometries are powers of two, so that the comparison is exact.")
    trace_spec = "TRTrace"
    trace_cfg = "TRTrace.cfg"
    gens = {"quick": [("TRGen", "TRGen.cfg", 300, 60)],
            "thorough": [("TRGen", "TRGen.cfg", 8000, 60)]}
    mcs = {"quick": [("TRMC", "TRMC.cfg"), ("TRSET", "TRSET.cfg")],
           "thorough": [("TRMC", "TRMC.cfg"), ("TRSET", "TRSET.cfg")]}


class CI(Model):
    name = "CI"
    driver_timeout = 60
    props = ("C01", "C03")
    driver = "ci_driver"
    note = ("spec/CI.tla describes one controller: lifecycle, update rate, chained mode, exports, loans; the claims are "
            "checked for every history over a few values (CIMC), and real controllers derived from the base classes are "
            "compared with it after every operation of generated histories.")
    trace_spec = "CITrace"
    trace_cfg = "CITrace.cfg"
    gens = {"quick": [("CIGen", "CIGen.cfg", 400, 60)],
            "thorough": [("CIGen", "CIGen.cfg", 10000, 60)]}
    mcs = {"quick": [("CIMC", "CIMC.cfg")], "thorough": [("CIMC", "CIMC.cfg")]}


class MK(Model):
    name = "MK"
    driver_timeout = 60
    props = ("G01",)
    driver = "mock_driver"
    note = ("spec/MK.tla describes what a read of the mock hardware does to its states for any description, commands and "
            "modes, and which mode changes it accepts; MKMC checks claims about it for small descriptions, and the "
            "real mock hardware, loaded by the real resource manager, is compared with it after every operation.")
    trace_spec = "MKTrace"
    trace_cfg = "MKTrace.cfg"
    gens = {"quick": [("MKGen", "MKGen.cfg", 150, 60)],
            "thorough": [("MKGen", "MKGen.cfg", 4000, 60)]}
    mcs = {"quick": [("MKMC", "MKMC3.cfg")], "thorough": [("MKMC", "MKMC.cfg")]}


class SP(Model):
    name = "SP"
    driver_timeout = 60
    props = ("S01", "S02")
    driver = "sp_driver.py"
    note = ("spec/SP.tla describes the spawner, unspawner and hardware spawner as processes making requests of a controller "
            "manager shared with others; SPMC checks claims about several of them at once, and the real programs are run "
            "in full for generated arguments, controller states and failures and compared with it.")
    trace_spec = "SPTrace"
    trace_cfg = "SPTrace.cfg"
    gens = {"quick": [("SPGen", "SPGen.cfg", 150, 25)],
            "thorough": [("SPGen", "SPGen.cfg", 4000, 25)]}
    mcs = {"quick": [("SPMC", "SPMC1.cfg")], "thorough": [("SPMC", "SPMC1.cfg"), ("SPMC", "SPMC2.cfg"), ("SPMC", "SPMC3.cfg")]}


MODELS = [RM(), HAS(), CM(), LIM(), TRAJ(), PACE(), STAT(), HND(), TR(), CI(), MK(), SP(), RL(), RLC()]
NOT_APPLICABLE = {}


def all_targets():
    return sorted({m.driver for m in MODELS if m.driver})


def models_of(prop):
    ms = [m for m in MODELS if prop in m.props] + [m for m in MODELS if prop in m.also]
    if not ms:
        raise CheckError("no model decides " + prop)
    return ms


def run(prop, tier, seed):
    findings, cov, level = [], None, None
    for m in models_of(prop):
        fs, level, c = m.run(prop, tier, seed)
        findings += fs
        c["models"] = [m.name]
        if cov is None:
            cov = c
            continue
        for k, v in c.items():
            if k == "operations":
                for o, n in v.items():
                    cov[k][o] = cov[k].get(o, 0) + n
            elif isinstance(v, (int, float, list)):
                cov[k] = cov[k] + v
    return findings, level, cov


def known(prop):
    out = []
    p = os.path.join(vlib.VERIF, "known_findings.txt")
    for line in open(p):
        line = line.strip()
        if line and not line.startswith("#") and not line.startswith("fixed:"):
            k = json.loads(line)
            if k["property"] == prop:
                out.append(k)
    return out


def is_known(f):
    return any(all(x in f.what for x in k["match"]) for k in known(f.prop))


def replay(prop, path):
    r = json.load(open(path))
    m = next(m for m in models_of(prop) if m.name == r["model"] or not r["model"])
    vlib.build(m.driver)
    fs, _ = vlib.conform(m, [r["script"]], "replay")
    fs = [f for f in fs if f.prop == prop and not is_known(f)]
    for f in fs:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(f.what)
    return 1 if fs else 0
