"""Common machinery: build the drivers from /repo's working tree, let TLC generate behaviours from a
specification, replay them through a driver, let TLC validate what the driver recorded, report."""
import concurrent.futures as cf
import fcntl
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "work"))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ build
def build(*targets):
    targets = [t for t in targets if not t.endswith(".py")]
    if not targets:
        return
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        for attempt in (0, 1):
            r = subprocess.run(
                ["cmake", "-S", VERIF, "-B", BUILD, "-G", "Ninja", "-DREPO=" + REPO, "-DCMAKE_BUILD_TYPE=None"],
                capture_output=True, text=True)
            if r.returncode == 0:
                r = subprocess.run(["ninja", "-C", BUILD, "-k", "0", *targets], capture_output=True, text=True)
            if r.returncode == 0:
                break
            if attempt == 0:  # a stale build tree must not fail a check
                keep = os.path.join(BUILD, "CMakeCache.txt")
                if os.path.exists(keep):
                    os.remove(keep)
                shutil.rmtree(os.path.join(BUILD, "CMakeFiles"), ignore_errors=True)
        if r.returncode != 0:
            raise CheckError("build failed:\n" + (r.stdout + r.stderr)[-6000:])
        log(f"[build] {' '.join(targets)} {time.time() - t0:.1f}s")


# ------------------------------------------------------------------ TLC
def tlc(spec, cfg, *extra, env=None, timeout=800, heap="3g", workers="1", tag=""):
    d = os.path.join(WORK, "tlc", f"{spec}-{cfg}-{tag}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(d, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-cp", TLA_CP,
           "-Djava.io.tmpdir=" + d, "tlc2.TLC", "-config", cfg, "-metadir", d, "-workers", str(workers), *extra, spec + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out = r.stdout + r.stderr
        rc = r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        out += "\n@@TIMEOUT"
        rc = -1
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def generate(spec, cfg, num, depth, seed, timeout=600):
    """Behaviours of a generator module: list of scripts (lists of operations)."""
    rc, out = tlc(spec, cfg, "-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed), timeout=timeout,
                  tag=f"g{seed}")
    res = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            res.append(json.loads(json.loads(line)[2:]))
    if rc != 0 or not res:
        raise CheckError(f"generator {spec}/{cfg} failed (rc {rc}):\n" + out[-3000:])
    return res


def cover(spec, cfg, timeout=600):
    """Every transition of an exhaustively explored model, as scripts."""
    rc, out = tlc(spec, cfg, timeout=timeout, tag="cover")
    if "Model checking completed. No error has been found" not in out:
        raise CheckError(f"covering {spec}/{cfg} failed:\n" + out[-3000:])
    return [fix_ops(json.loads(json.loads(x)[2:])) for x in out.splitlines() if x.startswith('"@@')]


def cover_walks(spec, cfg, limit, seed, length=120, timeout=600):
    """Walks over the graph of an exhaustively explored model that take every transition at least once (limit:
    number of transitions to stop after, drawn at random)."""
    rc, out = tlc(spec, cfg, timeout=timeout, tag="cover")
    if "Model checking completed. No error has been found" not in out:
        raise CheckError(f"covering {spec}/{cfg} failed:\n" + out[-3000:])
    rnd = random.Random(seed)
    todo, succ, init, pre = {}, {}, None, None
    total = 0
    for x in out.splitlines():
        if x.startswith('"@I'):
            init, pre = json.loads(json.loads(x)[2:])
        elif x.startswith('"@@'):
            a, b, o = json.loads(json.loads(x)[2:])
            todo.setdefault(a, []).append((b, o))
            total += 1
    for a in todo:
        todo[a].sort(key=lambda e: json.dumps(e, sort_keys=True))
        rnd.shuffle(todo[a])
        succ[a] = {}
        for b, o in todo[a]:
            succ[a].setdefault(b, o)
    left = total

    def nearest(s):
        prev, q = {s: None}, [s]
        for u in q:
            if todo.get(u):
                path = []
                while prev[u] is not None:
                    path.append((u, prev[u][1]))
                    u = prev[u][0]
                return path[::-1]
            for v, o in succ.get(u, {}).items():
                if v not in prev:
                    prev[v] = (u, o)
                    q.append(v)
        return None

    walks, taken = [], 0
    while left and taken < limit:
        ops, s = [], init
        while len(ops) < length and taken < limit:
            path = nearest(s)
            if path is None:
                break
            if path and ops and len(ops) + len(path) > length:
                break
            for v, o in path:
                ops.append(o)
                s = v
            s, o = todo[s].pop()
            ops.append(o)
            left -= 1
            taken += 1
        if not ops:
            break
        walks.append(fix_ops(pre + ops))
    gen, dist = tlc_counts(out)
    return walks, taken, total, {"spec": spec, "cfg": cfg, "ok": True, "states": dist, "transitions": gen}


def model_check(spec, cfg, timeout=700, workers=None, heap="8g", extra=()):
    t0 = time.time()
    rc, out = tlc(spec, cfg, *extra, timeout=timeout, workers=workers or JOBS, heap=heap, tag="mc")
    gen, dist = tlc_counts(out)
    ok = "Model checking completed. No error has been found" in out
    return {"spec": spec, "cfg": cfg, "ok": ok, "states": dist, "transitions": gen,
            "seconds": round(time.time() - t0, 1), "out": out if not ok else ""}


# ------------------------------------------------------------------ drivers
def fix_ops(ops):
    """TLA+ has no empty record: an empty function arrives as an empty array."""
    for o in ops:
        for k in ("out",):
            if k in o and o[k] == []:
                o[k] = {}
    return ops


def run_driver(driver, scripts, tag, timeout=300, env=None, args=()):
    """Runs scripts one after the other.  Returns (events, crashes): events is a list of recorded
    events in order with key _s = script index and _k = index of the operation in its script."""
    d = os.path.join(WORK, "run", tag)
    os.makedirs(d, exist_ok=True)
    events, crashes, first = [], [], 0
    flat = [(i, k, o) for i, s in enumerate(scripts) for k, o in enumerate(s)]
    pos = 0
    e = dict(os.environ)
    e.update(env or {})
    while pos < len(flat):
        sp, op = os.path.join(d, "script.json"), os.path.join(d, "out.json")
        with open(sp, "w") as f:
            for _, _, o in flat[pos:]:
                f.write(json.dumps(o) + "\n")
        if os.path.exists(op):
            os.remove(op)
        why = ""
        try:
            cmd = [sys.executable, os.path.join(VERIF, "drivers", driver)] if driver.endswith(".py") else [os.path.join(BUILD, driver)]
            r = subprocess.run([*cmd, sp, op, *args], env=dict(e, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True,
                               timeout=timeout)
            rc = r.returncode
            why = (r.stderr or "")[-1500:]
        except subprocess.TimeoutExpired:
            rc, why = "hang", "no end within %d s" % timeout
        n = 0
        if os.path.exists(op):
            with open(op) as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    ev = json.loads(line)
                    ev["_s"], ev["_k"] = flat[pos + n][0], flat[pos + n][1]
                    events.append(ev)
                    n += 1
        if rc == 0 and n == len(flat) - pos:
            break
        if rc == 2:
            raise CheckError(f"driver {driver} misused: {why}")
        if n >= len(flat) - pos:  # crash at the very end (destruction)
            crashes.append((flat[-1][0], flat[-1][1], f"{rc} after the last operation: {why}"))
            break
        si, k, o = flat[pos + n]
        crashes.append((si, k, f"{rc} in {json.dumps(o)[:300]}: {why}"))
        first = si + 1
        nxt = [j for j in range(pos + n, len(flat)) if flat[j][0] >= first]
        if not nxt or len(crashes) > 20 or rc == "hang":
            break
        pos = nxt[0]
    return events, crashes


BAD = re.compile(r'<<"BAD", "\{(.*?)\}", (\d+)(?:, (.*))?>>')


def validate(spec, cfg, events, tag, timeout=700, heap="3g", workers="1"):
    """Lets TLC check recorded events.  Returns (list of (index, set of properties, note), states)."""
    d = os.path.join(WORK, "run", tag)
    os.makedirs(d, exist_ok=True)
    tp = os.path.join(d, "trace.ndjson")
    with open(tp, "w") as f:
        for ev in events:
            f.write(json.dumps({k: v for k, v in ev.items() if not k.startswith("_")}) + "\n")
    rc, out = tlc(spec, cfg, env={"TRACE": tp}, timeout=timeout, heap=heap, workers=workers, tag=tag)
    if "Model checking completed. No error has been found" not in out:
        raise CheckError(f"trace validation with {spec} failed:\n" + out[-4000:])
    bad = []
    for m in BAD.finditer(out):
        bad.append((int(m.group(2)) - 1, set(re.findall(r'[A-Z]\d\d|UNKNOWN-OP', m.group(1))), m.group(1) + (m.group(3) or "")))
    _, dist = tlc_counts(out)
    return bad, dist


class Finding:
    def __init__(self, prop, script, k, what):
        self.prop, self.script, self.k, self.what = prop, script, k, what


def conform(model, scripts, tag):
    """Replays scripts through model.driver and validates the recording.
    Returns (findings, stats)."""
    findings = []
    events, crashes = run_driver(model.driver, scripts, tag, timeout=model.driver_timeout, env=model.env)
    if hasattr(model, "post"):
        events = model.post(events)
    for si, k, why in crashes:
        # a crash while the next behaviour is set up happened on the way out of the previous one
        script = scripts[si][: k + 1] if k or not si else scripts[si - 1] + scripts[si][:1]
        for p in model.props:
            findings.append(Finding(p, script, k, "driver died: " + why))
    states = 0
    if events:
        bad, states = validate(model.trace_spec, model.trace_cfg, events, tag)
        for idx, props, note in bad:
            ev = events[idx]
            for p in props:
                findings.append(Finding(p, scripts[ev["_s"]][: ev["_k"] + 1], ev["_k"],
                                        "event %s %s" % (json.dumps({k: v for k, v in ev.items() if k not in ("s",)})[:700], note)))
        if not bad and states != len(events):
            raise CheckError(f"{model.trace_spec}: {states} states for {len(events)} events")
    return findings, {"events": len(events), "states": states, "traces": len(scripts), "sample": events[:40]}


def pmap(f, items, jobs=None):
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(f, items))
