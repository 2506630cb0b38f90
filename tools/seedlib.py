"""Makes and tries planted bugs.
   seedlib.py make ID      writes /verif/seeded/ID from the description in seeds.py
   seedlib.py try ID [--check] [--tests]   demo on the unchanged and the changed tree (scratch copy), stable tests, check"""
import io, json, os, shutil, subprocess, sys, tarfile, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = """#!/bin/bash
# Builds the real sources of the current directory with a small driver, replays script.jsonl and
# judges what the real code did (expect.py).  Exit 0: as it should be.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
tar -C "$d" -xzf "$here/lib.tgz" || exit 2
cmake -S "$d" -B "$d/build" -G Ninja -DREPO="$repo" -DCMAKE_BUILD_TYPE=None >"$d/log" 2>&1 && ninja -C "$d/build" {driver} >>"$d/log" 2>&1 || {{ tail -40 "$d/log"; exit 2; }}
timeout 120 "$d/build/{driver}" "$here/script.jsonl" "$d/out.jsonl" >"$d/run.log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then tail -5 "$d/run.log"; echo "driver ended with $rc"; {crash} fi
python3 "$here/expect.py" "$d/out.jsonl"
"""
EXPECT = '''import json, sys
ev = [json.loads(x) for x in open(sys.argv[1])]
def calls(i, cb=None, c=None):
    return [k for k in ev[i].get("calls", []) if (cb is None or k["cb"] == cb) and (c is None or k["c"] == c)]
def must(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.exit(1)
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    sh("bash", "-c", f"cp -a {REPO}/. {d}/")
    sh("git", "checkout", "-q", "--", ".", cwd=d)
    return d


def make(s):
    d = scratch()
    out = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            assert t.count(old) >= 1, (s["id"], f, "text not found", old)
            if t.count(old) > 1:
                assert s.get("nth") is not None, (s["id"], f, "ambiguous", t.count(old))
                parts = t.split(old)
                n = s["nth"]
                t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            else:
                t = t.replace(old, new)
            open(p, "w").write(t)
        diff = sh("git", "diff", cwd=d).stdout
        assert diff
        open(os.path.join(out, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(d)
    import gzip
    with open(os.path.join(out, "lib.tgz"), "wb") as raw, gzip.GzipFile("", "wb", mtime=0, fileobj=raw) as gz, \
            tarfile.open(fileobj=gz, mode="w") as t:
        def norm(ti):
            ti.mtime = 0; ti.uid = ti.gid = 0; ti.uname = ti.gname = ""
            return None if "__pycache__" in ti.name else ti
        for x in ("shim", "CMakeLists.txt", "drivers/common.hpp", f"drivers/{s['driver']}.cpp"):
            t.add(os.path.join(VERIF, x), x, filter=norm)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO.format(driver=s["driver"], crash=s.get("crash", "exit 1;")))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    with open(os.path.join(out, "script.jsonl"), "w") as f:
        for o in s["script"]:
            f.write(json.dumps(o) + "\n")
    open(os.path.join(out, "expect.py"), "w").write(EXPECT + s["expect"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)


def demo(sd, cwd):
    t = tempfile.mkdtemp(prefix="demo-")
    try:
        for f in os.listdir(sd):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(sd, f), t)
        r = sh("bash", os.path.join(t, "demo.sh"), cwd=cwd)
        return r.returncode, (r.stdout + r.stderr)[-1500:]
    finally:
        shutil.rmtree(t)


def attempt(i, check, base=True):
    sd = os.path.join(VERIF, "seeded", i)
    d = scratch()
    try:
        if base:
            rc, o = demo(sd, d)
            print(i, "unchanged: demo", rc, o if rc else "")
        a = sh("git", "apply", os.path.join(sd, "patch.diff"), cwd=d)
        assert a.returncode == 0, a.stderr
        rc, o = demo(sd, d)
        print(i, "changed: demo", rc, o.strip()[-300:])
        if check:
            p = json.load(open(os.path.join(sd, "meta.json")))["property"]
            env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=os.path.join("/tmp/seedbuild"), VERIF_WORK=d + "/.work", VERIF_EVID=d + "/.evid")
            r = sh("python3", os.path.join(VERIF, "check.py"), p, "--tier", "quick", env=env, cwd=VERIF)
            print(i, "check", p, r.returncode, "\n".join(x[:300] for x in r.stdout.splitlines()[:2]), r.stderr[-300:] if r.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    import seeds
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    todo = [s for s in seeds.SEEDS if not ids or s["id"] in ids]
    for s in todo:
        if sys.argv[1] in ("make", "all"):
            make(s)
        if sys.argv[1] in ("try", "all"):
            attempt(s["id"], "--check" in sys.argv)
