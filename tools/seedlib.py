#!/usr/bin/env python3
"""Maintains the planted bugs in seeded/.

  seedlib.py gen [ID...]    write seeded/<id>/ from tools/seeds/*.py and verify
                            that each compiles, passes the test suite and that
                            its demonstration tells the two trees apart
  seedlib.py run [ID...]    run the check of each bug's property against a
                            scratch copy of /repo with the bug applied

Everything happens in scratch copies under /tmp; /repo is only read."""
import json, os, subprocess, sys, glob, shutil, importlib.util, tempfile
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}

def seed(id, prop, file, old, new, needs, breaks, demo, more=()):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, edits=[(file, old, new)] + list(more),
                     needs=needs, breaks=breaks, demo=demo)

DEMO_SH = '''#!/bin/bash
# Runs main.go as a package of the module in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go.txt"}}' "$PWD" "$d" > "$w/overlay.json"
export GOFLAGS=-mod=readonly GOPROXY=off
go build -overlay "$w/overlay.json" -o "$w/demo" ./zzdemo || exit 2
cd "$w" && timeout 120 "$w/demo" || exit 1
'''

def load():
    for f in sorted(glob.glob(os.path.join(here, "tools/seeds/*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        m.seed = seed
        spec.loader.exec_module(m)

def sh(cmd, cwd=None, env=None, timeout=1500):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def copy_repo():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh("git -C /repo archive HEAD | tar -x -C %s" % d)
    sh("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base", cwd=d)
    return d

GO = {"GOFLAGS": "-mod=readonly", "GOPROXY": "off"}

def failing(d):
    rc, out = sh(["go", "test", "-json", "./..."], cwd=d, env=GO)
    # hcl/spectests needs an older Go, see /opt/vp/test.sh.
    old = "/opt/vp/go1.19.13"
    rc, spec = sh([old + "/bin/go", "test", "-json", "-vet=off", "-count=1", "./hcl/spectests"], cwd=d, env=dict(
        GO, GOROOT=old, PATH=old + "/bin:" + os.environ["PATH"], CGO_ENABLED="0"))
    out += "\n" + spec
    bad = set()
    for l in out.splitlines():
        try: r = json.loads(l)
        except ValueError: continue
        if r.get("Action") == "fail": bad.add((r.get("Package"), r.get("Test")))
    return bad

BASE = None
def gen(s):
    d = copy_repo()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, f); src = open(p).read()
            if src.count(old) != 1: return s["id"], "edit matches %d times in %s" % (src.count(old), f)
            open(p, "w").write(src.replace(old, new))
        rc, out = sh(["go", "vet", "./..."], cwd=d, env=GO)
        rc, out = sh(["go", "build", "./..."], cwd=d, env=GO)
        if rc: return s["id"], "does not build: " + out[-800:]
        bad = failing(d) - BASE
        if bad: return s["id"], "fails tests: %s" % sorted(map(str, bad))[:5]
        out_dir = os.path.join(here, "seeded", s["id"])
        os.makedirs(out_dir, exist_ok=True)
        rc, patch = sh(["git", "diff"], cwd=d)
        open(os.path.join(out_dir, "patch.diff"), "w").write(patch)
        if s["demo"].startswith("#!"):
            open(os.path.join(out_dir, "demo.sh"), "w").write(s["demo"])
        else:
            open(os.path.join(out_dir, "demo.sh"), "w").write(DEMO_SH)
            open(os.path.join(out_dir, "main.go.txt"), "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(out_dir, "meta.json"), "w"), indent=1)
        rc1, o1 = sh(["bash", os.path.join(out_dir, "demo.sh")], cwd=d)
        sh(["git", "checkout", "-q", "--", "."], cwd=d)
        rc0, o0 = sh(["bash", os.path.join(out_dir, "demo.sh")], cwd=d)
        if rc0 != 0 or rc1 in (0, 2): return s["id"], "demo: unchanged %d %s / changed %d %s" % (rc0, o0[-600:], rc1, o1[-600:])
        return s["id"], "ok"
    finally:
        shutil.rmtree(d)

def run(s):
    d = copy_repo()
    w = tempfile.mkdtemp(prefix="seedh-", dir="/tmp")
    try:
        rc, out = sh(["git", "apply", os.path.join(here, "seeded", s["id"], "patch.diff")], cwd=d)
        if rc: return s["id"], "patch does not apply " + out
        # The harness built against the copy.
        shutil.copytree(here, w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        for f in ("harness/go.mod", "check.sh"):
            p = os.path.join(w, "verif", f); t = open(p).read().replace("/repo", d); open(p, "w").write(t)
        env = {"VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"}
        props = os.environ.get("PROPS", s["prop"]).split(",")
        res = []
        for p in props:
            rc, out = sh(["bash", "check.sh", p], cwd=w + "/verif", env=env)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + p)]
            res.append("%s %s" % (p, "caught" if rc == 1 and v else "MISSED" if rc == 0 else "ERROR rc=%d %s" % (rc, out[-500:])))
            if "-v" in sys.argv: res.append(out[-1500:])
        return s["id"], "; ".join(res)
    finally:
        shutil.rmtree(d); shutil.rmtree(w)

def main():
    global BASE
    load()
    mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    todo = [SEEDS[i] for i in ids] or list(SEEDS.values())
    if mode == "gen":
        d = copy_repo(); BASE = failing(d); shutil.rmtree(d)
        for i in os.listdir(os.path.join(here, "seeded")):
            if i not in SEEDS: print("stale", i)
        with ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(gen, todo): print(i, r, flush=True)
    else:
        with ThreadPoolExecutor(2) as ex:
            for i, r in ex.map(run, todo): print(i, r, flush=True)
main()
