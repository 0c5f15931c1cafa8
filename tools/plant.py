#!/usr/bin/env python3
"""Confirms planted changes and keeps them under seeded/<id>/.

    plant.py SPEC.py [id ...] [--checks C01,C05] [--no-tests] [--jobs N]

SPEC.py calls bug(id, prop, edits, demo, needs, breaks) with
edits = [(file relative to src/elli, old text, new text), ...].
Each change is applied in a scratch copy of /repo; the demonstration must pass
on /repo and fail on the copy, the stable tests must pass on the copy, and all
lines the patch removes must stem from the original repository.  Then the
quick check of the property (and of further ones) runs against the copy.
"""
import argparse, concurrent.futures as cf, json, os, re, runpy, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "3444e99"
PY = "/opt/venv/bin/python"
SCR = "/tmp/pl"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
BUGS = {}


def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests(copy):
    base = json.load(open("/opt/vp/BASELINE.json"))
    cmd = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--nbmake", "--benchmark-disable",
           "--timeout=90", "--continue-on-collection-errors", "-o",
           "python_files=test_*.py *_test.py benchmark_*.py",
           "--ignore=tests/test_refractive_index_info.py", "--ignore=tests/test_mixture_models.py",
           "--ignore=examples/Basic Usage", "--ignore=examples/Custom fitting",
           "--ignore=examples/SiO2_Si Mueller Matrix", "--ignore=examples/TiO2 Fit", "tests", "examples"]
    r = sh(cmd, cwd=copy, env=dict(ENV, PYTHONPATH=copy + "/src"))
    m = re.search(r"(\d+) passed", r.stdout)
    n = int(m.group(1)) if m else 0
    return n, r.stdout[-1500:]


def one(b, checks, do_tests):
    t0 = time.time()
    out = {"id": b["id"], "prop": b["prop"]}
    copy = f"{SCR}/{b['id']}"
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    sh(["cp", "-a", REPO, copy])
    try:
        for f, old, new in b["edits"]:
            p = f"{copy}/src/elli/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                out["error"] = f"{f}: {s.count(old)} matches of {old[:60]!r}"
                return out
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", copy, "diff", "--no-color"]).stdout
        # removed lines must stem from the base commit
        cur = None; ln = 0; removed = 0
        for line in diff.splitlines():
            if line.startswith("--- "):
                cur = line[6:]
                blame = sh(["git", "-C", REPO, "blame", "-s", "--abbrev=7", cur]).stdout.splitlines()
            elif line.startswith("@@"):
                ln = int(re.match(r"@@ -(\d+)", line).group(1))
            elif line.startswith("-"):
                removed += 1
                if not blame[ln - 1].lstrip("^").startswith(BASE):
                    out["note"] = f"{cur}:{ln} is not an original line"
                ln += 1
            elif line.startswith("+"):
                pass
            elif cur:
                ln += 1
        if not removed:
            out["note"] = "removes no line"
        if out.get("note"):
            do_tests = False  # only run against the checks, not kept
        d = f"{SCR}/{b['id']}.demo"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
            'PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        r0 = sh(["bash", d + "/demo.sh"], cwd=REPO, env=ENV, timeout=280)
        r1 = sh(["bash", d + "/demo.sh"], cwd=copy, env=ENV, timeout=280)
        if r0.returncode != 0:
            out["error"] = "demo fails on the unchanged tree: " + r0.stderr[-600:] + r0.stdout[-300:]
            return out
        if r1.returncode == 0:
            out["error"] = "demo passes on the changed tree"
            return out
        out["demo"] = (r1.stderr.strip().splitlines() or [""])[-1][:150]
        if do_tests:
            n, log = tests(copy)
            if n != 106:  # notebooks started in parallel can collide
                n, log = tests(copy)
            out["tests"] = n
            if n != 106:
                out["error"] = f"tests: {n} passed\n{log[-700:]}"
                return out
            dst = f"{VERIF}/seeded/{b['id']}"
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        res = {}
        for c in checks or [b["prop"]]:
            ev = f"{SCR}/{b['id']}.v"
            shutil.rmtree(ev, ignore_errors=True)
            sh(["cp", "-a", VERIF, ev])
            t = time.time()
            r = sh([PY, "run.py", c, "--tier", "quick"], cwd=ev,
                   env=dict(ENV, VERIF_REPO=copy, VERIF_SEED="1"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res[c] = (r.returncode, round(time.time() - t), (v or [r.stdout[-300:] + r.stderr[-300:] if r.returncode not in (0, 1) else ""])[0][:300])
            shutil.rmtree(ev, ignore_errors=True)
        out["checks"] = res
        return out
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(f"{SCR}/{b['id']}.demo", ignore_errors=True)
        out["secs"] = round(time.time() - t0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("spec"); ap.add_argument("ids", nargs="*")
    ap.add_argument("--checks"); ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--jobs", type=int, default=7)
    a = ap.parse_args()
    runpy.run_path(a.spec, init_globals={"bug": bug})
    todo = [b for i, b in BUGS.items() if not a.ids or i in a.ids]
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for f in cf.as_completed([ex.submit(one, b, a.checks.split(",") if a.checks else None, not a.no_tests) for b in todo]):
            o = f.result()
            if "error" in o:
                print(f"BAD    {o['id']}: {o['error']}", flush=True)
            else:
                for c, (rc, s, v) in o["checks"].items():
                    print(f"{'CAUGHT' if rc == 1 and v else 'MISSED' if rc == 0 else 'BROKEN'} {o['id']} [{o['prop']}] {c} {s}s tests={o.get('tests')} demo: {o['demo']} | {v}", flush=True)


main()
