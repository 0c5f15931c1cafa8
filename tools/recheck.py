#!/usr/bin/env python3
"""Runs the quick check of its property against every planted change and rewrites the table of DESIGN.md.

    recheck.py [id ...] [--jobs N] [--seed N]    results go to tools/catches.json
    recheck.py --table                           only rewrites the table from tools/catches.json
"""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SCR = "/tmp/rk"
OUT = VERIF + "/tools/catches.json"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(i, seed):
    d = f"{VERIF}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    copy, ver = f"{SCR}/{i}", f"{SCR}/{i}.v"
    os.makedirs(SCR, exist_ok=True)
    t = time.time()
    try:
        for x in (copy, ver):
            shutil.rmtree(x, ignore_errors=True)
        sh(["cp", "-a", "/repo", copy])
        sh(["cp", "-a", VERIF, ver])
        r = sh(["git", "-C", copy, "apply", d + "/patch.diff"])
        if r.returncode:
            return i, {"property": prop, "result": "does not apply"}
        r = sh([PY, "run.py", prop, "--tier", "quick"], cwd=ver, env=dict(ENV, VERIF_REPO=copy, VERIF_SEED=str(seed)))
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        res = "caught" if r.returncode == 1 and v else "missed" if r.returncode == 0 else f"exit {r.returncode}"
        by = os.path.basename(v[0].split("replay=")[1])[:-5].split("-", 1)[1] if v else ""
        return i, {"property": prop, "result": res, "by": by, "seconds": round(time.time() - t)}
    finally:
        for x in (copy, ver):
            shutil.rmtree(x, ignore_errors=True)


def table():
    got = json.load(open(OUT))
    rows = ["| change | property | breaks | needs | found by |", "|---|---|---|---|---|"]
    cell = lambda s: " ".join(str(s).split()).replace("|", "\\|")  # noqa: E731
    for i in sorted(os.listdir(VERIF + "/seeded")):
        m = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))
        g = got.get(i, {})
        where = {"caught": f"{m['property']} `{g.get('by')}`", "missed": "**missed**"}.get(g.get("result"), g.get("result", "not run"))
        rows.append(f"| {i} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {where} |")
    p = VERIF + "/DESIGN.md"
    s = open(p).read()
    a, b = "<!-- catches -->", "<!-- /catches -->"
    i, j = s.index(a) + len(a), s.index(b)
    open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*"); ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--table", action="store_true")
    a = ap.parse_args()
    if not a.table:
        got = json.load(open(OUT)) if os.path.exists(OUT) else {}
        todo = a.ids or sorted(os.listdir(VERIF + "/seeded"))
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            for f in cf.as_completed([ex.submit(one, i, a.seed) for i in todo]):
                i, r = f.result()
                print(i, r, flush=True)
                got[i] = r
                json.dump(dict(sorted(got.items())), open(OUT, "w"), indent=0)
    table()


main()
