"""The property runner: generated cases -> check -> evidence / shrunk replay file.

A property is split into sub-properties.  Each one has a Hypothesis strategy which
yields a plain JSON-able case, and a check function `check(case, t)` which builds the
real objects, runs the code under test and raises `Violation` if the oracle disagrees.
All random choices are inside Hypothesis, seeded from VERIF_SEED.

Exit codes: 0 held, 1 violation(s) (with VIOLATION lines), 3 error of the harness.
"""

from . import boot  # isort: skip

import argparse
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
import zlib

import numpy as np
from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings
from hypothesis import Verbosity
from hypothesis import errors as hyp_errors

LEVEL = "exploration"


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """Something in the check itself went wrong."""


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, complex):
        return {"re": x.real, "im": x.imag}
    return x


def dumps(case):
    return json.dumps(_jsonable(case), ensure_ascii=True, sort_keys=True)


class Tally:
    """What one case exercised."""

    __slots__ = ("tags", "nt")

    def __init__(self):
        self.tags = set()
        self.nt = False

    def tag(self, *names):
        for n in names:
            if n:
                self.tags.add(str(n))

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, shards, rule):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule


class Property:
    def __init__(self, pid, rule, known=None, assumptions=None):
        self.pid, self.rule = pid, rule
        self.subs = []
        self.assumptions = assumptions or []
        # finding id -> function returning None (no longer fails) or a description
        self.known = known or {}

    def sub(self, name, strategy, quick=200, thorough=None, shards=1, rule=None):
        """Decorator registering check(case, t). `strategy` is a Hypothesis strategy."""

        def deco(fn):
            self.subs.append(
                Sub(name, strategy, fn, quick, thorough or quick * 20, shards, rule)
            )
            return fn

        return deco


# ----------------------------------------------------------------------------- helpers
def _from_repo(tb):
    """Did the exception pass through the code under test?"""
    root = os.path.realpath(os.path.join(boot.SRC, "elli")) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case, t):
    """Run one check; turn exceptions of the code under test into violations."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                sub.check(case, t)
    except (Violation, HarnessError):
        raise
    except (hyp_errors.HypothesisException, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        if _from_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                f"valid input raised {type(e).__name__}: {str(e)[:300]} "
                f"(at {os.path.basename(last.filename)}:{last.lineno})"
            ) from e
        if isinstance(e, OSError):
            raise HarnessError(
                f"{type(e).__name__}: {e}\n{''.join(traceback.format_tb(e.__traceback__))}"
            ) from e
        # The oracle could not work with what the code under test returned (wrong
        # shape, type, missing column, ...).
        where = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(
            f"the result cannot be evaluated: {type(e).__name__}: {str(e)[:300]} "
            f"(at {os.path.basename(where.filename)}:{where.lineno})"
        ) from e


def _derived_seed(seed, pid, sub, shard):
    return zlib.crc32(f"{seed}/{pid}/{sub}/{shard}".encode())


def _fewer_mutations(runner):
    """After each independent draw Hypothesis runs up to five variants of it in which parts are duplicated.  That finds
    coincidences, but leaves few independent draws: do so for one draw in seven only."""
    orig = runner.generate_mutations_from
    if getattr(orig, "_fewer", False):
        return

    def generate_mutations_from(self, data):
        if self.random.random() < 0.15:
            orig(self, data)

    generate_mutations_from._fewer = True
    runner.generate_mutations_from = generate_mutations_from


def _run_shard(args):
    prop, sub, shard, n, seed, soft = args
    start = time.time()
    out = dict(
        sub=sub.name,
        shard=shard,
        evals=0,
        nontriv=set(),
        tags={},
        samples=[],
        fail=None,
        error=None,
        skipped=0,
    )
    state = dict(last=None)

    def body(case):
        if time.time() - start > soft and state["last"] is None:
            out["skipped"] += 1
            return
        t = Tally()
        try:
            run_case(sub, case, t)
        except Violation as e:
            state["last"] = (json.loads(dumps(case)), str(e))
            raise
        finally:
            if state["last"] is None:
                out["evals"] += 1
                if t.nt:
                    d = dumps(case)
                    out["nontriv"].add(hashlib.sha1(d.encode()).hexdigest()[:16])
                    if len(out["samples"]) < 2 and len(d) < 4000:
                        out["samples"].append(json.loads(d))
                for g in t.tags:
                    out["tags"][g] = out["tags"].get(g, 0) + 1

    try:
        import hypothesis.internal.conjecture.engine as eng

        eng.MAX_SHRINKING_SECONDS = 25
        _fewer_mutations(eng.ConjectureRunner)
    except Exception:  # noqa: BLE001
        pass

    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        verbosity=Verbosity.quiet,
        report_multiple_bugs=False,
        print_blob=False,
    )(
        hyp_seed(_derived_seed(seed, prop.pid, sub.name, shard))(
            given(sub.strategy)(body)
        )
    )
    try:
        test()
    except Violation:
        pass
    except (hyp_errors.Flaky,) as e:
        # The code under test answered differently for the same case: its answer
        # depends on what ran before.  The recorded failure stands.
        if state["last"] is None:
            out["error"] = f"flaky without recorded failure: {e}"
        else:
            c, m = state["last"]
            state["last"] = (c, m + " [depends on earlier calls]")
    except BaseException as e:  # noqa: BLE001
        if state["last"] is None:
            out["error"] = f"{type(e).__name__}: {e}"[:4000]
            if not isinstance(e, HarnessError):
                out["error"] += "\n" + traceback.format_exc()[-3000:]
    out["fail"] = state["last"]
    out["wall"] = time.time() - start
    return out


def _load_known(pid):
    path = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == pid]


def main(prop, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--sub", help="only this sub-property (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="case-count factor (development)")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args(argv)
    try:
        return _main(prop, a)
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        return 3


# development (tools/mutate.py): stop at the first failure and do not shrink it
FAST = bool(os.environ.get("VERIF_FAST"))

# multiplies the quick counts (the whole quick check takes about half a minute)
QUICK = {"C06": 2, "C07": 1.5, "C16": 2, "C19": 2, "C30": 1.5, "C20": 2, "C26": 3, "C28": 3, "C29": 3}
QUICK.update({p: 6 for p in ("C01", "C02", "C03", "C04", "C05", "C08", "C09", "C10", "C11", "C12", "C14", "C15", "C21")})


def _main(prop, a):
    seed = int(os.environ.get("VERIF_SEED") or "1")
    tier = "thorough" if a.tier == "thorough" else "quick"
    start = time.time()

    if a.replay:
        with open(a.replay, encoding="utf-8") as f:
            rep = json.load(f)
        sub = next(s for s in prop.subs if s.name == rep["sub"])
        try:
            run_case(sub, rep["case"], Tally())
        except Violation as e:
            print(f"{prop.pid}/{sub.name}: {e}")
            print(f"VIOLATION property={prop.pid} replay={a.replay}")
            return 1
        print(f"{prop.pid}/{sub.name}: replayed case passes")
        return 0

    # Listed findings: still there?  (They are excluded from the generators by
    # construction, so a different violation is still reported.)
    for k in _load_known(prop.pid):
        fn = prop.known.get(k["id"])
        if fn is None:
            raise HarnessError(f"known finding {k['id']} has no demonstrator")
        what = fn()
        if what:
            print(f"KNOWN-FINDING: property={prop.pid} {k['id']}: {what}")

    soft = 280 if tier == "quick" else 6 * 3600
    tasks = []
    for sub in prop.subs:
        if a.sub and a.sub not in sub.name:
            continue
        n = sub.quick if tier == "quick" else sub.thorough
        n = max(1, int(n * a.scale * (QUICK.get(prop.pid, 3) if tier == "quick" else 1)))
        shards = max(sub.shards, min(8, n // 150)) if tier == "quick" else max(sub.shards, 8)
        shards = min(shards, n)
        for s in range(shards):
            tasks.append((prop, sub, s, -(-n // shards), seed, soft))
    global _TASKS
    _TASKS = tasks
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i][1].shards)
    results = []
    if a.jobs <= 1:
        results = [_run_shard(tasks[i]) for i in order]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(a.jobs, len(tasks))) as pool:
            for r in pool.imap_unordered(_run_index, order, chunksize=1):
                results.append(r)
                if FAST and r["fail"]:
                    break
    results.sort(key=lambda r: (r["sub"], r["shard"]))

    errors = [r for r in results if r["error"]]
    fails = {}
    for r in results:
        if r["fail"]:
            cur = fails.get(r["sub"])
            if cur is None or len(dumps(r["fail"][0])) < len(dumps(cur[0])):
                fails[r["sub"]] = r["fail"]

    evals = sum(r["evals"] for r in results)
    nontriv = set()
    per = {}
    for r in results:
        nontriv |= {r["sub"] + h for h in r["nontriv"]}
        p = per.setdefault(
            r["sub"], dict(evaluations=0, nontrivial=set(), classes={}, skipped_for_time=0, wall_s=0)
        )
        p["evaluations"] += r["evals"]
        p["nontrivial"] |= r["nontriv"]
        p["skipped_for_time"] += r["skipped"]
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        for g, c in r["tags"].items():
            p["classes"][g] = p["classes"].get(g, 0) + c
    samples = []
    for s in prop.subs:
        for r in results:
            if r["sub"] == s.name and r["samples"]:
                samples.append({"sub": s.name, "case": r["samples"][0]})
                break
    for p in per.values():
        p["nontrivial"] = len(p["nontrivial"])

    replays = {}
    rdir = os.path.join(boot.VERIF, "replays")
    for name, (case, msg) in fails.items():
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop.pid}-{name}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(
                dict(property=prop.pid, sub=name, seed=seed, tier=tier, error=msg, case=case),
                f,
                indent=1,
            )
        replays[name] = path

    ev = dict(
        property=prop.pid,
        tier=tier,
        seed=seed,
        level=LEVEL,
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=len(nontriv),
            rule=prop.rule,
            samples=samples,
            sub_properties=per,
        ),
        assumptions=prop.assumptions,
        wall_s=round(time.time() - start, 2),
        violations=len(fails),
    )
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", f"{prop.pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)

    for name, (case, msg) in fails.items():
        print(f"{prop.pid}/{name}: {msg[:1500]}")
        print(f"  minimal case: {dumps(case)[:1500]}")
        print(f"VIOLATION property={prop.pid} replay={replays[name]}")
    for r in errors:
        print(f"HARNESS-ERROR {prop.pid}/{r['sub']}: {r['error']}", file=sys.stderr)
    print(
        f"{prop.pid} {tier} seed={seed}: {evals} cases, {len(nontriv)} distinct non-trivial, "
        f"{len(fails)} violation(s), {time.time() - start:.1f} s"
    )
    if fails:
        return 1
    return 3 if errors else 0


_TASKS = []


def _run_index(i):
    return _run_shard(_TASKS[i])


# ------------------------------------------------------------------- comparison helpers
def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(a, b, rtol=1e-7, atol=1e-9, what="values"):
    """Assert element-wise closeness with shape equality."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != expected {b.shape}")
    if a.dtype == object:
        a = a.astype(complex)
    if b.dtype == object:
        b = b.astype(complex)
    with np.errstate(all="ignore"):
        bad = ~((a == b) | (np.abs(a - b) <= atol + rtol * np.where(np.isfinite(b), np.abs(b), 0)))
    if np.any(bad):
        i = tuple(int(v) for v in np.argwhere(bad)[0]) if bad.ndim else ()
        raise Violation(f"{what}: at {i} got {a[i]!r}, expected {b[i]!r}")


def raises(exc, fn, what):
    """fn() must raise one of exc."""
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: raised {type(e).__name__} ({str(e)[:200]}) instead of {exc}") from e
    raise Violation(f"{what}: accepted (returned {str(r)[:200]!r}), expected {exc}")
