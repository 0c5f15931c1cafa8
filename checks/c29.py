"""C29 - fit parameter history (model-based testing of operation sequences)."""
from vlib.core import Property, fail, require
from vlib import gen
from vlib.gen import elli, fl, mix, st
from elli.fitting.params_hist import ParamsHist
import lmfit
import math

P = Property(
    "C29",
    rule="a case is non-trivial if its history reached at least two entries and a revert or pop restored a state that "
    "differed from the current one",
    assumptions=[
        "the reference is a list of value records next to a plain lmfit.Parameters object receiving the same direct edits",
        "for positions outside the history it is only required that the state stays as it was",
    ],
)
NAMES = ["a", "b", "thickness", "n0"]
ALL = NAMES + ["late1", "late2"]
INF = math.inf

val = mix([0.0, 1.0, -1.0, 100.0], fl(-50, 150, 3))
lim = st.one_of(st.none(), fl(-20, -1, 2))
lim2 = st.one_of(st.none(), fl(1, 120, 2))
anyname = st.sampled_from(ALL)
pos = st.integers(-7, 7)
par = st.fixed_dictionaries({"value": val, "min": lim, "max": lim2, "vary": st.booleans()})

op = st.one_of(
    st.tuples(st.just("value"), anyname, val),
    st.tuples(st.just("vary"), anyname, st.booleans()),
    st.tuples(st.just("min"), anyname, fl(-30, -1, 2)),
    st.tuples(st.just("max"), anyname, fl(1, 130, 2)),
    st.tuples(st.just("update_value"), st.sampled_from([*ALL, "unknown"]), val),
    st.tuples(st.just("update_value"), st.sampled_from(NAMES), val),
    st.tuples(st.just("tracked_add"), anyname, par),
    st.tuples(st.just("tracked_add_invalid"), st.sampled_from(["1x", "a b", "lambda", "for"]), val),
    st.tuples(st.just("add"), anyname, par),
    st.tuples(st.just("update_params"), st.dictionaries(anyname, par, min_size=1, max_size=3), val),
    st.tuples(st.just("update_params_invalid"), st.sampled_from([None, 3, "a", {"a": 1.0}, ["a"]]), st.just(0)),
    st.tuples(st.just("commit"), st.just(0), st.just(0)),
    st.tuples(st.just("commit"), st.just(0), st.just(0)),
    st.tuples(st.just("pop"), val, st.just(0)),
    st.tuples(st.just("pop"), val, st.just(0)),
    st.tuples(st.just("revert"), pos, st.just(0)),
    st.tuples(st.just("revert"), pos, st.just(0)),
    st.tuples(st.sampled_from(["clear", "commit", "commit"]), st.just(0), st.just(0)),
    st.tuples(st.just("update_value"), st.sampled_from(NAMES), val),
    st.tuples(st.just("value"), st.sampled_from(NAMES), val),
    st.tuples(st.just("max"), st.just("history"), st.integers(1, 5)),
    st.tuples(st.just("max_invalid"), st.sampled_from([0, -1, 2.5, "3", None]), st.just(0)),
    st.tuples(st.just("copy"), anyname, val),
).map(list)


def dump(p):
    return {k: (float(v.value), float(v.min), float(v.max), bool(v.vary), v.expr) for k, v in p.items()}


def rebuild(rec):
    p = lmfit.Parameters()
    p.add_many(*(lmfit.Parameter(k, value=r[0], vary=r[3], min=r[1], max=r[2], expr=r[4]) for k, r in rec.items()))
    return p


def kwargs(d):
    return {k: v for k, v in d.items() if v is not None}


def check(p, ref, hist, maxlen, what):
    got, want = dump(p), dump(ref)
    require(got == want, f"after {what}: parameters are {got}, expected {want}")
    require(p.history_len == len(hist) == len(p.history), f"after {what}: history length {p.history_len}, expected {len(hist)}")
    require(p.history_len <= p.max_history_len, f"after {what}: {p.history_len} entries, at most {p.max_history_len}")
    require(p.max_history_len == maxlen, f"after {what}: maximum length {p.max_history_len}, expected {maxlen}")
    for i, (h, r) in enumerate(zip(p.history, hist)):
        require(dump(h) == r, f"after {what}: history entry {i} is {dump(h)}, expected {r}")


def expect_error(fn, what):
    try:
        fn()
    except Exception:  # noqa: BLE001
        return
    fail(f"{what} did not fail")


@P.sub(
    "sequences",
    st.fixed_dictionaries({
        "start": st.fixed_dictionaries({n: par for n in NAMES}),
        "expr": st.booleans(),
        "maxlen": st.one_of(st.none(), st.integers(1, 5)),
        "ops": st.lists(op, min_size=8, max_size=30),
    }),
    4000, 60000, 8,
)
def sequences(case, t):
    p, ref = ParamsHist(), lmfit.Parameters()
    for n, d in case["start"].items():
        p.add(n, **kwargs(d))
        ref.add(n, **kwargs(d))
    if case["expr"]:
        p.add("twice", expr="2*a + 1")
        ref.add("twice", expr="2*a + 1")
    hist, maxlen = [], 50
    maxlen = p.max_history_len
    if case["maxlen"]:
        p.max_history_len = maxlen = case["maxlen"]
    check(p, ref, hist, maxlen, "creation")
    restored = False
    for i in range(case.get("before", 0)):  # a long session before
        p.update_value(NAMES[i % 3], 0.25 * i)
        hist.append(dump(ref))
        ref[NAMES[i % 3]].value = 0.25 * i
        del hist[:-maxlen]
        if i % 16 == 0 or i + 1 == case["before"]:
            check(p, ref, hist, maxlen, f"{i + 1} updates")

    def push(rec):
        hist.append(rec)
        del hist[:-maxlen]

    for name, x, y in case["ops"]:
        what = f"{name}({x!r}, {y!r})"
        cur = dump(ref)
        if name == "max" and x == "history":
            p.max_history_len = maxlen = y
            hist = hist[-y:]
        elif name in ("value", "vary", "min", "max"):
            if x in ref:
                setattr(p[x], name, y)
                setattr(ref[x], name, y)
                if name in ("min", "max"):  # lmfit applies new limits when the value is set
                    p[x].value = ref[x].value = min(max(float(ref[x].value), ref[x].min), ref[x].max)
        elif name == "update_value":
            if x in ref:
                p.update_value(x, y)
                push(cur)
                ref[x].value = y
            else:
                expect_error(lambda: p.update_value(x, y), "updating an unknown parameter")
        elif name == "tracked_add":
            p.tracked_add(x, **kwargs(y))
            push(cur)
            ref.add(x, **kwargs(y))
        elif name == "tracked_add_invalid":
            expect_error(lambda: p.tracked_add(x, value=y), "adding an invalid name")
        elif name == "add":
            p.add(x, **kwargs(y))
            ref.add(x, **kwargs(y))
        elif name == "update_params":
            other = lmfit.Parameters()
            for k, d in x.items():
                other.add(k, **kwargs(d))
            rec = dump(other)
            p.update_params(other)
            require(dump(other) == rec, f"{what} changed the given parameters")
            push(cur)
            for k, d in x.items():
                ref.add(k, **kwargs(d))
            for k in x:  # later changes of the source have no effect, nor have changes of the target on it
                other[k].value = y
            before = dump(other)
            check(p, ref, hist, maxlen, what + " and changes of the source")
            k = next(iter(x))
            p[k].value = ref[k].value = y / 2 + 1
            require(dump(other) == before, f"{what}: the source follows later changes")
        elif name == "update_params_invalid":
            expect_error(lambda: p.update_params(x), what)
        elif name == "commit":
            p.commit()
            push(cur)
        elif name == "pop":
            r = p.pop()
            if hist:
                require(isinstance(r, lmfit.Parameters) and dump(r) == cur, f"pop returned {r if r is None else dump(r)}, left state {cur}")
                restored |= hist[-1] != cur and len(hist) > 1
                ref = rebuild(hist.pop())
                check(p, ref, hist, maxlen, what)
                if "a" in r:  # the returned parameters are independent
                    r["a"].value = x
            else:
                require(r is None or dump(r) == cur, f"pop of an empty history returned {r}")
        elif name == "revert":
            if -len(hist) <= x < len(hist):
                p.revert(x)
                restored |= hist[x] != cur and len(hist) > 1
                ref = rebuild(hist[x])
            else:
                try:
                    p.revert(x)
                except (IndexError, ValueError, KeyError):
                    pass
        elif name == "clear":
            p.clear_history()
            hist = []
        elif name == "max_invalid":
            def bad():
                p.max_history_len = x
            expect_error(bad, what)
        elif name == "copy":
            q = p.copy()
            require(dump(q) == cur, f"copy is {dump(q)}, expected {cur}")
            if x in ref:
                q[x].value = y
        check(p, ref, hist, maxlen, what)
        t.tag(name)
    t.nontrivial(restored)
    t.tag("reached maximum" if len(hist) == maxlen else "")


long_op = st.one_of(
    op,
    st.tuples(st.just("revert"), st.integers(-70, 70), st.just(0)).map(list),
    st.tuples(st.just("revert"), st.integers(-70, 70), st.just(0)).map(list),
    st.tuples(st.just("max"), st.just("history"), st.integers(1, 70)).map(list),
).filter(lambda o: o[0] != "clear" and not (o[0] == "max" and o[1] == "history" and o[2] < 6))
P.sub(
    "long_sessions",
    st.fixed_dictionaries({
        "start": st.fixed_dictionaries({n: par for n in NAMES}),
        "expr": st.booleans(),
        "maxlen": st.one_of(st.none(), st.none(), st.integers(20, 70)),
        "before": gen.big(20, 120),
        "ops": st.lists(long_op, min_size=6, max_size=20),
    }),
    300, 6000, 8,
)(sequences)
