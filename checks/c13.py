"""C13 - result lists and their averages."""
from vlib.core import Property, close, require, raises
from vlib import gen
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C13",
    rule="a case is non-trivial if the list has at least two members with different values, or one member with "
    "several wavelengths (where averaging over the wrong axis would show)",
    assumptions=["all members have the same number of wavelengths"],
)

cn = st.tuples(fl(-1.2, 1.2), fl(-1.2, 1.2)).map(list)
nz = cn.filter(lambda c: abs(complex(*c)) > 0.05)
jmat = st.tuples(cn, cn, cn, nz).map(list)

NAMES = [
    "R", "T", "R_matrix", "T_matrix", "Rc_matrix", "Tc_matrix", "jones_matrix_r", "jones_matrix_t", "jones_matrix_rc", "jones_matrix_tc",
    "rho", "psi", "delta", "rho_matrix", "psi_matrix", "delta_matrix", "rho_matrix_t", "psi_matrix_t", "delta_matrix_t", "mueller_matrix",
    "r_pp", "r_sp", "t_ss", "R_pp", "T_ps", "R_12", "Rc_LR", "Tc_RR", "rc_LL", "tc_RL", "psi_pp", "psi_ps", "delta_pp", "rho_sp", "Ψ_pp", "Δ_pp",
    "Ψ", "Δ", "ρ", "psi_t", "delta_t", "rho_t", "psi_t_pp", "mueller_matrix_11", "mueller_matrix_34",
]


def arr(ms):
    return np.array([[[complex(*m[0]), complex(*m[1])], [complex(*m[2]), complex(*m[3])]] for m in ms])


def result(spec, n, rng=None):
    jr = arr(spec[:n])
    jt = arr(spec[n : 2 * n])
    res = elli.Result(elli.Experiment(None, np.linspace(400, 700, n), 60.0), jr, jt)
    return res if rng is None else res.as_delta_range(*rng)


case = st.tuples(st.integers(1, 5), st.integers(1, 4)).flatmap(
    lambda t: st.fixed_dictionaries(
        {
            "n": st.just(t[0]),
            "m": st.lists(st.lists(jmat, min_size=2 * t[0], max_size=2 * t[0]), min_size=t[1], max_size=t[1]),
            "range": st.lists(st.sampled_from([None, None, [0, 360], [0, 180]]), min_size=1, max_size=2),
            "again": st.lists(st.integers(0, 3), max_size=3),
            "build": st.sampled_from(["list", "append", "mixed"]),
            "ops": st.lists(st.sampled_from(NAMES), min_size=1, max_size=8),
        }
    )
)


def build(members, how):
    if how == "list":
        return elli.ResultList(list(members))
    if how == "append":
        rl = elli.ResultList()
        require(len(rl) == 0, "a new result list is not empty")
        for i, m in enumerate(members):
            rl.append(m)
            require(len(rl) == i + 1, f"length {len(rl)} after {i + 1} appends")
        return rl
    rl = elli.ResultList(list(members[:1]))
    for m in members[1:]:
        rl.append(m)
    return rl


def eq(got, exp, what):
    got, exp = np.asarray(got), np.asarray(exp)
    if got.shape == exp.shape:  # 0/0 of the members
        undefined = ~np.isfinite(exp)
        require(np.array_equal(undefined, ~np.isfinite(got)), f"{what}: undefined values at other positions")
        got, exp = np.where(undefined, 0, got), np.where(undefined, 0, exp)
    close(got, exp, 1e-10, 1e-10, what)


def check(rl, members, names, t):
    k, n = len(members), len(np.atleast_1d(members[0].R))
    require(len(rl) == k, f"length {len(rl)} instead of {k}")
    for name in names:
        single = [np.array(getattr(m, name)) for m in members]
        stack = np.stack(single)
        got = getattr(rl, name)
        eq(got, np.squeeze(stack), f"list of {k}: {name}")
        eq(rl.get(name), np.squeeze(stack), f"list of {k}: get({name!r})")
        mean = getattr(rl.mean, name)
        require(np.shape(mean) == single[0].shape, lambda: f"mean of {k} results of {n} wavelengths: {name} has shape {np.shape(mean)} instead of {single[0].shape}")
        eq(mean, sum(single) / k, f"mean of {k}: {name}")
        eq(rl.mean.get(name), sum(single) / k, f"mean of {k}: get({name!r})")


@P.sub("lists", case, 2000, 60000, 4)
def lists(c, t):
    if isinstance(c["m"], dict):
        k, n = c["m"]["k"], c["n"]
        rows = gen.jones_list({"n": 2 * n * k, "seed": c["m"]["seed"], "scale": 1.2})
        c = dict(c, m=[rows[2 * n * i : 2 * n * (i + 1)] for i in range(k)])
    members = [result(m, c["n"], c["range"][i % len(c["range"])]) for i, m in enumerate(c["m"])]
    # the same result object several times, as a weight
    members += [members[i % len(members)] for i in c["again"]]
    t.tag("repeated members" if c["again"] else None)
    k, n = len(members), c["n"]
    t.tag(f"members={min(k, 20)}", f"wavelengths={min(n, 20)}", c["build"])
    t.nontrivial((len(c["m"]) > 1 and c["m"][0] != c["m"][1]) or (k == 1 and n > 1))
    before = [np.array(m.rho_matrix) for m in members]
    rl = build(members, c["build"])
    check(rl, members, c["ops"], t)
    avg = rl.mean
    require(len(avg) == k, "length of the averaged list")
    raises(Exception, lambda: avg.mean, "averaging twice")
    for m, b in zip(members, before):
        eq(m.rho_matrix, b, "member changed by the list")
    direct = elli.AveragedResultList(list(members)) if hasattr(elli, "AveragedResultList") else None
    if direct is not None:
        for name in c["ops"]:
            eq(getattr(direct, name), getattr(avg, name), f"averaged list built directly: {name}")


P.sub(
    "long_lists",
    st.tuples(gen.big(20, 140), st.integers(0, 10**6), st.one_of(st.integers(1, 4), gen.big(20, 300)), st.booleans()).flatmap(
        lambda a: st.fixed_dictionaries(
            {
                "n": st.just(a[2] if a[3] else min(a[2], 4)),
                "m": st.just({"k": a[0] if not a[3] or a[2] < 5 else 2 + a[0] % 12, "seed": a[1]}),
                "range": st.lists(st.sampled_from([None, None, [0, 360], [0, 180]]), min_size=1, max_size=2),
                "again": st.lists(st.integers(0, 200), max_size=3),
                "build": st.sampled_from(["list", "append", "mixed"]),
                "ops": st.lists(st.sampled_from(NAMES), min_size=1, max_size=6),
            }
        )
    ),
    200,
    4000,
    2,
)(lists)


model = st.fixed_dictionaries(
    {
        "n": st.integers(1, 3),
        "pool": st.lists(st.lists(jmat, min_size=6, max_size=6), min_size=2, max_size=4),
        "ops": st.lists(st.one_of(st.tuples(st.just("append"), st.integers(0, 3)), st.tuples(st.just("read"), st.sampled_from(NAMES)), st.tuples(st.just("new"), st.integers(0, 3)), st.tuples(st.sampled_from(["range", "vector", "replace"]), st.integers(0, 15))).map(list), min_size=2, max_size=12),
    }
)


RANGES = [(-180, 180), (0, 360), (-360, 0), (0, 180)]
VECTORS = [[1, 1], [1, -1], [1, 0.5j], [1, 0, 0, 1]]


@P.sub("histories", model, 800, 25000, 2)
def histories(c, t):
    """Interleaved appends, reads and changes of members against a plain Python list; several lists alive at once."""
    asked = []
    pool = [result(p, c["n"]) for p in c["pool"]]
    lists = [[]]
    real = [elli.ResultList()]
    for op, a in c["ops"]:
        if op == "append":
            lists[-1].append(pool[a % len(pool)])
            real[-1].append(pool[a % len(pool)])
        elif op == "new":
            start = [pool[(a + i) % len(pool)] for i in range(a % 3)]
            lists.append(list(start))
            real.append(elli.ResultList(start) if start or a % 2 else elli.ResultList())
        elif op == "range":
            pool[a % len(pool)].as_delta_range(*RANGES[a // 4])
        elif op == "vector":
            pool[a % len(pool)].experiment.set_vector(VECTORS[a // 4])
        elif op == "replace" and lists[-1]:
            i = a // 4 % len(lists[-1])
            lists[-1][i] = pool[a % len(pool)]
            real[-1].results[i] = pool[a % len(pool)]
        for m, r in zip(lists, real):
            require(len(r) == len(m), f"length {len(r)} instead of {len(m)} after {op}")
        if op in ("range", "vector", "replace") and asked and lists[-1]:
            t.tag(f"read again after {op}")
            check(real[-1], lists[-1], asked[-2:], t)
        if op == "read" and lists[-1]:
            asked.append(a)
            check(real[-1], lists[-1], [a], t)
    for m, r in zip(lists, real):
        if m:
            check(r, m, ["r_sp", "mueller_matrix", "delta", *asked], t)
    t.tag(f"lists={len(lists)}")
    t.nontrivial(any(len(set(map(id, m))) > 1 for m in lists))


@P.sub(
    "simulated",
    st.fixed_dictionaries(
        {"d": st.lists(fl(0, 300), min_size=1, max_size=4), "n": gen.n_any(1.0), "lbda": gen.wavelengths(1, 3), "theta": gen.theta(10, 80), "ops": st.lists(st.sampled_from(NAMES), min_size=1, max_size=6)}
    ),
    400,
    8000,
    2,
)
def simulated(c, t):
    """Thickness inhomogeneity: the documented use."""
    mat = gen.material({"m": "n", "n": c["n"]})
    sub = elli.ConstantRefractiveIndex(n=3.8 + 0.02j).get_mat()
    s = elli.Structure(elli.AIR, [elli.Layer(mat, 0)], sub)
    members = []
    for d in c["d"]:
        s.layers[0].set_thickness(d)
        members.append(s.evaluate(np.array(c["lbda"], float), c["theta"], solver=elli.Solver2x2))
    t.nontrivial(len(set(c["d"])) > 1 or (len(c["d"]) == 1 and len(c["lbda"]) > 1))
    ops = [o for o in c["ops"] if not o.startswith(("psi_ps", "delta_matrix", "psi_matrix"))] or ["R"]
    if min(np.min(abs(m.jones_matrix_r[:, 1, 1])) for m in members) < 1e-2:
        ops = ["R", "T_matrix", "jones_matrix_r"]
    check(elli.ResultList(members), members, ops, t)
