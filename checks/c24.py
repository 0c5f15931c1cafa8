"""C24 - invalid structure descriptions are rejected, objects keep their state."""
from vlib.core import Property, Violation, close, require
from vlib import rich
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C24",
    rule="a case is non-trivial if it contains at least one rejected and one accepted call (histories) or any invalid argument "
    "(constructors)",
    assumptions=[
        "not-a-number and infinite thicknesses, non-integral counts and non-callable modulations are outside the property",
    ],
)

N = [1.3, 1.7, 2.2, 2.9]


def disps():
    return [elli.ConstantRefractiveIndex(n=x) for x in N]


def mats():
    m = [d.get_mat() for d in disps()]
    m.append(elli.UniaxialMaterial(disps()[0], disps()[2]))
    m.append(elli.VCAMaterial(m[0], m[3], 0.25))
    return m


def mat_eps(i):
    if i < 4:
        return np.eye(3) * N[i] ** 2
    if i == 4:
        return np.diag([N[0] ** 2, N[0] ** 2, N[2] ** 2])
    return np.eye(3) * (0.75 * N[0] ** 2 + 0.25 * N[3] ** 2)


def mixtures():
    m = mats()
    return [elli.VCAMaterial(m[0], m[1], 0.5), elli.VCAMaterial(m[2], m[3], 0.1), elli.LooyengaEMA(m[1], m[3], 0.9)]


MIXREF = [("vca", 0, 1, 0.5), ("vca", 2, 3, 0.1), ("looyenga", 1, 3, 0.9)]


def mix_eps(i, f):
    k, h, g, f0 = MIXREF[i]
    return rich.ref_mixture(k, mat_eps(h).astype(complex), mat_eps(g).astype(complex), f0 if f is None else f)


def layers():
    m = mats()
    return [
        elli.Layer(m[0], 10.0),
        elli.Layer(m[1], 20.5),
        elli.TwistedLayer(m[2], 7.0, 2, 90.0),
        elli.RepeatedLayers([elli.Layer(m[3], 1.0), elli.Layer(m[0], 2.0)], 2, 1, 0),
        elli.VaryingMixtureLayer(mixtures()[0], 4.0, 1),
    ]


def layer_thick(i):
    return [[10.0], [20.5], [3.5, 3.5], [2.0, 1.0, 2.0, 1.0, 2.0], [4.0]][i]


# ----------------------------------------------------------------------- junk of a kind
class Look:
    """Carries the attributes and methods of what it is not."""

    def __init__(self, of):
        self.of = of
        for k, v in vars(of).items():
            setattr(self, k, v)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self.of, k)


def junk(name, j):
    """An object that is not of the wanted kind."""
    m, la = mats(), layers()
    common = [None, 3, 1.5, "SiO2", [], {}, (), np.array([1.0, 2.0]), object(), lambda x: x, elli.Structure(m[0], [], m[1])]
    if name == "mat":
        pool = common + [disps()[0], la[0], [m[0]], (m[0], m[1]), elli.IsotropicMaterial, elli.ConstantRefractiveIndex, np.eye(3), Look(m[0]), Look(disps()[1])]
    elif name == "mixture":
        pool = common + [m[0], m[4], disps()[0], la[0], elli.VCAMaterial, Look(mixtures()[0])]
    elif name == "disp":
        pool = common + [m[0], m[5], la[0], [disps()[0]], elli.Cauchy, 1.5 + 0.1j, lambda lbda: 2.25, Look(disps()[2])]
    elif name == "list":
        pool = [None, 3, "ab", la[0], (la[0], la[1]), (), {}, m[0], iter([la[0]]), np.array([1.0]), {la[0]},
                [m[0]], [la[0], None], [la[0], m[1], la[2]], [[la[0]]], [la[0], [la[1]]], [disps()[0]], ["Layer"], [elli.Layer], [la[0], 5.0], [None],
                [elli.Structure(m[0], [], m[1])], [la[1], la[0], (m[0], 10.0)],
                [Look(la[0])], [la[1], Look(la[2])], [la[0], Look(la[3])], [Look(la[4]), la[0]], [Look(m[0])]]
    else:
        raise ValueError(name)
    return pool[j % len(pool)]


negative = st.one_of(fl(-1e6, -1e-6, 6), st.sampled_from([-1, -5e-324, -1e-300, -1e300]))
nonneg = st.one_of(st.sampled_from([0, 0.0, 1, 5e-324, 1e9]), fl(0, 1000, 3))
notnum = st.sampled_from([None, "10", "abc", {}, "nm"])
index = st.integers(0, 60)


def good(name):
    return {
        "mat": st.integers(0, 5),
        "mixture": st.integers(0, 2),
        "disp": st.integers(0, 3),
        "list": st.lists(st.integers(0, 4), max_size=4),
        "thick": nonneg,
        "div": st.sampled_from([1, 2, 3, 7]),
        "frac": mix([0, 1, 0.0, 1.0, 0.5], fl(0, 1), 0.4),
        "rep": st.integers(1, 4),
        "extra": st.integers(0, 1),
    }[name]


def bad(name):
    if name in ("mat", "mixture", "disp", "list"):
        return index
    return {
        "thick": st.one_of(negative, negative, notnum),
        "div": st.one_of(st.integers(-10, 0), st.sampled_from([None, "3", 0, -1])),
        "frac": st.one_of(fl(-10, -1e-6), fl(1.000001, 10), st.sampled_from([-1e-300, 2, -1, "0.5", None, float("nan"), float("inf"), float(np.nextafter(1, 2))])),
        "rep": st.one_of(st.integers(-10, 0), st.sampled_from([None, "2", 0])),
        "extra": st.one_of(st.integers(-10, -1), st.sampled_from(["1", -1])),
    }[name]


def real(name, kind, v, w):
    """The argument for a drawn value."""
    if kind == "bad" and name in ("mat", "mixture", "disp", "list"):
        return junk(name, v)
    if kind == "good":
        if name in ("mat", "mixture", "disp"):
            return w[name][v]
        if name == "list":
            return [w["layer"][i] for i in v]
    return v


def call(setter, names):
    """Strategy for one call; at least one bad argument if it is to be rejected."""

    def build(mask):
        return st.tuples(*[st.tuples(st.just("bad" if b else "good"), bad(n) if b else good(n)).map(list) for n, b in zip(names, mask)]).map(
            lambda a: {"set": setter, "args": [list(x) for x in a]}
        )

    k = len(names)
    masks = [tuple(bool((i >> j) & 1) for j in range(k)) for i in range(2**k)]
    return st.one_of(build(masks[0]), st.sampled_from(masks[1:]).flatmap(build))


# ----------------------------------------------------------------------------- targets
# name -> (constructor, argument names, {setter: argument names}, observed profile of a state)
def obs_layer(s):
    return [(s["thick"], mat_eps(s["mat"]))]


def obs_twist(s):
    n = s["div"]
    if s["thick"] < 1e-100:  # no depth to speak of
        return [(s["thick"] / n, None)] * n
    r = []
    for i in range(n):
        a = np.deg2rad(90.0 * (i + 0.5) / n)
        m = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
        r.append((s["thick"] / n, m @ mat_eps(s["mat"]) @ m.T))
    return r


def obs_vary(s):
    n = s["div"]
    if s["thick"] < 1e-100:
        return [(s["thick"] / n, None)] * n
    return [(s["thick"] / n, mix_eps(s["mixture"], (i + 0.5) / n)) for i in range(n)]


def thick_list(ix):
    return [x for i in ix for x in layer_thick(i)]


def obs_rep(s):
    ix = s["list"]
    head = ix[len(ix) - s["extra_b"] :] if s["extra_b"] else []
    return [(d, None) for d in thick_list(head) + thick_list(ix) * s["rep"] + thick_list(ix[: s["extra_a"]])]


def obs_struct(s):
    return [(np.inf, mat_eps(s["front"])), *[(d, None) for d in thick_list(s["list"])], (np.inf, mat_eps(s["back"]))]


TARGETS = {
    "Layer": (elli.Layer, [("mat", "mat"), ("thick", "thick")], {"set_material": ["mat"], "set_thickness": ["thick"]}, obs_layer),
    "TwistedLayer": (
        lambda m, d, n: elli.TwistedLayer(m, d, n, 90.0),
        [("mat", "mat"), ("thick", "thick"), ("div", "div")],
        {"set_material": ["mat"], "set_thickness": ["thick"], "set_divisions": ["div"]},
        obs_twist,
    ),
    "VaryingMixtureLayer": (
        elli.VaryingMixtureLayer,
        [("mixture", "mixture"), ("thick", "thick"), ("div", "div")],
        {"set_material": ["mixture"], "set_thickness": ["thick"], "set_divisions": ["div"]},
        obs_vary,
    ),
    "RepeatedLayers": (
        elli.RepeatedLayers,
        [("list", "list"), ("rep", "rep"), ("extra_b", "extra"), ("extra_a", "extra")],
        {"set_layers": ["list"], "set_repetitions": ["rep", "extra_b", "extra_a"]},
        obs_rep,
    ),
    "Structure": (
        elli.Structure,
        [("front", "mat"), ("list", "list"), ("back", "mat")],
        {"set_front_material": ["front"], "set_layers": ["list"], "set_back_material": ["back"]},
        obs_struct,
    ),
    "IsotropicMaterial": (elli.IsotropicMaterial, [("d0", "disp")], {"set_dispersion": ["d0"]}, lambda s: np.eye(3) * N[s["d0"]] ** 2),
    "UniaxialMaterial": (
        elli.UniaxialMaterial,
        [("d0", "disp"), ("d1", "disp")],
        {"set_dispersion": ["d0", "d1"]},
        lambda s: np.diag([N[s["d0"]], N[s["d0"]], N[s["d1"]]]) ** 2,
    ),
    "BiaxialMaterial": (
        elli.BiaxialMaterial,
        [("d0", "disp"), ("d1", "disp"), ("d2", "disp")],
        {"set_dispersion": ["d0", "d1", "d2"]},
        lambda s: np.diag([N[s[k]] for k in ("d0", "d1", "d2")]) ** 2,
    ),
}
for _k in sorted(rich.MIX):
    TARGETS[rich.MIX[_k].__name__] = (
        rich.MIX[_k],
        [("host", "mat"), ("guest", "mat"), ("frac", "frac")],
        {"set_constituents": ["host", "guest"], "set_fraction": ["frac"]},
        (lambda k: lambda s: rich.ref_mixture(k, mat_eps(s["host"]).astype(complex), mat_eps(s["guest"]).astype(complex), s["frac"]))(_k),
    )


def world():
    return {"mat": mats(), "mixture": mixtures(), "disp": disps(), "layer": layers()}


def check_state(target, obj, state, what):
    obs = TARGETS[target][3](state)
    lb = np.array([500.0])
    if isinstance(obs, list):
        got = obj.get_permittivity_profile(lb)
        require(len(got) == len(obs), f"{what}: profile has {len(got)} entries, expected {len(obs)} for {state}")
        for (d, e), (dr, er) in zip(got, obs):
            if np.isinf(dr):
                require(np.isinf(d), f"{what}: outer thickness {d}")
            else:
                close(d, dr, 1e-9, 1e-12, f"{what}: thickness in the profile")
            if er is not None:
                close(e[0], er, 1e-7, 1e-8, f"{what}: tensor in the profile")
    else:
        close(obj.get_tensor(lb)[0], obs, 1e-7, 1e-8, f"{what}: tensor")


def rejected(fn, args, what):
    try:
        fn(*args)
    except (ValueError, TypeError):
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what} raised {type(e).__name__} instead of ValueError or TypeError: {e}") from e
    raise Violation(f"{what} was accepted")


def describe(args):
    return ", ".join(f"{k} {v}" if k == "bad" else str(v) for k, v in args)


def target_case(name):
    ctor, cargs, setters, _ = TARGETS[name]
    kinds = dict(cargs)
    init = st.tuples(*[good(k) for _, k in cargs]).map(list)
    calls = st.one_of(*[call(s, [kinds[a] for a in names]) for s, names in setters.items()])
    return st.fixed_dictionaries(
        {"target": st.just(name), "init": init, "ctor": call("init", [k for _, k in cargs]), "ops": st.lists(calls, min_size=1, max_size=10)}
    )


def run_history(case, t):
    name = case["target"]
    ctor, cargs, setters, _ = TARGETS[name]
    kinds = dict(cargs)
    w = world()
    state = {}
    for (key, k), v in zip(cargs, case["init"]):
        state[key] = v

    def limit(s):
        """Extra layers do not exceed the block."""
        return "list" not in s or "rep" not in s or (s["extra_a"] <= len(s["list"]) and s["extra_b"] <= len(s["list"]))

    obj = ctor(*[real(k, "good", v, w) for (_, k), v in zip(cargs, case["init"])])
    t.tag(name)
    if limit(state):
        check_state(name, obj, state, f"new {name}")
    acc = rej = 0
    for op in case["ops"]:
        names = setters[op["set"]]
        args = [real(kinds[a], k, v, w) for a, (k, v) in zip(names, op["args"])]
        fn = getattr(obj, op["set"])
        what = f"{name}.{op['set']}({describe(op['args'])})"
        if any(k == "bad" for k, _ in op["args"]):
            rejected(fn, args, what)
            rej += 1
            t.tag(f"rejected {op['set']}")
        else:
            fn(*args)
            acc += 1
            for a, (_, v) in zip(names, op["args"]):
                state[a] = v
        if limit(state):
            check_state(name, obj, state, f"{name} after {op['set']}({describe(op['args'])})")
    t.nontrivial(acc and rej)
    # the constructor refuses what the setters refuse
    args = [real(k, kind, v, w) for (_, k), (kind, v) in zip(cargs, case["ctor"]["args"])]
    if any(k == "bad" for k, _ in case["ctor"]["args"]):
        rejected(ctor, args, f"{name}({describe(case['ctor']['args'])})")
    else:
        s = {key: v for (key, _), (_, v) in zip(cargs, case["ctor"]["args"])}
        o = ctor(*args)
        if limit(s):
            check_state(name, o, s, f"{name}({describe(case['ctor']['args'])})")
    # nothing of this touched the ingredients
    for i, m in enumerate(w["mat"]):
        close(m.get_tensor([500.0])[0], mat_eps(i), 1e-9, 1e-9, "an ingredient material")
    for i, la in enumerate(w["layer"]):
        close([d for d, _ in la.get_permittivity_profile([500.0])], layer_thick(i), 1e-12, 0, "an ingredient layer")


for _n in TARGETS:
    P.sub(_n, target_case(_n), 500, 10000, 1)(run_history)
