"""C05 - metamorphic relations between optically equivalent structures."""
from vlib.core import Property, close, require
from vlib import gen, rich
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C05",
    rule="a case is non-trivial if at least one rewrite that changes the description was applied to a "
    "structure with at least one layer thicker than 1 nm",
    assumptions=[
        "transparent front medium, attenuation exponent below 4, |kz/k0| > 1e-3 in isotropic media",
        "extra layers before/after a repeated block only where the block consists of plain layers",
    ],
)

iso = gen.iso(st.one_of(gen.n_transparent(), gen.n_transparent(), gen.n_absorbing(1.0)))
front = gen.iso(gen.n_transparent(1.0, 2.5))


# ------------------------------------------------------------- layer trees (repeats)
def tree(mat, depth=2):
    leaf = st.fixed_dictionaries({"mat": mat, "d": gen.thickness(200.0)})
    if depth == 0:
        return leaf
    sub = tree(mat, depth - 1)
    plain = st.fixed_dictionaries(
        {
            "rep": st.integers(1, 4),
            "of": st.lists(leaf, min_size=1, max_size=3),
            "before": st.integers(0, 3),
            "after": st.integers(0, 3),
        }
    )
    nested = st.fixed_dictionaries(
        {
            "rep": st.integers(1, 3),
            "of": st.lists(sub, min_size=1, max_size=3),
            "before": st.just(0),
            "after": st.just(0),
        }
    )
    return st.one_of(leaf, plain, nested)


def flatten(node):
    if "mat" in node:
        return [node]
    period = [x for n in node["of"] for x in flatten(n)]
    b = min(node["before"], len(period))
    a = min(node["after"], len(period))
    return (period[len(period) - b :] if b else []) + period * node["rep"] + period[:a]


def build(node):
    if "mat" in node:
        return gen.layer(node)
    of = [build(n) for n in node["of"]]
    plain = all("mat" in n for n in node["of"])
    b = min(node["before"], len(of)) if plain else 0
    a = min(node["after"], len(of)) if plain else 0
    return elli.RepeatedLayers(of, node["rep"], b, a)


# ------------------------------------------------------------------------- comparison
def evaluate(front_m, layers, back, case, solver):
    s = elli.Structure(front_m, layers, back)
    sol = {"2x2": elli.Solver2x2, "4x4": elli.Solver4x4}[solver]
    return s.evaluate(np.array(case["lbda"], float), case["theta"], solver=sol)


def same(b, a, what, iso_back=True, t_phase=False):
    close(b.jones_matrix_r, a.jones_matrix_r, 1e-6, 1e-7, f"{what}: reflection Jones matrix")
    close(b.R_matrix, a.R_matrix, 1e-6, 1e-7, f"{what}: R")
    if iso_back:
        sc = max(1.0, abs(a.jones_matrix_t).max())
        if not t_phase:
            close(b.jones_matrix_t, a.jones_matrix_t, 1e-6, 1e-7 * sc, f"{what}: transmission Jones matrix")
            close(b.T_matrix, a.T_matrix, 2e-6, 2e-7 * sc**2, f"{what}: T")


def domain(s, case, limit=4):
    return gen.attenuation(s, case["lbda"], case["theta"]) < limit and gen.min_kz(s, case["theta"]) > 1e-3


def pick_solver(case, mats):
    return "4x4" if any(m["m"] == "aniso" for m in mats) else case["solver"]


def run_tree(case, t):
    flat = [x for n in case["tree"] for x in flatten(n)]
    s = {"front": case["front"], "layers": flat, "back": case["back"]}
    if len(flat) > 60 or not domain(s, case):
        t.tag("outside domain")
        return
    solver = pick_solver(case, [x["mat"] for x in flat] + [case["back"]])
    t.tag(solver, f"flat layers={min(len(flat), 20)}")

    def has(n, f):
        return "rep" in n and (f(n) or any(has(k, f) for k in n["of"]))

    t.tag("nested" if any(has(n, lambda n: any("rep" in k for k in n["of"])) for n in case["tree"]) else None)
    t.tag("extra layers" if any(has(n, lambda n: n["before"] + n["after"] > 0) for n in case["tree"]) else None)
    t.nontrivial(any("rep" in n for n in case["tree"]) and any(x["d"] > 1 for x in flat))
    fr, ba = gen.material(case["front"]), gen.material(case["back"])
    a = evaluate(fr, [gen.layer(x) for x in flat], ba, case, solver)
    b = evaluate(fr, [build(n) for n in case["tree"]], ba, case, solver)
    same(b, a, "repeated block against written-out layers", case["back"]["m"] != "aniso")


def tree_cases(mat, back):
    return st.fixed_dictionaries(
        {
            "front": front,
            "tree": st.lists(tree(mat), min_size=1, max_size=3),
            "back": back,
            "lbda": gen.wavelengths(1, 2),
            "theta": gen.theta(),
            "solver": st.sampled_from(["2x2", "4x4"]),
        }
    )


P.sub("repeated_isotropic", tree_cases(iso, iso), 800, 30000, 2)(run_tree)
P.sub("repeated_anisotropic", tree_cases(st.one_of(gen.aniso(False), iso), st.one_of(iso, gen.aniso())), 400, 15000, 2)(run_tree)

# ------------------------------------------------------- sequences of local rewrites
rewrite = st.one_of(
    st.tuples(st.just("zero"), st.integers(0, 9), iso),
    st.tuples(st.just("zero_twist"), st.integers(0, 9), gen.aniso()),
    st.tuples(st.just("split"), st.integers(0, 9), fl(0.0, 1.0)),
    st.tuples(st.just("split3"), st.integers(0, 9), fl(0.0, 0.5)),
    st.tuples(st.just("repeat_split"), st.integers(0, 9), st.integers(1, 6)),
    st.tuples(st.just("wrap1"), st.integers(0, 9), st.integers(1, 3)),
    st.tuples(st.just("twist0"), st.integers(0, 9), st.integers(1, 6)),
    st.tuples(st.just("back_layer"), fl(0.0, 300.0), st.just(None)),
    st.tuples(st.just("front_zero"), st.just(None), st.just(None)),
    st.tuples(st.just("fraction"), st.integers(0, 9), st.sampled_from(["vca0", "vca1", "vcasame"])),
    st.tuples(st.just("rotate_iso"), st.integers(0, 9), gen.rotation()),
    st.tuples(st.just("uniaxial"), st.integers(0, 9), gen.rotation()),
).map(list)


def run_rewrites(case, t):
    s = case["s"]
    if not domain(s, case):
        t.tag("outside domain")
        return
    mats = [x["mat"] for x in s["layers"]] + [s["back"]]
    solver = pick_solver(case, mats)
    back = gen.material(s["back"])
    fr = gen.material(s["front"])
    iso_back = s["back"]["m"] != "aniso"
    base = evaluate(fr, [gen.layer(x) for x in s["layers"]], back, case, solver)
    # (spec or None, layer object)
    cur = [(x, gen.layer(x)) for x in s["layers"]]
    applied = []
    t_phase = False
    for op, i, arg in case["ops"]:
        n = len(cur)
        if op == "zero":
            cur.insert(i % (n + 1), (None, elli.Layer(gen.material(arg), 0)))
        elif op == "zero_twist":
            if solver != "4x4":
                continue
            cur.insert(i % (n + 1), (None, elli.TwistedLayer(gen.material(arg), 0, 3, 90)))
        elif op == "back_layer":
            kb = gen.c(s["back"]["n"]) if iso_back else None
            if kb is None or kb.imag * i * 2 * np.pi / min(case["lbda"]) > 2:
                continue
            kx = gen.c(s["front"]["n"]).real * np.sin(np.deg2rad(case["theta"]))
            if np.sqrt(complex(kb**2 - kx**2)).imag * i * 2 * np.pi / min(case["lbda"]) > 2:
                continue
            cur.append((None, elli.Layer(gen.material(s["back"]), i)))
            t_phase = True
        elif op == "front_zero":
            cur.insert(0, (None, elli.Layer(gen.material(s["front"]), 0)))
        else:
            plain = [k for k in range(n) if cur[k][0] is not None]
            if not plain:
                continue
            k = plain[i % len(plain)]
            x = cur[k][0]
            m = lambda x=x: gen.material(x["mat"])
            isom = x["mat"]["m"] == "n"
            if op == "split":
                new = [dict(x, d=x["d"] * arg), dict(x, d=x["d"] - x["d"] * arg)]
                cur[k : k + 1] = [(y, gen.layer(y)) for y in new]
            elif op == "split3":
                a = x["d"] * arg
                mat = m()  # the same material object three times
                cur[k : k + 1] = [(None, elli.Layer(mat, v)) for v in (a, x["d"] - 2 * a, a)]
            elif op == "repeat_split":
                cur[k] = (None, elli.RepeatedLayers([elli.Layer(m(), x["d"] / arg)], arg))
            elif op == "wrap1":
                cur[k : k + arg] = [(None, elli.RepeatedLayers([c[1] for c in cur[k : k + arg]], 1))]
            elif op == "twist0":
                cur[k] = (None, elli.TwistedLayer(m(), x["d"], arg, 0))
            elif op == "fraction":
                other = gen.material({"m": "n", "n": [2.2, 0.0]})
                mixture = {
                    "vca0": lambda: elli.VCAMaterial(m(), other, 0),
                    "vca1": lambda: elli.VCAMaterial(other, m(), 1),
                    "vcasame": lambda: elli.VCAMaterial(m(), m(), 0.4),
                }[arg]()
                cur[k] = (None, elli.Layer(mixture, x["d"]))
            elif op == "rotate_iso":
                if not isom:
                    continue
                mat = m()
                mat.set_rotation(gen.elli_rotation(arg))
                cur[k] = (None, elli.Layer(mat, x["d"]))
            elif op == "uniaxial":
                if not isom:
                    continue
                d = elli.ConstantRefractiveIndex(gen.c(x["mat"]["n"]))
                mat = elli.UniaxialMaterial(d, d)
                mat.set_rotation(gen.elli_rotation(arg))
                cur[k] = (None, elli.Layer(mat, x["d"]))
        applied.append(op)
    for op in applied:
        t.tag(op)
    t.tag(solver)
    t.nontrivial(bool(applied) and any(x["d"] > 1 for x in s["layers"]))
    got = evaluate(fr, [c[1] for c in cur], back, case, solver)
    same(got, base, f"rewrites {applied}", iso_back, t_phase)
    if t_phase:
        k = gen.c(s["back"]["n"])
        if k.imag == 0 and gen.min_kz(s, case["theta"]) > 1e-2:
            close(got.T_matrix, base.T_matrix, 2e-6, 1e-6 * max(1, abs(base.T_matrix).max()), f"rewrites {applied}: T")


def rw_cases(mat, back, **kw):
    return st.fixed_dictionaries(
        {
            "s": gen.stack(mat, front=front, back=back, max_layers=3, min_layers=1, **kw),
            "ops": st.lists(rewrite, min_size=1, max_size=5),
            "lbda": gen.wavelengths(1, 2),
            "theta": gen.theta(),
            "solver": st.sampled_from(["2x2", "4x4"]),
        }
    )


P.sub("rewrites_isotropic", rw_cases(iso, iso), 1200, 40000, 2)(run_rewrites)
P.sub("rewrites_anisotropic", rw_cases(st.one_of(gen.aniso(), iso), st.one_of(iso, gen.aniso()), dmax=400.0), 800, 30000, 2)(run_rewrites)


@P.sub(
    "merge",
    st.fixed_dictionaries(
        {
            "front": front,
            "mats": st.lists(st.one_of(gen.aniso(), iso), min_size=1, max_size=3),
            "parts": st.lists(st.tuples(st.integers(0, 2), gen.thickness(200.0)).map(list), min_size=2, max_size=7),
            "back": iso,
            "lbda": gen.wavelengths(1, 2),
            "theta": gen.theta(),
            "solver": st.sampled_from(["2x2", "4x4"]),
        }
    ),
    500,
    15000,
)
def merge(case, t):
    """Equal neighbours merged into one layer; materials shared between layers."""
    ms = case["mats"]
    parts = [(i % len(ms), d) for i, d in case["parts"]]
    merged = []
    for i, d in parts:
        if merged and merged[-1][0] == i:
            merged[-1] = (i, merged[-1][1] + d)
        else:
            merged.append((i, d))
    s = {"front": case["front"], "layers": [{"mat": ms[i], "d": d} for i, d in parts], "back": case["back"]}
    if not domain(s, case):
        t.tag("outside domain")
        return
    t.nontrivial(len(merged) < len(parts) and any(d > 1 for _, d in parts))
    t.tag(f"merged={len(parts) - len(merged)}")
    solver = pick_solver(case, ms)
    objs = [gen.material(m) for m in ms]
    fr, ba = gen.material(case["front"]), gen.material(case["back"])
    a = evaluate(fr, [elli.Layer(objs[i], d) for i, d in parts], ba, case, solver)
    b = evaluate(fr, [elli.Layer(objs[i], d) for i, d in merged], ba, case, solver)
    same(b, a, "merged equal neighbours")


@P.sub(
    "scaling",
    st.fixed_dictionaries(
        {
            "s": gen.stack(st.one_of(iso, gen.aniso()), front=front, back=st.one_of(iso, gen.aniso()), max_layers=3, min_layers=1),
            "factor": mix([2.0, 0.5, 10.0, 0.1], fl(0.05, 20.0)),
            "lbda": gen.wavelengths(1, 3),
            "theta": gen.theta(),
            "solver": st.sampled_from(["2x2", "4x4"]),
        }
    ),
    700,
    20000,
    2,
)
def scaling(case, t):
    """(thickness, wavelength) -> factor * (thickness, wavelength)"""
    s, f = case["s"], case["factor"]
    if not domain(s, case):
        t.tag("outside domain")
        return
    solver = pick_solver(case, [x["mat"] for x in s["layers"]] + [s["back"]])
    t.tag(solver)
    t.nontrivial(f != 1 and any(x["d"] > 1 for x in s["layers"]))
    fr, ba = gen.material(s["front"]), gen.material(s["back"])
    a = evaluate(fr, [gen.layer(x) for x in s["layers"]], ba, case, solver)
    sc = dict(case, lbda=[x * f for x in case["lbda"]])
    b = evaluate(fr, [elli.Layer(gen.material(x["mat"]), x["d"] * f) for x in s["layers"]], ba, sc, solver)
    same(b, a, "scaled lengths", s["back"]["m"] != "aniso")


@P.sub(
    "outer_layers",
    st.fixed_dictionaries(
        {
            "s": gen.stack(st.one_of(iso, gen.aniso()), front=front, back=st.one_of(iso, gen.aniso(False)), max_layers=2),
            "df": fl(0.0, 500.0),
            "db": fl(0.0, 500.0),
            "lbda": gen.wavelengths(1, 3),
            "theta": gen.theta(),
            "solver": st.sampled_from(["2x2", "4x4"]),
        }
    ),
    700,
    20000,
    2,
)
def outer_layers(case, t):
    """A layer of the front (back) medium shifts phases by twice (once) its optical path."""
    s = case["s"]
    ext = {"front": s["front"], "layers": [*s["layers"], {"mat": s["back"], "d": case["db"]}], "back": s["back"]}
    if not domain(ext, case):
        t.tag("outside domain")
        return
    solver = pick_solver(case, [x["mat"] for x in s["layers"]] + [s["back"]])
    t.tag(solver)
    iso_back = s["back"]["m"] != "aniso"
    t.nontrivial(case["df"] > 1 or case["db"] > 1)
    fr, ba = gen.material(s["front"]), gen.material(s["back"])
    inner = [gen.layer(x) for x in s["layers"]]
    a = evaluate(fr, inner, ba, case, solver)
    b = evaluate(fr, [*inner, elli.Layer(ba, case["db"])], ba, case, solver)
    c = evaluate(fr, [elli.Layer(fr, case["df"]), *inner], ba, case, solver)
    n0 = gen.c(s["front"]["n"]).real
    lb = np.array(case["lbda"])
    kx = n0 * np.sin(np.deg2rad(case["theta"]))
    ph0 = np.exp(2j * np.pi / lb * n0 * np.cos(np.deg2rad(case["theta"])) * case["df"])[:, None, None]
    sc = max(1.0, abs(a.jones_matrix_t).max())
    close(b.jones_matrix_r, a.jones_matrix_r, 1e-6, 1e-7, "layer of the back material: reflection")
    close(c.jones_matrix_r, ph0**2 * a.jones_matrix_r, 1e-6, 1e-7, "layer of the front material: reflection")
    if iso_back:
        nb = gen.c(s["back"]["n"])
        kz = np.sqrt(complex(nb**2 - kx**2))
        phb = np.exp(2j * np.pi / lb * kz * case["db"])[:, None, None]
        close(b.jones_matrix_t, phb * a.jones_matrix_t, 1e-6, 1e-7 * sc, "layer of the back material: transmission")
        close(c.jones_matrix_t, ph0 * a.jones_matrix_t, 1e-6, 1e-7 * sc, "layer of the front material: transmission")
    rss, rpp = a.jones_matrix_r[:, 1, 1], a.jones_matrix_r[:, 0, 0]
    if solver == "2x2" and min(abs(rss)) > 1e-2 and min(abs(rpp)) > 1e-2:
        close(c.psi, a.psi, 0, 1e-4, "layer of the front material: psi")
        d = (c.delta - a.delta + 180) % 360 - 180
        close(d, 0 * d, 0, 1e-3, "layer of the front material: delta")


@P.sub(
    "coinciding_media",
    st.tuples(st.one_of(rich.coinciding(), rich.coinciding(isotropic=True)), gen.theta(0, 80), st.sampled_from(["2x2", "4x4"]), fl(0.05, 0.95), gen.n_transparent(1.2, 2.5), st.integers(0, 5)).map(
        lambda t: dict(t[0], theta=t[1], solver=t[2], cut=t[3], foreign=t[4], ops=t[5])
    ),
    500,
    12000,
    2,
)
def coinciding_media(case, t):
    """Neighbouring media that are equal at one wavelength of the spectrum only: zero layers, cuts and blocks."""
    s = case["s"]
    solver = case["solver"] if rich.is_iso(s) else "4x4"
    if not rich.evaluable(s, np.array(case["lbda"]), case["theta"], solver):
        t.tag("outside domain")
        return
    t.tag(solver)
    t.nontrivial(sum(x["d"] > 1 for x in s["layers"]) > 1)
    fr, ba = rich.build(s["front"]), rich.build(s["back"])
    a = evaluate(fr, [rich.build_layer(x) for x in s["layers"]], ba, case, solver)
    layers = []
    for x in s["layers"]:
        parts = [dict(x, d=x["d"] * case["cut"]), dict(x, d=x["d"] - x["d"] * case["cut"])]
        if case["ops"] % 2:
            layers.append(elli.Layer(gen.material({"m": "n", "n": case["foreign"]}), 0))
        layers += [rich.build_layer(y) for y in parts] if case["ops"] % 3 else [elli.RepeatedLayers([rich.build_layer(dict(x, d=x["d"] / 3))], 3)]
    if case["ops"] > 3:
        layers = [elli.RepeatedLayers(layers, 1)]
    b = evaluate(fr, layers, ba, case, solver)
    same(b, a, "rewritten structure of coinciding media", "uni" != s["back"]["m"] != "bi")


@P.sub(
    "many_layers",
    st.fixed_dictionaries(
        {
            "front": front,
            "of": st.lists(st.fixed_dictionaries({"mat": st.one_of(iso, iso, gen.aniso()), "d": fl(0.01, 8.0, 3)}), min_size=1, max_size=3),
            "rep": gen.big(20, 260),
            "outer": st.integers(1, 3),
            "how": st.sampled_from(["written out", "nested", "written out", "split", "twist"]),
            "extra": st.integers(0, 2),
            "back": iso,
            "lbda": gen.wavelengths(1, 2),
            "theta": gen.theta(),
            "solver": st.sampled_from(["2x2", "2x2", "4x4"]),
        }
    ),
    250,
    6000,
    4,
)
def many_layers(case, t):
    """Hundreds of layers: repeated blocks, written-out blocks and one layer cut into many."""
    of, n = case["of"], case["rep"]
    if case["how"] in ("split", "twist"):
        of = of[:1]
        flat = [dict(of[0], d=of[0]["d"] * n)]
    else:
        flat = of * n
    s = {"front": case["front"], "layers": flat, "back": case["back"]}
    if not domain(s, case):
        t.tag("outside domain")
        return
    solver = pick_solver(case, [x["mat"] for x in of])
    fr, ba = gen.material(case["front"]), gen.material(case["back"])
    la = [gen.layer(x) for x in of]
    b, a = case["extra"] % (len(of) + 1), (case["extra"] + 1) % (len(of) + 1)
    t.tag(case["how"], solver, f"layers<{1 << (len(of) * n - 1).bit_length()}")
    t.nontrivial(len(of) > 1 or case["how"] in ("split", "twist"))
    if case["how"] == "split":
        x, y = [elli.Layer(gen.material(of[0]["mat"]), of[0]["d"] * n)], [gen.layer(of[0]) for _ in range(n)]
        if case["extra"]:
            y = [elli.RepeatedLayers(y[:1], n)]
    elif case["how"] == "twist":
        x, y = [elli.Layer(gen.material(of[0]["mat"]), of[0]["d"] * n)], [elli.TwistedLayer(gen.material(of[0]["mat"]), of[0]["d"] * n, n, 0)]
    else:
        x = (la[len(la) - b :] if b else []) + la * n + la[:a]
        if case["how"] == "nested" and n % case["outer"] == 0:
            y = [elli.RepeatedLayers([elli.RepeatedLayers(la, case["outer"])], n // case["outer"])]
            y = (la[len(la) - b :] if b else []) + y + la[:a]
        else:
            y = [elli.RepeatedLayers(la, n, b, a)]
    same(evaluate(fr, y, ba, case, solver), evaluate(fr, x, ba, case, solver), f"{case['how']}, {n} times {len(of)} layers")
