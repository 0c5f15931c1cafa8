"""C11 - Mueller matrices are the image of the Jones matrix."""
from vlib.core import Property, close, require
from vlib import gen
from vlib.gen import elli, fl, mix, st
import numpy as np
import pandas as pd
from elli.utils import convert_psi_delta_to_isotropic_mueller_matrix as convert

P = Property(
    "C11",
    rule="a case is non-trivial if the sample is cross-polarising (element above 1e-3) or delta is not a multiple of 90 degrees",
    assumptions=["r_ss not vanishing (the matrix is computed from ratios to it)"],
)

cn = st.tuples(fl(-1.2, 1.2), fl(-1.2, 1.2)).map(list)
off = st.one_of(cn, st.tuples(fl(-0.1, 0.1), fl(-0.1, 0.1)).map(list), st.just([0.0, 0.0]))
nz = cn.filter(lambda c: abs(complex(*c)) > 0.03)
jmat = st.tuples(cn, off, off, nz).map(list)
jvec = st.tuples(cn, cn).filter(lambda v: abs(complex(*v[0])) + abs(complex(*v[1])) > 0.1).map(list)


def arr(ms):
    return np.array([[[complex(*m[0]), complex(*m[1])], [complex(*m[2]), complex(*m[3])]] for m in ms])


def stokes(v):
    p, s = v[..., 0], v[..., 1]
    return np.stack(
        [abs(p) ** 2 + abs(s) ** 2, abs(p) ** 2 - abs(s) ** 2, 2 * (p * np.conj(s)).real, -2 * (p * np.conj(s)).imag], -1
    )


def check_physical(m, j, what):
    """Rank-one coherency matrix built from the Jones matrix, element by element."""
    require(m.dtype.kind == "f" or np.all(np.isreal(m)), f"{what}: complex Mueller matrix")
    n = len(j)
    require(m.shape == (n, 4, 4), f"{what}: shape {m.shape}")
    close(m[:, 0, 0], np.ones(n), 0, 1e-12, f"{what}: M11")
    # M_ij = 1/2 tr(sigma_i J sigma_j J^+), normalised
    sig = np.array([[[1, 0], [0, 1]], [[1, 0], [0, -1]], [[0, 1], [1, 0]], [[0, -1j], [1j, 0]]])
    ref = np.real(np.einsum("aij,njk,bkl,nml->nabim", sig, j, sig, np.conj(j)).trace(axis1=-2, axis2=-1)) / 2
    ref = ref / ref[:, :1, :1]
    close(m, ref, 1e-8, 1e-8, f"{what}: Mueller matrix of the Jones matrix")
    # depolarisation index one (pure), determinant non-negative, |Mij| <= 1
    close(np.sum(m**2, axis=(1, 2)), np.full(n, 4.0), 1e-7, 0, f"{what}: not a pure Mueller matrix")
    require(np.all(abs(m) <= 1 + 1e-9), f"{what}: element above one")
    # coherency matrix: hermitian, rank one, positive
    c = np.einsum("nab,aij,bkl->nikjl", m, sig, np.conj(sig)).reshape(n, 4, 4) / 4
    w = np.linalg.eigvalsh((c + np.conj(c.transpose(0, 2, 1))) / 2)
    close(np.abs(w[:, :3]), np.zeros((n, 3)), 0, 1e-6, f"{what}: coherency matrix of higher rank")
    close(w[:, 3], np.ones(n), 1e-6, 0, f"{what}: largest coherency eigenvalue")


@P.sub("from_jones", st.fixed_dictionaries({"r": st.lists(jmat, min_size=1, max_size=4), "v": jvec}), 3000, 100000, 2)
def from_jones(case, t):
    j = arr(gen.jones_list(case["r"]))
    e = elli.Experiment(None, np.linspace(400, 700, len(j)), 60.0)
    m = elli.Result(e, j, j).mueller_matrix
    t.nontrivial(bool(np.any(abs(j[:, 0, 1]) + abs(j[:, 1, 0]) > 1e-3)))
    t.tag("cross-polarising" if np.any(abs(j[:, 0, 1]) > 1e-3) else None, f"wavelengths={min(len(j), 20)}")
    check_physical(m, j, "result")
    v = np.array([complex(*x) for x in case["v"]])
    sin, sout = stokes(v), stokes(j @ v)
    got = m @ sin
    norm = np.sum(abs(j) ** 2, axis=(1, 2)) / 2  # unnormalised M11
    close(got * norm[:, None], sout, 1e-7, 1e-8 * (1 + abs(sout).max()), "Stokes vector of the reflected light")
    # the Experiment's own Stokes vector
    e2 = elli.Experiment(None, np.linspace(400, 700, len(j)), 60.0, v)
    close(m @ np.asarray(e2.stokes_vector, float), got, 1e-9, 1e-9, "experiment's Stokes vector")


P.sub("from_many_jones", st.fixed_dictionaries({"r": gen.many_jones(), "v": jvec}), 300, 8000, 2)(from_jones)


an = gen.aniso()
iso = gen.iso(st.one_of(gen.n_transparent(), gen.n_absorbing(1.0)))


@P.sub(
    "simulated",
    st.fixed_dictionaries(
        {"s": gen.stack(st.one_of(an, iso), back=st.one_of(iso, an), max_layers=2, dmax=300.0), "lbda": gen.wavelengths(1, 3), "theta": gen.theta(0, 85), "v": jvec}
    ),
    800,
    30000,
    2,
)
def simulated(case, t):
    s = case["s"]
    if gen.attenuation(s, case["lbda"], case["theta"]) > 4 or gen.min_kz(s, case["theta"]) < 1e-3:
        t.tag("outside domain")
        return
    v = np.array([complex(*x) for x in case["v"]])
    exp = elli.Experiment(gen.structure(s), np.array(case["lbda"], float), case["theta"], v)
    res = exp.evaluate()
    j = res.jones_matrix_r
    if np.min(abs(j[:, 1, 1])) < 1e-2:
        t.tag("vanishing r_ss")
        return
    cross = np.max(abs(j[:, 0, 1])) + np.max(abs(j[:, 1, 0])) > 1e-3
    q = j[:, 0, 0] / j[:, 1, 1]
    t.tag("cross-polarising" if cross else "diagonal")
    t.nontrivial(bool(cross or np.any(abs(q.imag) > 1e-3)))
    m = res.mueller_matrix
    check_physical(m, j, "simulated")
    norm = np.sum(abs(j) ** 2, axis=(1, 2)) / 2
    close((m @ exp.stokes_vector) * norm[:, None], stokes(j @ v), 1e-6, 1e-7, "Stokes vector of the reflected light")


def ncs(psi, delta):
    p, d = np.deg2rad(psi), np.deg2rad(delta)
    n, c, s = np.cos(2 * p), np.sin(2 * p) * np.cos(d), np.sin(2 * p) * np.sin(d)
    m = np.zeros(np.shape(psi) + (4, 4))
    m[..., 0, 0] = m[..., 1, 1] = 1
    m[..., 0, 1] = m[..., 1, 0] = -n
    m[..., 2, 2] = m[..., 3, 3] = c
    # (fourth Stokes component -2 Im p s*, as in the Experiment class)
    m[..., 2, 3], m[..., 3, 2] = -s, s
    return m


@P.sub(
    "isotropic_block_form",
    st.fixed_dictionaries({"s": gen.stack(iso, max_layers=2, dmax=300.0), "lbda": gen.wavelengths(1, 3), "theta": gen.theta(1, 85), "solver": st.sampled_from(["2x2", "4x4"])}),
    800,
    20000,
)
def isotropic(case, t):
    s = case["s"]
    if gen.attenuation(s, case["lbda"], case["theta"]) > 4 or gen.min_kz(s, case["theta"]) < 1e-3:
        t.tag("outside domain")
        return
    res = gen.structure(s).evaluate(np.array(case["lbda"], float), case["theta"], solver={"2x2": elli.Solver2x2, "4x4": elli.Solver4x4}[case["solver"]])
    if np.min(abs(res.jones_matrix_r[:, 1, 1])) < 1e-2:
        t.tag("vanishing r_ss")
        return
    t.nontrivial(bool(np.any(abs(np.sin(2 * np.deg2rad(res.delta))) > 1e-3)))
    close(res.mueller_matrix, ncs(res.psi, res.delta), 0, 1e-6, "N/C/S form of an isotropic sample")
    # converting the simulated psi/delta table gives the simulated matrix
    L = np.array(case["lbda"], float)
    if len(set(L)) != len(L):
        return
    df = pd.DataFrame(
        {"Ψ": res.psi, "Δ": res.delta}, index=pd.MultiIndex.from_product([[case["theta"]], L], names=["Angle of Incidence", "Wavelength"])
    )
    mm = convert(df)
    close(mm.to_numpy(float).reshape(-1, 4, 4), res.mueller_matrix, 0, 1e-6, "conversion of the simulated table")


LAB = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]


@P.sub(
    "table_conversion",
    st.fixed_dictionaries(
        {
            "aoi": st.lists(mix([50.0, 60.0, 70.0], fl(1, 89, 2)), min_size=1, max_size=3, unique=True),
            "lbda": st.lists(mix([400.0, 500.0], fl(200, 2000, 2)), min_size=1, max_size=4, unique=True),
            "psi": st.lists(fl(0, 90), min_size=12, max_size=12),
            "delta": st.lists(mix([0.0, 90.0, 180.0], fl(-180, 360)), min_size=12, max_size=12),
            "extra": st.booleans(),
            "swap": st.booleans(),
            "ghost": st.sampled_from([None, None, "angle", "wavelength", "both"]),
            "shuffle": st.one_of(st.none(), st.randoms(use_true_random=False).map(lambda r: r.randrange(1000))),
        }
    ),
    500,
    10000,
    2,
)
def table(case, t):
    aoi, lb = case["aoi"], case["lbda"]
    n = len(aoi) * len(lb)
    psi, delta = np.array(case["psi"][:n]), np.array(case["delta"][:n])
    t.nontrivial(bool(np.any(np.sin(2 * np.deg2rad(delta)) != 0)))
    t.tag(f"angles={len(aoi)}", f"wavelengths={len(lb)}")
    df = pd.DataFrame({"Ψ": psi, "Δ": delta}, index=pd.MultiIndex.from_product([aoi, lb], names=["Angle of Incidence", "Wavelength"]))
    if case["ghost"]:
        # rows of further angles and wavelengths that are filtered out again (their labels stay in the index levels)
        more = [(99.0, x) for x in lb] if case["ghost"] != "wavelength" else []
        more += [(a, 99.0) for a in aoi] if case["ghost"] != "angle" else []
        ghost = pd.DataFrame({"Ψ": 1.0, "Δ": 2.0}, index=pd.MultiIndex.from_tuples(more, names=df.index.names))
        df = pd.concat([ghost, df])
        df = df[(df.index.get_level_values(0) != 99.0) & (df.index.get_level_values(1) != 99.0)]
        t.tag("filtered table")
    if case["shuffle"] is not None:
        df = df.iloc[np.random.RandomState(case["shuffle"]).permutation(n)]
    if case["extra"]:
        df = df.assign(dΨ=0.1)
    if case["swap"]:
        df = df[list(df.columns)[::-1]]
    keep = df.copy()
    mm = convert(df)
    require(df.equals(keep), "the converted table was changed")
    require(len(mm) == n and sorted(mm.columns) == LAB, lambda: f"shape of the Mueller table: {mm.shape}, {list(mm.columns)}")
    exp = ncs(psi, delta)
    k = 0
    for a in aoi:
        for x in lb:
            row = mm.loc[(a, x)]
            got = np.array([[float(row[f"M{i}{j}"]) for j in range(1, 5)] for i in range(1, 5)])
            close(got, exp[k], 0, 1e-9, f"Mueller matrix at {a} deg, {x} nm")
            k += 1
