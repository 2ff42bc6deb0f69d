"""C18: index-1 DAEs are solved on the constraint manifold"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from scipy.sparse import csc_array, csr_array

from pbt.core import Sub, require
from pbt.gen import logu, mags, num
from pbt.methods import IMPL, METHODS, Watch, acc_bound, options, require_ok
from pbt.problems import KINDS, build, first_order, rotation

RULE = ("a case is (implicit method, index-1 DAE built from an ODE with closed-form solution and algebraic variables "
        "given by generated functions of it, transformed by generated regular matrices, Jacobian and mass matrix "
        "forms); non-trivial when at least 3 steps were compared with the true solution; starts (consistent or not) "
        "count when the algebraic part was perturbed; higher-index problems always count")


@st.composite
def dae(draw, cap=3):
    lin = draw(st.integers(0, 3)) == 0
    spec = draw(first_order(kinds=("lin", "rot", "forced")) if lin else first_order(max_mods=2))
    nu = sum(KINDS[k["kind"]].d for k in spec["mods"])
    nv = draw(st.sampled_from([1, 1, 2, 3]))
    n = nu + nv
    alg = [dict(a=[draw(num(-1, 1, 2)) for _ in range(nu)], b=draw(num(-1, 1, 2)), w=draw(num(0.3, 3, 2)),
                q=0.0 if lin else draw(st.sampled_from([0.0, 0.5, -0.5])),
                cub=0.0 if lin else draw(st.sampled_from([0.0, 0.0, 0.15, 0.5])),
                k=draw(mags(0.05, 5)))
           for _ in range(nv)]
    kind = draw(st.sampled_from(["semi", "semi", "perm", "rot", "full"]))
    tr = dict(kind=kind)
    if kind == "perm":
        tr["p"] = draw(st.permutations(list(range(n))))
        tr["q"] = draw(st.permutations(list(range(n))))
    elif kind in ("rot", "full"):
        tr["p"] = draw(st.lists(num(-3.1, 3.1, 2), min_size=n - 1, max_size=n - 1))
        tr["q"] = draw(st.lists(num(-3.1, 3.1, 2), min_size=n - 1, max_size=n - 1))
        if kind == "full":
            tr["dp"] = [draw(mags(0.3, 3)) for _ in range(n)]
            tr["dq"] = [draw(mags(0.3, 3)) for _ in range(n)]
    vmix = draw(st.lists(num(-3.1, 3.1, 2), min_size=nv - 1, max_size=nv - 1)) if draw(st.booleans()) else None
    # different units, but not in equations that are mixed: errors would hide the small ones
    mixed = vmix or kind in ("rot", "full")
    for x in alg:
        x["k"] *= (1.0 if mixed else draw(st.sampled_from([1.0, 1.0, 1.0, 1e-2, 1e2])))
        if spec["scale"] < 1:
            # residuals below 1e-8 count as zero: keep the equations in ordinary units
            x["k"] *= 1 if mixed else 1 / spec["scale"]
    return dict(spec=spec, alg=alg, lin=lin, tr=tr, vmix=vmix,
                cpl=[[draw(num(-1, 1, 2)) for _ in range(nv)] for _ in range(nu)] if draw(st.booleans()) else None)


class DAE:
    """u' = F(t,u) + C (v - G(t,u)),  0 = R diag(k) [(v-G) + cub*((v/s)^3 - (G/s)^3) s];  y = Q^-1 [u; v]"""

    def __init__(s, d, lose=None):
        s.p = build(d["spec"])
        s.t0, s.tf = s.p.t0, s.p.tf
        s.d, s.lose = d, lose
        s.nu, s.nv = s.p.n, len(d["alg"])
        s.n = s.nu + s.nv
        s.sc = d["spec"]["scale"]
        al = d["alg"]
        s.a = np.array([x["a"] for x in al])
        s.b, s.w, s.q, s.cub, s.k = [np.array([x[k] for x in al]) for k in ("b", "w", "q", "cub", "k")]
        # Jacobians that change a lot within a step fool every simplified Newton iteration
        T = np.linspace(s.p.t0, s.p.tf, 30)
        V = np.array([s.G(t, s.p.exact(t)) for t in T]) / s.sc
        s.cub = s.cub / np.maximum(1, np.max(V ** 2, axis=0))
        s.C = np.array(d["cpl"]) if d["cpl"] else np.zeros((s.nu, s.nv))
        s.R = rotation(s.nv, d["vmix"]) if d["vmix"] and s.nv > 1 else np.eye(s.nv)
        tr = d["tr"]
        I = np.eye(s.n)
        if tr["kind"] == "semi":
            s.P = s.Q = I
        elif tr["kind"] == "perm":
            s.P, s.Q = I[tr["p"]], I[tr["q"]]
        else:
            s.P, s.Q = rotation(s.n, tr["p"]), rotation(s.n, tr["q"])
            if tr["kind"] == "full":
                s.P, s.Q = s.P @ np.diag(tr["dp"]), np.diag(tr["dq"]) @ s.Q
        s.Qi = np.linalg.inv(s.Q)
        s.E = np.diag([1.0] * s.nu + [0.0] * s.nv)
        s.M = s.P @ s.E @ s.Q

    def G(s, t, u):
        x = u / s.sc
        return s.sc * (s.a @ x + s.b * np.cos(s.w * (t - s.t0) + 0.7) + s.q * x[0] ** 2)

    def Gu(s, t, u):
        D = s.a.copy()
        D[:, 0] += 2 * s.q * u[0] / s.sc
        return D

    def split(s, y):
        z = s.Q @ y
        return z[:s.nu], z[s.nu:]

    def g(s, t, u, v):
        """algebraic equations before mixing, in units of v"""
        G = s.G(t, u)
        return (v - G) + s.cub * s.sc * ((v / s.sc) ** 3 - (G / s.sc) ** 3)

    def fun(s, t, y):
        if y.ndim == 2:
            return np.stack([s.fun(t, y[:, i].copy()) for i in range(y.shape[1])], axis=1)
        u, v = s.split(y)
        alg = s.k * s.g(t, u, v)
        f = s.p.fun(t, u) + s.C @ (v - s.G(t, u))
        if s.lose is not None:
            # a constraint that does not involve the algebraic variables: higher index
            alg[s.lose] = s.k[s.lose] * (u[0] - s.p.exact(s.t0)[0] * np.cos(t - s.t0))
            f = f + np.sum(v)
        return s.P @ np.concatenate([f, s.R @ alg])

    def jac(s, t, y):
        u, v = s.split(y)
        Gu = s.Gu(t, u)
        J = np.zeros((s.n, s.n))
        J[:s.nu, :s.nu] = s.p.jac(t, u) - s.C @ Gu
        J[:s.nu, s.nu:] = s.C
        G = s.G(t, u)
        Jv = np.diag(s.k * (1 + 3 * s.cub * (v / s.sc) ** 2))
        Ju = -(s.k * (1 + 3 * s.cub * (G / s.sc) ** 2))[:, None] * Gu
        if s.lose is not None:
            Jv[s.lose] = 0
            Ju[s.lose] = 0
            Ju[s.lose, 0] = s.k[s.lose]
            J[:s.nu, s.nu:] += 1
        J[s.nu:, s.nu:] = s.R @ Jv
        J[s.nu:, :s.nu] = s.R @ Ju
        return s.P @ J @ s.Q

    def exact(s, t):
        t = np.asarray(t, float)
        U = s.p.exact(t)
        if t.ndim == 0:
            return s.Qi @ np.concatenate([U, s.G(t, U)])
        V = np.stack([s.G(ti, U[:, i]) for i, ti in enumerate(t)], axis=1)
        return s.Qi @ np.concatenate([U, V])


MFORMS = ["array", "list", "csc", "csr", "short"]


def mform(M, f):
    if f == "short" and np.all(M == np.diag(np.diag(M))):
        return np.diag(M).copy()
    return dict(array=M, short=M, list=M.tolist(), csc=csc_array(M), csr=csr_array(M))[f]


def jkw(c, p):
    j = c["jac"]
    if j == "none":
        return {}
    if j == "const":
        return dict(jac=p.jac(p.t0, p.exact(p.t0)))
    if j == "sparse":
        return dict(jac=lambda t, y: csc_array(p.jac(t, y)))
    return dict(jac=p.jac, jac_each_step=j == "each")


@st.composite
def case(draw):
    name = draw(st.sampled_from(IMPL))
    d = draw(dae())
    o = draw(options(METHODS[name], jac=False, vectorized=False, steps=False))
    return dict(method=name, dae=d, rtol=draw(logu(max(METHODS[name].rtol_min, -6), -3)), opts=o,
                M=draw(st.sampled_from(MFORMS)), vec=draw(st.booleans()),
                jac=draw(st.sampled_from(["call", "none", "sparse", "each"] + ["const"] * 4 * d["lin"])),
                atol=draw(st.sampled_from(["scalar", "vec"])),
                pert=[draw(mags(0.01, 1)) for _ in d["alg"]] if draw(st.integers(0, 2)) == 0 else None,
                first=draw(st.one_of(st.none(), st.none(), logu(-4, -1))))


def check(c):
    m, p = METHODS[c["method"]], DAE(c["dae"])
    Y = p.exact(np.linspace(p.t0, p.tf, 30))
    ymax = np.max(np.abs(Y))
    rtol = c["rtol"]
    atol = rtol * ymax * (1.0 if c["atol"] == "scalar" else 1 - 0.3 * np.arange(p.n) / p.n)
    tol = 2 * rtol * ymax
    kw = dict(c["opts"])
    if isinstance(kw.get("sc_params"), list):
        kw["sc_params"] = tuple(kw["sc_params"])
    if c["first"]:
        kw["first_step"] = c["first"] * abs(p.tf - p.t0)
    y0 = p.exact(p.t0)
    scale = c["dae"]["spec"]["scale"]
    if c["pert"]:
        y0 = y0 + p.Qi @ np.concatenate([np.zeros(p.nu), scale * np.array(c["pert"])])
    kw.update(jkw(c, p), M=mform(p.M, c["M"]), rtol=rtol, atol=atol, vectorized=c["vec"])
    # which v satisfies the constraints depends on u only: the true start does, whatever the perturbation
    keep = y0.copy()
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        s = m.cls(Watch(p.fun, 100000), p.t0, y0, p.tf, **kw)
    told = [w for w in wl if "Initial conditions" in str(w.message)]
    require(np.array_equal(keep, y0), "the array y0 was modified")
    start = s.y.copy()
    d0 = np.max(np.abs(p.M @ (start - y0))) / np.max(np.abs(p.M))
    require(d0 <= 1e-12 * ymax + 1e-14 * np.max(np.abs(y0)), "M y0 changed by %.3g", d0)
    e0 = np.max(np.abs(start - p.exact(p.t0)))
    # consistency is accepted when the residual is below 1e-8 (np.allclose)
    small = 1e-7 / np.min(np.abs(p.k)) * np.max(np.abs(p.Qi)) * 10
    # equations in very different units are harder to solve together
    small += 1e-7 * ymax * np.max(np.abs(p.k)) / np.min(np.abs(p.k))
    require(e0 <= 1e-6 * ymax + small, "start values %s, consistent ones are %s", start, p.exact(p.t0))
    moved = np.max(np.abs(start - y0) / (atol + rtol * np.abs(y0)))
    if moved > 2:
        require(told, "the user was not warned that y0 was changed by %.3g", np.max(np.abs(start - y0)))
    if not c["pert"]:
        require(not told, "warning %s for consistent y0", told and told[0].message)
    t, y, ds = [s.t], [start], []
    while s.status == "running":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            msg = s.step()
        require_ok(m, s.status != "failed", msg, s.t)
        t.append(s.t)
        y.append(s.y.copy())
        ds.append(s.dense_output())
    t, y = np.array(t), np.array(y).T
    fac = p.p.amp * np.linalg.cond(p.Q) * (1 + np.max(np.abs(p.a)) * p.nu + np.max(np.abs(p.q)) * 3)
    bound = acc_bound(m.name, rtol) * tol * fac + 10 * e0 * fac
    e = np.max(np.abs(y - p.exact(t)))
    require(e <= bound, "error %.3g, allowed %.3g (tolerance %.3g)", e, bound, tol)
    # the constraints, expressed as errors of the algebraic variables
    res = 0.0
    for k in range(1, t.size):
        u, v = p.split(y[:, k])
        res = max(res, np.max(np.abs(p.g(t[k], u, v) / (1 + 3 * p.cub * (v / scale) ** 2))))
    rb = RES * tol * np.linalg.norm(p.Q, 2) + 10 * e0
    require(res <= rb, "constraints violated by %.3g, allowed %.3g (tolerance %.3g)", res, rb, tol)
    bound = acc_bound(m.name, rtol, True) * tol * fac + 10 * e0 * fac
    Qi = np.linalg.norm(p.Qi, 2)
    for d in ds:
        # changes of the algebraic variables due to t do not limit the step size
        x, h = (d.t_old + d.t) / 2, d.t - d.t_old
        forced = DENSE * scale * np.linalg.norm(p.b * np.abs(p.w * h) ** 3) * Qi
        e = np.max(np.abs(d(x) - p.exact(x)))
        require(e <= 3 * bound + forced, "dense output error %.3g at %s (step %.3g), allowed %.3g (tolerance %.3g)",
                e, x, h, 3 * bound + forced, tol)
    return [m.name, c["dae"]["tr"]["kind"], c["jac"], "pert" if c["pert"] else "consistent"] if t.size > 3 else []


RES, DENSE = 50.0, 0.3


# -------------------------------------------------------------- higher index ---
@st.composite
def high_case(draw):
    d = draw(dae())
    # the errors of a numerical Jacobian can only be told apart if equations are not mixed
    plain = d["tr"]["kind"] in ("semi", "perm") and not d["vmix"]
    return dict(method=draw(st.sampled_from(IMPL)), dae=d, M=draw(st.sampled_from(MFORMS)),
                lose=draw(st.integers(0, len(d["alg"]) - 1)),
                jac=draw(st.sampled_from(["call", "none", "sparse"] if plain else ["call", "sparse"])))


def high(c):
    m, p = METHODS[c["method"]], DAE(c["dae"], c["lose"])
    y0 = p.exact(p.t0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m.cls(Watch(p.fun, 1000), p.t0, y0, p.tf, M=mform(p.M, c["M"]), **jkw(c, p))
        except ValueError as e:
            require("index" in str(e), "rejected with the message: %s", e)
            return [m.name, c["dae"]["tr"]["kind"], c["jac"]]
    require(False, "a DAE of higher index was not rejected")


# ------------------------------------------------------------ the first step ---
@st.composite
def first_case(draw):
    return dict(method=draw(st.sampled_from(IMPL)), dae=draw(dae()), M=draw(st.sampled_from(MFORMS)),
                rtol=draw(logu(-6, -4)), first=draw(logu(-2.5, -1)),
                jac=draw(st.sampled_from(["call", "sparse", "each"])))


def rate(p):
    """largest rate at which anything in the problem changes"""
    T = p.t0 + (p.tf - p.t0) * np.linspace(0, 0.1, 21)
    Y = p.exact(T)
    D = np.gradient(Y, T, axis=1)
    D2 = np.gradient(D, T, axis=1)
    s = np.max(np.abs(Y))
    return max(np.max(np.abs(D)) / s, np.sqrt(np.max(np.abs(D2)) / s), np.max(p.w))


def first(c):
    """dense output of a small first step: needs derivatives at the start that agree with the constraints"""
    m, p = METHODS[c["method"]], DAE(c["dae"])
    Y = p.exact(np.linspace(p.t0, p.tf, 30))
    ymax = np.max(np.abs(Y))
    w = rate(p)
    h = c["first"] / w
    if h > 0.1 * abs(p.tf - p.t0):
        return []
    rtol = c["rtol"]
    tol = 2 * rtol * ymax
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = m.cls(Watch(p.fun, 100000), p.t0, p.exact(p.t0), p.tf, rtol=rtol, atol=rtol * ymax, first_step=h,
                  M=mform(p.M, c["M"]), **jkw(c, p))
        msg = s.step()
        require_ok(m, s.status != "failed", msg, s.t)
        d = s.dense_output()
    x = d.t_old + (d.t - d.t_old) * np.array([0.05, 0.25, 0.5, 0.75])
    h = abs(d.t - d.t_old)
    e = np.max(np.abs(d(x) - p.exact(x)))
    cond = np.linalg.cond(p.Q)
    allowed = cond * (FIRST[0] * tol + FIRST[1] * ymax * (w * h) ** 3 + FIRST[2] * ymax * w * h) + 1e-8 * ymax
    require(e <= allowed, "dense output error %.3g in the first step (%.3g, rate %.3g), allowed %.3g (tolerance %.3g)",
            e, h, w, allowed, tol)
    return [m.name, c["dae"]["tr"]["kind"]]


FIRST = 5.0, 0.5, 5e-5

SUBS = [Sub("index1", case(), check, 3000, 60000),
        Sub("first", first_case(), first, 1500, 40000),
        Sub("higher", high_case(), high, 1500, 30000)]
