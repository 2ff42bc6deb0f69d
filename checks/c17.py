"""C17: a regular mass matrix is equivalent to the explicit form of the problem"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from scipy.sparse import coo_array, csc_array, csc_matrix, csr_array, csr_matrix, dia_array, eye_array

from pbt.core import Sub, require
from pbt.gen import logu, mags, num
from pbt.methods import IMPL, METHODS, Watch, acc_bound, options, require_ok
from pbt.problems import KINDS, PLAIN, build, module, rotation, stiff_mods

RULE = ("a case is (implicit method, regular mass matrix, problem with closed-form solution, two forms of M, "
        "Jacobian form); non-trivial when all solves were compared with the true solution, the explicit form and "
        "each other, and M is not a multiple of the identity")
STIFF = ("prothero", "protheroNL", "kaps")


@st.composite
def case(draw):
    name = draw(st.sampled_from(IMPL))
    cx = draw(st.integers(0, 5)) == 0
    kinds = [k for k in PLAIN if not cx or KINDS[k].analytic]
    mods = draw(st.lists(st.one_of(module(kinds), module(kinds), stiff_mods(0.5, 4)), min_size=1, max_size=3))
    n = sum(KINDS[k["kind"]].d for k in mods)
    spec = dict(kind="fo", mods=mods, ang=draw(st.lists(num(-3.1, 3.1, 2), min_size=n - 1, max_size=n - 1))
                if n > 1 and draw(st.booleans()) else [], span=draw(num(0.5, 4.0)), dir=draw(st.sampled_from([1, -1])),
                c=draw(st.one_of(st.just(0.0), num(-3, 3, 2))), scale=draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])))
    if cx:
        spec["phase"] = [0.0 if k["kind"] in STIFF else draw(num(-0.6, 0.6, 2)) for k in mods]
    kind = draw(st.sampled_from(["full", "tri", "units", "diag", "sym", "int", "scalar", "identity"]))
    M = dict(kind=kind)
    if kind == "scalar":
        M["d"] = [draw(mags(0.01, 50))] * n
    elif kind in ("diag", "units"):
        el = mags(0.1, 5) if kind == "diag" else st.tuples(logu(-6, 6), st.booleans()).map(
            lambda t: t[0] if t[1] else -t[0])
        M["d"] = [draw(el) for _ in range(n)]
    elif kind == "full":
        M["d"] = [draw(mags(0.1, 5)) for _ in range(n)]
        M["a1"] = [draw(num(-3.1, 3.1, 2)) for _ in range(n - 1)]
        M["a2"] = [draw(num(-3.1, 3.1, 2)) for _ in range(n - 1)]
    elif kind == "sym":
        M["d"] = [draw(num(0.1, 5)) for _ in range(n)]
        M["a1"] = [draw(num(-3.1, 3.1, 2)) for _ in range(n - 1)]
    elif kind in ("tri", "int"):
        M["off"] = [draw(st.integers(-2, 2)) for _ in range(n * (n - 1) // 2)]
        M["up"] = draw(st.booleans())
    return dict(method=name, spec=spec, M=M, forms=[draw(st.sampled_from(FORMS)) for _ in (0, 1)],
                rtol=draw(logu(max(METHODS[name].rtol_min, -6), -3)),
                jac=draw(st.sampled_from(["call", "call", "sparse", "none", "each"])), vec=draw(st.booleans()),
                opts=draw(options(METHODS[name], jac=False, vectorized=False, steps=False)),
                first=draw(st.one_of(st.none(), logu(-4, -1))))


FORMS = ["array", "array", "list", "tuple", "csc", "csr", "coo", "cscm", "csrm", "dia", "short", "shortlist"]


def matrix(c, n):
    k = c["M"]["kind"]
    if k == "identity":
        return np.eye(n)
    if k in ("scalar", "diag", "units"):
        return np.diag(c["M"]["d"])
    if k == "sym":
        T = rotation(n, c["M"]["a1"]) if n > 1 else np.eye(1)
        return T @ np.diag(c["M"]["d"]) @ T.T
    if k == "full":
        T1, T2 = [rotation(n, c["M"][a]) if n > 1 else np.eye(1) for a in ("a1", "a2")]
        return T1 @ np.diag(c["M"]["d"]) @ T2
    L = np.eye(n)
    L[np.tril_indices(n, -1)] = c["M"]["off"]
    L = L.T if c["M"]["up"] else L
    return L.astype(int) if k == "int" else L * 0.7


def form(M, f):
    diag = np.all(M == np.diag(np.diag(M)))
    if f.startswith("short"):
        if diag:
            d = np.diag(M)
            return d.copy() if f == "short" else d.tolist()
        return M
    if f == "list":
        return M.tolist()
    if f == "tuple":
        return tuple(map(tuple, M.tolist()))
    if f == "array":
        return M
    return dict(csc=csc_array, csr=csr_array, coo=coo_array, cscm=csc_matrix, csrm=csr_matrix, dia=dia_array)[f](M)


def run(c, p, m, rtol, atol, M, Mform, t_eval=None):
    """M None: explicit form"""
    kw = dict(c["opts"])
    if isinstance(kw.get("sc_params"), list):
        kw["sc_params"] = tuple(kw["sc_params"])
    if c["first"]:
        kw["first_step"] = c["first"] * abs(p.tf - p.t0)
    B = np.eye(p.n) if M is None else M
    if c["jac"] == "sparse":
        kw["jac"] = lambda t, y: csc_array(B @ p.jac(t, y))
    elif c["jac"] != "none":
        kw["jac"] = lambda t, y: B @ p.jac(t, y)
        kw["jac_each_step"] = c["jac"] == "each"
    if Mform is not None:
        kw["M"] = form(M, Mform)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = solve_ivp(Watch(lambda t, y: B @ p.fun(t, y), 100000), (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol,
                      atol=atol, vectorized=c["vec"], dense_output=True, **kw)
    require_ok(m, r.success, "%s with M as %s" % (r.message, Mform), r.t[-1])
    return r


def check(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    stiff = any(k["kind"] in STIFF for k in c["spec"]["mods"])
    ymax = np.max(np.abs(p.exact(np.linspace(p.t0, p.tf, 30))))
    rtol, atol = c["rtol"], c["rtol"] * ymax
    tol = 2 * rtol * ymax
    M = matrix(c, p.n)
    ex = run(c, p, m, rtol, atol, None, None)
    rs = [run(c, p, m, rtol, atol, M, f) for f in c["forms"]]
    tt = np.linspace(p.t0, p.tf, 41)[1:-1]
    bound = acc_bound(m.name, rtol) * tol * p.amp * (2 if stiff else 1)
    dbound = acc_bound(m.name, rtol, True) * tol * p.amp * (2 if stiff else 1)
    for r, f in zip([ex] + rs, ["explicit"] + c["forms"]):
        e = np.max(np.abs(r.y - p.exact(r.t)))
        require(e <= bound, "error %.3g with M as %s (%s), allowed %.3g (tolerance %.3g)", e, f, c["M"]["kind"],
                bound, tol)
        if not stiff:
            e = np.max(np.abs(r.sol(tt) - p.exact(tt)))
            require(e <= dbound, "dense output error %.3g with M as %s (%s), allowed %.3g", e, f, c["M"]["kind"],
                    dbound)
        h = r.t[1] - r.t[0]
        if not stiff and abs(h) > 1e-6 * abs(p.tf - p.t0):
            # slope of the first interpolant at the start is y', not M y'
            d = 1e-3 * h
            slope = (r.sol(p.t0 + d) - p.y0) / d
            true = (p.exact(p.t0 + d) - p.y0) / d
            e = np.max(np.abs(slope - true)) * abs(h)
            require(e <= 4 * dbound + 1e-12 * ymax / 1e-3, "the interpolant leaves the start with slope %s, "
                    "should be %s", slope, true)
    # invariance: same Newton iterations, same error estimates, same steps
    a, b = rs
    n = [r.t.size - 1 for r in (ex, a, b)]
    lo, hi = 0.75, 1.33
    for r, f in zip(rs, c["forms"]):
        k = (r.t.size + 9) / (ex.t.size + 9)
        require(lo < k < hi, "%d steps with M as %s (%s), %d in explicit form", r.t.size - 1, f, c["M"]["kind"], n[0])
    k = (a.t.size + 9) / (b.t.size + 9)
    require(0.75 < k < 1.33, "%d steps with M as %s, %d with M as %s", n[1], c["forms"][0], n[2], c["forms"][1])
    if c["jac"] != "none":
        # analytic Jacobian: only rounding differs
        for r, s, f in ((a, b, c["forms"]), (a, ex, (c["forms"][0], "explicit"))):
            # (a component of the derivative that is zero up to rounding decides a sign in the estimate)
            d0 = (r.t[1] - r.t[0]) / (s.t[1] - s.t[0])
            require(0.3 < d0 < 3, "first step %g with M as %s, but %g with %s", r.t[1] - r.t[0], f[0],
                    s.t[1] - s.t[0], f[1])
    if c["M"]["kind"] == "identity":
        require(np.array_equal(ex.t.shape, a.t.shape) and np.max(np.abs(ex.t - a.t)) <= 1e-6 * abs(p.tf - p.t0)
                and np.max(np.abs(ex.y - a.y)) <= 1e-3 * tol, "identity M as %s changes the solution", c["forms"][0])
    return [m.name, c["M"]["kind"]] + c["forms"] if c["M"]["kind"] not in ("identity", "scalar") and p.n > 1 else []


SUBS = [Sub("forms", case(), check, 4500, 80000)]
