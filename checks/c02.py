"""C02: the global error is proportional to the requested tolerance"""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from pbt import problems as pr
from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, num
from pbt.methods import (FIRST, METHODS, NAMES, acc_bound, accuracy_case, drive, kwargs,
                         options, require_ok, tols)
from pbt.problems import build

RULE = ("a case is (method, problem with closed-form solution, options, tolerances); "
        "non-trivial when the solve took at least 3 steps and every returned state was "
        "compared with the exact solution")
ASSUMPTIONS = ["'modest method-dependent factor': 6 times the largest ratio error/(tol*amplification) "
               "found in 5000 random problems per method on the present code; 5 times that above "
               "rtol=1e-4, where steps are not in the asymptotic regime"]


def judge(c, p, t, y):
    rtol, atol, tol = tols(c, p)
    err = np.max(np.abs(y - p.exact(t)))
    floor = 1e-14 * p.amp * np.max(np.abs(y)) * t.size
    lim = acc_bound(c["method"], rtol) * tol * p.amp + floor
    require(err <= lim, "error %.3g exceeds %.3g (tol level %.3g, amplification %.3g)",
            err, lim, tol, p.amp)
    return err


def tags(c, p, t):
    if t.size < 4:
        return []
    return [c["method"], "complex" if p.complex else "real",
            "backward" if p.tf < p.t0 else "forward", "n>=4" if p.n > 3 else "n<4",
            "rtol<1e-6" if c["rtol"] < 1e-6 else "rtol>=1e-6"] + sorted(c["opts"])


def smooth(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, tol = tols(c, p)
    tr = drive(m, p, rtol, atol, c["opts"], dense=False)
    require_ok(m, tr.status == "finished", tr.message)
    judge(c, p, tr.t, tr.y)
    return tags(c, p, tr.t)


# --------------------------------------------- independent scales per component
@st.composite
def weights_case(draw):
    name = draw(st.sampled_from(FIRST))
    m = METHODS[name]
    mods = draw(st.lists(pr.module([k for k in pr.PLAIN if k not in ("rot", "hopf", "nlrot", "chain")]),
                         min_size=2, max_size=5))
    cx = m.complex and draw(st.booleans())
    o = draw(options(m, detect=False))
    o.pop("first_frac", None)
    lo = m.rtol_min
    if m.kind == "multistep" and o.get("k_max", 12) < 5:
        lo = {1: -4, 2: -5, 3: -6, 4: -7}[o["k_max"]]
    return dict(method=name, mods=mods, opts=o, rtol=draw(logu(max(lo, -8), -4)),
                scales=[draw(st.sampled_from([-8, -5, -3, 0, 0, 2, 6])) for _ in mods],
                phase=[draw(num(-3.1, 3.1, 2)) if cx and k["kind"] in ("lin", "tdep") else 0
                       for k in mods] if cx else None,
                span=draw(num(0.5, 5)), via=draw(st.sampled_from(["atol", "rtol"])))


class Diagonal(pr.FirstOrder):
    """independent scalar equations with their own scales"""
    def __init__(s, c):
        spec = dict(kind="fo", mods=c["mods"], ang=[], span=c["span"], dir=1, c=0.0, scale=1.0)
        if c["phase"]:
            spec["phase"] = c["phase"]
        s.D = 10.0 ** np.array(c["scales"], float)
        super().__init__(spec)

    def fun(s, t, y):
        return (s.D * super().fun(t, (np.asarray(y).T / s.D).T).T).T

    def jac(s, t, y): return s.D[:, None] * super().jac(t, y / s.D) / s.D

    def exact(s, t): return (s.D * super().exact(t).T).T


def weights(c):
    m, p = METHODS[c["method"]], Diagonal(c)
    ymax = np.max(np.abs(p.exact(np.linspace(p.t0, p.tf, 30))), axis=1)
    rtol = c["rtol"]
    if c["via"] == "atol":
        atol = rtol * ymax
    else:                       # the scale is followed by rtol alone
        atol = 1e-3 * rtol * ymax.min()
        if np.any(np.min(np.abs(p.exact(np.linspace(p.t0, p.tf, 60))), axis=1) < 0.05 * ymax):
            atol = rtol * ymax
    tr = drive(m, p, rtol, atol, c["opts"], dense=False)
    if tr.status == "failed" and tr.t.size <= 1 and "verflow" in tr.message and "first_step" not in c["opts"]:
        # the automatic first step is found with unweighted norms
        raise Inconclusive("overflow in the automatic first step")
    require_ok(m, tr.status == "finished", tr.message)
    err = np.max(np.abs(tr.y - p.exact(tr.t)), axis=1)
    tol = (rtol * ymax + atol) * np.sqrt(p.n)
    amp = p.amp
    lim = acc_bound(c["method"], rtol) * tol * amp + 1e-13 * amp * ymax
    k = int(np.argmax(err / lim))
    require(err[k] <= lim[k], "component %d of scale %g: error %.3g exceeds %.3g (tol %.3g)",
            k, p.D[k], err[k], lim[k], tol[k])
    return [c["method"], c["via"], "complex" if c["phase"] else "real"] if tr.t.size > 3 else []


# ------------------------------------------------------------- larger systems
@st.composite
def large_case(draw):
    c = draw(accuracy_case(span=(0.5, 4.0), max_mods=3))
    extra = draw(st.integers(2, 6))
    spec = c["spec"]
    spec = dict(spec, mods=(spec["mods"] * extra)[:12])
    kinds = pr.KINDS if spec["kind"] == "fo" else pr.KINDS2
    n = sum(kinds[k["kind"]].d for k in spec["mods"])
    spec["ang"] = (spec["ang"] * n + draw(st.lists(num(-3, 3, 2), min_size=n - 1, max_size=n - 1)))[:n - 1]
    if "phase" in spec:
        spec["phase"] = (spec["phase"] * extra)[:12]
    return dict(c, spec=spec, rtol=max(c["rtol"], 1e-7))


def via_ivp(c):
    """the same through solve_ivp, its default path for users"""
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, tol = tols(c, p)
    r = solve_ivp(p.fun, (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol,
                  **kwargs(m, c["opts"], p))
    require_ok(m, r.success, r.message)
    judge(c, p, r.t, r.y)
    return tags(c, p, r.t)


# ------------------------------------------------- complex: components of any phase
class Turned:
    """copies of a complex problem, each multiplied by a number of modulus one"""
    complex = True

    def __init__(q, p, u, nystrom):
        q.p, q.u, k = p, np.exp(1j * np.array(u) * np.pi / 2), len(u)
        q.t0, q.tf, q.n, q.amp, q.nystrom = p.t0, p.tf, p.n * k, p.amp, nystrom
        pos = np.arange(q.n).reshape(k, p.n)
        if nystrom:                     # positions first
            h = p.n // 2
            pos = np.hstack((np.arange(k * h).reshape(k, h), k * h + np.arange(k * h).reshape(k, h)))
        q.pos = pos
        q.y0 = q.put([p.y0] * k)

    def put(q, parts):
        out = np.empty((q.n,) + np.shape(parts[0])[1:], complex)
        for i, u, v in zip(q.pos, q.u, parts):
            out[i] = u * v
        return out

    def fun(q, t, y):
        y = np.asarray(y)
        f = q.put([q.p.fun(t, y[i] / u) for i, u in zip(q.pos, q.u)])
        if q.nystrom:                   # exactly the velocities
            f[:q.n // 2] = y[q.n // 2:]
        return f

    def exact(q, t): return q.put([q.p.exact(t)] * len(q.u))

    def jac(q, t, y):
        J = np.zeros((q.n, q.n), complex)
        for i, u in zip(q.pos, q.u):
            J[np.ix_(i, i)] = q.p.jac(t, y[i] / u)
        return J


@st.composite
def turned_case(draw):
    c = draw(accuracy_case([n for n in NAMES if METHODS[n].complex], span=(0.5, 6.0), max_mods=2))
    # multiples of a quarter turn cancel in any sum of squares that forgets a conjugate
    c["u"] = [0] + draw(st.one_of(st.sampled_from([[1], [1, 2, 3], [1, 0, 3]]),
                                  st.lists(num(-2, 2, 2), min_size=1, max_size=3)))
    return c


def turned(c):
    m = METHODS[c["method"]]
    p = build(c["spec"])
    q = Turned(p, c["u"], m.nystrom)
    rtol, atol, tol = tols(c, q)
    tr = drive(m, q, rtol, atol, c["opts"], dense=False)
    require_ok(m, tr.status == "finished", tr.message)
    judge(c, q, tr.t, tr.y)
    return tags(c, q, tr.t)


SUBS = [Sub("smooth", accuracy_case(span=(0.5, 8.0)), smooth, 5000, 120000),
        Sub("weights", weights_case(), weights, 2500, 60000),
        Sub("large", large_case(), via_ivp, 1200, 30000),
        Sub("turned", turned_case(), turned, 1500, 40000)]
