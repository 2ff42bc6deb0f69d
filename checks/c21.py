"""C21: Nystrom solvers agree with first-order solvers, and reject misuse"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from pbt.core import Inconclusive, Sub, Violation, require
from pbt.gen import logu, mags, num
from pbt.methods import FIRST, METHODS, RKN, acc_bound, drive, options
from pbt.problems import rotation

RULE = ("'agree': a generated second-order system (linear, gyroscopic, cubic, parametric and forcing terms in rotated "
        "coordinates) solved by a Nystrom method and by two first-order solvers (scipy's DOP853 at tight tolerance and a "
        "generated solver of the package), compared at the steps and in between; 'reject' and 'accept': a right-hand side "
        "with or without a generated departure from the documented form; non-trivial when a comparison was made")


# -------------------------------------------------------------------- agree ---
@st.composite
def system(draw, strict=False, complex_=False):
    m = draw(st.integers(1, 4))
    z = st.just(0.0)

    def vec(lo, hi): return [draw(num(lo, hi)) for _ in range(m)]
    d = dict(m=m, w=vec(0.3, 3.0), ang=[draw(num(-3.1, 3.1, 2)) for _ in range(m - 1)],
             cub=0.0 if complex_ else draw(st.one_of(z, num(0.1, 2.0))),
             par=draw(st.one_of(z, num(0.1, 0.8))), pw=draw(num(0.5, 4)),
             frc=draw(st.one_of(z, num(0.1, 2.0))), fw=draw(num(0.5, 5)),
             pend=draw(st.one_of(z, num(0.2, 2.0))) if not complex_ else 0.0,
             x0=vec(-1.5, 1.5), v0=draw(st.sampled_from([vec(-1.5, 1.5), [0.0] * m])),
             t0=draw(st.one_of(z, num(-3, 3, 2))), span=draw(num(0.5, 6.0)), dir=draw(st.sampled_from([1, -1])),
             scale=draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])))
    if not strict:
        d.update(damp=draw(st.one_of(z, num(0.05, 1.0))), gyro=draw(st.one_of(z, mags(0.2, 3.0))),
                 vdp=0.0 if complex_ else draw(st.one_of(z, num(0.1, 1.0))),
                 drag=0.0 if complex_ else draw(st.one_of(z, num(0.05, 0.5))))
    if complex_:
        d["ph"] = vec(-3, 3)
    return d


class System:
    def __init__(s, d):
        s.d, m = d, d["m"]
        s.m, s.n, s.sc, s.dir = m, 2 * m, d["scale"], d["dir"]
        T = rotation(m, d["ang"]) if m > 1 else np.eye(1)
        s.Kx = (T * np.array(d["w"]) ** 2) @ T.T
        G = np.triu(np.ones((m, m)), 1)
        s.G = d.get("gyro", 0.0) * (G - G.T)
        s.T = T
        s.t0, s.tf = d["t0"], d["t0"] + d["dir"] * d["span"]
        ph = np.exp(1j * np.array(d["ph"])) if "ph" in d else 1.0
        s.y0 = s.sc * np.concatenate((np.array(d["x0"]) * ph, np.array(d["v0"]) * ph))

    def acc(s, t, x, v):
        """forward in tau = dir (t - t0); v is dx/dt so velocity terms change sign with dir"""
        d, tau = s.d, s.dir * (t - s.t0)
        x, v = x / s.sc, s.dir * v / s.sc
        a = -(1 + d["par"] * np.cos(d["pw"] * tau)) * (s.Kx @ x)
        a = a - d["cub"] * x ** 3 - d["pend"] * np.sin(x)
        w = d["frc"] * np.cos(d["fw"] * tau + np.arange(s.m))
        a = a + (w if np.ndim(x) == 1 else w[:, None])
        if "damp" in d:
            a = a - d["damp"] * v + s.G @ v + d["vdp"] * (1 - x * x) * v - d["drag"] * v * np.abs(v)
        return s.sc * a

    def fun(s, t, y):
        y = np.asarray(y)
        x, v = y[:s.m], y[s.m:]
        return np.concatenate((v, s.acc(t, x, v)), axis=0)


@st.composite
def agree_case(draw):
    name = draw(st.sampled_from(RKN))
    m = METHODS[name]
    cx = draw(st.integers(0, 4)) == 0
    o = draw(options(m))
    if o.get("first_frac", 0) > 0.1:
        o["first_frac"] = 0.1
    return dict(method=name, sys=draw(system(m.strict, cx)), rtol=draw(logu(m.rtol_min, -3.5)), opts=o,
                af=draw(st.sampled_from([1.0, 0.1, "vec"])), other=draw(st.sampled_from(
                    [n for n in FIRST if METHODS[n].kind in ("rk", "ckdisc", "multistep")])))


def agree(c):
    m, p = METHODS[c["method"]], System(c["sys"])
    span = (p.t0, p.tf)
    kw = dict(method="DOP853", rtol=1e-12, atol=1e-13 * p.sc, dense_output=True)
    ref = solve_ivp(p.fun, span, p.y0, **kw)
    if not ref.success:
        raise Inconclusive("reference failed")
    g = np.linspace(*span, 21)
    Y = ref.sol(g)
    ymax = np.max(np.abs(Y))
    if ymax > 1e3 * p.sc:
        raise Inconclusive("reference grows much")
    # amplification of perturbations along the solution
    amp, rng = 1.0, np.random.default_rng(1)
    for k in range(3):
        e = rng.standard_normal(p.n)
        e *= 1e-6 * p.sc / np.linalg.norm(e)
        D = np.linalg.norm(solve_ivp(p.fun, span, p.y0 + e, t_eval=g, **kw).y - Y, axis=0)
        amp = max(amp, max(np.max(D[i:]) / D[i] for i in range(g.size)))
    if amp > 100:
        raise Inconclusive("sensitive problem")
    rtol = c["rtol"]
    atol = rtol * ymax * (1.0 if c["af"] == "vec" else c["af"])
    if c["af"] == "vec":
        atol = atol * (1 + 0.1 * np.arange(p.n))
    tol = float(np.max(rtol * ymax + atol))
    tr = drive(m, p, rtol, atol, c["opts"])
    require(tr.status == "finished", "failed: %s", tr.message)
    e, b = np.max(np.abs(tr.y - ref.sol(tr.t))), 4 * amp * acc_bound(m.name, rtol) * tol + 1e-10 * ymax
    require(e <= b, "differs from the first-order reference by %.3g at the steps, allowed %.3g", e, b)
    b = 4 * amp * acc_bound(m.name, rtol, True) * tol + 1e-10 * ymax
    th = np.array([0.2, 0.55, 0.9])
    for i, s in enumerate(tr.sol):
        x = tr.t[i] + th * (tr.t[i + 1] - tr.t[i])
        e = np.max(np.abs(s(x) - ref.sol(x)))
        require(e <= b, "differs from the first-order reference by %.3g in between (step %d), allowed %.3g", e, i, b)
    o = METHODS[c["other"]]
    to = drive(o, p, rtol, atol, {}, dense=False)
    require(to.status == "finished", "%s failed: %s", o.name, to.message)
    e = np.max(np.abs(to.y[:, -1] - tr.y[:, -1]))
    b = 4 * amp * (acc_bound(m.name, rtol) + acc_bound(o.name, rtol)) * tol + 1e-10 * ymax
    require(e <= b, "end point differs from %s by %.3g, allowed %.3g", o.name, e, b)
    return [c["method"], "complex" if "ph" in c["sys"] else "real",
            "velocity" if any(c["sys"].get(k) for k in ("damp", "gyro", "vdp", "drag")) else "position"]


# ----------------------------------------------------------- reject / accept ---
FORMS = ["factor", "minus", "shift", "x", "swap", "first", "odd", "zero", "coupled", "near"]


@st.composite
def form_case(draw, bad):
    name = draw(st.sampled_from(RKN))
    strict = METHODS[name].strict
    cx = draw(st.integers(0, 4)) == 0
    d = dict(method=name, sys=draw(system(strict, cx)), rtol=1e-4, start=draw(st.sampled_from(
        ["generic", "rest", "equal", "partial", "zero", "allzero"])), vec=draw(st.booleans()))
    if bad:
        d["form"] = draw(st.sampled_from(FORMS + (["velocity"] * 6 if strict else [])))
        d["c"] = draw(st.sampled_from([2.0, 0.5, -0.3, 1.001]))
        d["comp"] = draw(st.integers(0, 3))
        d["sub"] = draw(st.sampled_from(["damp", "gyro", "one"]))
    return d


def start(c, p):
    y, m = p.y0.copy(), p.m
    if c["start"] == "rest":
        y[m:] = 0
    elif c["start"] == "equal":
        y[m:] = y[:m]
    elif c["start"] == "partial":
        y[m] = 0
        y[-1] = y[m - 1]
    elif c["start"] == "zero":
        y[:m] = 0
    elif c["start"] == "allzero":
        y[:] = 0
    return y


def make(c, p, y0, fun):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return METHODS[c["method"]].cls(fun, p.t0, y0, p.tf, rtol=c["rtol"], atol=c["rtol"] * p.sc, vectorized=c["vec"])


def reject(c):
    p = System(c["sys"])
    m, y0, f = p.m, start(c, p), c["form"]
    j = c["comp"] % m

    def fun(t, y):
        x, v = y[:m], y[m:]
        a = p.acc(t, x, v)
        w = v.copy()
        if f == "factor":
            w[j] = c["c"] * v[j]
        elif f == "minus":
            w = -v
        elif f == "shift":
            w[j] = v[j] + 0.1 * p.sc
        elif f == "x":
            w[j] = x[j]
        elif f == "zero":
            w[j] = 0 * v[j]
        elif f == "coupled":
            w[j] = v[j] + 0.3 * v[j - 1] if m > 1 else 1.3 * v[j]
        elif f == "near":
            w[j] = v[j] * (1 + 1e-9)
        elif f == "swap":
            w, a = a, w
        elif f == "first":
            w = -0.7 * x + 0.2 * v
        elif f == "velocity":
            a = a + 0 * v
            if c["sub"] == "damp":
                a = a - 0.3 * v
            elif c["sub"] == "gyro":
                a[j] = a[j] - 0.7 * v[j - 1]
            else:
                a[j] = a[j] + 1e-3 * v[j]
        return np.concatenate((w, a), axis=0)
    if f == "odd":
        y0 = np.append(y0, 0.5)

        def fun(t, y): return np.concatenate((y[m:2 * m], -y[:m], -y[2 * m:]))
    elif f == "swap" and np.all(np.asarray(fun(p.t0, y0))[:m] == y0[m:]):
        return []                           # accelerations equal the velocities at the start
    try:
        s = make(c, p, y0, fun)
    except (AssertionError, ValueError, TypeError):
        return [f, c["start"], c["method"]]
    raise Violation("a right-hand side of the wrong form (%s, start %s) was accepted" % (f, c["start"]))


def accept(c):
    p = System(c["sys"])
    y0 = start(c, p)
    s = make(c, p, y0, p.fun)                # an exception is a violation
    for _ in range(3):
        if s.status == "running":
            s.step()
    require(s.status != "failed", "failed")
    require(np.all(np.isfinite(s.y)), "not finite")
    return [c["start"], c["method"]]


SUBS = [Sub("agree", agree_case(), agree, 1000, 25000),
        Sub("reject", form_case(True), reject, 1500, 20000),
        Sub("accept", form_case(False), accept, 1000, 20000)]
