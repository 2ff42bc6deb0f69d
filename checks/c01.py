"""C01: integration ends exactly at the requested end point"""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from pbt.core import Sub, require
from pbt.gen import logu, num
from pbt.methods import METHODS, NAMES, drive, kwargs, method_problem, options
from pbt.problems import build

RULE = ("a case is (method, problem, options, interval); non-trivial when at least one "
        "step was accepted and all output times were compared with the request")


def check_times(t, y, t0, tf):
    require(t[0] == t0, "first time %r is not t0 %r", t[0], t0)
    require(t[-1] == tf, "last time %r is not the requested end %r", t[-1], tf)
    d = np.diff(t) * (1 if tf > t0 else -1)
    require(np.all(d > 0), "times are not strictly monotonic: %s", t[np.argmin(d):][:2])
    require(y.shape[1] == t.size, "%d states for %d times", y.shape[1], t.size)
    require(np.all(np.isfinite(y)), "non-finite state reported as success")


# ------------------------------------------------------------------- smooth ---
@st.composite
def smooth_case(draw):
    name, spec = draw(method_problem())
    m = METHODS[name]
    if m.kind == "rkc" and spec["kind"] == "fo":
        spec = dict(spec, mods=[k for k in spec["mods"]])
    return dict(method=name, spec=spec, rtol=draw(logu(max(m.rtol_min, -7), -2)),
                opts=draw(options(m)), via=draw(st.sampled_from(["solver", "ivp"])))


def adapt(m, c):
    """solver options that make sense for this combination"""
    o = dict(c["opts"])
    if o.get("first_frac", 0) > 0.1:     # a forced huge first step may overflow,
        o["first_frac"] = 0.1            # which is answered with a failure (C12)
    if m.kind == "multistep" and o.get("k_max", 12) < 4:
        rtol = max(c["rtol"], 1e-4)
    else:
        rtol = c["rtol"]
    return o, rtol


def smooth(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    o, rtol = adapt(m, c)
    kw = {}
    if m.kind == "rkc":
        # the nonlinear power method is meant for real spectra; supply the radius
        kw["rho_jac"] = lambda t, y: float(np.linalg.norm(p.jac(t, y))) + 1e-3
    atol = rtol * p.spec["scale"]
    if c["via"] == "solver":
        tr = drive(m, p, rtol, atol, o, dense=False, kw=kw)
        require(tr.status == "finished", "status %s: %s", tr.status, tr.message)
        t, y = tr.t, tr.y
    else:
        r = solve_ivp(p.fun, (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol,
                      **kwargs(m, o, p), **kw)
        require(r.status == 0 and r.success, "status %s: %s", r.status, r.message)
        t, y = r.t, r.y
    check_times(t, y, p.t0, p.tf)
    return [c["method"], "backward" if p.tf < p.t0 else "forward"]


# ---------------------------------------------------------------- intervals ---
@st.composite
def interval_case(draw):
    name = draw(st.sampled_from(NAMES))
    m = METHODS[name]
    den = draw(st.sampled_from([1, 3, 7, 9, 11]))
    kind = draw(st.sampled_from(["mag", "mag", "cross", "ratio", "decimal"]))
    if kind == "cross":                 # crosses or touches zero
        t0 = -draw(st.integers(0, 50)) / den
        t1 = draw(st.integers(1, 50)) / draw(st.sampled_from([1, 3, 7, 10]))
    elif kind == "ratio":               # ends of very different magnitude
        t0 = draw(st.integers(1, 99)) / den * 10.0 ** draw(st.integers(-12, 12))
        t1 = draw(st.integers(1, 99)) / 7 * 10.0 ** draw(st.integers(-12, 12))
        if draw(st.booleans()):
            t0 = -t0
    elif kind == "decimal":             # short decimals, as users write them
        t0 = draw(st.integers(-500, 500)) / 10
        t1 = t0 + draw(st.integers(1, 300)) / 10
    else:                               # far from zero, relatively short
        a = draw(st.integers(1, 99)) / den * 10.0 ** draw(st.integers(-3, 8))
        t0 = a if draw(st.booleans()) else -a
        t1 = t0 + a * 10.0 ** draw(num(-6, 1, 1))
    if abs(t1 - t0) <= 1e-6 * max(abs(t0), abs(t1)):
        t1 = t0 + max(abs(t0), abs(t1))
    if draw(st.booleans()):
        t0, t1 = t1, t0
    return dict(method=name, t0=t0, t1=t1, lam=draw(num(0.1, 3)), w=draw(num(0, 6)),
                rtol=draw(logu(-5, -2)),
                first=draw(st.sampled_from([None, None, 0.3, 0.01, 1e-3, 1.0])),
                maxs=draw(st.sampled_from([None, None, None, 0.3, 0.1, 1 / 3, 0.03])),
                sc=draw(st.sampled_from([None, None, "standard", "G", "S"])))


def interval(c):
    m = METHODS[c["method"]]
    t0, t1 = c["t0"], c["t1"]
    L = abs(t1 - t0)
    lam, w = c["lam"], c["w"]
    if m.nystrom:
        def f(t, y): return np.array([y[1], -(w / L) ** 2 * y[0] - (lam / L) ** 2 * y[0]])
        y0 = [1.0, 0.3 / L]
        atol = [c["rtol"], c["rtol"] / L]
    else:
        def f(t, y): return np.array([-lam / L * (y[0] - np.cos(w * ((t - t0) / L))),
                                      -lam / L * y[1] * y[1]])
        if t1 < t0:
            g = f
            def f(t, y): return -g(t, y)
        y0, atol = [1.0, 0.5], c["rtol"]
    kw = {}
    if c["first"]:
        kw["first_step"] = c["first"] * L
        if t0 + kw["first_step"] * np.sign(t1 - t0) == t0 or kw["first_step"] > L:
            kw.pop("first_step")
    if c["maxs"]:
        kw["max_step"] = c["maxs"] * L
    if c["sc"] and m.kind in ("rk", "rkn", "esdirk"):
        kw["sc_params"] = c["sc"]
    n = [0]

    def fun(t, y):
        n[0] += 1
        require(n[0] < 100000, "no end after %d evaluations, t=%r", n[0], t)
        return f(t, y)
    r = solve_ivp(fun, (t0, t1), y0, method=m.cls, rtol=c["rtol"], atol=atol, **kw)
    require(r.status == 0 and r.success, "status %s: %s (reached %r)", r.status, r.message, r.t[-1])
    check_times(r.t, r.y, t0, t1)
    return [c["method"], "cross" if t0 * t1 < 0 else "one side",
            "backward" if t1 < t0 else "forward"]


SUBS = [Sub("smooth", smooth_case(), smooth, 5000, 200000),
        Sub("interval", interval_case(), interval, 8000, 400000)]
