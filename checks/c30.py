"""C30: user functions are only evaluated at times inside the interval"""
import warnings

import extensisq as ex
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from scipy.sparse import csc_array

from checks.c23 import guard
from checks.c24 import adj_case
from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, num
from pbt.methods import FIRST, METHODS, method_problem, kwargs, options
from pbt.params import G, ParamProblem
from pbt.problems import build

RULE = ("a case is a problem of which all functions record the times they are called with, at a generated place and of generated length, "
        "a method with options and tolerances; non-trivial when at least 3 steps or 12 evaluations were made")


class Clock:
    """judges the times of all calls"""
    def __init__(s, t0, tf, method):
        s.lo, s.hi = min(t0, tf), max(t0, tf)
        s.d = 1 if tf > t0 else -1
        # one stage of KC4I lies at 26/25 of the step: that is the method of its authors
        s.over = 0.04 * (s.hi - s.lo) if method == "KC4I" else 0.0
        s.r = 4e-16 * (abs(t0) + abs(tf)) + 1e-14 * (s.hi - s.lo)
        s.n, s.bad = 0, None

    def wrap(s, f, what):
        def g(t, *a):
            s.n += 1
            if s.n > 200000:
                raise Inconclusive("many evaluations")
            over = s.over if what == "fun" else 0.0
            ok = np.ndim(t) == 0 and np.isreal(t) and s.lo - s.r - over * (s.d < 0) <= t <= s.hi + s.r + over * (s.d > 0)
            if not ok and s.bad is None:
                s.bad = "%s evaluated at t=%r, the interval is (%r, %r)" % (what, t, s.lo, s.hi)
            return f(t, *a)
        return g

    def judge(s): require(s.bad is None, "%s", s.bad)


@st.composite
def solve_case(draw):
    name, spec = draw(method_problem(span=(0.3, 6.0)))
    m = METHODS[name]
    o = draw(options(m))
    if o.get("first_frac", 0) > 0.1 and draw(st.booleans()):
        o["first_frac"] = 0.1
    return dict(method=name, spec=spec, opts=o, rtol=draw(logu(max(m.rtol_min, -8), -3)), af=draw(st.sampled_from([1.0, 1e-3])),
                # a short piece of the interval, far from t = 0
                part=draw(st.one_of(st.just(1.0), logu(-6, 0))), shift=draw(st.one_of(st.just(0.0), num(-9, 9), num(-1e4, 1e4))),
                rho=draw(st.booleans()), use=draw(st.sampled_from(["dense", "t_eval", "events", "plain"])),
                grid=draw(st.lists(num(0, 1), max_size=5)), jump=draw(st.one_of(st.none(), st.none(), num(0.05, 0.95))))


def solves(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    d = 1 if p.tf > p.t0 else -1
    L = abs(p.tf - p.t0) * c["part"]
    t0 = p.t0 + c["shift"]
    tf = t0 + d * L
    p.tf = p.t0 + d * L
    kw = kwargs(m, c["opts"], p)
    if "first_step" in kw:
        kw["first_step"] = min(kw["first_step"], abs(tf - t0))
    C = Clock(t0, tf, c["method"])
    tj = np.inf if c["jump"] is None else c["jump"] * L

    def fun(t, y):
        f = p.fun(t - c["shift"], y)
        if (t - t0) * d > tj:
            # a jump of the derivative, which costs rejected steps
            f = f * 1.0
            f[p.n // 2 if p.second else 0:] *= 3
        return f
    if callable(kw.get("jac")):
        jac = kw["jac"]
        kw["jac"] = C.wrap(lambda t, y: jac(t - c["shift"], y), "jac")
    if m.kind == "rkc" and c["rho"]:
        kw["rho_jac"] = C.wrap(lambda t, y: 3 * float(np.linalg.norm(p.jac(t - c["shift"], y))) + 1e-3, "rho_jac")
    grid = np.unique(np.clip(t0 + d * L * np.array(c["grid"]), C.lo, C.hi))[::d]
    if c["use"] == "dense":
        kw["dense_output"] = True
    if c["use"] == "t_eval":
        kw["t_eval"] = grid
    if c["use"] == "events":
        kw["events"] = [C.wrap(lambda t, y: float(np.real(y[0] - 0.5 * p.y0[0])), "event"), C.wrap(lambda t, y: t - t0 - 0.6 * d * L, "event")]
    atol = c["rtol"] * c["af"] * np.max(np.abs(p.y0)) + 1e-12
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            r = solve_ivp(C.wrap(fun, "fun"), (t0, tf), p.y0, method=m.cls, rtol=c["rtol"], atol=atol, **kw)
        except Exception as e:
            C.judge()
            if isinstance(e, Inconclusive):
                raise
            raise Inconclusive("exception " + str(e)[:60]) from e
        C.judge()
        if c["use"] == "dense" and r.success:
            r.sol(np.linspace(t0, tf, 7))
            C.judge()
    return [c["method"], c["use"], "forward" if d > 0 else "backward"] if C.n >= 12 else []


# ---------------------------------------------------------------- within the step
@st.composite
def step_case(draw):
    c = draw(solve_case())
    c["use"] = "plain"
    return c


def steps(c):
    """stages and interpolation do not leave the step that is tried: from the current time, at most the step size ahead"""
    m, p = METHODS[c["method"]], build(c["spec"])
    d = 1 if p.tf > p.t0 else -1
    kw = kwargs(m, c["opts"], p)
    times = []

    def fun(t, y):
        times.append(float(t))
        if len(times) > 100000:
            raise Inconclusive("many evaluations")
        return p.fun(t, y)
    if m.kind == "rkc" and c["rho"]:
        kw["rho_jac"] = lambda t, y: 3 * float(np.linalg.norm(p.jac(t, y))) + 1e-3
    atol = c["rtol"] * c["af"] * np.max(np.abs(p.y0)) + 1e-12
    n = 0
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            s = m.cls(fun, p.t0, p.y0, p.tf, rtol=c["rtol"], atol=atol, **kw)
            r = 1e-13 * abs(p.tf - p.t0) + 4e-16 * abs(p.t0)
            while s.status == "running" and n < 200:
                old, fails = s.t, int(ex.NFS)
                prev = s.t_old
                times.clear()
                s.step()
                if s.status == "failed":
                    raise Inconclusive("failed")
                n += 1
                # SSV2stab chooses its first step during the first step
                free = int(ex.NFS) == fails and not m.implicit and (n > 1 or m.kind != "rkc")
                # a stiffness test uses states of the step, a multistep method looks back only by its stored values
                t = np.array(times) if times else np.array([old])
                require(np.all((t - old) * d >= -r), "step %d from %r (before: %r): evaluation at %r", n, old, prev, t[np.argmin(t * d)])
                if free:
                    require(np.all((t - s.t) * d <= r), "step %d from %r to %r, no rejection: evaluation at %r", n, old, s.t,
                            t[np.argmax(t * d)])
                times.clear()
                s.dense_output()
                t = np.array(times)
                require(np.all((t - old) * d >= -r) and np.all((t - s.t) * d <= r), "interpolant of step %d from %r to %r: "
                        "evaluations at %s", n, old, s.t, t)
        except Inconclusive:
            raise
        except (ValueError, OverflowError, ZeroDivisionError, FloatingPointError) as e:
            raise Inconclusive("exception " + str(e)[:60]) from e
    return [c["method"]] if n >= 3 else []


# ---------------------------------------------------------------- sensitivities
@st.composite
def sens_case(draw):
    c = draw(adj_case(names=FIRST))
    c["routine"] = draw(st.sampled_from(["forward", "end", "int"]))
    c["approx"] = draw(st.booleans())
    return c


def sens(c):
    P = ParamProblem(c["P"])
    g = G(P, c["g"])
    C = Clock(P.t0, P.tf, c["method"])
    C.r += C.over       # in both directions, and for the derivatives of fun too
    w = C.wrap
    F = dict(fun=w(P.fun, "fun"), jac=w(P.jac, "jac"), dfdp=w(P.dfdp, "dfdp"))
    cls = METHODS[c["method"]].cls
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if c["routine"] == "forward":
            guard(c["method"], lambda: ex.sens_forward(
                F["fun"], (P.t0, P.tf), P.y0, F["jac"], F["dfdp"], P.dy0dp, P.p, atol=c["rtol"], rtol=c["rtol"], method=cls,
                dense_output=True, use_approx_jac=c["approx"]))
        else:
            routine = ex.sens_adjoint_end if c["routine"] == "end" else ex.sens_adjoint_int
            guard(c["method"], lambda: routine(
                F["fun"], (P.t0, P.tf), P.y0, F["jac"], F["dfdp"], P.dy0dp, P.p, w(g.g, "g"), w(g.dgdp, "dgdp"), w(g.dgdy, "dgdy"),
                method=cls, rtol=c["rtol"], atol=c["rtol"], atol_adj=c["rtol"], atol_quad=c["rtol"]))
    C.judge()
    return [c["routine"], c["method"]]


SUBS = [Sub("solve", solve_case(), solves, 4000, 80000), Sub("step", step_case(), steps, 2000, 40000),
        Sub("sens", sens_case(), sens, 400, 6000)]
