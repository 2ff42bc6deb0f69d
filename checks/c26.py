"""C26: invalid arguments are rejected, valid ones accepted and respected"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from scipy.linalg import expm
from scipy.sparse import csc_array

import extensisq as ex
from pbt.core import Inconclusive, Sub, Violation, require
from pbt.gen import logu, num
from pbt.methods import METHODS, NAMES, kwargs, method_problem, options, require_ok
from pbt.params import ParamProblem, param_problem
from pbt.problems import build
from checks.c23 import solver

RULE = ("a case is a solver class or sensitivity routine on a generated problem with valid options, and one option replaced "
        "by an invalid, an unusual valid or an unknown one; every case is non-trivial")
REJECTED = (ValueError, TypeError, AssertionError)


@st.composite
def base_case(draw, names=NAMES, linear=False):
    name, spec = draw(method_problem(names, max_mods=3))
    m = METHODS[name]
    if m.kind == "rkc" and spec["kind"] == "fo":
        spec = dict(spec, mods=[dict(kind="lin", k=draw(num(0.3, 2)), z=0.7)], ang=[])
    return dict(method=name, spec=spec, opts=draw(options(m, steps=False)), rtol=draw(logu(-5, -3)))


# ---------------------------------------------------------------- invalid values
# the documented types and ranges; each entry: option -> values (JSON-able)
COMMON = dict(rtol=["negative", "int", "none", "array", "list", "str", "float32"],
              atol=["negative", "one negative", "too long", "too short", "2d", "column"],
              max_step=[0, 0.0, "negative"], first_step=[0, 0.0, "negative", "beyond", "just beyond"],
              y0=["2d", "scalar"])
KIND = dict(
    rk=dict(nfev_stiff_detect=[-1, 1.5, "100", None, 100.0], sc_params=["Q", "g", "Standard", [1, 0, 0], [1, 0, 0, 0.9, 1], 3]),
    rkn=dict(nfev_stiff_detect=[-1, 1.5, "100", None, 100.0], sc_params=["Q", "g", [1, 0, 0], [1, 0, 0, 0.9, 1], 3],
             system=["odd", "not second order"]),
    ckdisc={}, multistep=dict(k_max=[0, 13, -1, 2.5, "3", None, 100, 12.0]),
    rkc=dict(const_jac=[None, "yes", 1, 0, 1.0], rho_jac=["number", "int", "zero", "negative", "array", "matrix"], y0=["complex"]),
    esdirk=dict(sc_params=["Q", "g", [1, 0, 0], [1, 0, 0, 0.9, 1], 3], jac=["too large", "too small", "wide", "1d", "scalar"],
                jac_call=["too large", "too small", "wide", "1d", "scalar"], M=["too long", "too short", "too large", "wide", "3d", "scalar"]))
INTERP = ["unknown", "", "C2", 7, -1, "0", None]


def wrong(m):
    o = {k: list(v) for k, v in COMMON.items()}
    for k, v in KIND[m.kind].items():
        o[k] = o.get(k, []) + v
    if m.interp:
        o[m.interp[0]] = [v for v in INTERP if v not in m.interp[1]]
    if m.strict:
        o["system"] = o["system"] + ["velocity"]
    return [(k, v) for k, vs in o.items() for v in vs]


@st.composite
def bad_case(draw):
    c = draw(base_case())
    c["bad"] = draw(st.sampled_from(wrong(METHODS[c["method"]])))
    c["x"] = draw(logu(-6, 2))
    c["sparse"] = draw(st.booleans())
    return c


def matrix(what, n, sparse):
    A = {"too large": np.eye(n + 1), "too small": np.eye(n - 1), "wide": np.eye(n, n + 1), "1d": np.ones(n),
         "scalar": np.array(1.0), "too long": np.ones(n + 1), "too short": np.ones(n - 1), "3d": np.ones((n, n, n))}[what]
    return csc_array(A) if sparse and A.ndim == 2 and A.size else A


def reject(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    k, v = c["bad"]
    n, x = p.n, c["x"]
    L = abs(p.tf - p.t0)
    kw = kwargs(m, c["opts"], p)
    kw.update(rtol=c["rtol"], atol=c["rtol"])
    fun, y0 = p.fun, p.y0
    if k == "rtol":
        kw[k] = {"negative": -x, "int": 1, "none": None, "array": np.full(n, 1e-3), "list": [1e-3] * n, "str": "1e-3",
                 "float32": np.float32(1e-3)}[v]
    elif k == "atol":
        if n == 1 and v == "too short":
            v = "too long"
        a = np.full(n, x)
        a[-1] = -x
        kw[k] = {"negative": -x, "one negative": a, "too long": np.full(n + 1, x), "too short": np.full(n - 1, x),
                 "2d": np.full((n, n), x), "column": np.full((n, 1), x)}[v]
    elif k in ("max_step", "first_step"):
        kw[k] = {"negative": -x, "beyond": L * (1 + x), "just beyond": L * (1 + 1e-9)}.get(v, v) if isinstance(v, str) else v
    elif k == "y0":
        y0 = {"2d": p.y0[:, None], "scalar": p.y0[0], "complex": p.y0 + 0.1j}[v]
    elif k == "system":
        if v == "odd":
            y0, fun = np.append(p.y0, 0.3), lambda t, y: np.append(p.fun(t, y[:-1]), 0.0 * y[-1])
        elif v == "not second order":
            fun = lambda t, y: p.fun(t, y) + 0.3 * np.max(np.abs(p.y0)) + 0.1
        else:
            h = n // 2
            fun = lambda t, y: np.concatenate((y[h:], p.fun(t, y)[h:] - (0.1 + x) * y[h:]))
            v0 = np.abs(p.y0[h:])
            if not np.all(v0 > 1e-3 * np.max(np.abs(p.fun(p.t0, p.y0)[h:]) + v0)):
                return []
    elif k == "sc_params":
        kw[k] = tuple(v) if isinstance(v, list) else v
    elif k == "rho_jac":
        kw[k] = {"number": 10.0, "int": lambda t, y: 3, "zero": lambda t, y: 0.0, "negative": lambda t, y: -x,
                 "array": lambda t, y: np.ones(2), "matrix": np.eye(n)}[v]
    elif k in ("jac", "jac_call", "M"):
        if n == 1 and v in ("too small", "too short"):
            return []
        A = matrix(v, n, c["sparse"])
        kw.pop("jac_sparsity", None)
        kw["M" if k == "M" else "jac"] = (lambda t, y: A) if k == "jac_call" else A
    else:
        kw[k] = v
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            m.cls(fun, p.t0, y0, p.tf, **kw)
        except REJECTED:
            return [c["method"], "%s: %s" % (k, v)]
        except Exception as e:
            raise Violation("%s=%r is rejected with %s: %s" % (k, v, type(e).__name__, e))
    raise Violation("invalid %s=%r is accepted" % (k, v))


# ---------------------------------------------------------------- valid values
@st.composite
def good_case(draw):
    c = draw(base_case())
    m = METHODS[c["method"]]
    kinds = ["atol 0", "atol zeros", "atol list", "atol tuple", "atol int", "rtol 0", "rtol np", "first_step", "first_step full",
             "max_step", "max_step inf", "y0 list", "y0 tuple", "y0 int", "t numpy"]
    if m.kind in ("rk", "rkn", "esdirk"):
        kinds += ["sc None", "sc tuple"]
    if m.kind in ("rk", "rkn"):
        kinds += ["detect 0", "detect True"]
    if m.kind == "rkc":
        kinds += ["rho np", "rho float"]
    if m.implicit:
        kinds += ["M eye", "M ones", "M sparse", "M list", "jac None", "jac_each_step"]
    c["good"] = draw(st.sampled_from(kinds))
    c["x"] = draw(logu(-3, -0.5))
    return c


def solve(m, p, kw, c, y0=None, t0=None):
    kw = dict(dict(rtol=c["rtol"], atol=c["rtol"] * float(np.max(np.abs(p.y0)))), **kw)
    n = 0
    with warnings.catch_warnings(record=True) as wl, np.errstate(all="ignore"):
        warnings.simplefilter("always")
        s = m.cls(p.fun, p.t0 if t0 is None else t0, p.y0 if y0 is None else y0, p.tf, **kw)
        steps = []
        while s.status == "running" and n < 20000:
            msg = s.step()
            n += 1
            if s.status == "failed":
                # too bold a first step may legitimately end in an overflow
                if c.get("good") == "first_step full" and "Overflow" in str(msg):
                    raise Inconclusive("overflow in a first step of the length of the interval")
                require_ok(m, False, msg, s.t)
            steps.append(abs(s.t - s.t_old))
    require(s.status == "finished", "status %s after %d steps", s.status, n)
    return s, np.array(steps), wl


def accept(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    L = abs(p.tf - p.t0)
    g, x = c["good"], c["x"]
    kw = kwargs(m, c["opts"], p)
    ya = float(np.max(np.abs(p.y0)))
    y0 = t0 = None
    tags = [c["method"], g]
    same = None                                   # keyword arguments that should give the same solution
    if g in ("atol 0", "atol zeros", "atol int"):
        return zero_atol(m, p, kw, c) and tags
    elif g in ("atol list", "atol tuple"):
        a = c["rtol"] * ya * (1 + np.arange(p.n))
        kw["atol"], same = (list if g == "atol list" else tuple)(a), dict(atol=a)
    elif g == "rtol 0":
        if m.order < 7 or c["opts"].get("k_max", 12) < 8:
            return []                             # too expensive
        kw.update(rtol=0.0, atol=1e-9 * ya)
    elif g == "rtol np":
        kw["rtol"], same = np.float64(c["rtol"]), {}
    elif g == "first_step":
        kw["first_step"] = x * 1e-3 * L
    elif g == "first_step full":
        kw["first_step"] = L
    elif g == "max_step":
        kw["max_step"] = x * L
    elif g == "max_step inf":
        kw["max_step"], same = np.inf, {}
    elif g in ("y0 list", "y0 tuple"):
        y0, same = (list if g == "y0 list" else tuple)(p.y0.tolist()), {}
    elif g == "y0 int":
        return integers(m, p, kw, c) and tags
    elif g == "t numpy":
        t0, same = np.float64(p.t0), {}
    elif g == "sc None":
        kw["sc_params"] = None
        same = dict(sc_params=m.cls.sc_params)
    elif g == "sc tuple":
        kw["sc_params"], same = (1, 0, 0, 0.8 if m.implicit else 0.9), dict(sc_params="standard")
    elif g == "detect 0":
        kw["nfev_stiff_detect"] = 0
    elif g == "detect True":
        kw["nfev_stiff_detect"], same = 5000, {}
        kw.pop("nfev_stiff_detect") if not m.detect else 0
    elif g in ("rho np", "rho float"):
        if c["spec"]["kind"] != "fo":
            return []
        rho = 1.1 * np.max(np.abs(p.jac(p.t0, p.y0))) * p.n + 1e-3 / L
        kw["rho_jac"] = (lambda t, y: np.float64(rho)) if g == "rho np" else (lambda t, y: float(rho))
    elif g[0] == "M":
        kw["M"] = {"M eye": np.eye(p.n), "M ones": np.ones(p.n), "M sparse": csc_array(np.eye(p.n)),
                   "M list": np.eye(p.n).tolist()}[g]
    elif g == "jac None":
        kw.pop("jac", None)
        kw["jac"] = None
    elif g == "jac_each_step":
        kw["jac_each_step"] = True
    s, steps, wl = solve(m, p, kw, c, y0, t0)
    wl = [w for w in wl if "stiff" not in str(w.message) and "Sparse" not in w.category.__name__
          and "dominant" not in str(w.message)]
    require(not wl or m.kind == "multistep" and "rounding" in str(wl[0].message), "%s: warning %s", g, wl and wl[0].message)
    if g == "first_step":
        require(abs(steps[0] / kw["first_step"] - 1) < 1e-9 + 4e-16 * max(abs(p.t0), abs(p.tf)) / kw["first_step"]
                or steps[0] < kw["first_step"], "first step is %r, given is %r", steps[0], kw["first_step"])
    if g == "max_step":
        require(np.max(steps) <= kw["max_step"] * (1 + 1e-12) + 4e-16 * max(abs(p.t0), abs(p.tf)), "max_step is ignored: %r > %r", np.max(steps), kw["max_step"])
    if same is not None:
        base = kwargs(m, c["opts"], p)
        if g == "detect True":
            base.pop("nfev_stiff_detect", None)
        base.update(same)
        s2, steps2, _ = solve(m, p, base, c)
        require(s2.t == s.t and np.array_equal(s2.y, s.y), "%s: the solution differs from the one with plain arguments", g)
        require(s2.nfev == s.nfev, "%s: nfev differs from the one with plain arguments", g)
    return tags


def positive(m, p, kw):
    """a linear system with solutions that stay well away from zero"""
    T = p.tf - p.t0
    if m.nystrom:
        h = p.n // 2
        # x = exp((t - t0) / T)
        A = np.block([[np.zeros((h, h)), np.eye(h)], [np.eye(h) / T**2, np.zeros((h, h))]])
        y0 = np.concatenate((np.ones(h), np.full(h, 1 / T)))
    else:
        A = np.diag(np.full(p.n, -0.5 / T)) + np.diag(np.full(p.n - 1, 0.2 / T), 1)
        y0 = np.arange(1, p.n + 1) % 3 + 1
    kw = {k: v for k, v in kw.items() if k not in ("jac", "jac_sparsity", "vectorized")}
    if np.iscomplexobj(p.y0):
        A = A * (1 + 0j)
    return lambda t, y: A @ np.asarray(y), y0, kw, A


def zero_atol(m, p, kw, c):
    """atol may be zero"""
    fun, y0, kw, A = positive(m, p, kw)
    y0 = y0.astype(A.dtype)
    zeros = np.zeros(p.n)
    end = expm(A * (p.tf - p.t0)) @ y0
    rtol = max(c["rtol"], 1e-4) if m.order < 4 or c["opts"].get("k_max", 12) < 4 else c["rtol"]
    for a in {"atol 0": (0.0, zeros), "atol zeros": (zeros, zeros.tolist()), "atol int": (0, zeros.astype(int))}[c["good"]]:
        s = m.cls(fun, p.t0, y0, p.tf, rtol=rtol, atol=a, **kw)
        k = 0
        while s.status == "running":
            s.step()
            k += 1
            require(k < 20000, "no end")
        require(s.status == "finished", "failed")
        e = np.max(np.abs(s.y / end - 1))
        require(e <= 1000 * rtol, "atol=0: relative error %r for rtol=%r", e, rtol)
    return True


def integers(m, p, kw, c):
    """an initial state of integers is the same state as floats"""
    if m.nystrom or np.iscomplexobj(p.y0):
        return False
    fun, y0, kw, _ = positive(m, p, kw)
    out = []
    for y in (y0, y0.tolist(), y0.astype(float)):
        s = m.cls(fun, p.t0, y, p.tf, rtol=c["rtol"], atol=c["rtol"], **kw)
        k = 0
        while s.status == "running":
            s.step()
            k += 1
            require(k < 20000, "no end")
        require(s.status == "finished", "failed")
        out.append(s)
    for s in out[:2]:
        require(s.y.dtype == out[2].y.dtype, "dtype is %s", s.y.dtype)
        require(np.array_equal(s.y, out[2].y), "a start state of integers gives another solution than floats: %s, %s", s.y, out[2].y)
    return True


# ---------------------------------------------------------------- unknown options
@st.composite
def unknown_case(draw):
    c = draw(base_case())
    m = METHODS[c["method"]]
    foreign = ["foo", "min_step", "lband", "order", "Interpolant"]
    if m.kind != "multistep":
        foreign.append("k_max")
    if m.kind != "rkc":
        foreign += ["const_jac", "rho_jac"]
    if not m.implicit:
        foreign += ["jac", "M", "jac_sparsity", "jac_each_step"]
    if m.kind in ("multistep", "rkc", "ckdisc"):
        foreign.append("nfev_stiff_detect")
    if m.kind in ("multistep", "rkc"):
        foreign.append("sc_params")
    if not m.interp:
        foreign.append("interpolant")
    c["unknown"] = draw(st.lists(st.sampled_from(foreign), min_size=1, max_size=2, unique=True))
    return c


def unknown(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    kw = kwargs(m, c["opts"], p)
    val = dict(jac=p.jac, M=np.eye(p.n), k_max=3, const_jac=True, interpolant="low", sc_params="G", nfev_stiff_detect=10)
    more = {k: val.get(k, 1) for k in c["unknown"]}
    s, steps, wl = solve(m, p, dict(kw, **more), c)
    text = " ".join(str(w.message) for w in wl)
    for k in more:
        require("`%s`" % k in text, "no warning for the unknown option %s", k)
    s2, steps2, wl2 = solve(m, p, kw, c)
    require(np.array_equal(s.y, s2.y) and s.nfev == s2.nfev, "the unknown option %s changes the solution", list(more))
    require("no effect" not in " ".join(str(w.message) for w in wl2), "a warning for a documented option: %s", wl2 and wl2[0].message)
    return [c["method"]] + list(more)


# ---------------------------------------------------------------- sensitivities
SENS = ["y0 2d", "y0 int", "y0 complex", "dy0dp 1d", "dy0dp rows", "dy0dp columns", "jac None", "jac wide", "jac 1d", "jac signature",
        "fun 2d", "fun long", "fun None", "fun signature", "dfdp columns", "dfdp rows", "dfdp 1d", "dfdp None"]
FORW = ["rtol int", "rtol list", "atol long", "atol short", "t_eval end"]
ADJ = ["p int", "p 2d", "g 2", "g 2d", "g None", "dgdp long", "dgdp 2d", "dgdy long", "dgdy 2d", "dgdy signature", "sol_y not dense"]


@st.composite
def sens_bad(draw):
    r = draw(st.sampled_from(["forward", "end", "int"]))
    return dict(routine=r, P=draw(param_problem(max_mods=2)), bad=draw(st.sampled_from(SENS + (FORW if r == "forward" else ADJ))),
                method=draw(st.sampled_from(["BS5", "RK45", "KC3I"])), wrap=draw(st.sampled_from(["function", "object"])))


class Call:
    """a callable without a name"""
    def __init__(s, f): s.f = f
    def __call__(s, *a): return s.f(*a)


def sens_reject(c):
    P = ParamProblem(c["P"])
    n, Np = P.n, P.Np
    a = dict(fun=P.fun, y0=P.y0, jac=P.jac, dfdp=P.dfdp, dy0dp=P.dy0dp, p=P.p, g=lambda t, y, *p: np.array([y[0]]),
             dgdp=lambda t, y, *p: np.zeros(Np), dgdy=lambda t, y, *p: np.eye(n)[0])
    kw = dict(method=solver(c["method"]))
    what, how = c["bad"].split(" ", 1)
    f = a.get(what)
    if what in ("y0", "p"):
        a[what] = {"2d": f[None, :], "int": np.ones(f.size, int), "complex": f + 0.1j}[how]
    elif what == "dy0dp":
        a[what] = {"1d": f.ravel(), "rows": np.ones((n + 1, Np)), "columns": np.ones((n, Np + 1))}[how]
    elif what in a:
        new = {"None": None, "wide": lambda t, y, *p: np.ones((n, n + 1)), "1d": lambda t, y, *p: np.ones(n), "signature": lambda t: 0.0,
               "2d": lambda t, y, *p: np.atleast_2d(f(t, y, *p)), "long": lambda t, y, *p: np.append(f(t, y, *p), 0.0),
               "columns": lambda t, y, *p: np.ones((n, Np + 1)), "rows": lambda t, y, *p: np.ones((n + 1, Np)), "2": lambda t, y, *p: np.ones(2)}[how]
        a[what] = Call(new) if c["wrap"] == "object" and new is not None else new
    elif what == "rtol":
        kw["rtol"] = 1 if how == "int" else [1e-3] * n
    elif what == "atol":
        kw["atol"] = [1e-6] * (n + 1 if how == "long" or n == 1 else n - 1)
    elif what == "t_eval":
        kw["t_eval"] = np.linspace(P.t0, P.t0 + 0.9 * (P.tf - P.t0), 5)
    elif what == "sol_y":
        kw["sol_y"] = solve_ivp(P.fun, (P.t0, P.tf), P.y0, args=tuple(P.p))
    args = [a["fun"], (P.t0, P.tf)] + [a[k] for k in ("y0", "jac", "dfdp", "dy0dp", "p")]
    routine = ex.sens_forward
    if c["routine"] != "forward":
        args += [a["g"], a["dgdp"], a["dgdy"]]
        routine = ex.sens_adjoint_end if c["routine"] == "end" else ex.sens_adjoint_int
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            routine(*args, **kw)
        except REJECTED:
            return [c["routine"], c["bad"]]
        except Exception as e:
            raise Violation("%s is rejected with %s: %s" % (c["bad"], type(e).__name__, e))
    raise Violation("%s: invalid argument is accepted" % c["bad"])


@st.composite
def sens_good(draw):
    return dict(routine=draw(st.sampled_from(["forward", "end", "int"])), P=draw(param_problem(max_mods=2)),
                wrap=draw(st.sampled_from(["object", "list"])), method=draw(st.sampled_from(["BS5", "RK45", "KC3I"])))


def sens_accept(c):
    """callable objects, and functions that return lists, are functions too"""
    P = ParamProblem(c["P"])
    n, Np = P.n, P.Np
    fs = [P.fun, P.jac, P.dfdp, lambda t, y, *p: np.array([y[0]]), lambda t, y, *p: np.zeros(Np), lambda t, y, *p: np.eye(n)[0]]
    wrap = Call if c["wrap"] == "object" else lambda f: (lambda *a: f(*a).tolist())
    out = []
    for w in (lambda f: f, wrap):
        fun, jac, dfdp, g, dgdp, dgdy = [w(f) for f in fs]
        args = [fun, (P.t0, P.tf), P.y0, jac, dfdp, P.dy0dp, P.p]
        routine = ex.sens_forward
        if c["routine"] != "forward":
            args += [g, dgdp, dgdy]
            routine = ex.sens_adjoint_end if c["routine"] == "end" else ex.sens_adjoint_int
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            out.append(routine(*args, method=solver(c["method"]))[0])
    require(np.array_equal(*out), "the result differs for %s: %s, %s", c["wrap"], *out)
    return [c["routine"], c["wrap"]]


SUBS = [Sub("reject", bad_case(), reject, 6000, 30000), Sub("accept", good_case(), accept, 3000, 12000),
        Sub("unknown", unknown_case(), unknown, 1000, 5000), Sub("sensreject", sens_bad(), sens_reject, 1500, 8000),
        Sub("sensaccept", sens_good(), sens_accept, 120, 1000)]
