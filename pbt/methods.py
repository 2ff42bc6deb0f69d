"""Registry of the solver classes, generators for their options, and a driver
that steps a solver through its public interface while watching it."""
import warnings

import numpy as np
import extensisq as ex
from hypothesis import strategies as st
from scipy.sparse import csc_array, csr_array

from .core import Inconclusive, Violation, require
from .gen import logu, num


class M:
    def __init__(s, name, kind, order, est, **kw):
        s.name, s.kind, s.order, s.est = name, kind, order, est
        s.cls = getattr(ex, name)
        s.complex = kw.get("complex_", True)
        s.strict = kw.get("strict", False)
        s.opts = kw.get("opts", {})
        s.rtol_min = kw.get("rtol_min", -9)
        s.detect = kw.get("detect", False)
        s.interp = kw.get("interp")           # (option name, {value: (order, continuity)})

    @property
    def nystrom(s): return s.kind == "rkn"

    @property
    def implicit(s): return s.kind == "esdirk"

    @property
    def explicit_rk(s): return s.kind == "rk"


# interpolant orders: order of accuracy of the polynomial (local error h^(q+1)),
# continuity: 0, 1 (derivative of all states joins), 2
METHODS = {m.name: m for m in [
    M("BS5", "rk", 5, 4, detect=True, interp=("interpolant", {"low": 5, "best": 5, "free": 4})),
    M("CK5", "rk", 5, 4, detect=True),
    M("Ts5", "rk", 5, 4, detect=True),
    M("Me4", "rk", 4, 3, detect=True, rtol_min=-8),
    M("Pr7", "rk", 7, 5, detect=True),
    M("Pr8", "rk", 8, 6, detect=True),
    M("Pr9", "rk", 9, 7, detect=True),
    M("CFMR7osc", "rk", 7, 5, detect=True),
    M("CKdisc", "ckdisc", 5, 4),
    M("SWAG", "multistep", 12, 11),
    M("SSV2stab", "rkc", 2, 2, complex_=False, rtol_min=-6),
    M("Fi4N", "rkn", 4, 3, detect=True, rtol_min=-8),
    M("Fi5N", "rkn", 5, 4, detect=True, interp=("interpolant", {0: 4, 1: 5, 2: 5, 3: 4})),
    M("Mu5Nmb", "rkn", 5, 4, detect=True, interp=("interpolant", {"better": 4, "free": 4})),
    M("MR6NN", "rkn", 6, 4, strict=True, detect=True),
    M("TRBDF2", "esdirk", 2, 3, rtol_min=-5.5),
    M("TRX2", "esdirk", 2, 3, rtol_min=-5.5),
    M("KC3I", "esdirk", 3, 2, rtol_min=-6, interp=("interpolant", {"C0": 3, "C1": 3})),
    M("KC4I", "esdirk", 4, 3, rtol_min=-7, interp=("interpolant", {"C0": 4, "C1": 4})),
    M("KC4Ia", "esdirk", 4, 3, rtol_min=-7, interp=("interpolant", {"C0": 4, "C1": 4})),
    M("Kv3I", "esdirk", 3, 2, rtol_min=-6, interp=("interpolant", {"C0": 3, "C1": 3})),
]}
NAMES = list(METHODS)
FIRST = [n for n, m in METHODS.items() if not m.nystrom]
RK = [n for n, m in METHODS.items() if m.kind == "rk"]
RKN = [n for n, m in METHODS.items() if m.nystrom]
IMPL = [n for n, m in METHODS.items() if m.implicit]


def tolerances(m, lo=None, hi=-2.0):
    lo = m.rtol_min if lo is None else max(lo, m.rtol_min)
    return st.fixed_dictionaries(dict(rtol=logu(lo, hi)))


SC_EXPL = ["standard", "G", "S", [0.7, -0.4, 0, 0.9], [0.6, -0.2, 0.0, 0.85], [1.0, 0.0, 0.0, 0.8],
           [0.25, 0.25, 0.25, 0.9]]
SC_IMPL = ["standard", "G", "S", [2.0, -1.0, -1.0, 0.8], [1.0, 0.0, 0.0, 0.7], [0.6, -0.2, 0.0, 0.8]]


@st.composite
def options(draw, m, span=None, sc=True, detect=True, steps=True, jac=True, interp=True,
            vectorized=True, linear=False):
    """JSON-able solver options valid for method m (jac is a tag; see `kwargs`)"""
    o = {}
    some = st.integers(0, 3)
    if interp and m.interp and draw(some) >= 1:
        o[m.interp[0]] = draw(st.sampled_from(list(m.interp[1])))
    if sc and m.kind in ("rk", "rkn", "esdirk") and draw(some) == 0:
        o["sc_params"] = draw(st.sampled_from(SC_IMPL if m.implicit else SC_EXPL))
    if detect and m.detect and draw(some) == 0:
        o["nfev_stiff_detect"] = draw(st.sampled_from([0, 1, 7, 20, 100, 500, 5000, 100000]))
    if m.kind == "multistep" and draw(some) >= 1:
        o["k_max"] = draw(st.integers(1, 12))
    if m.name == "Mu5Nmb" and draw(some) == 0:
        o["scale_embedded"] = draw(st.booleans())
    if m.implicit and jac:
        forms = ["none", "call", "call", "sparse", "list", "pattern", "csr"]
        if linear:
            forms += ["const", "constsparse"]
        o["jac"] = draw(st.sampled_from(forms))
        if draw(some) == 0:
            o["jac_each_step"] = draw(st.booleans())
    if m.kind == "rkc" and linear and draw(st.booleans()):
        o["const_jac"] = True
    if vectorized and draw(some) == 0:
        o["vectorized"] = True
    if steps and draw(some) == 0:
        o["first_frac"] = draw(st.sampled_from([1.0, 0.5, 0.1, 1e-2, 1e-4]))
    if steps and draw(some) == 0:
        o["max_frac"] = draw(st.sampled_from([2.0, 1.0, 0.5, 0.3, 0.1, 0.07]))
    return o


def kwargs(m, o, p, budget=None):
    """translate JSON options into constructor arguments for problem p"""
    kw = {}
    for k, v in o.items():
        if k == "sc_params":
            kw[k] = tuple(v) if isinstance(v, list) else v
        elif k == "first_frac":
            kw["first_step"] = v * abs(p.tf - p.t0)
            if kw["first_step"] > abs(p.tf - p.t0):
                kw["first_step"] = abs(p.tf - p.t0)
        elif k == "max_frac":
            kw["max_step"] = v * abs(p.tf - p.t0)
        elif k == "jac":
            if v == "call":
                kw["jac"] = p.jac
            elif v == "sparse":
                kw["jac"] = lambda t, y: csc_array(p.jac(t, y))
            elif v == "csr":
                kw["jac"] = lambda t, y: csr_array(p.jac(t, y))
            elif v == "list":
                kw["jac"] = lambda t, y: p.jac(t, y).tolist()
            elif v == "const":
                kw["jac"] = np.asarray(p.jac(p.t0, p.y0))
            elif v == "constsparse":
                kw["jac"] = csc_array(p.jac(p.t0, p.y0))
            elif v == "pattern":
                kw["jac_sparsity"] = np.ones((p.n, p.n))
        else:
            kw[k] = v
    return kw


class Watch:
    """Wraps a right-hand side: counts calls, records times, enforces a budget."""
    def __init__(s, fun, budget=300000, record=False):
        s.fun, s.budget, s.calls, s.record, s.times, s.points = fun, budget, 0, record, [], 0

    def __call__(s, t, y):
        s.calls += 1
        if s.calls > s.budget:
            raise Violation(f"no end after {s.budget} evaluations (t={t})")
        if s.record:
            s.times.append(float(t))
        y = np.asarray(y)
        s.points += 1 if y.ndim == 1 else y.shape[1]
        return s.fun(t, y)


def require_ok(m, ok, message, t=None):
    """the solve must have succeeded. SSV2stab's own spectral radius estimate is
    documented for (nearly) real spectra; its honest refusal is judged in C19."""
    if ok:
        return
    if m.kind == "rkc" and "spectral radius" in str(message):
        raise Inconclusive("spectral radius estimate did not converge")
    require(False, "failed: %s (at t=%s)", message, t)


class Trace:
    """what a solve did: times, states, interpolants, status"""


def drive(m, p, rtol, atol, o, dense=True, fun=None, budget=300000, record=False,
          t_bound=None, max_steps=200000, copy=True, kw=None):
    """Step a solver of method m through problem p."""
    w = Watch(fun or p.fun, budget, record)
    kws = kwargs(m, o, p)
    kws.update(kw or {})
    tr = Trace()
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        s = m.cls(w, p.t0, p.y0, p.tf if t_bound is None else t_bound, rtol=rtol, atol=atol, **kws)
        tr.calls0 = w.calls
        tr.t, tr.y, tr.sol, tr.message = [s.t], [s.y.copy()], [], None
        k = 0
        while s.status == "running":
            k += 1
            if k > max_steps:
                raise Violation(f"no end after {max_steps} steps")
            msg = s.step()
            if s.status == "failed":
                tr.message = msg
                break
            if dense:
                tr.sol.append(s.dense_output())
            tr.t.append(s.t)
            tr.y.append(s.y.copy() if copy else s.y)
    tr.warnings = [x for x in wl]
    tr.solver, tr.status, tr.w = s, s.status, w
    tr.t = np.array(tr.t)
    tr.y = np.array(tr.y).T
    return tr


@st.composite
def method_problem(draw, names=NAMES, problems=None, complex_=True, **kw):
    """(method name, problem spec): second-order problems for Nystrom methods,
    and sometimes for the others too"""
    from . import problems as pr
    name = draw(st.sampled_from(names))
    m = METHODS[name]
    cx = complex_ and m.complex and draw(st.integers(0, 4)) == 0
    if m.nystrom:
        spec = draw(pr.second_order(strict=m.strict, complex_=cx, **kw))
    elif draw(st.integers(0, 5)) == 0 and m.kind != "rkc":
        spec = draw(pr.second_order(complex_=cx and not m.implicit, **kw))
    else:
        spec = draw(pr.first_order(complex_=cx, **kw))
    return name, spec


REAL_KINDS = ("lin", "logistic", "cubic", "tdep", "forced", "sine", "chain")


@st.composite
def accuracy_case(draw, names=NAMES, hi=-3.0, opts=None, **kw):
    """(method, problem, options, tolerances) for which tolerance-level accuracy
    can be expected"""
    name, spec = draw(method_problem(names, **kw))
    m = METHODS[name]
    if m.kind == "rkc" and spec["kind"] == "fo":
        # documented for (nearly) real spectra only
        mods = [k for k in spec["mods"] if k["kind"] in REAL_KINDS]
        if not mods:
            mods = [dict(kind="lin", k=1.0, z=0.7)]
        from .problems import KINDS
        n = sum(KINDS[k["kind"]].d for k in mods)
        spec = dict(spec, mods=mods, ang=spec["ang"][:n - 1])
    o = draw(options(m, **(opts or {})))
    if o.get("first_frac", 0) > 0.1:
        o["first_frac"] = 0.1
    lo = m.rtol_min
    if m.kind == "multistep" and o.get("k_max", 12) < 5:
        lo = {1: -4, 2: -5, 3: -6, 4: -7}[o["k_max"]]
    return dict(method=name, spec=spec, rtol=draw(logu(lo, max(lo, hi))), opts=o,
                af=draw(st.sampled_from([1.0, 1.0, 0.1, 1e-3, "vec"])))


def tols(c, p):
    """rtol, atol and the tolerance level (per component) of an accuracy case"""
    ymax = np.max(np.abs(p.exact(np.linspace(p.t0, p.tf, 30))), axis=1)
    if c["af"] == "vec":
        atol = c["rtol"] * np.maximum(ymax, 1e-3 * ymax.max()) * (1 + 0.1 * np.arange(p.n))
    else:
        atol = c["rtol"] * c["af"] * ymax.max()
    return c["rtol"], atol, float(np.max(c["rtol"] * ymax.max() + atol))


# Factors between error and tolerance level (times the problem's own amplification)
# that are not exceeded: about 6 times the largest ratio seen in 5000 random
# problems on the present code, at the computed points and in between.
ACC = dict(BS5=(60, 130), CK5=(60, 85), Ts5=(90, 110), Me4=(300, 300), Pr7=(6, 45),
           Pr8=(1.5, 55), Pr9=(1, 4), CFMR7osc=(4, 40), CKdisc=(70, 100), SWAG=(60, 65),
           SSV2stab=(120, 120), Fi4N=(22, 22), Fi5N=(10, 19), Mu5Nmb=(0.4, 0.42),
           MR6NN=(0.1, 0.3), TRBDF2=(800, 800), TRX2=(650, 650), KC3I=(120, 180),
           KC4I=(280, 280), KC4Ia=(580, 580), Kv3I=(22, 22))


def acc_bound(name, rtol, dense=False):
    """loose tolerances are not asymptotic: allow more there"""
    return ACC[name][dense] * (1 if rtol <= 1e-4 else 5 if rtol <= 1e-3 else 30)
