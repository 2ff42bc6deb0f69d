"""C16: implicit solvers stay stable, accurate and cheap on stiff problems"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from scipy.sparse import SparseEfficiencyWarning, csc_array

from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, num
from pbt.methods import IMPL, METHODS, Watch, acc_bound
from pbt.problems import build, module, rotation, stiff_mods

RULE = ("a case is (implicit method, stiff problem with closed-form solution, tolerance, Jacobian form); "
        "non-trivial when the largest rate exceeds 1000 times the reciprocal interval ('stiff') or, for single "
        "steps, |h*lambda| > 1")
FORMS = ["none", "call", "sparse", "each"]


def jac_kw(form, p):
    if form == "none":
        return {}
    if form == "sparse":
        return dict(jac=lambda t, y: csc_array(p.jac(t, y)))
    return dict(jac=p.jac, jac_each_step=form == "each")


def solve(m, p, rtol, atol, kw, limit=200000):
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        r = solve_ivp(Watch(p.fun, limit), (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol, **kw)
    wl = [w for w in wl if not issubclass(w.category, SparseEfficiencyWarning)]
    require(r.success, "failed: %s (at t=%s)", r.message, r.t[-1])
    require(not wl, "warning: %s", wl[0].message if wl else "")
    return r


# ------------------------------------------------ smooth solution, any stiffness ---
@st.composite
def smooth_case(draw):
    name = draw(st.sampled_from(IMPL))
    sm = draw(stiff_mods(0, 9))
    if sm["kind"] == "prothero" and draw(st.booleans()):
        sm["off"] = draw(num(-1, 1, 2))
    mods = [sm] + draw(st.lists(module(("lin", "logistic", "forced", "sine", "tdep", "rot")), max_size=2))
    n = len(mods) + (sm["kind"] == "kaps") + sum(x["kind"] == "rot" for x in mods)
    ang = draw(st.lists(num(-3.1, 3.1, 2), min_size=n - 1, max_size=n - 1)) if n > 1 and draw(st.booleans()) else []
    spec = dict(kind="fo", mods=mods, ang=ang, span=draw(num(0.5, 5)), dir=draw(st.sampled_from([1, -1])),
                c=draw(st.one_of(st.just(0.0), num(-3, 3, 2))), scale=draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])))
    return dict(method=name, spec=spec, rtol=draw(logu(max(METHODS[name].rtol_min, -6), -3)),
                jac=draw(st.sampled_from(FORMS)), interp=draw(st.booleans()))


def smooth(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    ymax = np.max(np.abs(p.exact(np.linspace(p.t0, p.tf, 30))))
    rtol, atol = c["rtol"], c["rtol"] * ymax
    tol = 2 * rtol * ymax
    kw = jac_kw(c["jac"], p)
    r = solve(m, p, rtol, atol, dict(kw, dense_output=c["interp"]))
    bound = 1.5 * acc_bound(m.name, rtol) * tol * p.amp
    e = np.max(np.abs(r.y - p.exact(r.t)))
    require(e <= bound, "error %.3g, allowed %.3g (tolerance %.3g)", e, bound, tol)
    lam = c["spec"]["mods"][0]["lam"]
    # the same problem with mild stiffness, for the work
    base = []
    for mild in (3.0, 30.0):
        mods = [dict(c["spec"]["mods"][0], lam=mild)] + c["spec"]["mods"][1:]
        q = build(dict(c["spec"], mods=mods))
        base.append(solve(m, q, rtol, atol, jac_kw(c["jac"], q)))
    n0 = max(b.t.size - 1 for b in base)
    n = r.t.size - 1
    require(n <= 4 * n0 + 30, "%d steps at stiffness %.3g, but only %d at stiffness 3 and 30", n, lam, n0)
    f0 = max(b.nfev for b in base)
    require(r.nfev <= 5 * f0 + 400, "%d evaluations at stiffness %.3g, but only %d at stiffness 3 and 30",
            r.nfev, lam, f0)
    return [m.name, c["spec"]["mods"][0]["kind"], "lam1e%d" % int(np.log10(lam))] \
        if lam * c["spec"]["span"] > 1e3 else []


# ------------------------------------- linear systems with modes of all scales ---
@st.composite
def modes_case(draw):
    name = draw(st.sampled_from(IMPL))
    modes = draw(st.lists(st.one_of(
        st.tuples(logu(-1, 6), st.just(0.0)),
        st.tuples(logu(-0.5, 6), num(5, 75, 0))), min_size=1, max_size=4))
    n = sum(1 + (a > 0) for _, a in modes)
    return dict(method=name, modes=[list(x) for x in modes], y0=draw(st.lists(num(-1, 1, 2), min_size=n, max_size=n)),
                ang=draw(st.lists(num(-3.1, 3.1, 2), min_size=n - 1, max_size=n - 1)),
                rtol=draw(logu(max(METHODS[name].rtol_min, -6), -3)), span=draw(num(0.5, 10)),
                dir=draw(st.sampled_from([1, -1])), jac=draw(st.sampled_from(FORMS + ["const", "constsparse"])))


class Modes:
    def __init__(s, c):
        s.d = c["dir"]
        n = len(c["y0"])
        s.T = rotation(n, c["ang"]) if n > 1 else np.eye(1)
        s.B, i = np.zeros((n, n)), 0
        s.blocks = []
        for rho, a in c["modes"]:
            if a == 0:
                s.B[i, i] = -rho
                s.blocks.append((i, -rho, 0.0))
                i += 1
            else:
                al, om = rho * np.cos(np.radians(a)), rho * np.sin(np.radians(a))
                s.B[i:i + 2, i:i + 2] = [[-al, -om], [om, -al]]
                s.blocks.append((i, -al, om))
                i += 2
        s.A = s.d * s.T @ s.B @ s.T.T
        s.z0 = np.array(c["y0"])
        s.y0 = s.T @ s.z0
        s.t0, s.tf = 0.0, s.d * c["span"]

    def fun(s, t, y): return s.A @ y
    def jac(s, t, y): return s.A

    def exact(s, t):
        tau = np.abs(np.asarray(t))
        Z = np.zeros((s.z0.size,) + tau.shape)
        for i, re, om in s.blocks:
            e = np.exp(re * tau)
            if om == 0:
                Z[i] = e * s.z0[i]
            else:
                co, si = np.cos(om * tau), np.sin(om * tau)
                Z[i] = e * (co * s.z0[i] - si * s.z0[i + 1])
                Z[i + 1] = e * (si * s.z0[i] + co * s.z0[i + 1])
        return s.T @ Z


def modes(c):
    m, p = METHODS[c["method"]], Modes(c)
    rtol = c["rtol"]
    ymax = max(np.max(np.abs(p.y0)), 1e-3)
    atol, tol = rtol * ymax, 2 * rtol * ymax
    kw = dict(jac=p.A) if c["jac"] == "const" else dict(jac=csc_array(p.A)) if c["jac"] == "constsparse" \
        else jac_kw(c["jac"], p)
    r = solve(m, p, rtol, atol, kw)
    e = np.max(np.abs(r.y - p.exact(r.t)))
    bound = 1.5 * acc_bound(m.name, rtol) * tol
    require(e <= bound, "error %.3g, allowed %.3g (tolerance %.3g)", e, bound, tol)
    # resolving a mode until it has decayed takes a number of steps that does not depend on its rate
    each = 40 + 12 * rtol ** (-1 / 3 if m.order == 2 else -1 / m.order)
    budget = len(c["modes"]) * each
    require(r.t.size - 1 <= budget, "%d steps for %d decaying modes (budget %d)", r.t.size - 1,
            len(c["modes"]), budget)
    top = max(rho for rho, _ in c["modes"])
    return [m.name] if top * c["span"] > 1e3 else []


# ------------------------------------------------------- one step, any h*lambda ---
@st.composite
def step_case(draw):
    return dict(method=draw(st.sampled_from(IMPL)), rho=draw(logu(-2, 9)), arg=draw(num(90, 270, 1)),
                h=draw(logu(-2, 3)), jac=draw(st.sampled_from(["none", "call", "const", "each", "sparse"])),
                real=draw(st.booleans()), dir=draw(st.sampled_from([1, -1])), phase=draw(num(-3.1, 3.1, 2)))


def stability(cls, z):
    """R(z) from the table: y1 = y0 + z b^T (I - z A)^-1 1 y0"""
    A, B = np.array(cls.A, float), np.array(cls.B, float)
    n = B.size
    return 1 + z * B @ np.linalg.solve(np.eye(n) - z * A, np.ones(n))


def step(c):
    m = METHODS[c["method"]]
    lam = -c["rho"] if c["real"] else c["rho"] * np.exp(1j * np.radians(c["arg"]))
    lam = lam / c["h"] * c["dir"]
    h = c["h"]
    y0 = np.array([1.0 if c["real"] else np.exp(1j * c["phase"])])
    J = np.array([[lam]])
    kw = dict(const=dict(jac=J), call=dict(jac=lambda t, y: J), each=dict(jac=lambda t, y: J, jac_each_step=True),
              sparse=dict(jac=lambda t, y: csc_array(J)), none={})[c["jac"]]
    # tolerances under which any step is acceptable, but the stage equations are solved well
    atol = 1e5 * max(1.0, c["rho"] ** 2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = m.cls(lambda t, y: lam * y, 0.0, y0, c["dir"] * 5 * h, first_step=h, rtol=1e-3, atol=atol, **kw)
        s.step()
    require(s.status != "failed", "a step failed")
    if abs(abs(s.t) - h) > 1e-9 * h:
        return []
    z = c["rho"] * (-1 if c["real"] else np.exp(1j * np.radians(c["arg"])))
    R = stability(m.cls, z)
    q = s.y[0] / y0[0]
    # Newton solves a linear problem in one iteration, up to the Jacobian's own error
    dev = (1e-10 if c["jac"] != "none" else 1e-6) + 1e-14 * abs(z)
    require(abs(q - R) <= dev * max(1, abs(z) if abs(z) < 10 else 10), "amplification factor %s, table gives %s "
            "(h*lambda=%s)", q, R, z)
    require(abs(q) <= 1 + 10 * dev, "a decaying mode is amplified by %s (h*lambda=%s)", abs(q), z)
    if m.name != "TRX2" and abs(z) > 1e3:
        require(abs(q) <= 100 / abs(z) + 10 * dev, "L-stable method leaves %.3g of a mode (h*lambda=%s)", abs(q), z)
    return [m.name, "z1e%d" % int(np.log10(c["rho"]))] if c["rho"] > 1 else []


SUBS = [Sub("smooth", smooth_case(), smooth, 1200, 30000),
        Sub("modes", modes_case(), modes, 1500, 40000),
        Sub("step", step_case(), step, 2500, 60000)]
