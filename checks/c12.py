"""C12: impossible problems end with an honest failure"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from pbt.core import Inconclusive, Sub, Violation, require
from pbt.gen import logu, num
from pbt.methods import METHODS, NAMES, Watch, kwargs, method_problem, options
from pbt.problems import build, rotation

RULE = ("a case is (method, problem that cannot be integrated to its end, options); non-trivial when the "
        "solve had taken at least one step before it failed, or had to fail at the start")
BUDGET = 400000


# ------------------------------------------------------------------ blow-up ---
class Blow:
    """A component that becomes infinite at time Ts, next to regular ones, mixed by
    a rotation (real: a complex path may go around the singularity):  square z/(1-kzt), tangent, logarithm -log(q-kt), cube"""

    def __init__(s, c):
        m = METHODS[c["method"]]
        s.second = m.nystrom
        s.k, s.kind, s.dir, s.t0 = c["k"], c["kind"], c["dir"], c["t0"]
        z = c["z"]
        s.z = z
        s.Ts = {"square": 1 / (s.k * z), "cube": 1 / (2 * s.k * z * z),
                "tan": (np.pi / 2 - np.arctan(z)) / s.k, "log": np.exp(-z) / s.k}[s.kind]
        s.reg = np.array(c["reg"])
        s.n1 = 1 + s.reg.size
        s.n = s.n1 * (2 if s.second else 1)
        s.T = rotation(s.n1, c["ang"][:s.n1 - 1]) if s.n1 > 1 else np.eye(1)
        s.al = 0.0 if m.strict else c["al"]
        s.tf = s.t0 + s.dir * s.Ts * (1 + c["beyond"])
        s.phase = np.exp(1j * c["phase"]) if c["phase"] and not s.second else 1.0
        s.y0 = s.exact(s.t0)

    def g(s, z):
        k = s.k
        return {"square": lambda: k * z * z, "cube": lambda: k * z ** 3,
                "tan": lambda: k * (1 + z * z), "log": lambda: k * np.exp(z)}[s.kind]()

    def dg(s, z):
        k = s.k
        return {"square": lambda: 2 * k * z, "cube": lambda: 3 * k * z ** 2,
                "tan": lambda: 2 * k * z, "log": lambda: k * np.exp(z)}[s.kind]()

    def flow(s, tau):
        z, k = s.z, s.k
        return {"square": lambda: z / (1 - k * z * tau), "cube": lambda: z / np.sqrt(1 - 2 * k * z * z * tau),
                "tan": lambda: np.tan(np.arctan(z) + k * tau),
                "log": lambda: -np.log(np.exp(-z) - k * tau)}[s.kind]()

    def exact(s, t):
        tau = s.dir * (np.asarray(t) - s.t0)
        z = s.flow(tau)
        w = s.reg[:, None] * np.atleast_1d(tau)[None]
        dw = -s.reg[:, None] * np.sin(w)
        w = np.cos(w) if s.second else np.exp(-w)
        Z = np.concatenate((np.atleast_1d(z)[None], w))
        x = s.T @ Z
        if s.second:
            V = np.concatenate((s.g(Z[:1]), dw))
            x = np.concatenate((x, s.dir * (s.T @ V)))
        x = x * s.phase
        return x if np.ndim(t) else x[:, 0]

    def fun(s, t, y):
        with np.errstate(all="ignore"):
            y = np.asarray(y)
            if y.ndim == 2:
                return np.array([s.fun(t, v) for v in y.T]).T
            y = y / s.phase
            Z = s.T.T @ y[:s.n1]
            if not s.second:
                f = np.concatenate((s.g(Z[:1]), -s.reg * Z[1:]))
                return s.dir * s.phase * (s.T @ f)
            V = s.dir * (s.T.T @ y[s.n1:])
            g = s.g(Z[:1])
            a = s.dg(Z[:1]) * (g if s.al == 0 else V[:1])
            A = np.concatenate((a, -s.reg ** 2 * Z[1:]))
            return np.concatenate((y[s.n1:], s.T @ A))

    def jac(s, t, y):
        with np.errstate(all="ignore"):
            Z = s.T.T @ (y / s.phase)
            D = np.diag(np.concatenate((s.dg(Z[:1]), -s.reg)))
            return s.dir * (s.T @ D @ s.T.T) * (1 if np.isscalar(s.phase) and s.phase == 1 else 1 + 0j)


@st.composite
def blow_case(draw):
    name = draw(st.sampled_from(NAMES))
    m = METHODS[name]
    n = draw(st.integers(0, 3))
    c = dict(method=name, kind=draw(st.sampled_from(["square", "cube", "tan", "log"])),
             k=draw(logu(-2, 2)), z=draw(num(0.3, 2)), reg=draw(st.lists(num(0, 1), min_size=n, max_size=n)),
             ang=draw(st.lists(num(-3, 3, 2), min_size=n, max_size=n)),
             dir=draw(st.sampled_from([1, -1])), t0=draw(st.sampled_from([0.0, 0.0, 1.0, -2.5, 100.0])),
             beyond=draw(st.sampled_from([0.2, 0.5, 1.0, 10.0, 1000.0])),
             al=draw(st.sampled_from([0.0, 1.0])), phase=0.0)
    c["rtol"] = draw(logu(max(m.rtol_min, -7), -3))
    c["opts"] = draw(options(m, steps=False))
    c["via"] = draw(st.sampled_from(["class", "ivp"]))
    return c


FAILED = (ValueError, RuntimeError, AssertionError, np.linalg.LinAlgError)


def blow(c):
    m, p = METHODS[c["method"]], Blow(c)
    kw = kwargs(m, c["opts"], p)
    if m.kind == "rkc":
        kw.pop("const_jac", None)

        def rho(t, y):
            with np.errstate(all="ignore"):
                return float(min(np.linalg.norm(np.nan_to_num(p.jac(t, y))) + 1e-3, 1e200))
        kw["rho_jac"] = rho
    rtol = c["rtol"]
    w = Watch(p.fun, BUDGET)
    msg, raised = None, False
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        atol = rtol * np.max(np.abs(p.y0))
        if c["via"] == "ivp":
            try:
                r = solve_ivp(w, (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol, **kw)
            except FAILED as e:
                if not m.implicit or isinstance(e, Violation):
                    raise
                return []
            require(not r.success and r.status == -1, "success reported past a singularity: %s", r.message)
            t, y, msg = r.t, r.y, r.message
        else:
            s = m.cls(w, p.t0, p.y0, p.tf, rtol=rtol, atol=atol, **kw)
            t, y = [s.t], [s.y.copy()]
            while s.status == "running":
                try:
                    msg = s.step()
                except FAILED as e:
                    if not m.implicit or isinstance(e, Violation):
                        raise
                    raised = True
                    break
                if s.status == "failed":
                    break
                t.append(s.t)
                y.append(s.y.copy())
                require(len(t) < 100000, "no end after 100000 steps")
            require(raised or s.status == "failed", "status %r past a singularity", s.status)
            t, y = np.array(t), np.array(y).T
    require(raised or (isinstance(msg, str) and msg), "failure without a message")
    require(np.all(np.isfinite(y)), "a state that is not finite is returned")
    tau = p.dir * (t - p.t0)
    require(np.all(np.diff(t) * p.dir > 0), "times are not monotone")
    # the computed solution has its own singular time, off by about tol
    require(tau[-1] <= p.Ts * 1.05, "went on to %.3g, beyond the singularity at %.3g", tau[-1], p.Ts)
    # an overflow inside a trial step ends a solve of the explicit methods
    require(tau[-1] >= p.Ts * 0.7 or not msg or "verflow" in msg, "gave up at %.3g, the singularity is at %.3g", tau[-1], p.Ts)
    ok = tau < 0.8 * p.Ts
    ex = p.exact(t[ok])
    e = np.abs(y[:, ok] - ex).max(axis=0) / (np.abs(ex).max(axis=0))
    limit = 3000 if m.order < 4 else 400
    require(np.all(e <= limit * rtol), "error %.3g before the singularity (rtol %.3g)", e.max(), rtol)
    return [m.name, c["kind"], c["via"]] + ["backward"] * (p.dir < 0)


# ---------------------------------------------------------------- nan and inf ---
@st.composite
def bad_case(draw):
    name, spec = draw(method_problem(max_mods=2, span=(0.5, 3.0)))
    m = METHODS[name]
    c = dict(method=name, spec=spec, rtol=draw(logu(max(m.rtol_min, -6), -2)))
    c["opts"] = draw(options(m, steps=False))
    c["bad"] = draw(st.sampled_from(["nan", "inf", "-inf", "mix"]))
    c["where"] = draw(st.sampled_from(["time", "time", "start", "all", "state"]))
    c["at"] = draw(num(0.05, 0.95))
    c["only"] = draw(st.sampled_from([None, 0, -1]))
    c["shift"] = draw(st.sampled_from([0, "zero", "zero", 50.0]))
    c["via"] = "class" if c["where"] == "state" else draw(st.sampled_from(["class", "ivp"]))
    return c


def bad(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    sh = c["shift"]
    sh = -p.t0 if sh == "zero" else sh
    t0, tf = p.t0 + sh, p.tf + sh
    d = 1 if tf > t0 else -1
    at = t0 + c["at"] * (tf - t0)
    v = dict(nan=np.nan, inf=np.inf, mix=np.inf).get(c["bad"], -np.inf)
    half = p.n // 2 if m.nystrom else 0
    yl = np.abs(p.exact(p.t0 + c["at"] * (p.tf - p.t0)) - p.y0).max()

    def hit(t, y):
        if c["where"] == "time":
            return (t - at) * d > 0
        if c["where"] == "start":
            return (t - t0) * d > 0
        if c["where"] == "state":
            return np.abs(y - p.y0).max() > yl
        return True
    reach = [False]

    def fun(t, y):
        y = np.asarray(y)
        if y.ndim == 2:
            return np.array([fun(t, x) for x in y.T]).T
        f = np.array(p.fun(t - sh, y))
        if hit(t, y):
            reach[0] = True
            with np.errstate(all="ignore"):
                add = np.full(f.size - half, v)
                if c["bad"] == "mix":
                    add[1::2] *= -1
                if c["only"] is not None:
                    add = np.where(np.arange(add.size) == c["only"] % add.size, v, 0.0)
                f[half:] = f[half:] + add
        return f
    p.jac0 = p.jac

    class Q:
        n, y0 = p.n, p.y0

        def jac(t, y): return p.jac0(t - sh, y)
    Q.t0, Q.tf = t0, tf
    kw = kwargs(m, c["opts"], Q)
    if m.kind == "rkc":
        kw.pop("const_jac", None)
        kw["rho_jac"] = lambda t, y: float(np.nan_to_num(np.linalg.norm(Q.jac(t, y)), nan=1.0, posinf=1.0)) + 1e-3
    rtol = c["rtol"]
    atol = rtol * np.max(np.abs(p.y0)) + 1e-12
    # close to an outlier in state space, moving on may get lost in rounding
    w = Watch(fun, BUDGET if c["where"] != "state" else 10 ** 9)
    msg, raised, k = None, False, 0
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            if c["via"] == "ivp":
                r = solve_ivp(w, (t0, tf), p.y0, method=m.cls, rtol=rtol, atol=atol, **kw)
                t, y, msg, ok = r.t, r.y, r.message, r.success
            else:
                t, y, ok = [t0], [np.array(p.y0)], None
                s = m.cls(w, t0, p.y0, tf, rtol=rtol, atol=atol, **kw)
                while s.status == "running":
                    msg = s.step()
                    if s.status == "failed":
                        break
                    k += 1
                    if k > 2000 and c["where"] == "state":
                        raise Inconclusive("rounding keeps the state from moving")
                    t.append(s.t)
                    y.append(s.y.copy())
                ok = s.status == "finished"
                t, y = np.array(t), np.array(y).T
        except FAILED as e:
            if isinstance(e, Violation):
                raise
            # refused: the linear algebra of the implicit methods and the analysis of
            # the right-hand side at the start (form of [x, v]) reject nan and inf
            if m.implicit or m.nystrom and c["where"] == "all":
                if c["via"] == "ivp" or len(t) == 1:
                    return [m.name, "refused"]
                t, y = np.array(t), np.array(y).T
                raised, ok = True, False
            else:
                raise
    if not reach[0]:
        return []
    require(np.all(np.isfinite(y)), "a state that is not finite is returned")
    tau = d * (t - t0)
    require(np.all(np.diff(t) * d > 0), "times are not monotone")
    if c["where"] == "state":
        # an outlier of a rejected step may have been survived
        if ok:
            return []
    else:
        end = dict(time=c["at"], start=0, all=0)[c["where"]] * abs(tf - t0)
        require(not ok, "success reported although fun is not finite from %.3g on", end)
        lim = end + 1e-9 * abs(tf - t0) + 1e-12 * abs(t0)
        require(tau[-1] <= lim, "went on to %.3g, fun is not finite from %.3g on", tau[-1], end)
    require(raised or (isinstance(msg, str) and msg), "failure without a message")
    good = tau <= c["at"] * abs(tf - t0) * (1 + 1e-12)
    if c["where"] in ("time",) and good.sum() > 1:
        ex = p.exact(t[good] - sh)
        e = np.abs(y[:, good] - ex).max()
        tol = (rtol * np.abs(ex).max() + atol) * p.amp
        require(e <= 4000 * tol, "error %.3g before fun fails (tolerance %.3g)", e, tol)
    return [m.name, c["where"], c["bad"]]


SUBS = [Sub("blowup", blow_case(), blow, 1400, 60000),
        Sub("badrhs", bad_case(), bad, 2200, 80000)]
