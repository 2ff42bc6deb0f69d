"""C29: the automatic first step"""
import warnings

import extensisq as ex
import numpy as np
from hypothesis import strategies as st

from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, num
from pbt.methods import FIRST, METHODS, NAMES, Watch, acc_bound, accuracy_case, kwargs, require_ok
from pbt.problems import build

RULE = ("a case is a problem with closed-form solution stretched to a generated time scale and state scale, a start time, "
        "a distance to the end of the interval, a method and a tolerance; non-trivial when the first step was compared with "
        "the limits and with the true solution")


class Stretched:
    """problem with time t0 + s (tau - tau0), state c z (velocities c/s z)"""
    def __init__(s, p, c):
        s.p, s.s, s.n, s.t0 = p, c["time"], p.n, c["start"] * c["time"]
        s.f = np.full(p.n, c["state"])
        if p.second:
            s.f[p.n // 2:] /= s.s
        s.d = 1 if p.tf > p.t0 else -1
        s.L = abs(p.tf - p.t0) * s.s
        s.y0 = s.f * p.y0
        s.roll = 0

    def shift(s, k):
        """the same with the components in another order"""
        s.roll = k
        s.f, s.y0 = np.roll(s.f, k), np.roll(s.y0, k)

    def tau(s, t): return s.p.t0 + (t - s.t0) / s.s
    def col(s, y): return s.f if np.ndim(y) == 1 else s.f[:, None]
    def fun(s, t, y):
        z = y / s.col(y)
        return np.roll(s.p.fun(s.tau(t), np.roll(z, -s.roll, 0)), s.roll, 0) * (s.col(y) / s.s)

    def jac(s, t, y):
        J = s.p.jac(s.tau(t), np.roll(y / s.f, -s.roll))
        return np.roll(J, s.roll, (0, 1)) * np.outer(s.f, 1 / s.f) / s.s

    def exact(s, t): return s.f * s.p.exact(s.tau(t))


@st.composite
def case(draw, names=NAMES, **kw):
    c = draw(accuracy_case(names, hi=-2.0, opts=dict(steps=False), **kw))
    # powers of two: the derivative of the position stays exactly the velocity
    c["time"] = 2.0 ** draw(st.one_of(st.just(0), st.integers(-20, 20)))
    c["state"] = 2.0 ** draw(st.one_of(st.just(0), st.integers(-20, 20)))
    c["start"] = draw(st.one_of(st.just(0.0), num(-10, 10), num(-1000, 1000)))
    c["far"] = draw(st.one_of(st.just(1.0), logu(-6, 0), logu(0, 9), st.just("inf")))
    c["max"] = draw(st.one_of(st.none(), st.none(), logu(-6, 0)))
    return c


def run(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    q = Stretched(p, c)
    Y = np.abs(p.exact(np.linspace(p.t0, p.tf, 30)))
    ymax = np.max(Y, axis=1)
    if c["af"] == "vec":
        atol = q.f * c["rtol"] * np.maximum(ymax, 1e-3 * ymax.max()) * (1 + 0.1 * np.arange(p.n))
    else:
        atol = q.f * c["rtol"] * c["af"] * ymax.max()
    if c.get("roll"):
        q.shift(c["roll"])
        atol = np.roll(atol, c["roll"]) if np.ndim(atol) else atol
    L = np.inf if c["far"] == "inf" else q.L * c["far"]
    kw = kwargs(m, c["opts"], p)
    if "jac" in kw:
        kw["jac"] = q.jac
    if m.kind == "rkc":
        kw["rho_jac"] = lambda t, y: float(np.linalg.norm(q.jac(t, y))) + 1e-3 / q.s
    hmax = np.inf
    if c["max"]:
        hmax = kw["max_step"] = c["max"] * q.L
    w = Watch(q.fun, 20000, record=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = m.cls(w, q.t0, q.y0, q.t0 + q.d * L, rtol=c["rtol"], atol=atol, **kw)
        k0 = w.calls
        msg = s.step()
    return m, p, q, s, msg, w, k0, L, hmax, atol


def limits(m, s, t0, d, L, hmax, t1):
    h = (t1 - t0) * d
    r = 4e-16 * (abs(t1) + abs(t0))
    require(np.isfinite(t1) and h > 0, "first step from %r to %r", t0, t1)
    require(h <= min(L, hmax) * (1 + 1e-12) + r, "first step %r, interval %r, max_step %r", h, L, hmax)
    return h


def inflection(c, s):
    """nonlinear problems can look linear (or still) at the start, for example at an inflection: a first
    step of unlimited length may then overflow"""
    return c["far"] == "inf" and s.status == "failed" and any(
        k["kind"] not in ("lin", "rot", "forced", "tdep", "chain", "osc", "mag") for k in c["spec"]["mods"])


def failures(m): return int(ex.NFS) + (int(ex.NFI) if m.implicit else 0)


# evaluations before the first step: those of the initial state, of h_start and of a Jacobian
BEFORE = dict(rk=5, ckdisc=5, multistep=5, rkc=2, rkn=7)


def effort(m, n, k0, fails, most_fails=14):
    most = BEFORE.get(m.kind, 12 + 2 * n)
    require(k0 <= most, "%d evaluations before the first step, allowed %d", k0, most)
    require(fails <= most_fails, "first step accepted after %d failures", fails)


def first(c):
    m, p, q, s, msg, w, k0, L, hmax, atol = run(c)
    if inflection(c, s):
        raise Inconclusive("overflow in an unlimited first step")
    require_ok(m, s.status != "failed", msg, s.t)
    t1, y1 = s.t, s.y.copy()
    h = limits(m, s, q.t0, q.d, L, hmax, t1)
    effort(m, p.n, k0, failures(m), 6 if L <= q.L else 10)
    if h > q.L:
        return []       # past the times for which the problem is defined
    with np.errstate(all="ignore"):
        err = np.max(np.abs(y1 - q.exact(t1)) / (atol + c["rtol"] * np.abs(y1) + 1e-12 * q.f * np.max(np.abs(p.y0))))
    most = 3 + 3 * acc_bound(c["method"], c["rtol"])
    require(err <= most, "error of the first step is %.3g times the tolerance, allowed %.3g", err, most)
    tags = [c["method"], "rejected" if int(ex.NFS) else "accepted", "infinite" if L == np.inf else "far" if L > q.L else ""]
    if not (c["time"] == c["state"] == 1 and abs(c["start"]) < 100 and c["far"] == 1 and not c["max"]):
        return tags
    # not needlessly small: compared with the steps that follow
    most = h
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(10):
            if s.status != "running":
                break
            old = s.t
            msg = s.step()
            require_ok(m, s.status != "failed", msg, s.t)
            most = max(most, abs(s.t - old))
    require(most <= 3000 * h, "first step %.3g is followed by a step of %.3g", h, most)
    return tags + ["plain"]


# ---------------------------------------------------------------- time scale
@st.composite
def scaling_case(draw):
    """powers of two: the same roundings occur in both time scales"""
    c = draw(case(names=FIRST).filter(lambda c: c["spec"]["kind"] == "fo"))
    c["time"] = 2.0 ** draw(st.integers(-20, 20))
    if c["start"] == 0 and c["far"] == "inf":
        c["start"] = 1.0
    return c


def scaling(c):
    h = []
    for time in (1.0, c["time"]):
        m, p, q, s, msg, w, k0, L, hmax, atol = run(dict(c, time=time))
        if inflection(c, s):
            raise Inconclusive("overflow in an unlimited first step")
        require_ok(m, s.status != "failed", msg, s.t)
        if L == np.inf and not np.any(p.fun(p.t0, p.y0)) and all(k["kind"] == "lin" for k in c["spec"]["mods"]):
            return []           # nothing ever happens: nothing to relate a step to
        h.append(((s.t - q.t0) / q.s, w.calls, int(ex.NFS)))
    require(abs(h[0][0] - h[1][0]) <= 1e-6 * abs(h[0][0]) and h[0][1:] == h[1][1:], "first step (scaled), evaluations and failures "
            "are %s, in another unit of time %s", h[0], h[1])
    m, p, q, s, msg, w, k0, L, hmax, atol = run(dict(c, time=1.0, roll=1))
    if w.calls == h[0][1]:
        one = s.t - q.t0
        require(abs(one - h[0][0]) <= 1e-6 * abs(one), "first step is %r, with the components in another order %r", h[0][0], one)
    return [c["method"]] + ["order"] * (p.n > 1) if c["time"] != 1 else []


# ---------------------------------------------------------------- start at rest
@st.composite
def rest_case(draw):
    name = draw(st.sampled_from(NAMES))
    m = METHODS[name]
    return dict(method=name, n=draw(st.integers(1, 3)), q=draw(st.integers(0, 2)), k=draw(logu(-3, 3)), y0=draw(st.sampled_from([0.0, 1.0, -3.0])),
                t0=draw(st.one_of(st.just(0.0), num(-5, 5))), d=draw(st.sampled_from([1, -1])),
                L=draw(st.one_of(st.just("inf"), logu(-3, 3))), rtol=draw(logu(max(m.rtol_min, -8), -2)), atol=draw(logu(-8, -2)),
                max=draw(st.one_of(st.none(), logu(-2, 0))))


def rest(c):
    """the derivative is zero at the start: forever (q = 0), or it grows as a power of time"""
    m, n, q, t0, d = METHODS[c["method"]], c["n"], c["q"], c["t0"], c["d"]
    L = np.inf if c["L"] == "inf" else c["L"]
    if m.kind == "rkc" and q == 0:
        L = min(L, 1e3)     # takes steps (and stages) without limit where nothing happens
    k = c["k"] * (1 + np.arange(n)) * (q > 0)

    def force(t): return k * (d * (t - t0)) ** max(q, 1)

    def fun(t, y):
        g = force(t)
        if m.nystrom:
            g = np.concatenate((np.zeros(n), g))
            return (np.concatenate((y[n:], 0 * y[n:])).T + (g if np.ndim(y) == 1 else g[None])).T
        return g if np.ndim(y) == 1 else np.repeat(g[:, None], y.shape[1], 1)

    y0 = np.full(n, c["y0"])
    if m.nystrom:
        y0 = np.concatenate((y0, np.zeros(n)))
    kw, hmax = {}, np.inf
    if c["max"]:
        hmax = kw["max_step"] = c["max"] * (L if L < np.inf else 1)
    if m.kind == "rkc":
        kw["rho_jac"] = lambda t, y: 1.0
    w = Watch(fun, 20000)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = m.cls(w, t0, y0, t0 + d * L, rtol=c["rtol"], atol=c["atol"], **kw)
        k0 = w.calls
        msg = s.step()
    require_ok(m, s.status != "failed", msg, s.t)
    h = limits(m, s, t0, d, L, hmax, s.t)
    # second derivatives that vanish too can not be seen: a number of reductions by a factor of about 5
    effort(m, s.n, k0, failures(m), 14 if q < 2 else 60)
    if m.nystrom:
        want = np.concatenate((y0[:n] + k * h ** (q + 2) / ((q + 1) * (q + 2)), k * h ** (q + 1) / (q + 1) * d))
    else:
        want = y0 + d * k * h ** (q + 1) / (q + 1)
    if q == 0:
        want = y0
    err = np.max(np.abs(s.y - want) / (c["atol"] + c["rtol"] * np.abs(s.y) + 1e-12 * (1 + np.abs(want))))
    most = 3 + 3 * acc_bound(c["method"], c["rtol"])
    require(err <= most, "error of the first step is %.3g times the tolerance, allowed %.3g", err, most)
    return [c["method"], "still" if q == 0 else "moving", "infinite" if L == np.inf else "finite"]


SUBS = [Sub("first", case(), first, 6000, 200000), Sub("scaling", scaling_case(), scaling, 3000, 60000), Sub("rest", rest_case(), rest, 3000, 60000)]
