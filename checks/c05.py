"""C05: dense output agrees with the computed points and joins continuously"""
import warnings

import numpy as np
import extensisq as ex
from extensisq.common import ESDIRK, RungeKutta, RungeKuttaNystrom
from hypothesis import strategies as st
from numpy.polynomial import chebyshev as cheb
from scipy.integrate import solve_ivp

from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, num
from pbt.methods import METHODS, NAMES, Watch, accuracy_case, kwargs, require_ok, tols
from pbt.problems import build

RULE = ("a case is (method, interpolant, problem, options, pattern of requests); every step's "
        "interpolant is compared with the states of the solver and with its neighbours; "
        "non-trivial when at least two interpolants were joined")

C0 = {("KC3I", "C0"), ("KC4I", "C0"), ("KC4Ia", "C0"), ("Kv3I", "C0")}
PIECE = {"TRBDF2": 0.5, "TRX2": 0.5}


def ends(s, piecewise, deg=9):
    """value, derivative and second derivative at both ends of an interpolant.
    It is a polynomial (on each half for the piecewise ones)."""
    h = s.t - s.t_old
    out = []
    for side in (0, 1):
        if piecewise:
            deg, a, b = 3, (0.0, 0.4) if side == 0 else (0.7, 1.0), None
            a, b = a
        else:
            a, b = 0.0, 1.0
        x = np.cos(np.pi * (np.arange(deg + 1) + .5) / (deg + 1))
        Y = s(s.t_old + (a + (x + 1) / 2 * (b - a)) * h)
        c = cheb.chebfit(x, Y.T, deg)
        d = cheb.chebder(c)
        dd = cheb.chebder(d)
        e = -1 if side == 0 else 1
        q = 2 / (h * (b - a))
        out.append((cheb.chebval(e, d) * q, cheb.chebval(e, dd) * q * q))
    return out


class UserRK(RungeKutta):
    """user-defined method without its own interpolant"""


def strip(src, base, names):
    return type("User" + src.__name__, (base,), {k: getattr(src, k) for k in names})


USER = dict(
    Pr7=strip(ex.Pr7, RungeKutta, ["order", "order_secondary", "n_stages", "A", "B", "C", "E"]),
    Me4=strip(ex.Me4, RungeKutta, ["order", "order_secondary", "n_stages", "A", "B", "C", "E"]),
    KC3I=strip(ex.KC3I, ESDIRK, ["order", "order_secondary", "n_stages", "kappa", "d", "A", "B",
                                 "C", "E", "Az"]),
    Kv3I=strip(ex.Kv3I, ESDIRK, ["order", "order_secondary", "n_stages", "kappa", "d", "A", "B",
                                 "C", "E", "Az"]),
    Fi4N=strip(ex.Fi4N, RungeKuttaNystrom, ["order", "order_secondary", "n_stages", "A", "Ap", "B",
                                            "Bp", "C", "E", "Ep"]),
    Mu5Nmb=strip(ex.Mu5Nmb, RungeKuttaNystrom, ["order", "order_secondary", "n_stages", "A", "Ap",
                                                "B", "Bp", "C", "E", "Ep"]))


def jumpy(c, p):
    """adds jumps in time to the right-hand side (to provoke rejected steps,
    low-order formulas and restarts)"""
    if not c.get("jumps"):
        return p.fun
    d = 1 if p.tf > p.t0 else -1
    L = abs(p.tf - p.t0)
    s = np.max(np.abs(p.y0))

    def fun(t, y):
        f = p.fun(t, y)
        k = sum((t - p.t0) * d > a * L for a in c["jumps"])
        if k % 2:
            f = np.array(f)
            n = f.shape[0] // 2 if METHODS[c["method"]].nystrom else 0
            f[n:] += s * 0.7
        return f
    return fun


@st.composite
def case(draw, names=NAMES):
    c = draw(accuracy_case(names, hi=-2.0, span=(0.5, 5.0)))
    c["rtol"] = max(c["rtol"], 1e-8 if METHODS[c["method"]].kind != "rkc" else 1e-5)
    if draw(st.booleans()):
        c["jumps"] = draw(st.lists(num(0.02, 0.98), min_size=1, max_size=3))
    c["user"] = c["method"] in USER and draw(st.booleans())
    c["req"] = draw(st.lists(st.sampled_from([0, 1, 1, 2]), min_size=1, max_size=7))
    c["at"] = draw(st.lists(num(0, 1), min_size=1, max_size=5))
    return c


def solver(c, fun, p, rtol, atol):
    m = METHODS[c["method"]]
    kw = kwargs(m, c["opts"], p)
    if m.kind == "rkc" and "jumps" in c:
        kw.pop("const_jac", None)
    if kw.get("jac") is not None and not callable(kw["jac"]) and "jumps" in c:
        kw.pop("jac")
    cls = m.cls
    if c["user"]:
        cls = USER[c["method"]]
        for k in ("interpolant", "scale_embedded"):
            kw.pop(k, None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return m, cls(Watch(fun, 100000), p.t0, p.y0, p.tf, rtol=rtol, atol=atol, **kw)


def run(c, requests):
    """step to the end, requesting dense output following the pattern"""
    p = build(c["spec"])
    rtol, atol, _ = tols(c, p)
    fun = jumpy(c, p)
    m, s = solver(c, fun, p, rtol, atol)
    T, Y, S = [s.t], [s.y.copy()], []
    k = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        while s.status == "running":
            msg = s.step()
            if s.status == "failed":
                if c.get("jumps"):      # a push may lead into a singularity
                    raise Inconclusive("jumps led to failure")
                require_ok(m, False, msg, s.t)
            for _ in range(requests[k % len(requests)]):
                d = s.dense_output()
                S.append((k, d, d(d.t_old + np.array(c["at"]) * (d.t - d.t_old))))
            T.append(s.t)
            Y.append(s.y.copy())
            k += 1
    return m, p, fun, np.array(T), np.array(Y).T, S


def joins(c):
    m, p, fun, T, Y, S = run(c, [1])
    scale = np.max(np.abs(Y))
    last = None
    name = c["method"]
    piece = name in PIECE
    interp = c["opts"].get("interpolant")
    smooth1 = (name, interp or "C0") not in C0 or c["user"]
    ntags = 0
    for k, d, vals in S:
        h = T[k + 1] - T[k]
        require(d.t_old == T[k] and d.t == T[k + 1], "interpolant covers (%r, %r), the step (%r, %r)",
                d.t_old, d.t, T[k], T[k + 1])
        require(d.t_min == min(T[k:k + 2]) and d.t_max == max(T[k:k + 2]),
                "t_min, t_max are %r, %r", d.t_min, d.t_max)
        F0, F1 = fun(T[k], Y[:, k]), fun(T[k + 1], Y[:, k + 1])
        fm = max(np.max(np.abs(F0)), np.max(np.abs(F1)))
        tol = 2e-11 * (scale + abs(h) * fm) + 1e-14 * abs(T[k]) * fm
        if m.nystrom:                       # Hermite velocity: differences of x over h
            tol += 2e-14 * scale / abs(h)
        for tt, yy, w in ((T[k], Y[:, k], "start"), (T[k + 1], Y[:, k + 1], "end")):
            v = d(tt)
            require(v.shape == yy.shape, "scalar time gives shape %s", v.shape)
            e = np.max(np.abs(v - yy))
            require(e <= tol, "step %d (h=%.3g): interpolant differs at its %s by %.3g (allowed %.3g)",
                    k, h, w, e, tol)
        # not after the event: the values do not change while the solver moves on
        tt = d.t_old + np.array(c["at"]) * (d.t - d.t_old)
        again = d(tt)
        require(np.array_equal(again, vals), "interpolant of step %d changed by %.3g when the solver "
                "moved on", k, np.max(np.abs(again - vals)))
        require(np.all(np.isfinite(again)), "interpolant is not finite")
        # scalar, reordered and repeated times
        for i, x in enumerate(tt):
            e = np.max(np.abs(d(float(x)) - vals[:, i]))
            require(e <= 1e-13 * (scale + fm * abs(h)), "scalar and array evaluation differ by %.3g", e)
        idx = np.argsort(-tt)
        idx = np.concatenate((idx, idx[:1], idx))
        e = np.max(np.abs(d(tt[idx]) - vals[:, idx]))
        require(e <= 1e-13 * (scale + fm * abs(h)), "order of times matters: %.3g", e)
        # continuity
        tiny = abs(h) < 1e-7 * max(abs(T[k]), abs(T[k + 1]), abs(p.tf - p.t0))
        if tiny:
            last = None
            continue
        E = ends(d, piece)
        if last is not None and smooth1:
            hm = min(abs(h), abs(last[1]))
            tol = 1e-8 * fm + 3e-11 * scale / hm + 1e-12 * abs(T[k]) * fm / hm
            if m.nystrom:
                tol += 1e-12 * scale / hm ** 2
            e = np.max(np.abs(E[0][0] - last[0][1][0]))
            require(e <= tol, "derivative jumps by %.3g (allowed %.3g) between steps %d and %d, t=%r",
                    e, tol, k - 1, k, T[k])
            if m.nystrom:
                n = p.n // 2
                tol = 1e-7 * fm + 3e-9 * scale / hm ** 2 + 1e-10 * abs(T[k]) * fm / hm ** 2
                e = np.max(np.abs(E[0][1] - last[0][1][1])[:n])
                require(e <= tol, "second derivative of x jumps by %.3g (allowed %.3g) at t=%r",
                        e, tol, T[k])
        # the derivative at the ends is the right-hand side
        if smooth1 and not m.implicit and not (m.name == "Fi5N" and interp == 1) \
                and not c.get("jumps"):
            tol = 1e-8 * fm + 3e-11 * scale / abs(h) + 1e-12 * abs(T[k]) * fm / abs(h)
            if m.kind == "multistep":
                tol = tol + 1e-7 * fm
            if m.nystrom:
                tol += 1e-12 * scale / h ** 2
            e = max(np.max(np.abs(E[0][0] - F0)), np.max(np.abs(E[1][0] - F1)))
            require(e <= tol, "derivative of interpolant of step %d differs from fun by %.3g "
                    "(allowed %.3g)", k, e, tol)
        last = (E, h)
        ntags += 1
    if ntags < 2:
        return []
    return [c["method"] + ("-user" if c["user"] else ""), "jumps" if c.get("jumps") else "smooth",
            "backward" if p.tf < p.t0 else "forward", str(interp)]


def inert(c):
    """dense output may be requested at any step, or not at all"""
    m, p, fun, T, Y, S = run(c, [0])
    if c["method"] == "Fi5N" and c["opts"].get("interpolant") == 1:
        T, Y = run(c, [1])[3:5]     # documented: this interpolant replaces the end point
        c = dict(c, req=[max(1, r) for r in c["req"]])
    m, p, fun, T2, Y2, S = run(c, c["req"])
    require(T.size == T2.size and np.array_equal(T, T2) and np.array_equal(Y, Y2),
            "requesting dense output (%s) changes the steps: %d and %d points", c["req"], T.size, T2.size)
    prev = None
    for k, d, v in S:
        if prev is not None and prev[0] == k:
            require(np.array_equal(prev[1], v), "second request of step %d differs", k)
        prev = (k, v)
    # through solve_ivp
    rtol, atol, _ = tols(c, p)
    kw = kwargs(m, c["opts"], p)
    if c["user"] or (c.get("jumps") and (m.kind == "rkc" or not callable(kw.get("jac", fun)))):
        return [c["method"]]

    def ivp(**k):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return solve_ivp(fun, (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol, **kw, **k)
    b = ivp(dense_output=True)
    a = b if m.name == "Fi5N" and c["opts"].get("interpolant") == 1 else ivp()
    require(np.array_equal(a.t, b.t) and np.array_equal(a.y, b.y), "dense_output changes the points")
    require(np.array_equal(a.t, T), "solve_ivp takes other steps")
    ts = p.t0 + np.sort(np.array(c["at"])) * (p.tf - p.t0)
    ts = np.unique(ts) if p.tf > p.t0 else np.unique(ts)[::-1]
    e = ivp(t_eval=ts)
    scale = np.max(np.abs(Y))
    require(np.array_equal(e.t, ts), "t_eval is not returned")
    d = np.max(np.abs(e.y - b.sol(ts))) if a is not b else 0
    require(d <= 2e-11 * scale, "values at t_eval differ from the dense solution by %.3g", d)
    v = np.max(np.abs(b.sol(a.t) - a.y))
    fm = max(np.max(np.abs(fun(t, y))) for t, y in zip(a.t, a.y.T))
    tol = 2e-11 * (scale + fm * np.max(np.abs(np.diff(a.t)))) + 1e-14 * np.max(np.abs(T)) * fm
    if m.nystrom:
        tol += 2e-14 * scale / np.min(np.abs(np.diff(a.t)))
    require(v <= tol,
            "dense solution differs at output points by %.3g", v)
    return [c["method"], "pattern" + str(min(c["req"])) + str(max(c["req"]))]


SUBS = [Sub("joins", case(), joins, 4000, 80000),
        Sub("inert", case(), inert, 2500, 40000)]
