"""C10: step-size limits given by the user are honoured"""
import warnings

import numpy as np
import extensisq as ex
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, num
from pbt.methods import METHODS, Watch, accuracy_case, kwargs, require_ok, tols
from pbt.problems import build

RULE = ("a case is (method, problem, options, max_step, first_step, interval); every step of the solve "
        "is compared with the limits; non-trivial when a limit was active: a step as long as "
        "max_step, or a first step equal to first_step")


@st.composite
def case(draw):
    c = draw(accuracy_case(hi=-1.5, opts=dict(steps=False), span=(0.3, 6.0)))
    c["rtol"] = max(c["rtol"], 1e-7)
    c["max"] = draw(st.one_of(st.none(), logu(-2.3, 0.3), st.sampled_from([1.0, 0.5, 1 / 3, 0.25, 0.1])))
    c["first"] = draw(st.one_of(st.none(), logu(-7, 0), st.sampled_from([1.0, 0.5, 0.1])))
    if draw(st.integers(0, 2)) == 0:
        c["jumps"] = draw(st.lists(num(0.02, 0.98), min_size=1, max_size=2))
    c["shift"] = draw(st.sampled_from([0, 0, 0, 1.0, 1e3, -1e6]))
    c["far"] = draw(st.sampled_from([False, False, False, True]))
    return c


class Shifted:
    """the same problem at another time, optionally with the end at infinity"""

    def __init__(q, p, c):
        q.p, q.c, q.n, q.y0 = p, c, p.n, p.y0
        q.t0, q.tf = p.t0 + c, p.tf + c

    def fun(q, t, y): return q.p.fun(t - q.c, y)
    def jac(q, t, y): return q.p.jac(t - q.c, y)


def check(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, tol = tols(c, p)
    plain, kick = p.fun, 0.7 * np.max(np.abs(p.y0))
    if "jumps" in c:
        half = p.n // 2 if m.nystrom else 0

        def fun(t, y):
            f = np.array(plain(t, y))
            k = sum((t - p.t0) / (p.tf - p.t0) > a for a in c["jumps"])
            if k % 2:
                f[half:] += kick
            return f
        p.fun = fun
    q = Shifted(p, c["shift"])
    L = abs(q.tf - q.t0)
    kw = kwargs(m, c["opts"], q)
    if "jumps" in c and m.implicit and not callable(kw.get("jac", q.jac)):
        kw["jac"] = q.jac
    if m.kind == "rkc":
        kw["rho_jac"] = lambda t, y: float(np.linalg.norm(q.jac(t, y))) + 1e-3
        kw.pop("const_jac", None)
    hmax = np.inf
    first = None
    if c["max"]:
        hmax = kw["max_step"] = c["max"] * L
    if c["first"]:
        first = kw["first_step"] = min(c["first"] * L, L)
    d = 1 if q.tf > q.t0 else -1
    t_bound = d * np.inf if c["far"] else q.tf
    w = Watch(q.fun, 200000)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = m.cls(w, q.t0, q.y0, t_bound, rtol=rtol, atol=atol, **kw)
        steps, fails = [], None
        while s.status == "running" and (s.t - q.tf) * d < 0:
            old = s.t
            msg = s.step()
            if s.status == "failed":
                if "jumps" in c or (first or 0) > 0.05 * L or c["far"]:
                    raise Inconclusive("failed with a forced step or jumps")
                require_ok(m, False, msg, s.t)
            if fails is None:
                fails = int(ex.NFS) + int(ex.NFI)
            steps.append(abs(s.t - old))
            r = 4e-16 * (abs(s.t) + abs(old))
            require(steps[-1] <= hmax * (1 + 1e-12) + r, "step %d from %r is %r, max_step is %r",
                    len(steps), old, steps[-1], hmax)
            require(c["far"] or (s.t - q.tf) * d <= 0, "stepped past the end")
    tags = []
    if any(h >= hmax * (1 - 1e-9) for h in steps):
        tags += ["max_step", c["method"]]
    if first and first > 1e-11 * abs(q.t0):      # above the smallest possible step
        r = 4e-16 * (2 * abs(q.t0) + first)
        # steps that would almost reach the end are stretched to it
        more = {"rkc": 1.1, "dirk": 1.01}.get("dirk" if m.implicit else m.kind, 1.0) if steps[0] >= L * (1 - 1e-12) else 1.0
        require(steps[0] <= first * more * (1 + 1e-12) + r, "first step %r is larger than first_step %r",
                steps[0], first)
        # rejected, or split to avoid a very short last step
        free = fails == 0 and (first <= 0.45 * L or c["far"]) and first > 1e-9 * (abs(q.t0) + L)
        if free:
            want = min(first, hmax)
            # CKdisc also accepts the first 1/5 or 3/5 of a step (its fallback methods)
            part = m.kind == "ckdisc" and min(abs(steps[0] / want - f) for f in (0.2, 0.6)) < 1e-9
            require(part or steps[0] >= want * (1 - 1e-9) - r, "first step %r, but first_step %r was not "
                    "rejected (max_step %r)", steps[0], first, hmax)
            tags += ["first_step", c["method"]]
    if tags:
        tags += ["far"] * c["far"] + ["jumps"] * ("jumps" in c) + ["backward"] * (d < 0)
    return tags


def ivp(c):
    """the same through solve_ivp: differences of the times it returns"""
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, tol = tols(c, p)
    kw = kwargs(m, c["opts"], p)
    L = abs(p.tf - p.t0)
    if c["max"] is None:
        return []
    kw["max_step"] = c["max"] * L
    if c["first"]:
        kw["first_step"] = min(c["first"], 0.05) * L
    if m.kind == "rkc":
        kw["rho_jac"] = lambda t, y: float(np.linalg.norm(p.jac(t, y))) + 1e-3
    r = solve_ivp(Watch(p.fun, 200000), (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol,
                  dense_output=True, **kw)
    require_ok(m, r.success, r.message, r.t[-1])
    h = np.abs(np.diff(r.t))
    e = 4e-16 * np.max(np.abs(r.t))
    require(np.all(h <= kw["max_step"] * (1 + 1e-12) + e), "step %r exceeds max_step %r",
            h.max(), kw["max_step"])
    return [c["method"]]


SUBS = [Sub("steps", case(), check, 5000, 150000),
        Sub("ivp", case(), ivp, 500, 10000)]
