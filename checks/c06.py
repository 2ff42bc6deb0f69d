"""C06: interpolants are accurate between the computed points"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from checks import c03
from checks.c05 import USER
from pbt import problems as pr
from pbt.core import Sub, require
from pbt.methods import (METHODS, NAMES, REAL_KINDS, acc_bound, accuracy_case, drive, kwargs,
                         require_ok, tols)
from pbt.problems import build

RULE = ("order: single forced steps of decreasing size, the error of the interpolant at interior "
        "points against the closed-form solution; solve: whole solves with dense output compared "
        "with the closed-form solution at interior points; non-trivial when at least three step "
        "sizes were above rounding (order) or three steps were taken (solve)")
ASSUMPTIONS = ["order: error/h^(q+1) must not grow by more than a factor 8 beyond its largest value at "
               "larger steps; solve: bound is 6 times the largest ratio seen in 5000 random problems"]

# documented order q of the interpolant: error within a step is O(h^(q+1))
Q = {"BS5": {"low": 5, "best": 5, "free": 4}, "CK5": 4, "Ts5": 4, "Me4": 3, "Pr7": 6, "Pr8": 7,
     "Pr9": 8, "CFMR7osc": 5, "CKdisc": 4, "SSV2stab": 2, "Fi4N": 4,
     "Fi5N": {0: 4, 1: 5, 2: 5, 3: 4}, "Mu5Nmb": {"better": 4, "free": 4}, "MR6NN": 6,
     "TRBDF2": 2, "TRX2": 2, "KC3I": {"C0": 3, "C1": 3}, "KC4I": {"C0": 4, "C1": 4},
     "KC4Ia": {"C0": 4, "C1": 4}, "Kv3I": {"C0": 3, "C1": 3}}
QUSER = dict(Pr7=3, Me4=3, KC3I=3, Kv3I=3, Fi4N=4, Mu5Nmb=4)


@st.composite
def order_case(draw):
    c = draw(c03.case(list(Q)))
    name = c["method"]
    c["user"] = name in USER and draw(st.booleans())
    if isinstance(Q[name], dict) and not c["user"]:
        c["interp"] = draw(st.sampled_from(list(Q[name])))
    return c


class Step(c03.Step):
    def __call__(s, h, atol, rtol=0.0):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tb = s.t + s.dir * h
            S = s.cls(s.p.fun, s.t, s.y, tb, first_step=abs(tb - s.t), atol=atol, rtol=rtol,
                      **s.kw)
            S.step()
            if S.status != "failed" and S.t == tb:
                return S.dense_output()
        return None


X = np.array([0.07, 0.2, 0.37, 0.5, 0.66, 0.81, 0.95])


def order(c):
    m, p, s, lin, h0 = c03.setup(c)
    s.__class__ = Step
    s.cls = USER[c["method"]] if c["user"] else m.cls
    if "interp" in c:
        s.kw["interpolant"] = c["interp"]
    q = QUSER[c["method"]] if c["user"] else Q[c["method"]]
    q = q[c["interp"]] if isinstance(q, dict) else q
    # rounding: the coefficients of the polynomials of Pr9 sum to 46000
    floor = 2e-13 * s.scale * (10 if m.kind == "rkc" else {"Pr8": 5, "Pr9": 20}.get(m.name, 1))
    seq, h, atol = [], h0, 1e-13 * s.scale
    for k in range(12):
        tb = s.t + s.dir * h
        if m.implicit and not lin:
            if k:
                atol = max(atol / 2 ** (m.order + 2), 1e-16 * s.scale)
            d = s(h, atol)
            while d is None:
                atol *= 4
                require(atol < 1e6 * s.scale, "a step of size %g is never accepted", h)
                d = s(h, atol)
        else:
            d = s(h, 1e10 * s.scale, 0.1)
            require(d is not None, "a step of size %g is not accepted at huge tolerance", h)
        ts = s.t + X * (tb - s.t)
        e = np.max(np.abs(d(ts) - p.exact(ts)))
        seq.append((h, e))
        f = floor + (2e-15 * s.scale / h * 10 if m.nystrom else 0)
        if e <= f and k >= 3:
            break
        h *= 0.5
    what = "%s%s interpolant %s" % (c["method"], "-user" if c["user"] else "", c.get("interp", ""))
    if m.nystrom:                       # Hermite velocities: differences over h
        seq = [(h, max(0, e - 2e-14 * s.scale / h)) for h, e in seq]
    n = c03.judge(seq, q + 1, what, floor)
    return [what, "backward" if s.dir < 0 else "forward"] if n or seq[-1][1] <= floor else []


@st.composite
def solve_case(draw):
    c = draw(accuracy_case(span=(0.5, 8.0)))
    c["via"] = draw(st.sampled_from(["solver", "ivp"]))
    return c


def solve(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, tol = tols(c, p)
    lim = acc_bound(c["method"], rtol, True) * tol * p.amp
    if m.name == "CFMR7osc":
        # fifth order interpolant; on linear problems the steps are chosen for a
        # much higher order, so its error is larger at tight tolerances
        lim *= max(1, (1e-4 / rtol) ** 0.35)
    if c["via"] == "solver":
        tr = drive(m, p, rtol, atol, c["opts"])
        require_ok(m, tr.status == "finished", tr.message)
        T, scale = tr.t, np.max(np.abs(tr.y))
        pieces = [(d, d.t_old + X * (d.t - d.t_old)) for d in tr.sol]
    else:
        r = solve_ivp(p.fun, (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol,
                      dense_output=True, **kwargs(m, c["opts"], p))
        require_ok(m, r.success, r.message)
        T, scale = r.t, np.max(np.abs(r.y))
        pieces = [(r.sol, p.t0 + np.linspace(0, 1, 101) * (p.tf - p.t0))]
    floor = (1e-14 if m.name != 'Pr9' else 1e-13) * p.amp * scale * (T.size + 100)
    for d, ts in pieces:
        e = np.max(np.abs(d(ts) - p.exact(ts)))
        require(e <= lim + floor, "error of the interpolant %.3g exceeds %.3g (tol level %.3g, "
                "amplification %.3g) in step from %r", e, lim + floor, tol, p.amp, ts[0])
    return [c["method"], str(c["opts"].get("interpolant")), c["via"],
            "backward" if p.tf < p.t0 else "forward"] if T.size > 3 else []


SUBS = [Sub("order", order_case(), order, 4000, 100000),
        Sub("solve", solve_case(), solve, 3500, 90000)]
