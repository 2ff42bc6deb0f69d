"""C07: results do not depend on where in time or in which direction one integrates"""
import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csc_array

from pbt.core import Inconclusive, Sub, require
from pbt.gen import matrix, num
from pbt.methods import METHODS, accuracy_case, drive, require_ok, tols
from pbt.problems import build

RULE = ("a case is (method, problem, options, transformation of time); the solve of the "
        "transformed problem is compared step by step with the transformed solve; non-trivial "
        "when both solves finished with at least 2 steps")


class Moved:
    """the problem after t' = s*t + c  (s < 0: reflection)"""

    def __init__(q, p, s, c, nystrom):
        q.p, q.s, q.c, q.n = p, s, c, p.n
        q.t0, q.tf = s * p.t0 + c, s * p.tf + c
        # velocities scale with 1/s for methods that use the [x, v] structure
        q.D = np.ones(p.n)
        if nystrom:
            q.D[p.n // 2:] = 1 / s
        q.nystrom = nystrom
        q.y0 = p.y0 * q.D

    def back(q, t): return (t - q.c) / q.s

    def col(q, y): return q.D if np.ndim(y) == 1 else q.D[:, None]

    def fun(q, t, y):
        D = q.col(y)
        return D * q.p.fun(q.back(t), y / D) / q.s

    def jac(q, t, y):
        return (q.D[:, None] * q.p.jac(q.back(t), y / q.D) / q.D) / q.s


@st.composite
def case(draw):
    c = draw(accuracy_case(hi=-2.5, opts=dict(steps=False), span=(0.5, 4.0)))
    m = METHODS[c["method"]]
    c["rtol"] = max(c["rtol"], 1e-6)
    o = c["opts"]
    if m.implicit and o.get("jac") in ("none", "pattern"):
        o["jac"] = "call"               # numerical Jacobians depend on signs of f
    kind = draw(st.sampled_from(["reflect", "stretch", "shift"]))
    c["move"] = kind
    if kind == "reflect":
        c["s"], c["c"] = -1.0, 0.0
    elif kind == "stretch":
        c["s"], c["c"] = 2.0 ** draw(st.integers(-30, 30)), 0.0
        if draw(st.booleans()):
            c["s"] = -c["s"]
    else:
        c["s"], c["c"] = 1.0, draw(st.one_of(num(-10, 10), num(-500, 500)))
    if kind != "shift" and draw(st.integers(0, 2)) == 0:
        c["jumps"] = draw(st.lists(num(0.02, 0.98), min_size=1, max_size=2))
    if m.implicit and draw(st.integers(0, 2)) == 0:
        n = sum(1 + (k["kind"] in ("rot", "hopf", "nlrot", "chain", "mag", "kepler"))
                for k in c["spec"]["mods"]) * (2 if c["spec"]["kind"] == "so" else 1)
        c["M"] = draw(matrix(n, n, -0.4 / n, 0.4 / n))
        c["Mform"] = draw(st.sampled_from(["dense", "diag", "sparse"]))
    if "jumps" in c or "M" in c:
        if o.get("jac") not in (None, "call", "sparse", "csr", "list"):
            o["jac"] = "call"
    c["first"] = draw(st.sampled_from([0.0371, 0.00713, 1.171e-4, None]))
    if kind == "shift" and m.implicit:
        # Newton's stopping test may see pure rounding in tiny steps
        c["first"], c["rtol"] = 0.0371, max(c["rtol"], 1e-4)
    c["maxs"] = draw(st.sampled_from([None, None, None, 0.0713, 0.1337, 0.31]))
    return c


def moved(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, tol = tols(c, p)
    if "jumps" in c:
        smooth, s = p.fun, np.max(np.abs(p.y0))
        half = p.n // 2 if m.nystrom else 0

        def fun(t, y):
            f = np.array(smooth(t, y))
            k = sum((t - p.t0) / (p.tf - p.t0) > a for a in c["jumps"])
            if k % 2:
                f[half:] += 0.7 * s
            return f
        p.fun = fun
    mass = {}
    if "M" in c:
        B = np.eye(p.n) + np.array(c["M"]).reshape(p.n, p.n)
        if c["Mform"] == "diag":
            B = np.diag(np.diag(B))
        mass["M"] = csc_array(B) if c["Mform"] == "sparse" else \
            np.diag(B) if c["Mform"] == "diag" else B
        plain, pjac = p.fun, p.jac
        p.fun = lambda t, y: B @ plain(t, y)
        p.jac = lambda t, y: B @ pjac(t, y)
    q = Moved(p, c["s"], c["c"], m.nystrom)
    first = c["first"]
    if first is None and (m.nystrom and c["move"] == "stretch" or c["move"] == "shift"):
        first = 0.00713                 # the automatic first step depends on |t0|, mixes x and v
    if c.get("nudge"):
        q.y0 = q.y0 * (1 + 1e-14 * np.cos(c["nudge"] + np.arange(p.n)))
    kw = [dict(mass), dict(mass)]
    L = abs(p.tf - p.t0)
    for k, f in zip(kw, (1.0, abs(c["s"]))):
        if first:
            k["first_step"] = first * L * f
        if c["maxs"]:
            k["max_step"] = c["maxs"] * L * f
    if m.kind == "rkc":
        kw[0]["rho_jac"] = lambda t, y: float(np.linalg.norm(p.jac(t, y))) + 1e-3
        kw[1]["rho_jac"] = lambda t, y: (float(np.linalg.norm(p.jac(q.back(t), y))) + 1e-3) \
            / abs(c["s"])
    at = np.broadcast_to(atol, (p.n,)) * np.abs(q.D) if m.nystrom else atol
    if m.nystrom:
        atol = np.array(np.broadcast_to(atol, (p.n,)))
    a = drive(m, p, rtol, atol, c["opts"], kw=kw[0])
    b = drive(m, q, rtol, at, c["opts"], kw=kw[1])
    for tr in (a, b):
        if "jumps" in c and tr.status == "failed":
            raise Inconclusive("jumps led to failure")
        require_ok(m, tr.status == "finished", tr.message, tr.t[-1])
    return m, p, q, a, b, tol, first


def check(c):
    m, p, q, a, b, tol, first = moved(c)
    L = abs(p.tf - p.t0)
    scale = np.max(np.abs(a.y))
    # reflection and stretching by a power of two are exact in floating point arithmetic,
    # a shift is not
    lt, lim = 1e-9, 1e-6 * tol + 1e-11 * scale
    if c["move"] == "shift":
        lt, lim = 1e-6, 1e-4 * tol + 1e-11 * scale

    def agree():
        if a.t.size != b.t.size:
            return "%d steps, but %d for the %sed problem" % (a.t.size - 1, b.t.size - 1, c["move"])
        et = np.max(np.abs(q.back(b.t) - a.t)) / L
        if et > lt:
            return "times of the %sed solve differ by %.3g of the interval (allowed %.3g)" % (
                c["move"], et, lt)
        ey = np.max(np.abs(b.y / q.D[:, None] - a.y))
        if ey > lim:
            return "states of the %sed solve differ by %.3g (allowed %.3g)" % (c["move"], ey, lim)
    msg = agree()
    if msg and c["move"] == "shift":
        # error estimates may be pure rounding: see how much the steps change when
        # the initial state is perturbed at rounding level
        for k in range(4):
            b2 = moved(dict(c, s=1.0, c=1e-12 * np.sin(k + 1), nudge=k + 1))[4]
            if b2.t.size != a.t.size or np.max(np.abs(a.t - b2.t)) / L > 1e-8 or \
                    np.max(np.abs(a.y - b2.y)) > 1e-6 * tol + 3e-13 * scale:
                raise Inconclusive("steps are determined by rounding")
            # times far from 0 are rounded more coarsely; the rounding errors of the times of
            # the stages vary with the size of the first step
            if first:
                b2 = moved(dict(c, first=first * (1 + 1e-9 * (k + 1))))[4]
                if b2.t.size != b.t.size or np.max(np.abs(b2.t - b.t)) / L > 5e-8 or \
                        np.max(np.abs(b2.y - b.y)) > 0.2 * lim:
                    raise Inconclusive("steps are determined by rounding")
    require(msg is None, msg)
    if a.t.size < 3:
        return []
    x = np.array([0.17, 0.5, 0.83])
    for da, db in zip(a.sol, b.sol):
        e = np.max(np.abs(db(db.t_old + x * (db.t - db.t_old)) / q.D[:, None]
                          - da(da.t_old + x * (da.t - da.t_old))))
        lim2 = 10 * lim + 1e-13 * scale
        require(e <= lim2, "dense output of the %sed solve differs by %.3g (allowed %.3g)", c["move"], e, lim2)
    return [c["method"], c["move"], "jumps" if "jumps" in c else "M" if "M" in c else "plain",
            "auto" if c["first"] is None else "first_step"]


SUBS = [Sub("moved", case(), check, 6000, 150000)]
