"""C03: each formula and its error estimate converge at the documented order"""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import problems as pr
from pbt.core import Inconclusive, Sub, require
from pbt.gen import num
from pbt.methods import METHODS, REAL_KINDS
from pbt.problems import build

RULE = ("a case is (method, problem); single steps of size h0, h0/2, h0/4, ... are forced through "
        "the public options until the error drowns in rounding; non-trivial when at least three "
        "step sizes were above the rounding floor, or the smallest step was exact to rounding")
ASSUMPTIONS = ["asymptotic order is judged from a decreasing sequence of step sizes: error/h^(p+1) "
               "must not grow by more than a factor 8 beyond its largest value at larger steps"]

NAMES = [n for n in METHODS if n not in ("SWAG",)]


@st.composite
def case(draw, names=NAMES, est=False):
    name = draw(st.sampled_from(names))
    m = METHODS[name]
    cx = m.complex and draw(st.integers(0, 4)) == 0
    kw = dict(span=(1.0, 4.0))
    if m.nystrom:
        spec = draw(pr.second_order(strict=m.strict, complex_=cx, max_mods=2, **kw))
    elif draw(st.integers(0, 3)) == 0 and m.kind != "rkc":
        spec = draw(pr.second_order(complex_=cx and not m.implicit, max_mods=2, **kw))
    else:
        kinds = REAL_KINDS if m.kind == "rkc" else tuple(pr.PLAIN)
        spec = draw(pr.first_order(kinds=kinds, complex_=cx, **kw))
    c = dict(method=name, spec=spec, at=draw(num(0, 0.9)))
    if m.implicit:
        c["linear"] = draw(st.booleans())
    return c


class Step:
    """one forced step from the exact state at time t, size h"""
    def __init__(s, m, p, t, linear=False):
        s.m, s.p, s.t, s.kw = m, p, t, {}
        s.y = p.exact(t)
        # rounding is not relative to a state that happens to be near zero
        s.scale = max(np.max(np.abs(s.y)), 0.1 * np.max(np.abs(p.exact(np.linspace(p.t0, p.tf, 20)))))
        if m.implicit:
            s.kw["jac"] = np.asarray(p.jac(t, s.y)) if linear else p.jac
        if m.kind == "rkc":
            s.kw["rho_jac"] = lambda t, y: float(np.linalg.norm(p.jac(t, y))) + 1e-3
        s.dir = 1 if p.tf > p.t0 else -1
        s.f0 = p.fun(t, s.y)

    def __call__(s, h, atol, rtol=0.0):
        """new state, or None if the step was not accepted at this size"""
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tb = s.t + s.dir * h
            S = s.m.cls(s.p.fun, s.t, s.y, tb, first_step=abs(tb - s.t), atol=atol, rtol=rtol,
                        **s.kw)
            S.step()
            if S.status != "failed" and S.t == tb:
                return S.y
        return None


def is_linear(spec):
    if spec["kind"] == "fo":
        return all(k["kind"] in ("lin", "rot", "forced") for k in spec["mods"])
    return all(k["kind"] in ("osc", "mag") for k in spec["mods"])


def setup(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    t = p.t0 + c["at"] * (p.tf - p.t0)
    lin = bool(c.get("linear")) and is_linear(c["spec"])
    s = Step(m, p, t, lin)
    L = np.linalg.norm(p.jac(t, s.y), 2) + 1.0
    w = max([k.get("w", 1.0) if k["kind"] in ("tdep", "forced", "chain") else k.get("u", 1.0)
             for k in c["spec"]["mods"]])
    h0 = min(1.0 / max(L, abs(w)), 0.95 * abs(p.tf - t) + 0.05)
    return m, p, s, lin, h0


def judge(seq, q, what, floor):
    """seq: list of (h, e); e must shrink like h**q"""
    top, n = 0.0, 0
    g = [(e / h ** q) for h, e in seq]
    first = 2
    for k, (h, e) in enumerate(seq):
        if k >= first and e > floor:
            lim = 8 * top * h ** q
            require(e <= lim, "%s: at h=%.3g it is %.3g, order %g predicts at most %.3g; sequence %s",
                    what, h, e, q - 1, lim, [("%.3g" % a, "%.3g" % b) for a, b in seq])
            n += 1
        top = max(top, g[k])
    return n


def main(c):
    m, p, s, lin, h0 = setup(c)
    floor = 3e-14 * s.scale * (1 + 10 * (m.kind == "rkc"))
    seq = []
    h = h0
    atol = 1e-13 * s.scale
    for k in range(14):
        tb = s.t + s.dir * h
        ex = p.exact(tb)
        if m.implicit and not lin:
            if k:
                atol = max(atol / 2 ** (m.order + 2), 1e-16 * s.scale)
            y = s(h, atol)
            while y is None:
                atol *= 4
                require(atol < 1e6 * s.scale, "a step of size %g is never accepted", h)
                y = s(h, atol)
        else:
            y = s(h, 1e10 * s.scale, 0.1)
            require(y is not None, "a step of size %g is not accepted at huge tolerance", h)
        e = np.max(np.abs(y - ex))
        seq.append((h, e))
        if e <= floor and k >= 3:
            break
        h *= 0.5
    n = judge(seq, m.order + 1, c["method"] + " one-step error", floor)
    if n == 0 and seq[-1][1] > floor:
        return []
    return [c["method"], "linear" if is_linear(c["spec"]) else "nonlinear",
            "backward" if s.dir < 0 else "forward"]


def est(c):
    """the smallest atol with which a step of size h is accepted = norm of the
    error estimate (rtol is negligible)"""
    m, p, s, lin, h0 = setup(c)
    floor = 1e-12 * s.scale

    def accepted(h, a): return s(h, a) is not None
    seq = []
    h, guess = h0, 1e-3 * s.scale
    for k in range(9):
        hi = guess
        for _ in range(80):
            if accepted(h, hi):
                break
            hi *= 8
        else:
            require(False, "a step of size %g is never accepted", h)
        lo = hi / 8
        while lo > floor / 10 and accepted(h, lo):
            hi, lo = lo, lo / 8
        while hi / lo > 1.15:
            mid = np.sqrt(hi * lo)
            if accepted(h, mid):
                hi = mid
            else:
                lo = mid
        seq.append((h, hi))
        if hi <= floor:
            break
        guess = hi
        h *= 0.5
    q = min(m.order, m.est) + 1
    n = judge(seq, q, c["method"] + " error estimate", floor)
    return [c["method"], "linear" if is_linear(c["spec"]) else "nonlinear"] if n else []


SUBS = [Sub("main", case(), main, 4000, 100000),
        Sub("estimate", case([n for n in NAMES if n != "CKdisc"]), est, 1500, 40000)]
