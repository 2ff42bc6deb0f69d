"""Problems with parameters whose solution, its derivatives to the parameters,
and integrals of functions of it are known in closed form.

The numbers in the modules of a first-order problem (rates, frequencies, initial
values) are linear functions of the parameter vector p around the generated
values: q = q0 + M (p - p0) / s.  All formulas are analytic, so derivatives are
computed exactly (up to rounding) with complex steps.
"""
import numpy as np
from hypothesis import strategies as st

from . import problems as pr
from .gen import mags, num
from .problems import KINDS, build

H = 1e-30
ANALYTIC = ("lin", "logistic", "cubic", "tdep", "forced", "sine", "rot", "nlrot", "hopf", "chain")
REAL = ("lin", "logistic", "cubic", "tdep", "forced", "sine", "chain")


@st.composite
def param_problem(draw, kinds=ANALYTIC, max_mods=3, span=(0.3, 3.0)):
    spec = draw(pr.first_order(kinds=kinds, max_mods=max_mods, span=span))
    names = [(i, k) for i, m in enumerate(spec["mods"]) for k in sorted(m) if k != "kind"]
    Np = draw(st.integers(1, 4))
    M = []
    for _ in range(Np):
        row = {}
        for j in draw(st.lists(st.integers(0, len(names) - 1), min_size=1, max_size=3)):
            row[j] = draw(mags(0.1, 1.0))
        M.append([row.get(j, 0.0) for j in range(len(names))])
    scale = [draw(st.sampled_from([1.0, 1.0, 100.0, 0.01])) for _ in range(Np)]
    p = [s * draw(st.one_of(mags(0.2, 2.0), st.just(0.0))) for s in scale]
    return dict(spec=spec, M=M, s=scale, p=p)


class ParamProblem:
    def __init__(s, d):
        s.d, s.spec = d, d["spec"]
        s.base = build(s.spec)
        s.names = [(i, k) for i, m in enumerate(s.spec["mods"]) for k in sorted(m) if k != "kind"]
        s.q0 = np.array([s.spec["mods"][i][k] for i, k in s.names])
        s.M, s.s = np.array(d["M"]), np.array(d["s"])
        s.p = np.array(d["p"], float)
        s.n, s.Np = s.base.n, s.p.size
        s.t0, s.tf, s.amp = s.base.t0, s.base.tf, s.base.amp
        s.sl, s.T, s.sc, s.dir, s.c = s.base.sl, s.base.T, s.base.scale, s.base.dir, s.base.c
        s._mods = {}
        s.y0 = s.exact(s.t0, s.p).real
        s.dy0dp = s.ddp(lambda p: s.exact(s.t0, p))

    def mods(s, p):
        key = tuple(p)
        if key not in s._mods:
            q = s.q0 + s.M.T @ ((np.asarray(p) - s.p) / s.s)
            ms = [dict(m) for m in s.spec["mods"]]
            for (i, k), v in zip(s.names, q):
                ms[i][k] = v
            s._mods[key] = [KINDS[m["kind"]](m) for m in ms]
        return s._mods[key]

    def ddp(s, f):
        """exact derivative of the analytic function f(p), last axis: parameters"""
        out = []
        for i in range(s.Np):
            p = s.p.astype(complex)
            p[i] += 1j * H
            out.append(np.imag(f(p)) / H)
        return np.stack(out, axis=-1)

    def rhs(s, t, y, p):
        z = (s.T.T @ y) / s.sc
        tau = s.dir * (t - s.c)
        F = np.concatenate([m.f(tau, z[sl]) for m, sl in zip(s.mods(p), s.sl)])
        return s.dir * s.sc * (s.T @ F)

    def exact(s, t, p):
        tau = s.dir * (np.asarray(t, float) - s.c)
        Z = np.concatenate([m.flow(tau, m.z0) for m in s.mods(p)])
        return s.sc * (s.T @ Z)

    # the user's functions, with signature f(t, y, *p)
    def fun(s, t, y, *p): return np.real(s.rhs(t, y, p))
    def jac(s, t, y, *p): return s.base.jac(t, y)
    def dfdp(s, t, y, *p): return s.ddp(lambda q: s.rhs(t, y, q))

    def sens(s, t):
        """dy/dp (n, Np) or (n, len(t), Np)"""
        return s.ddp(lambda p: s.exact(t, p))


# a scalar function of the solution
@st.composite
def g_coeff(draw, n, Np):
    return dict(a=[draw(num(-1, 1)) for _ in range(n)], b=draw(num(-0.5, 0.5)),
                e=[draw(st.one_of(st.just(0.0), num(-1, 1))) for _ in range(Np)],
                w=draw(num(0, 3)), c=draw(num(-1, 1)), d=draw(num(-0.5, 0.5)))


class G:
    """g = a.u + b u.u + (e.r) u_0 + c cos(w t) + d r.r  with u = y / scale, r = p / s"""

    def __init__(s, P, d):
        s.P, s.d = P, d
        s.a, s.e = np.array(d["a"]), np.array(d["e"])

    def val(s, t, y, p):
        u, r = y / s.P.sc, np.asarray(p) / s.P.s
        w = s.d["c"] * np.cos(s.d["w"] * np.asarray(t))
        return s.a @ u + s.d["b"] * np.sum(u * u, axis=0) + (s.e @ r) * u[0] + w + s.d["d"] * (r @ r)

    def g(s, t, y, *p): return np.array([s.val(t, y, p)])

    def dgdy(s, t, y, *p):
        u, r = y / s.P.sc, np.asarray(p) / s.P.s
        out = s.a + 2 * s.d["b"] * u
        out[0] = out[0] + s.e @ r
        return out / s.P.sc

    def dgdp(s, t, y, *p):
        u, r = y / s.P.sc, np.asarray(p) / s.P.s
        return (s.e * u[0] + 2 * s.d["d"] * r) / s.P.s

    def end(s):
        """g and dg/dp at the end of the interval"""
        f = lambda p: s.val(s.P.tf, s.P.exact(s.P.tf, p), p)
        return float(np.real(f(s.P.p))), s.P.ddp(f)

    def integral(s, panels=12):
        """the integral of g and its derivative, by composite Gauss quadrature"""
        x, w = np.polynomial.legendre.leggauss(12)
        edge = np.linspace(s.P.t0, s.P.tf, panels + 1)
        h = edge[1] - edge[0]
        t = (edge[:-1, None] + (x + 1) / 2 * h).reshape(-1)
        w = np.tile(w, panels) * h / 2
        f = lambda p: s.val(t, s.P.exact(t, p), p) @ w
        return float(np.real(f(s.P.p))), s.P.ddp(f)
