"""C25: adjoint sensitivities of an integral"""
import numpy as np
from hypothesis import strategies as st

import extensisq as ex
from checks.c24 import adj_case, judge, run, sizes
from pbt.core import Sub, require
from pbt.gen import logu, mags, num
from pbt.methods import acc_bound
from pbt.params import G, ParamProblem

RULE = ("a case is a problem with 1 to 6 states and 1 to 4 parameters with closed-form solution and exact derivatives by "
        "complex steps, an integrand g of time, state and parameters (reference by Gauss quadrature of the exact "
        "solution), a method, tolerances, options and optionally a precomputed dense solution; non-trivial when the "
        "gradient is not zero")


def ratios(c, P):
    g = G(P, c["g"])
    T = abs(P.tf - P.t0)
    gy, F, gp, ga, gpa, D0 = sizes(P, g)
    tiny = 1e-12 * (ga / P.amp + 1e-12) * T
    la = max(gy * T, tiny)
    xi = np.maximum(la * F + gp * T, tiny)
    out, tol, atol_la, vquad, ymax, g = run(c, P, ex.sens_adjoint_int, (la, xi))
    val, grad = g.integral()
    rnd = 1e-13 * P.amp * (1 + abs(P.t0) / T)
    rel = tol / ymax + rnd
    g2 = max(gy, ga / ymax)
    level = P.amp**2 * ((atol_la + rel * g2 * T) * (D0 + F) + c["rtol"] * xi + vquad + rel * gpa * T)
    vlevel = P.amp * (rel * (g2 * ymax + ga) * T + np.min(vquad)) + 1e-300
    return [np.max(np.abs(out.sens - grad) / level), abs(np.ravel(out[1])[0] - val) / vlevel], np.any(grad)


# about 8 times the largest ratio to the tolerance level seen in 10000 cases, at least 3
FAC = dict(
    BDF=10, BS5=9, CFMR7osc=3, CK5=3, CKdisc=3, DOP853=3, KC3I=3, KC4I=9, KC4Ia=6, Kv3I=3, LSODA=10,
    Me4=8, Pr7=3, Pr8=3, Pr9=30, RK23=6, RK45=8, Radau=5, SSV2stab=20, SWAG=5, TRBDF2=20, TRX2=10,
    Ts5=3,)


def _cal(c): return ratios(c, ParamProblem(c["P"]))[0]


def adjoint(c):
    r, some = ratios(c, ParamProblem(c["P"]))
    return judge(c, r, some, FAC, ("dG/dp", "G"))


# ------------------------------------- each quadrature to its own tolerance ---
@st.composite
def weights_case(draw):
    n = draw(st.integers(1, 4))
    return dict(method=draw(st.sampled_from(["BS5", "CK5", "Ts5", "Me4", "Pr7", "Pr8", "CFMR7osc"])),
                size=[draw(st.sampled_from([0.0, 1e-4, 1e-2, 1.0])) for _ in range(n)], p=draw(st.lists(mags(0.1, 3), min_size=n, max_size=n)),
                w=draw(st.lists(num(1, 6, 1), min_size=n, max_size=n)), ph=draw(st.lists(num(-3, 3, 2), min_size=n, max_size=n)),
                own=draw(st.lists(st.sampled_from([0.0, 0.0, 0.1, 1.0]), min_size=1, max_size=2)), wown=draw(num(2, 6, 1)),
                quad=draw(st.lists(logu(-8, -1), min_size=n, max_size=n)), form=draw(st.sampled_from(["array", "list", "array", "float"])),
                t0=draw(st.sampled_from([0.0, -2.0])), span=draw(num(0.7, 3)), dir=draw(st.sampled_from([1, 1, -1])))


def weights(c):
    """integrands that depend on time and parameters only: the integral and its gradient are quadratures, each
    with its element of atol_quad, the integral with the smallest"""
    n, rtol = len(c["p"]), 1e-10
    A, w, ph, p = (np.array(c[k], float) for k in ("size", "w", "ph", "p"))
    t0, tf = c["t0"], c["t0"] + c["dir"] * c["span"]
    B, wo = sum(c["own"]), c["wown"]
    y0 = np.array([1.0, 0.5])

    def prim(t): return -A / w * np.cos(w * t + ph), -B / wo * np.cos(wo * t)
    quad = np.array(c["quad"])
    if c["form"] == "float":
        quad[:] = quad[0]
    arg = dict(array=quad, list=quad.tolist(), float=float(quad[0]))[c["form"]]
    out = ex.sens_adjoint_int(
        lambda t, y, *q: -0.1 * y, (t0, tf), y0, lambda t, y, *q: -0.1 * np.eye(2), lambda t, y, *q: np.zeros((2, n)),
        np.zeros((2, n)), p, lambda t, y, *q: np.array([np.dot(q, A * np.sin(w * t + ph)) + B * np.sin(wo * t)]),
        lambda t, y, *q: A * np.sin(w * t + ph), lambda t, y, *q: np.zeros(2), method=getattr(ex, c["method"]),
        rtol=rtol, atol=1e-6, atol_adj=1e-6, atol_quad=arg)
    (a1, b1), (a0, b0) = prim(tf), prim(t0)
    grad, val = a1 - a0, p @ (a1 - a0) + b1 - b0
    def f(rel): return 3 * np.sqrt(n + 3) * acc_bound(c["method"], rel)
    top = rtol * 3 * c["span"]
    lim = np.array([f(q / (a + 1e-300)) * (q + top * a) + 1e-13 for q, a in zip(quad, A)])
    e = np.abs(out.sens - grad)
    k = int(np.argmax(e / lim))
    require(e[k] <= lim[k], "dG/dp%d is wrong by %.3g, atol_quad is %.3g (allowed %.3g)", k, e[k], quad[k], lim[k])
    size = np.abs(p) @ A + B
    lim, e = f(quad.min() / (size + 1e-300)) * (quad.min() + top * size) + 1e-13, abs(np.ravel(out[1])[0] - val)
    require(e <= lim, "G is wrong by %.3g, the smallest atol_quad is %.3g (allowed %.3g)", e, quad.min(), lim)
    return [c["method"], c["form"]] if np.any(A) and n > 1 else []


SUBS = [Sub("adjoint", adj_case(), adjoint, 2000, 25000),
        Sub("weights", weights_case(), weights, 600, 15000)]
