"""C24: adjoint sensitivities of a function at the end point (C25: of an integral)"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

import extensisq as ex
from checks.c23 import NAMES, guard, solver
from pbt.core import Sub, require
from pbt.gen import logu
from pbt.methods import IMPL, METHODS
from pbt.params import REAL, G, ParamProblem, g_coeff, param_problem

RULE = ("a case is a problem with 1 to 6 states and 1 to 4 parameters with closed-form solution and exact derivatives by "
        "complex steps, a scalar function g of time, state and parameters, a method, tolerances, options and optionally "
        "a precomputed dense solution; non-trivial when the gradient is not zero")


@st.composite
def adj_case(draw, names=NAMES):
    name = draw(st.sampled_from(names))
    stiff = name in IMPL or name in ("SSV2stab", "Radau", "BDF", "LSODA", "RK23")
    lo = -5 if stiff else -7
    P = draw(param_problem(**(dict(kinds=REAL) if name == "SSV2stab" else {})))
    n = len(ParamProblem(P).y0)
    small = st.sampled_from(["float", "array", "list", "small"])
    return dict(method=name, P=P, g=draw(g_coeff(n, len(P["p"]))),
                rtol=draw(logu(max(lo, METHODS[name].rtol_min) if name in METHODS else lo, -3)),
                atol=draw(small), adj=draw(small), quad=draw(small),
                given=draw(st.sampled_from(["no", "no", "same", "other", "longer", "points"])),
                form=draw(st.sampled_from(["array", "list", "tuple"])))


def tolvec(kind, base):
    """the argument and the vector of tolerances it stands for"""
    base = np.asarray(base, float)
    if kind in ("array", "list"):
        v = 0.3 * base * (1 + 0.1 * np.arange(base.size))
        return (v.tolist() if kind == "list" else v), v
    x = float(np.max(base) * (0.01 if kind == "small" else 1.0))
    return x, np.full(base.size, x)


def run(c, P, routine, scale):
    """scale: sizes of (mu, xi) along the backward solution"""
    rtol = c["rtol"]
    ymax = np.max(np.abs(P.exact(np.linspace(P.t0, P.tf, 30), P.p)))
    atol, va = tolvec(c["atol"], np.full(P.n, rtol * ymax))
    adj, vadj = tolvec(c["adj"], np.full(P.n, rtol * scale[0]))
    quad, vquad = tolvec(c["quad"], rtol * scale[1])
    conv = dict(array=lambda a: a, list=lambda a: a.tolist(),
                tuple=lambda a: tuple(map(tuple, a)) if a.ndim > 1 else tuple(a))[c["form"]]
    keep = [P.y0.copy(), P.dy0dp.copy(), P.p.copy()]
    g = G(P, c["g"])
    calls = [0]

    def fun(t, y, *p):
        calls[0] += 1
        return P.fun(t, y, *p)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        sol = None
        if c["given"] != "no":
            tf, te = P.tf, None
            if c["given"] == "longer":      # than the interval
                tf = P.tf + 0.15 * (P.tf - P.t0)
            if c["given"] == "points":      # output that does not contain the end point
                te = P.t0 + (P.tf - P.t0) * np.array([0.0, 0.3, 0.8])
            sol = guard(c["method"], lambda: solve_ivp(
                P.fun, (P.t0, tf), P.y0, method=ex.Pr7 if c["given"] == "other" else solver(c["method"]),
                rtol=rtol, atol=atol, args=tuple(P.p), dense_output=True, t_eval=te))
            require(sol.success, "forward solve failed: %s", sol.message)
        out = guard(c["method"], lambda: routine(
            fun, (P.t0, P.tf), conv(P.y0), P.jac, P.dfdp, conv(P.dy0dp), conv(P.p), g.g, g.dgdp, g.dgdy,
            method=solver(c["method"]), rtol=rtol, atol=atol, atol_adj=adj, atol_quad=quad, sol_y=sol))
    for a, b, what in zip((P.y0, P.dy0dp, P.p), keep, ("y0", "dy0dp", "p")):
        require(np.array_equal(a, b), "%s was changed", what)
    if sol is not None:
        require(out.sol_y is sol, "the given solution is not the one returned")
        require(calls[0] <= 3, "%d evaluations of fun though the solution was given", calls[0])
    require(np.shape(out.sens) == (P.Np,), "shape of sens is %s", np.shape(out.sens))
    require(np.size(out[1]) == 1, "the value has size %d", np.size(out[1]))
    return out, float(np.max(rtol * ymax + va)), float(np.max(rtol * scale[0] + vadj)), vquad, ymax, g


def sizes(P, g):
    """sizes along the solution of dg/dy (max), df/dp (mean, per parameter), dg/dp (mean), |g| (mean)"""
    t = np.linspace(P.t0, P.tf, 21)
    Y = np.real(P.exact(t, P.p))
    gy = max(np.max(np.abs(g.dgdy(ti, y, *P.p))) for ti, y in zip(t, Y.T))
    f = np.mean([np.max(np.abs(P.dfdp(ti, y, *P.p)), axis=0) for ti, y in zip(t, Y.T)], axis=0)
    gp = np.mean([np.abs(g.dgdp(ti, y, *P.p)) for ti, y in zip(t, Y.T)], axis=0)
    d = g.d
    # the size of g without cancellation between its terms
    u, r = np.max(np.abs(Y)) / np.min(np.abs(P.sc)), np.abs(P.p / P.s)
    ga = np.abs(g.a).sum() * u + abs(d["b"]) * P.n * u * u + np.abs(g.e) @ r * u + abs(d["c"]) + abs(d["d"]) * r @ r
    gpa = (np.abs(g.e) * u + 2 * abs(d["d"]) * r) / P.s
    return gy, f * abs(P.tf - P.t0), gp, ga, gpa, np.max(np.abs(P.dy0dp), axis=0)


def ratios(c, P):
    g = G(P, c["g"])
    gy, F, gp, ga, gpa, D0 = sizes(P, g)
    tiny = 1e-12 * (ga / P.amp + 1e-12)
    mu = max(gy, tiny)
    xi = np.maximum(mu * F, tiny)
    out, tol, atol_mu, vquad, ymax, g = run(c, P, ex.sens_adjoint_end, (mu, xi))
    val, grad = g.end()
    rnd = 1e-13 * P.amp * (1 + abs(P.t0) / abs(P.tf - P.t0))
    rel = tol / ymax + rnd
    # second derivatives of g matter by the size of its terms
    g2 = max(gy, ga / ymax)
    level = P.amp**2 * ((atol_mu + rel * g2) * (D0 + F) + c["rtol"] * xi + vquad + rel * gpa)
    vlevel = P.amp * rel * (g2 * ymax + ga) + 1e-300
    return [np.max(np.abs(out.sens - grad) / level), abs(np.ravel(out[1])[0] - val) / vlevel], np.any(grad)


# about 8 times the largest ratio to the tolerance level seen in 10000 cases, at least 3
FAC = dict(
    BDF=7, BS5=4, CFMR7osc=3, CK5=3, CKdisc=5, DOP853=3, KC3I=3, KC4I=40, KC4Ia=20, Kv3I=3, LSODA=4,
    Me4=10, Pr7=3, Pr8=3, Pr9=3, RK23=10, RK45=20, Radau=10, SSV2stab=20, SWAG=3, TRBDF2=30, TRX2=30,
    Ts5=3,)


def _cal(c): return ratios(c, ParamProblem(c["P"]))[0]


def judge(c, r, some, FAC, what):
    f = FAC[c["method"]] * (1 if c["rtol"] <= 1e-4 else 4)
    for x, w in zip(r, what):
        require(x <= f, "%s: error %.3g times the tolerance level, allowed %.3g", w, x, f)
    return [c["method"], "Np%d" % len(c["P"]["p"]), "given " + c["given"]] if some else []


def adjoint(c):
    r, some = ratios(c, ParamProblem(c["P"]))
    return judge(c, r, some, FAC, ("dg/dp", "g"))


SUBS = [Sub("adjoint", adj_case(), adjoint, 2500, 25000)]
