"""C23: forward sensitivities"""
import warnings

import numpy as np
from hypothesis import strategies as st

import extensisq as ex
from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu
from pbt.methods import FIRST, IMPL, METHODS
from pbt.params import REAL, ParamProblem, param_problem

RULE = ("a case is a problem with 1 to 6 states and 1 to 4 parameters (rates, frequencies, initial values; any sign, zero, "
        "different scales) with closed-form solution and exact derivatives by complex steps, a method, tolerances and "
        "options; non-trivial when the sensitivities are not all zero")
NAMES = FIRST + ["RK45", "DOP853", "Radau", "BDF", "LSODA", "RK23"]


@st.composite
def sens_case(draw, names=NAMES):
    name = draw(st.sampled_from(names))
    stiff = name in IMPL or name in ("SSV2stab", "Radau", "BDF", "LSODA", "RK23")
    lo = -5 if stiff else -7
    P = draw(param_problem(**(dict(kinds=REAL) if name == "SSV2stab" else {})))
    return dict(method=name, P=P, rtol=draw(logu(max(lo, METHODS[name].rtol_min) if name in METHODS else lo, -3)),
                atol=draw(st.sampled_from(["float", "array", "list", "small"])),
                dense=draw(st.booleans()), t_eval=draw(st.integers(0, 2)) == 0,
                approx=(name in IMPL or name in ("Radau", "BDF", "LSODA")) and draw(st.booleans()),
                form=draw(st.sampled_from(["array", "list", "tuple"])))


def solver(name): return getattr(ex, name) if name in METHODS else name


def guard(name, f):
    """SSV2stab may refuse: its own spectral radius estimate is judged in C19"""
    try:
        return f()
    except RuntimeError as e:
        if name == "SSV2stab" and "not converged" in str(e):
            raise Inconclusive("SSV2stab did not converge")
        raise


def run(c, P):
    ymax = np.max(np.abs(P.exact(np.linspace(P.t0, P.tf, 30), P.p)))
    rtol = c["rtol"]
    atol = rtol * ymax * {"float": 1.0, "small": 0.01}.get(c["atol"], 0.3)
    if c["atol"] in ("array", "list"):
        atol = atol * (1 + 0.1 * np.arange(P.n))
        atol_arg = atol.tolist() if c["atol"] == "list" else atol
    else:
        atol_arg = atol = float(atol)
    conv = dict(array=lambda a: a, list=lambda a: a.tolist(), tuple=lambda a: tuple(map(tuple, a)) if a.ndim > 1 else tuple(a))[c["form"]]
    args = [conv(P.y0), conv(P.dy0dp), conv(P.p)]
    keep = [P.y0.copy(), P.dy0dp.copy(), P.p.copy()]
    te = None
    if c["t_eval"]:
        te = P.t0 + (P.tf - P.t0) * np.array([0.0, 0.21, 0.5, 0.77, 1.0])
        te[-1] = P.tf
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        out = guard(c["method"], lambda: ex.sens_forward(
            P.fun, (P.t0, P.tf), args[0], P.jac, P.dfdp, args[1], args[2], atol=atol_arg, rtol=rtol,
            method=solver(c["method"]), dense_output=c["dense"], t_eval=te, use_approx_jac=c["approx"]))
    for a, b, what in zip((P.y0, P.dy0dp, P.p), keep, ("y0", "dy0dp", "p")):
        require(np.array_equal(a, b), "%s was changed", what)
    return out, float(np.max(rtol * ymax + atol)), ymax, te


def ratios(c, P):
    out, tol, ymax, te = run(c, P)
    require(out.sensf.shape == (P.n, P.Np), "shape of sensf is %s", out.sensf.shape)
    require(out.yf.shape == (P.n,), "shape of yf is %s", out.yf.shape)
    tt = np.linspace(P.t0, P.tf, 25)
    S = P.sens(tt)
    smax = np.max(np.abs(S), axis=(0, 1))
    pp = np.where(P.p == 0, 1.0, np.abs(P.p))
    rnd = 1e-13 * P.amp * (1 + abs(P.t0) / abs(P.tf - P.t0))
    level = P.amp * P.amp * tol * (smax / ymax + 1 / pp) + rnd * (smax + ymax / pp)
    ylevel = P.amp * tol + rnd * ymax
    r = [np.max(np.abs(out.sensf - P.sens(P.tf)) / level), np.max(np.abs(out.yf - P.exact(P.tf, P.p).real)) / ylevel]
    require(np.array_equal(out.sol.y[:P.n, -1], out.yf), "yf is not the end of sol")
    if te is not None:
        require(np.array_equal(out.sol.t, te), "sol.t differs from t_eval")
    # along the solution: the combined problem, flattened with the states of each parameter together
    t, Y = out.sol.t, out.sol.y
    if c["dense"]:
        t2 = np.linspace(P.t0, P.tf, 7)
        t, Y = np.concatenate((t, t2)), np.concatenate((Y, out.sol.sol(t2)), axis=1)
    ry = np.max(np.abs(Y[:P.n] - P.exact(t, P.p).real)) / ylevel
    Sx = P.sens(t)
    rs = max(np.max(np.abs(Y[(i + 1) * P.n:(i + 2) * P.n] - Sx[:, :, i])) / level[i] for i in range(P.Np))
    return r + [rs, ry], np.any(smax > 0)


# about 8 times the largest ratio to the tolerance level seen in 10000 cases, at least 3 (sensitivity, state)
FAC = dict(
    BDF=70, BS5=20, CFMR7osc=4, CK5=20, CKdisc=80, DOP853=20, KC3I=20, KC4I=90, KC4Ia=80, Kv3I=20,
    LSODA=30, Me4=80, Pr7=3, Pr8=2, Pr9=2, RK23=70, RK45=70, Radau=2, SSV2stab=90, SWAG=70,
    TRBDF2=400, TRX2=200, Ts5=60,)


def _cal(c): return ratios(c, ParamProblem(c["P"]))[0]


def forward(c):
    P = ParamProblem(c["P"])
    (r0, r1, r2, r3), some = ratios(c, P)
    f = FAC[c["method"]]
    f = f * (1 if c["rtol"] <= 1e-4 else 4)
    for r, what in ((r0, "dy/dp at the end"), (r1, "y at the end"), (r2, "dy/dp along the solution"), (r3, "y along the solution")):
        require(r <= f, "%s: error %.3g times the tolerance level, allowed %.3g", what, r, f)
    return [c["method"], "Np%d" % P.Np] + [k for k in ("dense", "t_eval", "approx") if c[k]] if some else []


SUBS = [Sub("forward", sens_case(), forward, 3500, 30000)]
