"""C31: work grows with the tolerance as the order predicts"""
import warnings

import extensisq as ex
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import RK45

from pbt.core import Sub, require
from pbt.gen import logu, num
from pbt.methods import METHODS, NAMES, Watch, accuracy_case, kwargs, options, require_ok
from pbt.problems import build

RULE = ("a case is a smooth problem with closed-form solution, a method with options and controller, and two tolerances; "
        "non-trivial when the looser one takes at least 6 steps")


@st.composite
def case(draw):
    c = draw(accuracy_case(hi=-3.0, span=(4.0, 20.0), opts=dict(steps=False, detect=False)))
    c["tight"] = draw(num(1.0, 2.5))        # decades between the tolerances
    return c


def scaled(c, p, rtol):
    ymax = np.max(np.abs(p.exact(np.linspace(p.t0, p.tf, 30))), axis=1)
    if c["af"] == "vec":
        return rtol * np.maximum(ymax, 1e-3 * ymax.max()) * (1 + 0.1 * np.arange(p.n))
    return rtol * c["af"] * ymax.max()


def solve(c, cls, p, rtol, kw):
    w = Watch(p.fun, 400000)
    ex.NFS[()] = 0
    h = []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        s = cls(w, p.t0, p.y0, p.tf, rtol=rtol, atol=scaled(c, p, rtol), **kw)
        while s.status == "running":
            msg = s.step()
            if s.status == "failed":
                require_ok(METHODS[c["method"]], False, msg, s.t)
            h.append(abs(s.t - s.t_old))
    return np.array(h), int(ex.NFS), w.calls


def tame(p):
    """errors do not grow too much over the interval"""
    try:
        return p.amp < 1e3
    except np.linalg.LinAlgError:
        return False


def measure(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    if not tame(p):
        return None
    r1 = c["rtol"] * 10 ** c["tight"] if c["rtol"] * 10 ** c["tight"] <= 1e-2 else c["rtol"]
    r2 = r1 * 10 ** -c["tight"]
    kw = kwargs(m, c["opts"], p)
    if m.kind == "rkc":
        kw["rho_jac"] = lambda t, y: 1.1 * float(np.linalg.norm(p.jac(t, y))) + 1e-3
    h1, f1, e1 = solve(c, m.cls, p, r1, kw)
    h2, f2, e2 = solve(c, m.cls, p, r2, kw)
    href, _, eref = solve(c, RK45, p, r2, {})
    return h1, f1, e1, h2, f2, e2, href, eref, r1, r2


# About twice the extremes seen in 24000 cases: deviations above and below the growth of the number of attempts that the
# order predicts; number of attempts relative to the number of steps of RK45 (scipy) and the orders; evaluations per
# attempt; rejected steps per accepted step
FAC = dict(
    BS5=(3.5, 4.4, 2.36, 12, 0.7), CFMR7osc=(2.9, 4, 3.75, 16, 0.6), CK5=(3.2, 4, 3.4, 11, 0.43),
    CKdisc=(4.2, 4, 4.13, 11, 0.84), Fi4N=(2.8, 4, 3.62, 9.6, 0.43), Fi5N=(3.2, 5.6, 3.25, 11, 0.39),
    KC3I=(3.4, 7.8, 2.12, 30, 0.55), KC4I=(6.5, 6.1, 3.79, 33, 0.53), KC4Ia=(3.1, 7.5, 2.91, 43, 0.56),
    Kv3I=(3.7, 4, 8.57, 21, 0.43), MR6NN=(3, 4, 3.86, 11, 0.34), Me4=(3.4, 4, 4.59, 9.4, 0.58),
    Mu5Nmb=(3.1, 4, 5.32, 16, 0.43), Pr7=(3.3, 4, 3.78, 17, 0.46), Pr8=(2.8, 4, 4.77, 22, 0.33),
    Pr9=(3.2, 4, 4.47, 28, 0.56), SSV2stab=(2.7, 4, 10.6, 4.5, 0.37), SWAG=(3.8, 4.3, 23.6, 5.5, 0.32),
    TRBDF2=(3, 4, 6.21, 18, 0.48), TRX2=(3.2, 4, 5.72, 15, 0.41), Ts5=(2.8, 4, 3.35, 11, 0.49))


def power(m, o): return min(8, o.get("k_max", 12) + 1) if m.kind == "multistep" else min(m.order, m.est) + 1


def numbers(c):
    z = measure(c)
    if z is None:
        return None
    h1, f1, e1, h2, f2, e2, href, eref, r1, r2 = z
    q = power(METHODS[c["method"]], c["opts"])
    a1, a2 = h1.size + f1, h2.size + f2
    growth = a2 / a1 / (r1 / r2) ** (1 / q)
    return growth, 1 / growth, a2 / href.size * r2 ** (1 / q - 1 / 5), e2 / a2, (f2 - 3) / h2.size, h1.size, (r1, r2, a1, a2, f2, href.size)


def work(c):
    z = numbers(c)
    if z is None:
        return []
    growth, less, ref, per, rej, n, info = z
    if n < 6:
        return []
    F = FAC[c["method"]]
    text = " (tolerances %.3g %.3g, attempts %d %d, rejected %d, RK45 %d)" % info
    require(growth <= F[0], "number of attempts grows %.3g times more than the order predicts%s", growth, text)
    require(less <= F[1], "number of attempts grows %.3g times less than the order predicts%s", less, text)
    require(ref <= F[2], "number of attempts is %.3g compared with RK45, allowed %.3g%s", ref, F[2], text)
    require(per <= F[3], "%.3g evaluations per attempt, allowed %.3g%s", per, F[3], text)
    require(rej <= F[4], "fraction of rejected steps %.3g, allowed %.3g%s", rej, F[4], text)
    return [c["method"], "controller " + str(c["opts"].get("sc_params", ""))]


# ---------------------------------------------------------------- recovery from a short event
@st.composite
def pulse_case(draw):
    name = draw(st.sampled_from(NAMES))
    m = METHODS[name]
    opts = draw(options(m, steps=False, detect=False, jac=False))
    lo = max(m.rtol_min, -8)
    if m.kind == "multistep":               # low orders take very many steps at tight tolerances
        lo = max(lo, -3 - opts.get("k_max", 12))
    return dict(method=name, opts=opts, rtol=draw(logu(lo, -3)),
                w=draw(logu(-1, 1)), width=draw(logu(-3, -1)), amp=draw(logu(-1, 2)), k=draw(num(0, 1)), n=draw(st.integers(1, 2)),
                t0=draw(st.one_of(st.just(0.0), num(-5, 5))), d=draw(st.sampled_from([1, -1])))


def pulse_steps(c):
    """steps before and after the event, in units of the period"""
    m, n = METHODS[c["method"]], c["n"]
    w, T = c["w"], 2 * np.pi / c["w"]
    tc, wd = 8.3 * T, c["width"] * T
    ph = np.arange(n) * 0.7

    def fun(t, y):
        x = (t - c["t0"]) * c["d"]
        e = c["amp"] * np.exp(-min(((x - tc) / wd) ** 2, 700.0))
        if m.nystrom:
            return np.concatenate((y[n:], w * w * (-c["k"] * y[:n] + np.cos(w * x + ph) + e)))
        return c["d"] * w * (-c["k"] * y + np.cos(w * x + ph) + e)
    y0 = np.zeros(n)
    if m.nystrom:
        y0 = np.zeros(2 * n)
    kw = kwargs(m, dict(c["opts"], vectorized=False), None)
    if m.kind == "rkc":
        kw["rho_jac"] = lambda t, y: w * (c["k"] + 0.1)
    wf = Watch(fun, 300000)
    t = [0.0]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        s = m.cls(wf, c["t0"], y0, c["t0"] + c["d"] * 18 * T, rtol=c["rtol"], atol=c["rtol"], max_step=T / 4, **kw)
        while s.status == "running":
            msg = s.step()
            require_ok(m, s.status != "failed", msg, s.t)
            t.append((s.t - c["t0"]) * c["d"])
    t = np.array(t) / T
    h = np.diff(t)
    before = h[(t[1:] > 4) & (t[1:] < 8)]
    after = h[(t[:-1] > 14) & (t[1:] < 17.9)]
    near = h[(t[1:] > 8) & (t[:-1] < 9)]
    return before, after, near


def recover(c):
    before, after, near = pulse_steps(c)
    require(after.mean() >= (0.35 if c["method"] in ("SWAG", "CKdisc") else 0.65) * before.mean(), "steps are %.3g of the period on average before, %.3g long after a short event",
            before.mean(), after.mean())
    return [c["method"]] if near.min() < 0.5 * before.mean() else []


SUBS = [Sub("work", case(), work, 1200, 30000), Sub("recover", pulse_case(), recover, 600, 20000)]
