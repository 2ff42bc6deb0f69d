"""C20: the multistep solver SWAG for every maximum order"""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import problems as pr
from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, num
from pbt.methods import METHODS, acc_bound, drive, options, tols
from pbt.problems import build

RULE = ("a case is a problem with a maximum order, tolerances and step options; 'pece' recomputes every accepted step "
        "and every interpolant from the accepted points alone (variable step Adams predictor of some order k, corrector "
        "of order k+1), 'accuracy' and 'tight' compare with closed-form solutions, 'work' compares evaluation counts of "
        "different maximum orders; non-trivial when at least 3 steps were judged (tags: orders used, failures)")
SWAG = METHODS["SWAG"]
RLO = {1: -4, 2: -5, 3: -6, 4: -7}


# ------------------------------------------------------------ reference PECE ---
_x, _w = np.polynomial.legendre.leggauss(9)
GX, GW = (_x + 1) / 2, _w / 2


def newton(theta, at):
    """values of the Newton basis polynomials prod (x - theta_m) at points `at`"""
    out = [np.ones_like(at)]
    for th in theta:
        out.append(out[-1] * (at - th))
    return out


def divided(theta, F):
    """divided differences of the rows of F at the points theta"""
    D = [np.array(f) for f in F]
    for j in range(1, len(D)):
        for i in range(len(D) - 1, j - 1, -1):
            D[i] = (D[i] - D[i - 1]) / (theta[i] - theta[i - j])
    return D


def rms(x): return float(np.sqrt(np.mean(np.abs(x) ** 2)))


def adams(fun, ts, ys, fs, t1, k_max, y1, rtol, atol):
    """All steps of order k = 1..k_max from the points ts[0] (newest), ts[1], ... to t1.
    Yields (k, corrected solution, error estimate in units of the tolerance)"""
    h = t1 - ts[0]
    m = min(k_max, len(ts))
    theta = [(t - ts[0]) / h for t in ts[:m]]
    D = divided(theta, fs[:m])
    Nq, N1 = newton(theta, GX), newton(theta, np.array(1.0))
    I = [float(GW @ q) for q in Nq]
    p, q = ys[0].astype(complex), 0
    prev = 1.0
    for k in range(1, m + 1):
        p = p + h * I[k - 1] * D[k - 1]
        q = q + N1[k - 1] * D[k - 1]
        pp = p if np.iscomplexobj(ys[0]) else p.real
        fp = np.asarray(fun(t1, pp))
        g = I[k] / N1[k]
        prev = I[k - 1] / N1[k - 1]
        wt = atol + rtol * np.maximum(np.abs(pp), np.abs(ys[0]))
        yield k, pp + h * g * (fp - q), abs(h) * (prev - g) * rms((fp - q) / wt), np.max(np.abs(fp))


def watts(ts, fs, y0, t1, y1, f1, k, x):
    """the C1 interpolant: its derivative interpolates the slopes at t1, ts[0], .., ts[k-1]
    plus a multiple of the polynomial that vanishes there"""
    h = t1 - ts[0]
    theta = [1.0] + [(t - ts[0]) / h for t in ts[:k]]
    D = divided(theta, [f1] + list(fs[:k]))

    def integral(to):
        N = newton(theta, GX * to)
        I = [to * float(GW @ q) for q in N]
        return h * sum(i * d for i, d in zip(I, D)), I[-1]
    full, cf = integral(1.0)
    out = []
    for s in x:
        part, c = integral(s)
        out.append(y0 + part + c / cf * (y1 - y0 - full))
    return out


@st.composite
def base(draw, lo=None, hi=-2.0, kmin=1, span=(0.5, 6.0), **kw):
    cx = draw(st.integers(0, 4)) == 0
    if draw(st.integers(0, 3)) == 0:
        spec = draw(pr.second_order(complex_=cx, span=span, **kw))
    else:
        spec = draw(pr.first_order(complex_=cx, span=span, **kw))
    k = draw(st.sampled_from([12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]))
    o = draw(options(SWAG))
    if o.get("first_frac", 0) > 0.1:
        o["first_frac"] = 0.1
    if k == 12 and draw(st.booleans()):
        o.pop("k_max", None)
    else:
        o["k_max"] = max(k, kmin)
    lo = max(RLO.get(o.get("k_max", 12), -11), lo or -11)
    return dict(method="SWAG", spec=spec, rtol=draw(logu(lo, hi)), opts=o,
                af=draw(st.sampled_from([1.0, 1.0, 0.1, 1e-3, "vec"])))


# --------------------------------------------------------------------- pece ---
@st.composite
def pece_case(draw):
    c = draw(base())
    # optional kick: a smooth but sudden change that makes steps fail and orders drop
    if draw(st.booleans()):
        c["kick"] = [dict(at=draw(num(0.1, 0.95)), size=draw(num(0.3, 20)), width=draw(st.sampled_from([0.0, 1e-4, 1e-2, 0.1])))
                     for _ in range(draw(st.integers(1, 3)))]
    return c


def pece(c):
    p = build(c["spec"])
    rtol, atol, tol = tols(c, p)
    L, kick = c["spec"]["span"], c.get("kick", [])
    amp = np.max(np.abs(p.y0)) / L

    def fun(t, y):
        f = p.fun(t, y)
        for q in kick:
            x = abs(t - p.t0) / L - q["at"]
            u = q["size"] * (float(x > 0) if q["width"] == 0 else 0.5 * (1 + np.tanh(x / q["width"])))
            f = f + u * amp * np.exp(-x * x * 9)
        return f
    with np.errstate(all="ignore"):
        tr = drive(SWAG, p, rtol, atol, c["opts"], fun=fun)
    # a kick may send the solution to a singularity: only the steps are judged then
    require(tr.status == "finished" or kick, "failed: %s", tr.message)
    k_max = c["opts"].get("k_max", 12)
    fs = [np.asarray(fun(t, y)) for t, y in zip(tr.t, tr.y.T)]
    ts = [float(t) for t in tr.t]
    used, judged, ulp = set(), 0, np.finfo(float).eps
    jumps = [p.t0 + p.dir * L * q["at"] for q in kick if q["width"] == 0]
    for i in range(len(ts) - 1):
        t0, t1 = ts[i], ts[i + 1]
        h = t1 - t0
        if abs(h) <= 1e-13 * abs(t0):
            continue                                # extrapolated end
        past = ts[i::-1][:k_max + 1]
        if any(abs(j - t) < 1e-12 * (1 + abs(t)) for j in jumps for t in past + [t1]):
            continue                                # either side of the jump
        hmin = min(abs(b - a) for a, b in zip(past, past[1:])) if i else abs(h)
        F, Y = fs[i::-1][:k_max + 1], [tr.y[:, i]]
        best, near = None, None
        for k, y1, err, mag in adams(fun, past, Y, F, t1, k_max, tr.y[:, i + 1], rtol, atol):
            wt = atol + rtol * np.maximum(np.abs(tr.y[:, i]), np.abs(y1))
            fmax = max(mag, max(np.max(np.abs(f)) for f in F))
            rnd = 1e-12 * (np.max(np.abs(y1)) + abs(h) * fmax) + 50 * ulp * max(abs(t0), abs(t1)) * fmax * (1 + abs(h) / hmin)
            d = float(np.max(np.abs(y1 - tr.y[:, i + 1]) / (1e-4 * wt + rnd)))
            e = err - 1e-6 - 10 * rms(rnd / wt)
            near = min(near, d) if near is not None else d
            if d > 1:
                continue
            if e > 1:
                best = best or ("was accepted with error estimate %.4g at order %d" % (err, k))
                continue
            # interpolant of that order
            xs = np.array([0.13, 0.5, 0.86])
            ref = watts(past, F, tr.y[:, i], t1, tr.y[:, i + 1], fs[i + 1], k, xs)
            got = tr.sol[i](t0 + xs * h)
            dd = max(float(np.max(np.abs(a - b) / (1e-3 * wt + 100 * rnd))) for a, b in zip(ref, got.T))
            if dd <= 1:
                used.add(k)
                judged += 1
                break
            best = "interpolant differs from the interpolant of order %d by %.3g times what is allowed" % (k, dd)
        else:
            require(False, "step %d from t=%r, h=%r: %s", i, t0, h,
                    best or "no Adams step of order 1..%d gives this solution (closest: %.3g times what is allowed)" % (k_max, near))
    from extensisq.common import NFS
    tags = ["k%d" % k for k in sorted(used)] + (["failures"] if NFS > 0 else []) + (["kicked"] if kick else [])
    return tags if judged > 2 else []


# ----------------------------------------------------------------- accuracy ---
def accuracy(c):
    p = build(c["spec"])
    rtol, atol, tol = tols(c, p)
    tr = drive(SWAG, p, rtol, atol, c["opts"])
    require(tr.status == "finished", "failed: %s", tr.message)
    rnd = 1e-14 * np.max(np.abs(tr.y)) * tr.t.size + 1e-14 * abs(p.t0) * np.max(np.abs(p.fun(p.t0, p.y0)))
    e = np.max(np.abs(tr.y - p.exact(tr.t)))
    b = p.amp * (acc_bound("SWAG", rtol) * tol + rnd)
    require(e <= b, "error %.3g at the steps, allowed %.3g", e, b)
    th = np.array([0.11, 0.37, 0.5, 0.78, 0.94])
    b = p.amp * (acc_bound("SWAG", rtol, True) * tol + rnd)
    for i, s in enumerate(tr.sol):
        x = tr.t[i] + th * (tr.t[i + 1] - tr.t[i])
        e = np.max(np.abs(s(x) - p.exact(x)))
        require(e <= b, "error %.3g in between, step %d, allowed %.3g", e, i, b)
    return ["k_max=%s" % c["opts"].get("k_max", "default")] if tr.t.size > 3 else []


# -------------------------------------------------------------------- tight ---
@st.composite
def tight_case(draw):
    c = draw(base(kmin=6, span=(0.5, 3.0)))
    c["rtol"] = draw(st.sampled_from([1e-12, 1e-13, 3e-14, 1e-14, 3e-15, 1e-16, 0.0]))
    c["at"] = draw(st.sampled_from([0.0, 1e-16, 1e-14, 1e-300]))
    c["opts"] = {k: v for k, v in c["opts"].items() if k in ("k_max", "vectorized")}
    return c


def tight(c):
    p = build(c["spec"])
    ymax = np.max(np.abs(p.exact(np.linspace(p.t0, p.tf, 30))))
    tr = drive(SWAG, p, c["rtol"], c["at"] * ymax, c["opts"], dense=False)
    if tr.status == "failed":
        require(tr.message, "failed without a message")
        return ["refused"]
    n = tr.t.size
    rnd = 1e-15 * n * ymax + 4e-16 * n * abs(p.t0) * np.max(np.abs(p.fun(p.t0, p.y0)))
    e, b = np.max(np.abs(tr.y - p.exact(tr.t))), p.amp * (60 * (c["rtol"] + c["at"]) * ymax + 30 * rnd)
    require(e <= b, "finished with error %.3g, allowed %.3g", e, b)
    return ["rtol=%g" % c["rtol"]]


# ---------------------------------------------- bound next to a natural step ---
@st.composite
def end_case(draw):
    c = draw(base(span=(0.5, 4.0)))
    c["opts"]["first_frac"] = draw(st.sampled_from([1e-2, 1e-3, 0.1]))
    if draw(st.booleans()):
        c["spec"] = dict(c["spec"], c=draw(st.sampled_from([0.0, 1.0, -2.0, 30.0])))
    return dict(c, step=draw(st.integers(1, 30)), ulps=draw(st.sampled_from([1, 2, 3, 0, 5, 20])))


def end(c):
    """an end point a few units of rounding behind a natural step of the solver"""
    p = build(c["spec"])
    rtol, atol, tol = tols(c, p)
    h0 = c["opts"]["first_frac"] * abs(p.tf - p.t0)
    o = {k: v for k, v in c["opts"].items() if k != "first_frac"}
    a = drive(SWAG, p, rtol, atol, o, kw=dict(first_step=h0), dense=False)
    require(a.status == "finished", "failed: %s", a.message)
    k = min(c["step"], a.t.size - 1)
    tb = float(a.t[k])
    for _ in range(c["ulps"]):
        tb = float(np.nextafter(tb, p.dir * np.inf))
    kw = dict(first_step=min(h0, abs(tb - p.t0)))
    if "max_frac" in o:
        kw["max_step"] = o["max_frac"] * abs(p.tf - p.t0)
    tr = drive(SWAG, p, rtol, atol, o, kw=kw, t_bound=tb)
    require(tr.status == "finished", "failed: %s", tr.message)
    require(tr.t[-1] == tb, "ended at %r instead of %r", tr.t[-1], tb)
    rnd = 1e-14 * np.max(np.abs(tr.y)) * tr.t.size + 1e-14 * abs(p.t0) * np.max(np.abs(p.fun(p.t0, p.y0)))
    b = p.amp * (acc_bound("SWAG", rtol, True) * tol + rnd)
    for i, s in enumerate(tr.sol):
        for th in (0.0, 0.5, 1.0):
            x = tr.t[i] + th * (tr.t[i + 1] - tr.t[i])
            e = np.max(np.abs(s(x) - p.exact(x)))
            require(e <= b, "error %.3g at %g of step %d of %d, allowed %.3g", e, th, i, tr.t.size - 1, b)
    return ["tiny last step" if abs(tr.t[-1] - tr.t[-2]) < 1e-14 * abs(tb) else "normal"]


# --------------------------------------------------------------------- work ---
@st.composite
def work_case(draw):
    spec = draw(pr.first_order(span=(2.0, 8.0)) if draw(st.booleans()) else pr.second_order(span=(2.0, 8.0)))
    return dict(method="SWAG", spec=spec, rtol=draw(logu(-10, -7.5)), opts={}, af=1.0,
                k=draw(st.integers(5, 12)))


WORK = 1.15


def work(c):
    p = build(c["spec"])
    rtol, atol, _ = tols(c, p)
    n = {}
    for k in (3, 4, c["k"]):
        tr = drive(SWAG, p, rtol, atol, {"k_max": k}, dense=False)
        require(tr.status == "finished", "failed: %s", tr.message)
        n[k] = tr.w.calls
    low = min(n[3], n[4])
    require(n[c["k"]] <= WORK * low + 15, "%d evaluations with k_max=%d, but %d with a lower maximum", n[c["k"]], c["k"], low)
    return ["rtol 1e%.0f ratio %.1f" % (np.log10(rtol), n[c["k"]] / low)]


SUBS = [Sub("pece", pece_case(), pece, 1100, 30000),
        Sub("accuracy", base(hi=-3.0), accuracy, 1200, 30000),
        Sub("end", end_case(), end, 400, 8000),
        Sub("tight", tight_case(), tight, 300, 6000),
        Sub("work", work_case(), work, 300, 6000)]
