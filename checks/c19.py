"""C19: the stabilised solver SSV2stab on problems with real negative spectra"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.fft import dct
from scipy.integrate import solve_ivp

import extensisq as ex
from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, mags, num
from pbt.methods import Watch

RULE = ("a case is a semi-discretised diffusion-like problem with closed-form solution (eigenvalues, eigenvectors, "
        "forcing or nonlinear transformation generated) with a way to supply the spectral radius; non-trivial when "
        "the spectral radius times the interval exceeds 50 and at least 3 steps were compared with the true solution")


class Diffusion:
    """linear: y = s(g(t) + V e(t) z0), y' = s(g' - a(t) A (y/s - g)) with A = V diag(lam) V^T, e = exp(-lam int a);
    exp: y = s exp(w), w = V e(t) z0;  cubic: y = s g(t), y' = s(g' - a A (y/s - g) - c (y/s - g)^3)"""

    def __init__(s, d):
        s.d, s.kind, n = d, d["kind"], d["n"]
        s.n, s.dir, s.c = n, d["dir"], d["c"]
        k = np.arange(n) / max(n - 1, 1)
        if d["spread"] == "laplace":
            x = np.sin(0.5 * np.pi * k) ** 2
        elif d["spread"] == "log":
            x = 10.0 ** (-6 * (1 - k)) * (k > 0)
        elif d["spread"] == "two":
            x = np.where(k > 0.6, 1.0, 1e-6)
        else:
            x = 0.85 + 0.15 * k       # the power method could miss the largest of a wide cluster
        s.lam = d["rho"] * x if n > 1 else np.array([d["rho"]])
        s.slow = s.lam * d["span"] <= 10
        s.V = dct(np.eye(n), norm="ortho", axis=0).T
        s.A = (s.V * s.lam) @ s.V.T
        s.z0 = np.array([d["z"][i % len(d["z"])] for i in range(n)]) / np.sqrt(n)
        s.z0 = s.z0 * np.sqrt(n) / np.maximum(1, np.arange(n)) ** 1.0
        if s.kind == "exp":
            s.z0 = 0.4 * s.z0
        if not d["excite"] or s.kind == "exp":
            s.z0 = s.z0 * s.slow
        s.w0 = d["w"] * (1 + np.arange(n) / n)
        s.amp = d["b"] * np.cos(np.arange(n))
        s.r = d["r"]
        s.sc = d["scale"]
        s.t0 = s.c
        s.tf = s.c + s.dir * d["span"]

    def a(s, x): return 1 + s.r * x
    def ia(s, x): return x + s.r * x * x / 2
    def g(s, x): return s.amp * np.sin(s.w0 * x + 0.3) + 1.0
    def dg(s, x): return s.amp * s.w0 * np.cos(s.w0 * x + 0.3)

    def z(s, x): return s.V @ (np.exp(-s.lam * s.ia(x)) * s.z0)

    def fun(s, t, y):
        if np.ndim(y) == 2:
            return np.stack([s.fun(t, v) for v in y.T], axis=1)
        x = s.dir * (t - s.c)
        u = y / s.sc
        if s.kind == "exp":
            f = -s.a(x) * u * (s.A @ np.log(np.maximum(u, 1e-300)))
        else:
            e = u - s.g(x)
            f = s.dg(x) - s.a(x) * (s.A @ e)
            if s.kind == "cubic":
                f = f - s.d["cub"] * e ** 3
        return s.dir * s.sc * f

    def exact(s, t):
        x = s.dir * (t - s.c)
        if s.kind == "exp":
            return s.sc * np.exp(s.z(x))
        if s.kind == "cubic":
            return s.sc * s.g(x)
        return s.sc * (s.g(x) + s.z(x))

    def rho(s, t, ahead=1.0):
        """upper bound during the time ahead"""
        x = min(s.dir * (t - s.c) + ahead * s.d["span"], s.d["span"])
        more = 3 * s.d["cub"] + (10 / s.d["span"] if s.kind == "exp" else 0)
        return float(s.a(x) * s.d["rho"]) + more


def mmax(rtol):
    return max(2, int(round(np.sqrt(rtol / (10 * 2.2e-16)))))


@st.composite
def problem(draw, rtol, hi=6.0):
    n = draw(st.sampled_from([8, 20, 1, 2, 3, 5, 40]))
    span = draw(st.one_of(num(0.3, 3), logu(-2, 2)))
    kind = draw(st.sampled_from(["linear", "linear", "cubic", "exp"]))
    # the number of stages is limited to control rounding errors, which limits the stiffness
    top = min(hi, np.log10(20 * mmax(rtol) ** 2 / 1.54))
    d = dict(kind=kind, n=n, rho=draw(logu(0.7, top)) / span, span=span, dir=draw(st.sampled_from([1, -1])),
             c=draw(st.one_of(st.just(0.0), num(-3, 3, 2))), scale=draw(st.sampled_from([1.0, 1e-3, 1e3, 1e-8])),
             spread=draw(st.sampled_from(["laplace", "laplace", "log", "two", "flat"])),
             excite=draw(st.booleans()), z=draw(st.lists(num(-1, 1, 2), min_size=1, max_size=4)),
             w=draw(num(0.2, 3, 2)) / span, b=draw(mags(0.01, 0.6)), cub=0.0, r=0.0)
    if kind == "cubic":
        d["cub"] = draw(num(0, 5, 1)) / span
    if kind == "linear" and draw(st.booleans()):
        d["r"] = draw(num(0.1, 30, 1)) / span
        d["rho"] /= 1 + d["r"] * span
    if draw(st.integers(0, 15)) == 5:
        d["rho"] = 0.0
    return d


SUPPLY = ["none", "rho", "over", "const", "rhoconst"]


@st.composite
def case(draw):
    rtol = draw(logu(-6, -3))
    d = draw(problem(rtol))
    sup = [x for x in SUPPLY if not (x in ("const", "rhoconst") and (d["r"] or d["kind"] == "exp"))]
    sup = [draw(st.sampled_from(sup)) for _ in (0, 1)]
    if "none" in sup:
        # estimated again after 25 steps, with a margin of 20%
        d["r"] = min(d["r"], 0.15 / d["span"])
    first = draw(st.one_of(st.none(), st.none(), logu(-5, 0)))
    if first and ("none" in sup or "const" in sup):
        # the first estimate of the radius can miss fast modes: forced long steps would overflow
        first = min(first, 0.01)
    return dict(rtol=rtol, prob=d, supply=sup, first=first,
                over=draw(num(1, 4, 1)),
                max=draw(st.sampled_from([None, None, None, 0.3, 0.07])), af=draw(st.sampled_from([1.0, "vec", 0.1])),
                vec=draw(st.booleans()))


class Run:
    pass


def run(c, p, supply, ymax, **more):
    rtol = c["rtol"]
    atol = rtol * ymax * (1.0 if c["af"] == "vec" else c["af"])
    if c["af"] == "vec":
        atol = atol * (1 - 0.3 * np.arange(p.n) / p.n)
    T = abs(p.tf - p.t0)
    kw = dict(more)
    asked = []
    if c["first"]:
        kw["first_step"] = c["first"] * T * (1 - 1e-12)
    if c["max"]:
        kw["max_step"] = c["max"] * T
    if supply in ("const", "rhoconst"):
        kw["const_jac"] = True
    if supply in ("rho", "over", "rhoconst"):
        fac = c["over"] if supply == "over" else 1.0

        def rho_jac(t, y):
            asked.append(t)
            return max(p.rho(t, c["max"] or 1.0), 1e-3 / T) * fac
        kw["rho_jac"] = rho_jac
    w = Watch(p.fun, 60000)
    o = Run()
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        s = ex.SSV2stab(w, p.t0, p.exact(p.t0), p.tf, rtol=rtol, atol=atol, vectorized=c["vec"], **kw)
        o.err = o.mid = 0.0
        o.h = []
        while s.status == "running":
            msg = s.step()
            if s.status == "failed" and "spectral radius" in str(msg) and "rho_jac" not in kw:
                # an honest refusal: counted, and limited by the share of such cases
                raise Inconclusive("spectral radius estimate did not converge")
            require(s.status != "failed", "failed: %s (at t=%s)", msg, s.t)
            o.h.append(s.t - s.t_old)
            o.err = max(o.err, np.max(np.abs(s.y - p.exact(s.t))))
            x = (s.t + s.t_old) / 2
            o.mid = max(o.mid, np.max(np.abs(s.dense_output()(x) - p.exact(x))))
    o.stiffwarn = any("too stiff" in str(x.message) for x in wl)
    o.calls, o.nfev, o.asked = w.calls, s.nfev, asked
    o.h = np.abs(np.array(o.h))
    o.points = w.points
    return o


def check(c):
    d = c["prob"]
    p = Diffusion(d)
    T = d["span"]
    ymax = max(np.max(np.abs(p.exact(t))) for t in np.linspace(p.t0, p.tf, 20))
    tol = 2 * c["rtol"] * ymax
    rho1 = max(p.rho(p.t0), p.rho(p.tf))
    tags = []
    for sup in dict.fromkeys(c["supply"]):
        o = run(c, p, sup, ymax)
        b = ACC * tol * (1 if c["rtol"] <= 1e-4 else 3)
        require(o.err <= b, "%s: error %.3g, allowed %.3g (tolerance %.3g)", sup, o.err, b, tol)
        require(o.mid <= 2 * b, "%s: dense output error %.3g, allowed %.3g (tolerance %.3g)", sup, o.mid, 2 * b, tol)
        N = o.h.size
        fac = {"over": c["over"], "rho": 1.0, "rhoconst": 1.0}.get(sup, 1.25)
        stages = np.sum(2 + np.sqrt(1.54 * o.h * rho1 * fac + 1))
        work = WORK * (1 + bool(d["r"]) + (d["kind"] == "exp")) * stages + 20
        require(o.nfev <= work, "%s: %d evaluations in %d steps, %d are needed", sup, o.nfev, N, stages)
        # number of steps: smooth part of the solution, transients, limits on steps and stages
        m = mmax(c["rtol"])
        lim = T * rho1 * fac * 1.54 / m ** 2 + (1 / c["max"] if c["max"] else 0)
        steps = 30 + STEPS * (1 + d["excite"] + (d["r"] > 0)) * c["rtol"] ** (-1 / 3) + 2 * lim
        if sup in ("none", "const") and p.n > 1 and d["spread"] != "flat":
            # the power method can miss fast modes that are not present at the start, which costs
            # rejected steps, or short steps when a wrong radius is kept
            steps *= 3 if sup == "none" else 20
        require(N <= steps, "%s: %d steps, at most %d expected", sup, N, steps)
        if sup in ("rho", "over", "rhoconst"):
            require(o.calls == o.nfev, "%s: the spectral radius is estimated although it was given (%d calls, %d nfev)",
                    sup, o.calls, o.nfev)
            require(all(min(p.t0, p.tf) <= t <= max(p.t0, p.tf) for t in o.asked), "rho_jac called outside")
            if sup != "rhoconst":
                # documented: called every step
                require(len(o.asked) >= N, "rho_jac called %d times in %d steps", len(o.asked), N)
            if sup == "rhoconst":
                require(len(o.asked) <= 4, "rho_jac called %d times, the Jacobian is constant", len(o.asked))
        elif sup == "const":
            require(o.calls - o.nfev <= 55, "%d evaluations to estimate the radius of a constant Jacobian",
                    o.calls - o.nfev)
        else:
            require(o.calls - o.nfev <= 55 * (2 + N), "%d evaluations to estimate spectral radii in %d steps",
                    o.calls - o.nfev, N)
        if T * rho1 > 50 and N >= 3:
            tags += [sup, d["kind"], "excited" if d["excite"] else "slow"]
    return tags


ACC, WORK, STEPS = 120.0, 2.0, 4.5


# ------------------------------------------------------ growth of the work ---
@st.composite
def growth_case(draw):
    rtol = draw(logu(-5, -3))
    d = draw(problem(rtol, hi=4.0))
    d["excite"] = False
    d["rho"] = draw(logu(2.0, 3.0)) / d["span"]
    d["spread"] = draw(st.sampled_from(["two", "flat"]))
    sup = draw(st.sampled_from(["none", "rho"]))
    if sup == "none":
        d["r"] = 0.0
    return dict(rtol=rtol, prob=d, supply=sup, first=None, max=None, af=1.0,
                vec=False, over=1.0, up=draw(st.sampled_from([30.0, 100.0])))


def growth(c):
    """only fast modes that are not excited get faster: the steps stay, the work grows with the square root"""
    d = c["prob"]
    p = Diffusion(d)
    q = Diffusion(dict(d, rho=d["rho"] * c["up"]))
    if p.n > 1 and d["spread"] == "two":
        q.lam = np.where(p.lam > 10 / d["span"], q.lam, p.lam)
        q.A = (q.V * q.lam) @ q.V.T
    p.z0[:] = q.z0[:] = 0
    ymax = max(np.max(np.abs(p.exact(t))) for t in np.linspace(p.t0, p.tf, 20))
    a, b = run(c, p, c["supply"], ymax), run(c, q, c["supply"], ymax)
    require(b.h.size <= 3 * a.h.size + 10, "%d steps, %d when fast modes are %g times faster", a.h.size, b.h.size, c["up"])
    lim = 2.0 * np.sqrt(c["up"]) * a.nfev + 10 * b.h.size + 20
    require(b.nfev <= lim, "%d evaluations, %d when fast modes are %g times faster", a.nfev, b.nfev, c["up"])
    # a method with a limited step would need about rho T / 2 evaluations
    return [d["kind"], c["supply"]]


# ------------------------------------------------ a radius that becomes smaller ---
@st.composite
def falling_case(draw):
    rtol = draw(logu(-6, -4))
    d = draw(problem(rtol))
    span = d["span"]
    d.update(kind="linear", spread=draw(st.sampled_from(["flat", "two", "laplace"])), r=0.0, cub=0.0,
             n=draw(st.sampled_from([1, 3, 8, 20])), rho=draw(logu(1, 2.5)) / span, excite=False,
             w=draw(num(20, 60, 1)) / span, b=draw(mags(0.2, 0.6)), high=draw(logu(1.5, 3.5)), k=draw(num(6, 40, 1)) / span)
    return dict(rtol=rtol, prob=d, first=draw(st.one_of(st.none(), logu(-5, -3))), max=None,
                af=draw(st.sampled_from([1.0, "vec"])), vec=draw(st.booleans()), over=1.0)


class Falling(Diffusion):
    def a(s, x): return 1 + s.d["high"] * np.exp(-s.d["k"] * x)
    def ia(s, x): return x - s.d["high"] * np.expm1(-s.d["k"] * x) / s.d["k"]
    def rho(s, t, ahead=0.0): return float(s.a(s.dir * (t - s.c)) * s.d["rho"])


def falling(c):
    """estimated again every 25 steps, the radius does not keep a value that is much too large"""
    d = c["prob"]
    p = Falling(d)
    p.z0[:] = 0
    ymax = max(np.max(np.abs(p.exact(t))) for t in np.linspace(p.t0, p.tf, 30))
    o, q = run(c, p, "none", ymax), run(c, p, "rho", ymax)
    tol = 2 * c["rtol"] * ymax
    require(o.err <= 2 * ACC * tol and q.err <= 2 * ACC * tol, "errors are %.3g and %.3g, the tolerance level is %.3g",
            o.err, q.err, tol)
    x = np.concatenate(([0.0], np.cumsum(o.h)))[:-1]
    R = np.array([p.rho(p.t0 + p.dir * t) for t in x])

    def work(R): return float(np.sum(1 + np.sqrt(1.54 * o.h * R + 1)))
    N = o.h.size
    lag = work(1.3 * R[np.maximum(0, np.arange(N) - 27)])
    require(o.nfev <= 1.3 * lag + 30, "%d evaluations in %d steps, %d expected when the radius is estimated every 25 steps, "
            "%d when it is known (then %d steps)", o.nfev, N, lag, q.nfev, q.h.size)
    return [d["spread"]] if work(1.1 * R[:1]) > 2 * (1.3 * lag + 30) else []


SUBS = [Sub("accuracy", case(), check, 3000, 40000),
        Sub("growth", growth_case(), growth, 800, 10000),
        Sub("falling", falling_case(), falling, 250, 8000)]
