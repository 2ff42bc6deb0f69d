"""C14: stiffness detection only observes, and diagnoses correctly"""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, matrix, num, vector
from pbt.methods import METHODS, Watch, kwargs, method_problem, options, require_ok, tols
from pbt.problems import build, rotation

RULE = ("a case is (method, problem, options, detection frequency); non-trivial when the detector ran: "
        "it evaluated the right-hand side (extra calls), or had to judge a stiff problem")
DET = [n for n, m in METHODS.items() if m.detect]


def solve(m, fun, t0, y0, tf, rtol, atol, kw, budget=150000, dense=True):
    """times, states, interpolated states, calls, warnings"""
    w = Watch(fun, budget)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        s = m.cls(w, t0, y0, tf, rtol=rtol, atol=atol, **kw)
        t, y, mid, msg = [s.t], [s.y.copy()], [], None
        while s.status == "running":
            msg = s.step()
            if s.status == "failed":
                break
            if dense:
                mid.append(s.dense_output()((s.t_old + s.t) / 2))
            t.append(s.t)
            y.append(s.y.copy())
    return np.array(t), np.array(y), np.array(mid), w.calls, s.status, msg, wl


# ----------------------------------------------------------------- observes ---
@st.composite
def observe_case(draw):
    kind = draw(st.sampled_from(["problem", "matrix", "matrix", "odd"]))
    det = draw(st.sampled_from([1, 1, 2, 3, 5, 7, 20, 50, 100, 300, 1000, 5000, 10 ** 6]))
    if kind == "problem":
        name, spec = draw(method_problem(DET, span=(1.0, 5.0)))
        c = dict(method=name, spec=spec)
    else:
        name = draw(st.sampled_from(DET))
        n = draw(st.integers(1, 4))
        c = dict(method=name, A=draw(matrix(n, n)), mu=draw(logu(-1, 2)), damp=draw(st.sampled_from([0, 0.3, 1.5])),
                 y0=draw(vector(n)), v0=draw(vector(n)), span=draw(num(0.5, 5)),
                 dir=draw(st.sampled_from([1, -1])), cx=draw(st.integers(0, 2)) == 0)
        if kind == "odd":
            c["odd"] = draw(st.sampled_from(["zero", "const", "time", "nilpotent", "zerostate", "sum"]))
    c["det"] = det
    c["rtol"] = draw(logu(max(METHODS[name].rtol_min, -8), -1.5))
    c["opts"] = draw(options(METHODS[name], detect=False))
    c["ret"] = draw(st.sampled_from(["array", "list", "tuple"]))
    if draw(st.integers(0, 2)) == 0:
        c["jumps"] = draw(st.lists(num(0.05, 0.95), min_size=1, max_size=12))
    return c


class Lin:
    """y' = (mu A - damp mu) y and odd variations (x'' likewise, with damping -x')"""

    def __init__(s, c):
        m = METHODS[c["method"]]
        n1 = len(c["y0"])
        s.second = m.nystrom
        s.strict = m.strict
        s.odd = c.get("odd")
        A = c["mu"] * (np.array(c["A"]) - c["damp"] * np.eye(n1))
        if s.odd == "nilpotent":
            A = np.triu(A, 1)
        if s.odd == "sum":
            A = c["mu"] * np.ones((n1, n1)) * -1.0
        if s.second:
            A = -(A @ A.T) / max(c["mu"], 1)
        s.A = A
        y0 = np.array(c["y0"])
        if s.odd == "zerostate":
            y0 = y0 * 0
        if s.second:
            y0 = np.concatenate((y0, np.array(c["v0"]) + 0.123))
        s.y0 = y0 * np.exp(0.7j) if c["cx"] else y0
        s.n, s.k, s.b = y0.size, n1, np.array(c["v0"])
        s.t0, s.tf = 0.0, c["dir"] * c["span"]
        s.d = c["dir"] if not s.second else 1

    def fun(s, t, y):
        y = np.asarray(y)
        if y.ndim == 2:
            return np.array([s.fun(t, v) for v in y.T.copy()]).T
        x = y[:s.k]
        a = s.d * (s.A @ x)
        if s.odd == "zero":
            a = a * 0
        if s.odd == "const":
            a = a * 0 + s.b
        if s.odd == "time":
            a = a * 0 + s.b * np.cos(20 * t)
        if not s.second:
            return a
        v = y[s.k:]
        return np.concatenate((v, a if s.strict else a - 0.3 * v))


def observe(c):
    m = METHODS[c["method"]]
    p = build(c["spec"]) if "spec" in c else Lin(c)
    L, half = abs(p.tf - p.t0), p.n // 2 if m.nystrom else 0
    kick = 0.7 * np.max(np.abs(p.y0))

    def fun(t, y):
        f = np.array(p.fun(t, y))
        k = sum(abs(t - p.t0) / L > a for a in c.get("jumps", ()))
        if k % 2:
            f[half:] += kick
        if c["ret"] == "list":
            return f.tolist()
        if c["ret"] == "tuple":
            return tuple(f)
        return f
    kw = kwargs(m, c["opts"], p)
    if c["opts"].get("vectorized"):
        c = dict(c, ret="array")
    atol = c["rtol"] * max(np.max(np.abs(p.y0)), 1e-3)
    off = solve(m, fun, p.t0, p.y0, p.tf, c["rtol"], atol, dict(kw, nfev_stiff_detect=0))
    if off[4] == "failed" and off[0].size < 3:
        return []
    on = solve(m, fun, p.t0, p.y0, p.tf, c["rtol"], atol, dict(kw, nfev_stiff_detect=c["det"]), 10 ** 6)
    require(off[4] == on[4] and off[5] == on[5], "status %s (%s), but %s (%s) without detection",
            on[4], on[5], off[4], off[5])
    require(off[0].shape == on[0].shape, "%d steps, but %d without detection", on[0].size, off[0].size)
    for a, b, what in zip(off, on, ("times", "states", "dense output")):
        require(np.array_equal(a, b, equal_nan=True), "%s differ by %.3g from those without detection",
                what, np.max(np.abs(a - b)))
    require(on[3] >= off[3], "fewer calls with detection")
    return [m.name] + ([c.get("odd", "plain")]) if on[3] > off[3] else []


# ---------------------------------------------------------------- diagnoses ---
@st.composite
def stiff_case(draw):
    name = draw(st.sampled_from([n for n in DET if n != "MR6NN"]))
    m = METHODS[name]
    n = draw(st.integers(1, 3))
    c = dict(method=name, slow=draw(st.lists(num(0.1, 1.0), min_size=n - 1, max_size=n - 1)),
             ang=draw(st.lists(num(-3, 3, 2), min_size=n - 1, max_size=n - 1)),
             lam=draw(logu(0, 3.5)), w=draw(num(0.3, 1.5)), dir=draw(st.sampled_from([1, -1])),
             t0=draw(st.sampled_from([0.0, 0.0, 3.0, -50.0])), det=draw(st.sampled_from([100, 200, 400, 1000][1 if name == "Pr9" else 0:])),
             more=draw(num(6, 12, 1)), cx=draw(st.integers(0, 3)) == 0,
             nonlin=draw(st.booleans()), rtol=draw(logu(-4.5, -2)), vec=draw(st.booleans()),
             scale=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e6])))
    if draw(st.integers(0, 11)) == 0:
        c["det"] = 5000
        c["more"] = 3.5
    return c


class Stiff:
    """one mode with rate lam follows cos(w tau), slow modes decay; time in units in
    which the whole interval takes a given number of steps limited by stability"""

    def __init__(s, c, steps):
        m = METHODS[c["method"]]
        s.second = m.nystrom
        s.n1 = 1 + len(c["slow"])
        s.lam, s.w, s.dir, s.t0 = c["lam"], c["w"] * c["lam"] / (steps * 0.3), c["dir"], c["t0"]
        s.slow = np.array(c["slow"]) * c["lam"] / (steps * 0.3)
        s.T = rotation(s.n1, c["ang"]) if s.n1 > 1 else np.eye(1)
        s.L = steps * 3.5 / s.lam
        s.tf = s.t0 + s.dir * s.L
        s.scale = c["scale"] * (np.exp(0.4j) if c["cx"] else 1.0)
        s.nonlin = c["nonlin"] and not c["cx"]
        z = np.concatenate(([1.0], np.full(s.n1 - 1, 0.7)))
        y0 = s.T @ z
        if s.second:
            y0 = np.concatenate((y0 / s.w, s.dir * y0))
        s.y0, s.n = y0 * s.scale, y0.size

    def fun(s, t, y):
        y = np.asarray(y)
        if y.ndim == 2:
            return np.array([s.fun(t, v) for v in y.T.copy()]).T
        tau = s.dir * (t - s.t0)
        v = (y[s.n1:] * s.dir if s.second else y) / s.scale
        z = s.T.T @ v
        e = z[0] - np.cos(s.w * tau)
        if s.nonlin:
            e = e + e * e * e
        f = np.concatenate(([-s.lam * e - s.w * np.sin(s.w * tau)], -s.slow * z[1:]))
        f = s.dir * s.scale * (s.T @ f)
        return np.concatenate((y[s.n1:], f * s.dir)) if s.second else f


STAGES = dict(BS5=7, CK5=6, Ts5=6, Me4=5, Pr7=9, Pr8=12, Pr9=15, CFMR7osc=9, Fi4N=4, Fi5N=6, Mu5Nmb=6)


def stiff(c):
    m = METHODS[c["method"]]
    steps = int(c["det"] * c["more"] / STAGES[m.name])
    p = Stiff(c, steps)
    # the calls that the whole interval takes, limited by stability only
    kw = dict(vectorized=c["vec"])
    atol = c["rtol"] * abs(p.scale)
    off = solve(m, p.fun, p.t0, p.y0, p.tf, c["rtol"], atol, dict(kw, nfev_stiff_detect=0), dense=False)
    if off[4] != "finished":            # a trial step beyond the stability limit overflowed
        raise Inconclusive("failed without detection")
    lam_h = p.lam * p.L / (off[0].size - 1)
    # judge only solves that are long enough and run at the stability limit
    if off[3] < 4 * c["det"] or not limited(m, off, p, lam_h):
        return []
    kw["nfev_stiff_detect"] = c["det"]
    if c["det"] == 5000:
        kw.pop("nfev_stiff_detect")
    on = solve(m, p.fun, p.t0, p.y0, p.tf, c["rtol"], atol, kw, dense=False)
    found = [x for x in on[6] if "diagnosed as stiff" in str(x.message)]
    require(found, "no warning for rate*step %.2f during %d evaluations, tested every %d",
            lam_h, off[3], c["det"])
    require(any("real dominant root" in str(x.message) for x in found), "the root is real, but: %s",
            found[0].message)
    return [m.name, "backward" if c["dir"] < 0 else "forward", "det %d" % c["det"]]


LIMIT = dict(BS5=3.9, CK5=3.7, Ts5=3.5, Me4=3.4, Pr7=4.1, Pr8=4.5, Pr9=4.6, CFMR7osc=4.7)


def limited(m, off, p, lam_h):
    h = p.lam * np.abs(np.diff(off[0]))[20:]
    if h.size < 30:
        return False
    lim = LIMIT.get(m.name)
    if lim is None:
        lim = NYSTROM[m.name]
    # most steps are close to the limit
    return np.mean((h > 0.93 * lim) & (h < 1.4 * lim)) > 0.7


NYSTROM = dict(Fi4N=2.8, Fi5N=3.2, Mu5Nmb=3.2)


# ------------------------------------------------------------------- silent ---
@st.composite
def silent_case(draw):
    name, spec = draw(method_problem(DET, span=(2.0, 20.0)))
    c = dict(method=name, spec=spec, rtol=draw(logu(max(METHODS[name].rtol_min, -8), -4)),
             opts=draw(options(METHODS[name], detect=False, steps=False)), af=draw(st.sampled_from([1.0, 0.1])))
    c["det"] = draw(st.sampled_from([20, 50, 100, 200, 1000]))
    return c


def silent(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, tol = tols(c, p)
    kw = dict(kwargs(m, c["opts"], p), nfev_stiff_detect=c["det"])
    on = solve(m, p.fun, p.t0, p.y0, p.tf, rtol, atol, kw, dense=False)
    if on[4] != "finished":             # long intervals may contain a singularity
        raise Inconclusive("failed")
    found = [str(x.message) for x in on[6] if "is diagnosed" in str(x.message) or "oscillatory" in str(x.message)]
    require(not found, "warned about a smooth problem: %s", found)
    return [m.name] if on[0].size > 20 else []


# -------------------------------------------------- the multistep solver ---
@st.composite
def swag_case(draw):
    n = draw(st.integers(1, 3))
    return dict(k_max=draw(st.sampled_from([1, 2, 3, 4, 5, 5, 6, 8, 12])), stiff=draw(st.booleans()), rtol=draw(logu(-4, -2)), tight=draw(num(-10, -5)),
                method="SWAG", slow=draw(st.lists(num(0.1, 1.0), min_size=n - 1, max_size=n - 1)),
                ang=draw(st.lists(num(-3, 3, 2), min_size=n - 1, max_size=n - 1)), lam=draw(logu(0, 3.5)), w=draw(num(0.3, 1.5)),
                dir=draw(st.sampled_from([1, -1])), t0=draw(st.sampled_from([0.0, 0.0, 3.0, -50.0])), cx=draw(st.integers(0, 3)) == 0,
                nonlin=draw(st.booleans()), vec=draw(st.booleans()), scale=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e6])),
                freq=draw(st.lists(num(0.3, 1.0), min_size=1, max_size=3)), steps=draw(st.integers(300, 900)))


def swag(c, again=True):
    """warns when order 4 suffices for long although higher orders are allowed, i.e. not on smooth problems at tight tolerances"""
    kw = dict(vectorized=c["vec"], k_max=c["k_max"])
    m = METHODS["SWAG"]
    if c["stiff"]:
        p = Stiff(c, c["steps"])
        r = solve(m, p.fun, p.t0, p.y0, p.tf, c["rtol"], c["rtol"] * abs(p.scale), kw, dense=False)
        h = p.lam * np.abs(np.diff(r[0]))
        tag = "stiff"
    else:
        w = np.array(c["freq"])

        def fun(t, y):
            x, v = y[:w.size], y[w.size:]
            return c["dir"] * c["lam"] * np.concatenate(((v.T * w).T, -(x.T * w).T))
        y0 = np.concatenate((np.cos(w), np.sin(w))) * c["scale"]
        rtol = 10 ** c["tight"] if c["k_max"] > 4 else 1e-4
        T = 40 * 2 * np.pi / c["lam"] / w.max()
        r = solve(m, fun, c["t0"], y0, c["t0"] + c["dir"] * T, rtol, rtol * c["scale"], kw, dense=False)
        tag = "smooth"
    if r[4] != "finished":
        raise Inconclusive("failed")
    found = any("stiff" in str(x.message) for x in r[6])
    if c["k_max"] <= 4 or tag == "smooth":
        require(not found, "SWAG warned about stiffness on a %s problem with k_max=%d", tag, c["k_max"])
    elif np.mean(h > 0.2) > 0.8 and h.size > 200:
        if not again:
            return found
        if not found:       # the order may happen to rise now and then: see similar problems
            found = any(swag(dict(c, rtol=c["rtol"] * q, w=c["w"] / q, steps=900), False)
                        for q in (0.93, 0.87, 0.8, 0.73))
        require(found, "SWAG took %d steps on a stiff problem without warning, k_max=%d", h.size, c["k_max"])
    else:
        return []
    return [tag, "k_max %d" % c["k_max"]] if r[0].size > 100 else []


SUBS = [Sub("observe", observe_case(), observe, 3000, 80000),
        Sub("stiff", stiff_case(), stiff, 450, 15000),
        Sub("silent", silent_case(), silent, 1500, 40000),
        Sub("swag", swag_case(), swag, 400, 10000)]
