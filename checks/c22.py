"""C22: right-hand sides with jumps and kinks"""
import numpy as np
from hypothesis import strategies as st

from checks import c04
from pbt import problems as pr
from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, mags, num
from pbt.methods import FIRST, METHODS, NAMES, RKN, drive, options, require_ok
from pbt.problems import KINDS, Mod, build, rotation

RULE = ("a case is a problem with closed-form solution whose right-hand side has generated jumps or kinks (at times, or "
        "at states that the solution crosses), mixed with smooth components by a rotation, with a method and options; "
        "non-trivial when the solution crosses at least one jump or kink; 'fallback': every step of CKdisc is recomputed from its formulas")


# ------------------------------------------------------- first-order modules ---
class Piecewise(Mod):
    """z' = -k z + c0_j + c1_j (t - a_j) on [a_j, a_j+1)"""

    def __init__(s, p):
        s.k, s.z0 = p["k"], np.array([p["z"]])
        s.a = np.array([-1e9] + sorted(p["at"]))
        s.c0, s.c1 = [p["c0"][0]], [0.0]
        for j in range(1, s.a.size):
            left = s.c0[-1] + (s.c1[-1] * (s.a[j] - s.a[j - 1]) if j > 1 else 0.0)
            s.c0.append(p["c0"][j] if p["jump"] else left)
            s.c1.append(p["c1"][j])
        s.c0, s.c1 = np.array(s.c0), np.array(s.c1)

    def crossings(s, L): return int(np.sum((s.a > 0) & (s.a < L)))

    def f(s, t, z):
        j = np.searchsorted(s.a, t, side="right") - 1
        return -s.k * z + s.c0[j] + s.c1[j] * (t - s.a[j]) * (j > 0)

    def jac(s, t, z): return np.array([[-s.k]])

    def flow(s, t, z0):
        t = np.asarray(t, float)
        out = np.empty(np.broadcast(t, z0[0]).shape)
        flat, k = out.reshape(-1), s.k
        for i, x in enumerate(np.broadcast_to(t, out.shape).reshape(-1)):
            z, now = float(np.real(z0[0])), 0.0
            while True:
                j = np.searchsorted(s.a, now, side="right") - 1
                end = min(x, s.a[j + 1]) if j + 1 < s.a.size else x
                if end < now or x < 0:
                    end = x
                c1 = s.c1[j] if j > 0 else 0.0

                def part(q): return (s.c0[j] + c1 * (q - s.a[j])) / k - c1 / k ** 2
                z = (z - part(now)) * np.exp(-k * (end - now)) + part(end)
                now = end
                if now >= x or x < 0:
                    break
            flat[i] = z
        return np.array([out])


class Relay(Mod):
    """z' = r1 below the level, r2 above it"""

    def __init__(s, p): s.r1, s.r2, s.lev, s.z0 = p["r1"], p["r2"], p["lev"], np.array([0.0])
    def crossings(s, L): return int(s.lev < s.r1 * L)
    def f(s, t, z): return np.where(z < s.lev, s.r1, s.r2) + 0 * z
    def jac(s, t, z): return np.zeros((1, 1))

    def flow(s, t, z0):
        t1 = (s.lev - z0[0]) / s.r1
        return np.array([np.where(t < t1, z0[0] + s.r1 * t, s.lev + s.r2 * (t - t1))])


class Corner(Mod):
    """z' = b + k |z - level|"""

    def __init__(s, p): s.b, s.k, s.lev, s.z0 = p["b"], p["k"], p["lev"], np.array([0.0])
    def t1(s, z0): return np.log((s.lev - z0 + s.b / s.k) / (s.b / s.k)) / s.k
    def crossings(s, L): return int(s.t1(0.0) < L)
    def f(s, t, z): return s.b + s.k * np.abs(z - s.lev)
    def jac(s, t, z): return np.array([[s.k * np.sign(z[0] - s.lev)]])

    def flow(s, t, z0):
        q, t1 = s.b / s.k, s.t1(z0[0])
        t = np.asarray(t, float)
        left = s.lev - ((s.lev - z0[0] + q) * np.exp(-s.k * t) - q)
        right = s.lev + q * np.expm1(s.k * np.maximum(t - t1, 0.0))
        return np.array([np.where(t < t1, left, right)])


KINDS.update(piecewise=Piecewise, relay=Relay, corner=Corner)
ROUGH = ("piecewise", "relay", "corner")


@st.composite
def times(draw, n):
    """well separated: a pulse that falls between the stages of a step cannot be seen"""
    t = [draw(num(0.02, 3.0))]
    while len(t) < n:
        t.append(round(t[-1] + draw(num(0.25, 1.5)), 3))
    return t


@st.composite
def rough_mod(draw):
    kind = draw(st.sampled_from(ROUGH))
    if kind == "piecewise":
        n = draw(st.integers(1, 4))
        at = draw(times(n))
        return dict(kind=kind, k=draw(num(0.2, 3.0)), z=draw(mags(0.2, 1.5)), at=at, jump=draw(st.booleans()),
                    c0=[draw(num(-3, 3)) for _ in range(n + 1)],
                    c1=[draw(num(-5, 5)) for _ in range(n + 1)])
    if kind == "relay":
        return dict(kind=kind, r1=draw(num(0.3, 2)), r2=draw(num(0.3, 2)), lev=draw(num(0.05, 2)))
    return dict(kind=kind, b=draw(num(0.3, 2)), k=draw(num(0.2, 0.9)), lev=draw(num(0.05, 2)))


@st.composite
def rough_first(draw):
    mods = draw(st.lists(rough_mod(), min_size=1, max_size=2))
    mods += draw(st.lists(pr.module([k for k in pr.PLAIN if k not in ("hopf", "nlrot", "rot", "chain")]), max_size=1))
    n = len(mods)
    return dict(kind="fo", mods=mods, ang=draw(st.lists(num(-3.1, 3.1, 2), min_size=n - 1, max_size=n - 1)),
                span=draw(num(0.5, 4.0)), dir=draw(st.sampled_from([1, -1])),
                c=draw(st.one_of(st.just(0.0), num(-3, 3, 2))), scale=draw(st.sampled_from([1.0, 1e-3, 1e3])))


# ------------------------------------------------------ second-order problems ---
class Well:
    """x'' = -w1^2 x (x >= 0) or -w2^2 x ('bilinear', a kink);  x'' = -g1 or +g2 ('vee', a jump)"""

    def __init__(s, p): s.p, s.x0, s.v0 = p, p["x"], p["v"]

    def acc(s, t, x):
        p = s.p
        if p["kind"] == "bilinear":
            return np.where(x >= 0, -p["a"] ** 2, -p["b"] ** 2) * x
        return np.where(x >= 0, -p["a"], p["b"]) + 0 * x

    def piece(s, up, x, v, dt):
        p = s.p
        q = p["a"] if up else p["b"]
        if p["kind"] == "bilinear":
            c, sn = np.cos(q * dt), np.sin(q * dt)
            return x * c + v / q * sn, v * c - x * q * sn
        g = -q if up else q
        return x + v * dt + g * dt * dt / 2, v + g * dt

    def leave(s, up, x, v):
        """time until x returns to 0 on this side"""
        p = s.p
        q = p["a"] if up else p["b"]
        if not up:
            x, v = -x, -v
        if p["kind"] == "bilinear":
            ph = np.arctan2(x * q, v)                  # x = A sin(q t + ph), ph in [0, pi]
            return (np.pi - ph) / q
        return (v + np.sqrt(v * v + 2 * q * x)) / q

    def flow(s, t, x0, v0):
        """t increasing"""
        X, V, n = [], [], 0
        x, v, now = x0, v0, 0.0
        up = x > 0 or (x == 0 and v > 0)
        T = s.leave(up, x, v)
        for q in t:
            while now + T < q:
                x, v = s.piece(up, x, v, T)
                now, x, up = now + T, 0.0, not up
                n += 1
                T = s.leave(up, x, v)
            a, b = s.piece(up, x, v, q - now)
            X.append(a)
            V.append(b)
        s.n = n
        return np.array(X), np.array(V)


class Push:
    """x'' = -w^2 x + c_j on [a_j, a_j+1)"""

    def __init__(s, p):
        s.p, s.x0, s.v0 = p, p["x"], p["v"]
        s.a, s.c = np.array([-1e9] + sorted(p["at"])), p["c"]

    def acc(s, t, x):
        j = np.searchsorted(s.a, t, side="right") - 1
        return -s.p["w"] ** 2 * x + s.c[j]

    def flow(s, t, x0, v0):
        X, V, w = [], [], s.p["w"]
        for q in t:
            x, v, now = x0, v0, 0.0
            s.n = 0
            while now < q or q == 0:
                j = np.searchsorted(s.a, now, side="right") - 1
                end = min(q, s.a[j + 1]) if j + 1 < s.a.size else q
                m = s.c[j] / w ** 2
                cs, sn = np.cos(w * (end - now)), np.sin(w * (end - now))
                x, v = m + (x - m) * cs + v / w * sn, v * cs - (x - m) * w * sn
                s.n += end < q
                now = end
                if q == 0:
                    break
            X.append(x)
            V.append(v)
        return np.array(X), np.array(V)


class Second:
    def __init__(s, d):
        s.mods = [Push(m) if m["kind"] == "push" else Well(m) for m in d["mods"]]
        s.m, s.n = len(s.mods), 2 * len(s.mods)
        s.T = rotation(s.m, d["ang"]) if d["ang"] else np.eye(s.m)
        s.dir, s.sc, s.t0 = d["dir"], d["scale"], d["c"]
        s.L = d["span"]
        s.tf = s.t0 + s.dir * s.L
        s.y0 = s.sc * np.concatenate((s.T @ [m.x0 for m in s.mods], s.dir * (s.T @ [m.v0 for m in s.mods])))
        g = np.linspace(0, s.L, 25)
        s.amp = 1.0
        for m in s.mods:
            D = np.empty((g.size, 2, 2))
            for j in range(2):
                e = np.zeros(2)
                e[j] = 1e-6
                a, b = m.flow(g, m.x0 + e[0], m.v0 + e[1]), m.flow(g, m.x0 - e[0], m.v0 - e[1])
                D[:, :, j] = (np.array(a) - np.array(b)).T / 2e-6
            inv = [np.linalg.pinv(d) for d in D]
            s.amp = max(s.amp, max(np.linalg.norm(D[j] @ inv[i], 2) for i in range(0, 25, 3) for j in range(i, 25, 3)))

    def crossings(s):
        out = 0
        for m in s.mods:
            m.flow([s.L], m.x0, m.v0)
            out += m.n
        return out

    def fun(s, t, y):
        y = np.asarray(y)
        z = (s.T.T @ y[:s.m]) / s.sc
        tau = s.dir * (t - s.t0)
        return np.concatenate((y[s.m:], s.sc * (s.T @ np.array([m.acc(tau, q) for m, q in zip(s.mods, z)]))))

    def exact(s, t):
        """t in the order of integration"""
        tau = np.atleast_1d(s.dir * (np.asarray(t, float) - s.t0))
        X, V = zip(*[m.flow(tau, m.x0, m.v0) for m in s.mods])
        return np.concatenate((s.sc * (s.T @ np.array(X)), s.dir * s.sc * (s.T @ np.array(V))))


@st.composite
def rough_second(draw):
    mods = []
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.sampled_from(["vee", "bilinear", "push"]))
        if k == "push":
            n = draw(st.integers(1, 3))
            mods.append(dict(kind=k, w=draw(num(0.3, 3)), at=draw(times(n)),
                             c=[draw(num(-3, 3)) for _ in range(n + 1)], x=draw(num(-1, 1)), v=draw(mags(0.2, 1.5))))
        else:
            mods.append(dict(kind=k, a=draw(num(0.5, 3)), b=draw(num(0.5, 3)), x=draw(mags(0.1, 1)), v=draw(mags(0.3, 1.5))))
    n = len(mods)
    return dict(kind="rough2", mods=mods, ang=draw(st.lists(num(-3.1, 3.1, 2), min_size=n - 1, max_size=n - 1)),
                span=draw(num(0.5, 4.0)), dir=draw(st.sampled_from([1, -1])),
                c=draw(st.one_of(st.just(0.0), num(-3, 3, 2))), scale=draw(st.sampled_from([1.0, 1e-3, 1e3])))


# ---------------------------------------------------------------------- check ---
@st.composite
def case(draw, names=NAMES):
    name = draw(st.sampled_from(names))
    m = METHODS[name]
    second = m.nystrom or (m.kind in ("rk", "ckdisc", "multistep") and draw(st.integers(0, 2)) == 0)
    o = draw(options(m, jac=True))
    if o.get("first_frac", 0) > 0.1:
        o["first_frac"] = 0.1
    lo = max(-7, m.rtol_min) if m.kind not in ("esdirk", "rkc") else -5
    if o.get("k_max", 12) < 4:
        lo = -5
    return dict(method=name, spec=draw(rough_second() if second else rough_first()), rtol=draw(logu(lo, -3)), opts=o,
                af=draw(st.sampled_from([1.0, 0.1])))


# Ratios of error to tolerance level x amplification x (1 + number of crossings), at the
# points and in between: 2.5 times about 3 times the 99 % quantile of 50000 random cases on the present
# code. The error estimate of any method vanishes for certain positions of a jump within
# the step, so a larger ratio counts only if it is seen for other positions too.
FAC = dict(BS5=(300, 300), CK5=(60, 60), Ts5=(80, 90), Me4=(10, 10), Pr7=(8, 9), Pr8=(4, 5),
           Pr9=(18, 18), CFMR7osc=(100, 100), CKdisc=(45, 48), SWAG=(45, 45), SSV2stab=(10, 10),
           Fi4N=(18, 18), Fi5N=(70, 90), Mu5Nmb=(2.5, 2.5), MR6NN=(25, 25), TRBDF2=(7, 7), TRX2=(6, 6),
           KC3I=(30, 32), KC4I=(27, 27), KC4Ia=(40, 40), Kv3I=(4, 4))


def judge(c):
    m = METHODS[c["method"]]
    second = c["spec"]["kind"] == "rough2"
    p = Second(c["spec"]) if second else build(c["spec"])
    o = dict(c["opts"])
    n = p.crossings() if second else sum(
        q.crossings(c["spec"]["span"]) for q in p.mods if hasattr(q, "crossings"))
    g = p.t0 + (p.tf - p.t0) * np.linspace(0, 1, 30)
    ymax = np.max(np.abs(p.exact(g)))
    rtol, atol = c["rtol"], c["rtol"] * c["af"] * ymax
    kw = {}
    if m.kind == "rkc":
        kw["rho_jac"] = lambda t, y: 8.0
    tr = drive(m, p, rtol, atol, o, kw=kw)
    if m.kind == "esdirk" and tr.status == "failed" and "spacing" in tr.message and any(
            k["kind"] == "relay" and k["r2"] < k["r1"] for k in c["spec"]["mods"]):
        # where the derivative drops, the equations of a stage have no solution if the
        # level lies between the ends given by the two rates
        raise Inconclusive("no solution of the stage equations at a drop")
    require_ok(m, tr.status == "finished", tr.message)
    tol = rtol * ymax + atol
    e1 = np.max(np.abs(tr.y - p.exact(tr.t)))
    e2, at = 0.0, 0
    th = np.array([0.15, 0.5, 0.85])
    for i, s in enumerate(tr.sol):
        x = tr.t[i] + th * (tr.t[i + 1] - tr.t[i])
        e = np.max(np.abs(s(x) - p.exact(x)))
        if e > e2:
            e2, at = e, i
    if m.name == "CFMR7osc":
        # its error estimate has no weight in the last 9 % of the step (published coefficients)
        f = np.array([p.fun(t, y) for t, y in zip(tr.t, tr.y.T)])
        q = np.sort(np.abs(np.diff(tr.t)) * np.max(np.abs(np.diff(f, axis=0)), axis=1))
        tol = tol + 0.1 * np.sum(q[-n:]) / FAC[m.name][0] if n else tol
    unit = p.amp * tol * (1 + n)
    return m, tr, n, e1 / unit, e2 / unit, at


def rough(c):
    m, tr, n, r1, r2, at = judge(c)
    f = 2.5 * np.array(FAC[m.name]) * (1 if c["rtol"] <= 1e-4 else 4)
    if r1 > f[0] or r2 > f[1]:
        others = []
        for q in (0.9, 1.12, 0.8, 1.23):
            mods = [{k: [v * q for v in x] if k == "at" else x * q if k == "lev" or k == "x" and "at" not in d else x
                     for k, x in d.items()} for d in c["spec"]["mods"]]
            d = dict(c, spec=dict(c["spec"], span=c["spec"]["span"] * (0.7 + 0.3 * q), mods=mods), rtol=c["rtol"] * q)
            others.append(judge(d)[3:5])
        k = sum(a[0] > f[0] / 3 or a[1] > f[1] / 3 for a in others)
        if k >= 4:
            require(False, "error is %.3g (at the steps) or %.3g (in between, step %d) times the tolerance level, allowed "
                    "%.3g and %.3g; similar problems: %s", r1, r2, at, f[0], f[1], [tuple(float("%.3g" % x) for x in o) for o in others])
    return [m.name, "second" if c["spec"]["kind"] == "rough2" else "first"] if n else []


SUBS = [Sub("rough", case(), rough, 6000, 100000),
        Sub("ckdisc", case(["CKdisc"]), rough, 2500, 50000),
        # every accepted (sub-)step is one of the published formulas, with an error estimate below 1
        Sub("fallback", c04.rough_case().map(lambda c: dict(c, method="CKdisc")), c04.rough, 1500, 30000)]
