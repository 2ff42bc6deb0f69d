"""Generated initial value problems with closed-form solutions.

A problem is described by a JSON-able dict (see `first_order` and
`second_order` strategies) and built by `build`.  It is assembled from small
modules with known flow, mixed by an orthogonal (or unitary) matrix T, shifted
in time by c and reflected in time when dir = -1:
    y(t) = scale * T z(dir*(t - c)),   y' = dir * scale * T F(dir*(t - c), z)
All of it is exact up to rounding, so the true solution is an oracle that does
not involve any integrator.
"""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ellipj

from .gen import mags, num


# ---------------------------------------------------------------- modules ---
class Mod:
    """first-order module of dimension d: f(t, z), jac(t, z), flow(t, z0)"""
    d = 1
    analytic = True                       # may be used with complex states


class Lin(Mod):
    def __init__(s, p): s.k, s.z0 = p["k"], np.array([p["z"]])
    def f(s, t, z): return -s.k * z
    def jac(s, t, z): return np.array([[-s.k]])
    def flow(s, t, z0): return np.array([z0[0] * np.exp(-s.k * t)])


class Logistic(Mod):
    def __init__(s, p): s.r, s.z0 = p["r"], np.array([p["z"]])
    def f(s, t, z): return s.r * z * (1 - z)
    def jac(s, t, z): return np.array([[s.r * (1 - 2 * z[0])]])
    def flow(s, t, z0): return np.array([1 / (1 + (1 / z0[0] - 1) * np.exp(-s.r * t))])


class Cubic(Mod):
    def __init__(s, p): s.k, s.z0 = p["k"], np.array([p["z"]])
    def f(s, t, z): return -s.k * z * z * z
    def jac(s, t, z): return np.array([[-3 * s.k * z[0] ** 2]])
    def flow(s, t, z0): return np.array([z0[0] / np.sqrt(1 + 2 * s.k * z0[0] ** 2 * t)])


class TDep(Mod):
    def __init__(s, p):
        s.a, s.w, s.ph, s.z0 = p["a"], p["w"], p.get("ph", 0.), np.array([p["z"]])

    def f(s, t, z): return s.a * np.cos(s.w * t + s.ph) * z
    def jac(s, t, z): return np.array([[s.a * np.cos(s.w * t + s.ph)]])

    def flow(s, t, z0):
        return np.array([z0[0] * np.exp(s.a / s.w * (np.sin(s.w * t + s.ph) - np.sin(s.ph)))])


class Forced(Mod):
    def __init__(s, p):
        s.k, s.w, s.ph, s.z0 = p["k"], p["w"], p.get("ph", 0.), np.array([p["z"]])

    def f(s, t, z): return -s.k * (z - np.cos(s.w * t + s.ph))
    def jac(s, t, z): return np.array([[-s.k]])

    def flow(s, t, z0):
        k, w = s.k, s.w
        D = k * k + w * w

        def part(t): return k * (k * np.cos(w * t + s.ph) + w * np.sin(w * t + s.ph)) / D
        return np.array([(z0[0] - part(0.)) * np.exp(-k * t) + part(t)])


class Sine(Mod):
    def __init__(s, p): s.k, s.z0 = p["k"], np.array([p["z"]])
    def f(s, t, z): return s.k * np.sin(z)
    def jac(s, t, z): return np.array([[s.k * np.cos(z[0])]])
    def flow(s, t, z0): return np.array([2 * np.arctan(np.tan(z0[0] / 2) * np.exp(s.k * t))])


class Rot(Mod):
    d = 2

    def __init__(s, p): s.w, s.g, s.z0 = p["w"], p["g"], np.array([p["z"], p["z2"]])
    def _A(s): return np.array([[-s.g, -s.w], [s.w, -s.g]])
    def f(s, t, z): return s._A() @ z
    def jac(s, t, z): return s._A()

    def flow(s, t, z0):
        c, sn, e = np.cos(s.w * t), np.sin(s.w * t), np.exp(-s.g * t)
        return np.array([e * (c * z0[0] - sn * z0[1]), e * (sn * z0[0] + c * z0[1])])


class Hopf(Mod):
    """nonlinear spiral on to the unit circle, frequency depends on radius"""
    d = 2
    analytic = False

    def __init__(s, p):
        s.m, s.w, s.z0 = p["m"], p["w"], np.array([p["z"], p["z2"]])

    def f(s, t, z):
        x, y = z
        q = s.m * (1 - x * x - y * y)
        return np.array([q * x - s.w * y, q * y + s.w * x])

    def jac(s, t, z):
        x, y = z
        q = s.m * (1 - x * x - y * y)
        return np.array([[q - 2 * s.m * x * x, -2 * s.m * x * y - s.w],
                         [-2 * s.m * x * y + s.w, q - 2 * s.m * y * y]])

    def flow(s, t, z0):
        r2 = z0[0] ** 2 + z0[1] ** 2
        g = 1 / np.sqrt(r2 + (1 - r2) * np.exp(-2 * s.m * t))
        c, sn = np.cos(s.w * t), np.sin(s.w * t)
        return np.array([g * (c * z0[0] - sn * z0[1]), g * (sn * z0[0] + c * z0[1])])


class NLRot(Mod):
    """rotation with a rate that depends on the radius"""
    d = 2
    analytic = False

    def __init__(s, p):
        s.w, s.b, s.z0 = p["w"], p["b"], np.array([p["z"], p["z2"]])

    def f(s, t, z):
        x, y = z
        q = s.w + s.b * (x * x + y * y)
        return np.array([-q * y, q * x])

    def jac(s, t, z):
        x, y = z
        q = s.w + s.b * (x * x + y * y)
        return np.array([[-2 * s.b * x * y, -q - 2 * s.b * y * y],
                         [q + 2 * s.b * x * x, 2 * s.b * x * y]])

    def flow(s, t, z0):
        q = s.w + s.b * (z0[0] ** 2 + z0[1] ** 2)
        c, sn = np.cos(q * t), np.sin(q * t)
        return np.array([c * z0[0] - sn * z0[1], sn * z0[0] + c * z0[1]])


class Chain(Mod):
    """x' = -m x,  y' = -k y + b x^2 + cos(w t + ph) x   (one-way nonlinear coupling)"""
    d = 2

    def __init__(s, p):
        s.m, s.k, s.b, s.w, s.ph = p["m"], p["k"], p["b"], p["w"], p.get("ph", 0.)
        s.z0 = np.array([p["z"], p["z2"]])

    def f(s, t, z):
        x, y = z
        return np.array([-s.m * x, -s.k * y + s.b * x * x + np.cos(s.w * t + s.ph) * x])

    def jac(s, t, z):
        return np.array([[-s.m, 0.], [2 * s.b * z[0] + np.cos(s.w * t + s.ph), -s.k]])

    def flow(s, t, z0):
        m, k, b, w = s.m, s.k, s.b, s.w
        x0, y0 = z0
        c1 = b * x0 * x0 / (k - 2 * m)
        # particular solution for exp(-m t) cos(w t) x0
        a = k - m
        D = a * a + w * w

        def part(t):
            return x0 * np.exp(-m * t) * (a * np.cos(w * t + s.ph) + w * np.sin(w * t + s.ph)) / D
        y = (y0 - c1 - part(0. * t)) * np.exp(-k * t) + c1 * np.exp(-2 * m * t) + part(t)
        return np.array([x0 * np.exp(-m * t), y])


KINDS = dict(lin=Lin, logistic=Logistic, cubic=Cubic, tdep=TDep, forced=Forced,
             sine=Sine, rot=Rot, hopf=Hopf, nlrot=NLRot, chain=Chain)

_z = mags(0.2, 1.5)
_ph = num(-1.5, 1.5, 2)              # phase of the time dependence at the start
_S = dict(
    lin=st.fixed_dictionaries(dict(k=num(-0.5, 2.0), z=_z)),
    logistic=st.fixed_dictionaries(dict(r=num(0.3, 3.0), z=num(0.1, 1.8))),
    cubic=st.fixed_dictionaries(dict(k=num(0.1, 2.0), z=_z)),
    tdep=st.fixed_dictionaries(dict(a=mags(0.2, 1.5), w=num(0.5, 4.0), z=_z, ph=_ph)),
    forced=st.fixed_dictionaries(dict(k=num(0.2, 3.0), w=num(0.5, 4.0), z=_z, ph=_ph)),
    sine=st.fixed_dictionaries(dict(k=mags(0.3, 2.0), z=mags(0.3, 2.5))),
    rot=st.fixed_dictionaries(dict(w=mags(0.3, 4.0), g=num(-0.2, 1.0), z=_z, z2=_z)),
    hopf=st.fixed_dictionaries(dict(m=num(0.2, 1.5), w=mags(0.3, 3.0), z=mags(0.4, 1.2), z2=mags(0.4, 1.2))),
    nlrot=st.fixed_dictionaries(dict(w=mags(0.3, 2.0), b=mags(0.2, 0.8), z=mags(0.3, 1.0), z2=mags(0.3, 1.0))),
    chain=st.fixed_dictionaries(dict(m=num(0.2, 0.6), k=num(1.5, 3.0), b=mags(0.3, 2.0), w=num(0.5, 3.0), z=_z, z2=_z, ph=_ph)),
)


PLAIN = tuple(KINDS)


# stiff modules start on their smooth solution; not part of KINDS' default choice
class Prothero(Mod):
    """z' = -lam (z - g) + g',  g = cos(w t + ph)"""

    def __init__(s, p):
        s.lam, s.w, s.ph = p["lam"], p["w"], p.get("ph", 0.)
        s.z0 = np.array([s.g(0.) + p.get("off", 0.0)])

    def g(s, t): return np.cos(s.w * t + s.ph)
    def dg(s, t): return -s.w * np.sin(s.w * t + s.ph)
    def f(s, t, z): return -s.lam * (z - s.g(t)) + s.dg(t)
    def jac(s, t, z): return np.array([[-s.lam]])

    def flow(s, t, z0):
        return np.array([s.g(t) + (z0[0] - s.g(0.)) * np.exp(-s.lam * np.asarray(t))])


class ProtheroNL(Prothero):
    """z' = -lam (z^3 - g^3) + g',  g = 1.5 + cos(w t + ph)/2"""

    def g(s, t): return 1.5 + 0.5 * np.cos(s.w * t + s.ph)
    def dg(s, t): return -0.5 * s.w * np.sin(s.w * t + s.ph)
    def f(s, t, z): return -s.lam * (z * z * z - s.g(t) ** 3) + s.dg(t)
    def jac(s, t, z): return np.array([[-3 * s.lam * z[0] ** 2]])


class Kaps(Mod):
    """x' = -(lam+2) x + lam y^2,  y' = x - y - y^2;  x = exp(-2t), y = exp(-t)"""
    d = 2
    amp = 3.0

    def __init__(s, p): s.lam, s.z0 = p["lam"], np.array([1.0, 1.0])

    def f(s, t, z):
        x, y = z
        return np.array([-(s.lam + 2) * x + s.lam * y * y, x - y - y * y])

    def jac(s, t, z):
        return np.array([[-(s.lam + 2), 2 * s.lam * z[1]], [1., -1 - 2 * z[1]]])

    def flow(s, t, z0):
        e = np.exp(-np.asarray(t))
        y = z0[1] * e
        return np.array([y * y + (z0[0] - z0[1] ** 2) * np.exp(-s.lam * np.asarray(t)), y])


KINDS.update(prothero=Prothero, protheroNL=ProtheroNL, kaps=Kaps)


def stiff_mods(lo, hi):
    from .gen import logu
    return st.one_of(
        st.fixed_dictionaries(dict(kind=st.just("prothero"), lam=logu(lo, hi), w=num(0.3, 2.0), ph=num(-1, 1, 2))),
        st.fixed_dictionaries(dict(kind=st.just("protheroNL"), lam=logu(lo, hi), w=num(0.3, 2.0), ph=num(-1, 1, 2))),
        st.fixed_dictionaries(dict(kind=st.just("kaps"), lam=logu(lo, hi))))


def module(kinds):
    return st.sampled_from(sorted(kinds)).flatmap(
        lambda k: _S[k].map(lambda p: dict(p, kind=k)))


@st.composite
def first_order(draw, kinds=PLAIN, max_mods=3, complex_=False, span=(0.5, 4.0),
                dirs=(1, -1), shift=True, scales=True, mix=True):
    if complex_:
        kinds = [k for k in kinds if KINDS[k].analytic]
    mods = draw(st.lists(module(kinds), min_size=1, max_size=max_mods))
    spec = dict(kind="fo", mods=mods)
    n = sum(KINDS[m["kind"]].d for m in mods)
    spec["ang"] = draw(st.lists(num(-3.1, 3.1, 2), min_size=n - 1, max_size=n - 1)) \
        if mix and n > 1 else []
    spec["span"] = draw(num(*span))
    spec["dir"] = draw(st.sampled_from(dirs))
    spec["c"] = draw(st.one_of(st.just(0.0), num(-3, 3, 2))) if shift else 0.0
    spec["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])) if scales else 1.0
    if complex_:
        # phase per module rotates its initial state into the complex plane
        spec["phase"] = [draw(num(-3.1, 3.1, 2)) if m["kind"] in ("lin", "tdep", "rot", "forced")
                         else draw(num(-0.6, 0.6, 2)) for m in mods]
    return spec


# ----------------------------------------------------- second-order modules ---
class Osc(Mod):
    """x'' = -w^2 x - 2 g x' + b cos(u t + ph)"""
    def __init__(s, p):
        s.w, s.g, s.b, s.u = p["w"], p.get("g", 0.), p.get("b", 0.), p.get("u", 1.)
        s.ph = p.get("ph", 0.)
        s.z0, s.v0 = np.array([p["z"]]), np.array([p["v"]])

    def strict(s): return s.g == 0
    def a(s, t, x, v): return -s.w ** 2 * x - 2 * s.g * v + s.b * np.cos(s.u * t + s.ph)
    def jx(s, t, x, v): return np.array([[-s.w ** 2]])
    def jv(s, t, x, v): return np.array([[-2 * s.g]])

    def flow(s, t, x0, v0):
        # complex particular amplitude: b e^{iut}
        A = s.b * np.exp(1j * s.ph) / (s.w ** 2 - s.u ** 2 + 2j * s.g * s.u)
        def P(t): return (A * np.exp(1j * s.u * t)).real
        def dP(t): return (1j * s.u * A * np.exp(1j * s.u * t)).real
        zero = 0. * t
        xh, vh = x0[0] - P(zero), v0[0] - dP(zero)
        q = np.sqrt(s.w ** 2 - s.g ** 2)
        e, c, sn = np.exp(-s.g * t), np.cos(q * t), np.sin(q * t)
        k = (vh + s.g * xh) / q
        x = e * (xh * c + k * sn)
        v = -s.g * x + e * q * (k * c - xh * sn)
        return np.array([x + P(t)]), np.array([v + dP(t)])


class LogisticN(Mod):
    """x'' = F'(x) (al v + (1 - al) F(x)), F logistic; v0 = F(x0)"""
    def __init__(s, p):
        s.r, s.al = p["r"], p.get("al", 0.)
        s.m = Logistic(p)
        s.z0 = s.m.z0
        s.v0 = s.m.f(0, s.z0)

    def strict(s): return s.al == 0
    def a(s, t, x, v):
        return s.r * (1 - 2 * x) * (s.al * v + (1 - s.al) * s.r * x * (1 - x))

    def jx(s, t, x, v):
        F, dF, ddF = s.r * x * (1 - x), s.r * (1 - 2 * x), -2 * s.r
        return np.array([ddF * (s.al * v + (1 - s.al) * F) + dF * (1 - s.al) * dF])

    def jv(s, t, x, v): return np.array([s.r * (1 - 2 * x) * s.al])

    def flow(s, t, x0, v0):
        x = s.m.flow(t, x0)
        return x, s.m.f(t, x)


class Pendulum(Mod):
    """x'' = -W^2 sin x from x=0 with velocity 2 k W"""
    def __init__(s, p):
        s.W, s.k = p["W"], p["k"]
        s.z0, s.v0 = np.array([0.]), np.array([2 * s.k * s.W])

    def strict(s): return True
    def a(s, t, x, v): return -s.W ** 2 * np.sin(x)
    def jx(s, t, x, v): return np.array([-s.W ** 2 * np.cos(x)])
    def jv(s, t, x, v): return np.array([[0.]])

    def flow(s, t, x0, v0):
        sn, cn, dn, _ = ellipj(s.W * t, s.k ** 2)
        return np.array([2 * np.arcsin(s.k * sn)]), np.array([2 * s.k * s.W * cn])


class Drag(Mod):
    """x'' = -k v^2 (v > 0)"""
    def __init__(s, p):
        s.k, s.z0, s.v0 = p["k"], np.array([p["z"]]), np.array([p["v"]])

    def strict(s): return False
    def a(s, t, x, v): return -s.k * v * v
    def jx(s, t, x, v): return np.array([[0.]])
    def jv(s, t, x, v): return np.array([-2 * s.k * v])

    def flow(s, t, x0, v0):
        q = 1 + s.k * v0[0] * t
        return np.array([x0[0] + np.log(q) / s.k]), np.array([v0[0] / q])


class Magnetic(Mod):
    """x'' = B J v - w0^2-free: circular motion with drift"""
    d = 2

    def __init__(s, p):
        s.B = p["B"]
        s.z0, s.v0 = np.array([p["z"], p["z2"]]), np.array([p["v"], p["v2"]])

    def strict(s): return False
    def a(s, t, x, v): return s.B * np.array([-v[1], v[0]])
    def jx(s, t, x, v): return np.zeros((2, 2))
    def jv(s, t, x, v): return s.B * np.array([[0., -1.], [1., 0.]])

    def flow(s, t, x0, v0):
        B = s.B
        c, sn = np.cos(B * t), np.sin(B * t)
        v = np.array([c * v0[0] - sn * v0[1], sn * v0[0] + c * v0[1]])
        x = np.array([x0[0] + (sn * v0[0] - (1 - c) * v0[1]) / B,
                      x0[1] + ((1 - c) * v0[0] + sn * v0[1]) / B])
        return x, v


class Kepler(Mod):
    """planar Kepler problem starting at the pericentre, eccentricity e"""
    d = 2

    def __init__(s, p):
        s.e = p["e"]
        s.s = p["s"]                                 # sense
        s.z0 = np.array([1 - s.e, 0.])
        s.v0 = np.array([0., s.s * np.sqrt((1 + s.e) / (1 - s.e))])

    def strict(s): return True
    def a(s, t, x, v): return -x / np.sqrt(x[0] ** 2 + x[1] ** 2) ** 3

    def jx(s, t, x, v):
        r = np.sqrt(x @ x)
        return -np.eye(2) / r ** 3 + 3 * np.outer(x, x) / r ** 5

    def jv(s, t, x, v): return np.zeros((2, 2))

    def flow(s, t, x0, v0):
        M = np.asarray(t, float)
        E = M + s.e * np.sin(M)
        for _ in range(30):
            E = E - (E - s.e * np.sin(E) - M) / (1 - s.e * np.cos(E))
        q = np.sqrt(1 - s.e ** 2)
        x = np.array([np.cos(E) - s.e, s.s * q * np.sin(E)])
        dE = 1 / (1 - s.e * np.cos(E))
        return x, np.array([-np.sin(E) * dE, s.s * q * np.cos(E) * dE])


KINDS2 = dict(osc=Osc, logisticN=LogisticN, pend=Pendulum, drag=Drag, mag=Magnetic,
              kepler=Kepler)
_S2 = dict(
    osc=st.fixed_dictionaries(dict(w=num(0.7, 3.0), g=st.one_of(st.just(0.0), num(0.01, 0.6)),
                                   b=st.one_of(st.just(0.0), num(-1, 1)),
                                   u=num(3.3, 5.0), ph=_ph, z=_z, v=mags(0.0, 1.5))),
    logisticN=st.fixed_dictionaries(dict(r=num(0.3, 1.5), z=num(0.1, 1.5),
                                         al=st.sampled_from([0.0, 0.0, 1.0, 0.5]))),
    pend=st.fixed_dictionaries(dict(W=num(0.5, 2.0), k=num(0.1, 0.9))),
    drag=st.fixed_dictionaries(dict(k=num(0.1, 1.0), z=_z, v=num(0.3, 2.0))),
    mag=st.fixed_dictionaries(dict(B=mags(0.3, 3.0), z=_z, z2=_z, v=_z, v2=_z)),
    kepler=st.fixed_dictionaries(dict(e=num(0.0, 0.4), s=st.sampled_from([1.0, -1.0]))),
)


@st.composite
def second_order(draw, strict=False, max_mods=2, complex_=False, span=(0.5, 4.0),
                 dirs=(1, -1), scales=True, kinds=tuple(KINDS2), mix=True):
    if complex_:
        kinds = ["osc", "mag"]
    if strict:
        kinds = [k for k in kinds if k not in ("drag", "mag")]

    def fix(m):
        if strict and m["kind"] == "osc":
            m = dict(m, g=0.0)
        if strict and m["kind"] == "logisticN":
            m = dict(m, al=0.0)
        if complex_ and m["kind"] == "osc":
            m = dict(m, b=0.0)
        return m
    mods = draw(st.lists(st.sampled_from(sorted(kinds)).flatmap(
        lambda k: _S2[k].map(lambda p: fix(dict(p, kind=k)))), min_size=1, max_size=max_mods))
    n = sum(KINDS2[m["kind"]].d for m in mods)
    spec = dict(kind="so", mods=mods)
    spec["ang"] = draw(st.lists(num(-3.1, 3.1, 2), min_size=n - 1, max_size=n - 1)) \
        if mix and n > 1 else []
    spec["span"] = draw(num(*span))
    spec["dir"] = draw(st.sampled_from(dirs))
    spec["c"] = draw(st.one_of(st.just(0.0), num(-3, 3, 2)))
    spec["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])) if scales else 1.0
    if complex_:
        spec["phase"] = draw(st.lists(num(-3, 3, 2), min_size=len(mods), max_size=len(mods)))
    return spec


# ------------------------------------------------------------------- build ---
def rotation(n, ang):
    T = np.eye(n)
    for i, a in enumerate(ang):
        G = np.eye(n)
        c, s = np.cos(a), np.sin(a)
        G[i, i] = G[i + 1, i + 1] = c
        G[i, i + 1], G[i + 1, i] = -s, s
        T = G @ T
    return T


class Problem:
    """fun(t, y), jac(t, y), exact(t), y0, t0, tf, n, dtype, amp"""
    second = False

    @property
    def amp(s):
        if not hasattr(s, "_amp"):
            s._amp = s._amplification()
        return s._amp


class FirstOrder(Problem):
    def __init__(s, spec):
        s.spec = spec
        s.mods = [KINDS[m["kind"]](m) for m in spec["mods"]]
        s.sl, i = [], 0
        for m in s.mods:
            s.sl.append(slice(i, i + m.d))
            i += m.d
        s.n = i
        s.dir, s.c, s.scale = spec["dir"], spec["c"], spec["scale"]
        s.T = rotation(s.n, spec["ang"]) if spec["ang"] else np.eye(s.n)
        s.complex = "phase" in spec
        s.z0 = []
        for k, m in enumerate(s.mods):
            z = m.z0.astype(complex) if s.complex else m.z0.astype(float)
            if s.complex:
                z = z * np.exp(1j * spec["phase"][k])
            s.z0.append(z)
        s.t0 = s.c
        s.tf = s.c + s.dir * spec["span"]
        s.dtype = complex if s.complex else float
        s.y0 = s.exact(s.t0)

    def tau(s, t): return s.dir * (t - s.c)

    def fun(s, t, y):
        y = np.asarray(y)
        z = (s.T.T @ y) / s.scale
        tau = s.tau(t)
        F = np.concatenate([m.f(tau, z[sl]) for m, sl in zip(s.mods, s.sl)], axis=0)
        return (s.dir * s.scale) * (s.T @ F)

    def jac(s, t, y):
        z = (s.T.T @ y) / s.scale
        tau = s.tau(t)
        J = np.zeros((s.n, s.n), dtype=s.dtype)
        for m, sl in zip(s.mods, s.sl):
            J[sl, sl] = m.jac(tau, z[sl])
        return s.dir * (s.T @ J @ s.T.T)

    def exact(s, t):
        tau = s.tau(np.asarray(t, float))
        Z = np.concatenate([m.flow(tau, z0) for m, z0 in zip(s.mods, s.z0)], axis=0)
        return s.scale * (s.T @ Z)

    def _amplification(s):
        """max over s<t of |d z(t)/d z(s)|, from the closed-form flow z(t; z0):
        D(t) D(s)^-1 with D the numerical derivative of the flow to z0"""
        L = s.spec["span"]
        g = np.linspace(0, L, 25)
        amp = 1.0
        for m, z0 in zip(s.mods, s.z0):
            if hasattr(m, "amp"):
                amp = max(amp, m.amp)
                continue
            D = np.empty((g.size, m.d, m.d), complex)
            for j in range(m.d):
                e = np.zeros(m.d)
                e[j] = 1e-6
                D[:, :, j] = ((m.flow(g, z0 + e) - m.flow(g, z0 - e)) / 2e-6).T
            if m.d == 1:
                d = np.abs(D[:, 0, 0]) + 1e-12
                amp = max(amp, max(np.max(d[i:]) / d[i] for i in range(g.size)))
            else:
                inv = np.linalg.inv(D)
                amp = max(amp, max(np.linalg.norm(D[j] @ inv[i], 2)
                                   for i in range(0, g.size, 4) for j in range(i, g.size, 4)))
        return float(amp)


class SecondOrder(Problem):
    second = True

    def __init__(s, spec):
        s.spec = spec
        s.mods = [KINDS2[m["kind"]](m) for m in spec["mods"]]
        s.sl, i = [], 0
        for m in s.mods:
            s.sl.append(slice(i, i + m.d))
            i += m.d
        s.m = i
        s.n = 2 * i
        s.dir, s.c, s.scale = spec["dir"], spec["c"], spec["scale"]
        s.T = rotation(s.m, spec["ang"]) if spec["ang"] else np.eye(s.m)
        s.complex = "phase" in spec
        s.dtype = complex if s.complex else float
        s.strict = all(m.strict() for m in s.mods)
        s.ph = [np.exp(1j * p) for p in spec["phase"]] if s.complex else [1.] * len(s.mods)
        s.t0 = s.c
        s.tf = s.c + s.dir * spec["span"]
        s.y0 = s.exact(s.t0)

    def _amplification(s):
        """max over s<t of |d y(t)/d y(s)| from the variational equation along the
        exact solution (classical RK4 with small steps; only a scale factor)"""
        N = 96
        ts = np.linspace(s.t0, s.tf, 2 * N + 1)
        J = [s.jac(t, s.exact(t)) for t in ts]
        h = (s.tf - s.t0) / N
        P, node = np.eye(s.n, dtype=s.dtype), []
        for k in range(N):
            if k % 8 == 0:
                node.append(P)
            J0, J1, J2 = J[2 * k:2 * k + 3]
            k1 = J0 @ P
            k2 = J1 @ (P + h / 2 * k1)
            k3 = J1 @ (P + h / 2 * k2)
            k4 = J2 @ (P + h * k3)
            P = P + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        node.append(P)
        amp = 1.0
        for i, a in enumerate(node):
            inv = np.linalg.pinv(a)
            amp = max(amp, max(np.linalg.norm(b @ inv, 2) for b in node[i:]))
        return float(amp)

    def tau(s, t): return s.dir * (t - s.c)

    def acc(s, t, x, v):
        tau = s.tau(t)
        zx, zv = (s.T.T @ x) / s.scale, s.dir * (s.T.T @ v) / s.scale
        A = np.concatenate([m.a(tau, zx[sl], zv[sl]) for m, sl in zip(s.mods, s.sl)], axis=0)
        return s.scale * (s.T @ A)

    def fun(s, t, y):
        y = np.asarray(y)
        x, v = y[:s.m], y[s.m:]
        return np.concatenate([v, s.acc(t, x, v)], axis=0)

    def jac(s, t, y):
        x, v = y[:s.m], y[s.m:]
        tau = s.tau(t)
        zx, zv = (s.T.T @ x) / s.scale, s.dir * (s.T.T @ v) / s.scale
        Jx, Jv = np.zeros((s.m, s.m), s.dtype), np.zeros((s.m, s.m), s.dtype)
        for m, sl in zip(s.mods, s.sl):
            Jx[sl, sl] = m.jx(tau, zx[sl], zv[sl])
            Jv[sl, sl] = m.jv(tau, zx[sl], zv[sl])
        J = np.zeros((s.n, s.n), s.dtype)
        J[:s.m, s.m:] = np.eye(s.m)
        J[s.m:, :s.m] = s.T @ Jx @ s.T.T
        J[s.m:, s.m:] = s.dir * (s.T @ Jv @ s.T.T)
        return J

    def exact(s, t):
        tau = s.tau(np.asarray(t, float))
        X, V = [], []
        for m, ph in zip(s.mods, s.ph):
            x, v = m.flow(tau, m.z0, m.v0)
            X.append(x * ph)
            V.append(v * ph)
        X, V = np.concatenate(X, axis=0), np.concatenate(V, axis=0)
        return np.concatenate([s.scale * (s.T @ X), s.dir * s.scale * (s.T @ V)], axis=0)


_cache = {}


def build(spec):
    return FirstOrder(spec) if spec["kind"] == "fo" else SecondOrder(spec)
