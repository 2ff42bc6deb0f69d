"""C27: the step-size controller obeys its parameters"""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, num
from pbt.methods import IMPL, METHODS, RK, RKN, SC_EXPL, SC_IMPL, drive, kwargs, options, tols
from pbt.problems import PLAIN, build, first_order, second_order

RULE = ("a case is a problem, a method with a controller, controller parameters and tolerances; the error of each step is "
        "measured by probe solves from the same point with the same step and the standard law; non-trivial when at least "
        "one step of the second order law was compared")
NAMES = RK + RKN + IMPL
G = dict(expl=[0.7, -0.4, 0, 0.9], impl=[2.0, -1.0, -1.0, 0.8])
S = [0.6, -0.2, 0, 0.9]
# the documented default of each class
DEFAULT = dict(BS5="standard", CK5="G", Ts5="G", Me4="G", Pr7="S", Pr8="G", Pr9="standard", CFMR7osc="G", Fi4N="G", Fi5N="G",
               Mu5Nmb="G", MR6NN="G", TRBDF2="G", TRX2="G", KC3I="G", KC4I="G", KC4Ia="G", Kv3I="G")
# a factor in this range is not limited by any method
LO, HI = 0.25, 3.9


def params(m, name):
    g = 0.8 if m.implicit else 0.9
    return {"standard": [1.0, 0.0, 0.0, g], "G": G["impl" if m.implicit else "expl"], "S": None if m.implicit else S}[name]


@st.composite
def problem(draw, name, span):
    m = METHODS[name]
    if m.nystrom:
        return draw(second_order(strict=m.strict, span=span))
    # implicit methods: linear, so that stages are solved exactly
    return draw(first_order(kinds=("lin", "rot", "forced", "forced", "rot") if m.implicit else PLAIN, span=span))


@st.composite
def ctrl_case(draw):
    name = draw(st.sampled_from(NAMES))
    m = METHODS[name]
    how = draw(st.sampled_from(["tuple", "tuple", "name", "default"]))
    sc = None
    if how == "name":
        sc = draw(st.sampled_from(["standard", "G"] if m.implicit else ["standard", "G", "S"]))
    elif how == "tuple":
        sc = [draw(num(0.3, 1.4)), draw(st.one_of(num(-0.6, 0.3), st.just(0.0))), draw(st.one_of(num(-1.0, 0.6), st.just(0.0))),
              draw(num(0.55, 0.95))]
    lo = -8 if m.order >= 7 else -6
    return dict(method=name, spec=draw(problem(name, (4.0, 12.0))), rtol=draw(logu(max(lo, m.rtol_min), -5 if m.order >= 7 else -4.5 if name in ("KC4I", "KC4Ia") else -3.5)), how=how, sc=sc,
                af=draw(st.sampled_from([1.0, 0.1, "vec"])), opts=draw(options(m, sc=False, steps=False, jac=False, detect=False)),
                first=draw(st.sampled_from([0.0, 0.0, 1e-2, 3e-3])), max=draw(st.sampled_from([0.0] * 6 + [0.08])),
                at=draw(st.integers(6, 18)))


def advance(m, p, kw, t, y, tf, n):
    """(t, y, evaluations) of the first n steps"""
    s = m.cls(p.fun, t, y, tf, **kw)
    out = [(s.t, s.y.copy(), s.nfev)]
    while s.status == "running" and len(out) <= n:
        if s.step() is not None or s.status == "failed":
            raise Inconclusive("a solve failed")
        out.append((s.t, s.y.copy(), s.nfev))
    return out


def law(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, _ = tols(c, p)
    kw = kwargs(m, c["opts"], p)
    kw.update(rtol=rtol, atol=atol)
    if m.detect:
        kw["nfev_stiff_detect"] = 0
    if m.implicit:
        kw["jac"] = np.asarray(p.jac(p.t0, p.y0))
    sc = c["sc"]
    if c["how"] == "default":
        sc = DEFAULT[c["method"]]
    kb1, kb2, a, g = params(m, sc) if isinstance(sc, str) else sc
    real = dict(kw)
    if c["how"] != "default":
        real["sc_params"] = sc if isinstance(sc, str) else tuple(sc)
    L = abs(p.tf - p.t0)
    if c["first"]:
        real["first_step"] = c["first"] * L
    if c["max"]:
        real["max_step"] = c["max"] * L
    far = p.t0 + 50 * (p.tf - p.t0)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        run = advance(m, p, real, p.t0, p.y0, p.tf, 400)
        t = np.array([x[0] for x in run])
        h = np.abs(np.diff(t))
        left = np.abs(p.tf - t)
        N = h.size

        def probe(n, step, g):
            """first and second step of a solve from t_n with given first step and safety factor"""
            r = advance(m, p, dict(kw, first_step=step, sc_params=(1.0, 0.0, 0.0, g)), t[n], run[n][1], far, 2)
            return np.append(np.abs(np.diff([x[0] for x in r])), np.diff([x[2] for x in r]))

        def measure(n):
            """err ** -k of the step from t_n, or None if it cannot be measured reliably"""
            # a step size is known up to the rounding of t
            r1, r2 = probe(n, h[n], 0.2), probe(n, h[n], 0.06)
            if abs(r1[0] / h[n] - 1) > 1e-9 or abs(r2[0] / h[n] - 1) > 1e-9:
                return None
            if r1[2] != r1[3] or r2[2] != r2[3]:
                return None                     # a rejected second step
            e1, e2 = r1[1] / h[n] / 0.2, r2[1] / h[n] / 0.06
            if max(e1, e2) < 45:
                require(abs(e1 / e2 - 1) < 1e-7, "step %d: the second step does not scale with the safety factor (0.2: %r, 0.06: %r)",
                        n, r1[1], r2[1])
            # nor can very small errors be measured
            return e1 if abs(e1 / e2 - 1) < 1e-7 and e1 < 45 and e1**(m.est + 1) * 2e-15 / rtol < 1e-6 else None

        rnd = 4e-16 * np.max(np.abs(t)) / np.min(h) + 1e-9
        if rnd > 1e-7:
            return []
        E = {}
        rejected = {}                       # step n had a rejected attempt (None: unknown)
        tags = set()
        # the first step is as given
        rejected[0] = None
        if c["first"]:
            want = min(real["first_step"], real.get("max_step", np.inf))
            require(h[0] <= want * (1 + rnd), "first step %r, given %r", h[0], want)
            rejected[0] = h[0] < want * (1 - 1e-7)
        for n in range(min(c["at"], N - 1)):
            # proposal after step n, compared with step n + 1
            rejected[n + 1] = None
            E[n] = measure(n)
            if E[n] is None or n > 0 and E.get(n - 1) is None:
                continue
            std = g * E[n]
            prop = {"standard": std}
            if n > 0:
                prop["second"] = g**(kb1 + kb2) * (h[n] / h[n - 1])**-a * E[n]**kb1 * E[n - 1]**kb2
            if any(not LO < f < HI for f in prop.values()):
                continue
            # the last steps are adapted to the end of the interval
            if left[n + 1] < 2.01 * h[n] * max(prop.values()):
                continue
            rej = rejected.get(n)
            got = h[n + 1] / h[n]
            if c["max"] and (h[n] * max(prop.values()) > real["max_step"] * 0.999 or h[n] > real["max_step"] * 0.999):
                # limited: never longer than max_step
                require(h[n + 1] <= real["max_step"] * (1 + rnd), "step %r is longer than max_step %r", h[n + 1], real["max_step"])
                rejected[n + 1] = None
                continue
            # which law applies
            if n == 0:
                laws = ["standard"]
            elif rej is not False or rejected.get(n - 1) is not False or (c["max"] and max(h[n - 1:n + 1]) > 0.999 * real["max_step"]):
                laws = list(prop)           # straight after a failure or a limited step: either law
            elif m.implicit and (n < 3 or np.max(h[1:n + 1] / h[:n]) > HI):
                laws = list(prop)           # start-up
            else:
                laws = ["second"]
            ok = False
            for lw in laws:
                f = prop[lw]
                for lim in {False: [f], True: [min(1.0, f)], None: [f, min(1.0, f)]}[rej]:
                    if abs(got / lim - 1) < 1e-5:
                        ok, rejected[n + 1] = True, False
                    elif got < lim:
                        # the attempt may have failed: the same happens in a solve that starts with it
                        first = probe(n + 1, h[n] * lim, g)[0]
                        if abs(first / h[n + 1] - 1) < 1e-5:
                            ok, rejected[n + 1] = True, True
            require(ok, "step %d: ratio of steps %.6g, law gives %s (errors %.4g, %.4g, rejected %s)", n + 1, got,
                    {k: round(float(prop[k]), 6) for k in laws}, E[n], E.get(n - 1) or np.nan, rej)
            if laws == ["second"]:
                tags |= {c["method"], c["how"], "rejected attempt" if rejected[n + 1] else "plain"}
            else:
                tags.add("standard" if len(laws) == 1 else "either")
    return sorted(tags) if c["method"] in tags else []


# ---------------------------------------------------------------- names
@st.composite
def named_case(draw):
    name = draw(st.sampled_from(NAMES))
    m = METHODS[name]
    return dict(method=name, spec=draw(problem(name, (0.5, 4.0))), rtol=draw(logu(max(-6, m.rtol_min), -3)), af=1.0,
                sc=draw(st.sampled_from(["standard", "G", "default"] + ([] if m.implicit else ["S"]))),
                opts=draw(options(m, sc=False, linear=m.implicit)))


def named(c):
    """a name stands for its documented parameters, and the default is the documented one"""
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, _ = tols(c, p)
    o = c["opts"]
    name = DEFAULT[c["method"]] if c["sc"] == "default" else c["sc"]
    forms = [{}] if c["sc"] == "default" else []
    forms += [dict(sc_params=name), dict(sc_params=tuple(params(m, name)))]
    if c["sc"] == "default":
        forms.append(dict(sc_params=None))
    runs = [drive(m, p, rtol, atol, o, dense=False, kw=f) for f in forms]
    for r in runs[1:]:
        require(r.t.size == runs[0].t.size and np.array_equal(r.t, runs[0].t),
                "%s: different steps for %s and %s", c["sc"], forms[0], forms[runs.index(r)])
    return [c["method"], c["sc"]] if runs[0].t.size > 3 else []


# ---------------------------------------------------------------- exponent
@st.composite
def exponent_case(draw):
    c = draw(ctrl_case())
    return dict(method=c["method"], spec=c["spec"], rtol=c["rtol"], af=c["af"], opts=c["opts"], factor=draw(logu(0.3, 2)),
                g=draw(st.sampled_from([0.2, 0.3, 0.1])), step=draw(logu(-3.5, -1)))


def exponent(c):
    """tolerances F times looser make the step after a given one F**(1/(q+1)) times longer"""
    m, p = METHODS[c["method"]], build(c["spec"])
    q = min(m.order, m.est)
    rtol, atol, _ = tols(c, p)
    kw = kwargs(m, c["opts"], p)
    if m.detect:
        kw["nfev_stiff_detect"] = 0
    if m.implicit:
        kw["jac"] = np.asarray(p.jac(p.t0, p.y0))
    step = c["step"] * abs(p.tf - p.t0)
    far = p.t0 + 50 * (p.tf - p.t0)
    f = []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for F in (1.0, c["factor"]):
            r = advance(m, p, dict(kw, rtol=rtol * F, atol=atol * F, first_step=step, sc_params=(1.0, 0.0, 0.0, c["g"])), p.t0, p.y0, far, 2)
            h = np.abs(np.diff([x[0] for x in r]))
            n = np.diff([x[2] for x in r])
            if h.size < 2 or abs(h[0] / step - 1) > 1e-9 or n[0] != n[1]:
                return []
            f.append(h[1] / h[0])
    rnd = 4e-16 * max(abs(p.t0), abs(p.tf)) / min(h) + 1e-8
    e = (f[0] / c["g"])**(q + 1)            # 1 / error
    if rnd > 1e-6 or not LO < f[0] < HI or not LO < f[1] < HI or e * 4e-15 / rtol > 1e-4:
        return []
    want = c["factor"]**(1 / (q + 1))
    require(abs(f[1] / f[0] / want - 1) < 1e-5 + rnd, "tolerances %.4g times looser make the next step %.6g times longer, expected %.6g",
            c["factor"], f[1] / f[0], want)
    return [c["method"]]


SUBS = [Sub("law", ctrl_case(), law, 1800, 30000), Sub("exponent", exponent_case(), exponent, 2000, 30000), Sub("named", named_case(), named, 800, 8000)]
