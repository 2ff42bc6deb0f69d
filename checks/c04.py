"""C04: a step applies the method's table, and only acceptable steps are taken"""
import warnings

import numpy as np
from extensisq.common import RungeKutta, RungeKuttaNystrom
from hypothesis import strategies as st

from pbt import problems as pr
from pbt.core import Inconclusive, Sub, Violation, require
from pbt.gen import logu, num
from pbt.methods import METHODS, RK, RKN, Watch, accuracy_case, drive, kwargs, options, tols
from pbt.problems import build

RULE = ("a case is (method or generated coefficient table, problem, options); every accepted step is "
        "recomputed from the published table by a 20-line reference stepper; non-trivial when "
        "at least 3 steps were compared (tag 'rejections' when more attempts than steps were made)")


def stages(fun, A, C, t, y, h):
    K = []
    for i in range(len(C)):
        dy = sum(A[i][j] * K[j] for j in range(i)) if i else 0 * y
        K.append(np.asarray(fun(t + C[i] * h, y + h * dy)))
    return K


def rk_step(fun, T, t, y, h):
    """(y_new, error estimate) from the table, all by the book"""
    K = stages(fun, T["A"], T["C"], t, y, h)
    y1 = y + h * sum(b * k for b, k in zip(T["B"], K))
    K.append(np.asarray(fun(t + h, y1)))
    mag = max(np.max(np.abs(k)) for k in K)
    return y1, h * sum(e * k for e, k in zip(T["E"], K)), mag


def rkn_step(fun, T, t, y, h):
    n = y.size // 2
    x, v = y[:n], y[n:]

    def acc(t, x, v): return np.asarray(fun(t, np.concatenate((x, v))))[n:]
    K = []
    s = len(T["C"])
    for i in range(s):
        c = T["C"][i]
        dx = sum(T["A"][i][j] * K[j] for j in range(i)) if i else 0 * x
        dv = sum(T["Ap"][i][j] * K[j] for j in range(i)) if i else 0 * x
        K.append(acc(t + c * h, x + c * h * v + h * h * dx, v + h * dv))
    x1 = x + h * v + h * h * sum(b * k for b, k in zip(T["B"], K))
    v1 = v + h * sum(b * k for b, k in zip(T["Bp"], K))
    K.append(acc(t + h, x1, v1))
    e = np.concatenate((h * h * sum(q * k for q, k in zip(T["E"], K)),
                        h * sum(q * k for q, k in zip(T["Ep"], K))))
    mag = max(np.max(np.abs(k)) for k in K)
    return np.concatenate((x1, v1)), e, max(mag, np.max(np.abs(v)), np.max(np.abs(h)) * mag)


def rms(x): return float(np.sqrt(np.mean(np.abs(x) ** 2)))


def table(o):
    T = {k: np.array(getattr(o, k), float) for k in ("A", "B", "C", "E")}
    if hasattr(o, "Bp"):
        for k in ("Ap", "Bp", "Ep"):
            v = getattr(o, k)
            T[k] = np.zeros_like(T["A"]) if v is NotImplemented else np.array(v, float)
    return T


def compare(fun, tabs, tr, rtol, atol, nystrom):
    """tabs: list of (table, fraction of the attempted step that it spans)"""
    n = 0
    step = rkn_step if nystrom else rk_step
    for k in range(tr.t.size - 1):
        t, y, h, y1 = tr.t[k], tr.y[:, k], tr.t[k + 1] - tr.t[k], tr.y[:, k + 1]
        why = []
        for T, frac in tabs:
            with np.errstate(all="ignore"):
                ref, est, mag = step(fun, T, t, y, h / frac)
            tol = 1e-11 * (np.max(np.abs(y)) + abs(h) * mag) + 4e-16 * abs(t) * mag * 30
            d = np.max(np.abs(ref - y1))
            e = rms(est / (atol + rtol * np.maximum(np.abs(y), np.abs(y1))))
            fuzz = 1e-7 + 1e-13 * rms((np.abs(y) + abs(h) * mag) / (atol + rtol * np.abs(y1)))
            if not d <= tol:
                why.append("differs from the table by %.3g (allowed %.3g)" % (d, tol))
            elif not e < 1 + fuzz:
                why.append("was accepted with error estimate %.8g" % e)
            else:
                break
        else:
            require(False, "step %d from t=%r, h=%r: %s", k, t, h, "; ".join(why))
        n += 1
    return n


# ------------------------------------------------------------------ built in ---
@st.composite
def builtin_case(draw, names):
    c = draw(accuracy_case(names, hi=-2.0, span=(0.5, 6.0), opts=dict(steps=False)))
    c["rtol"] = max(c["rtol"], 1e-8)
    if draw(st.booleans()):
        c["opts"]["first_frac"] = draw(st.sampled_from([1.0, 0.6, 0.3, 0.1]))
    if draw(st.integers(0, 4)) == 0:
        c["opts"]["max_frac"] = draw(st.sampled_from([0.3, 0.1]))
    return c


def tabs_of(m, s):
    o = s if "scale_embedded" in dir(s) or m.name == "Mu5Nmb" else m.cls
    T = table(o)
    if m.kind != "ckdisc":
        return [(T, 1.0)]
    out = [(T, 1.0)]
    for i in (1, 0):
        B, E = m.cls.B_fallback[i], m.cls.E_fallback[i]
        f = m.cls.C_fallback[i]
        out.append((dict(A=T["A"], C=T["C"], B=B, E=np.append(E, 0)), f))
    return out


def builtin(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, _ = tols(c, p)
    with np.errstate(all="ignore"):
        tr = drive(m, p, rtol, atol, c["opts"], dense=False)
    if tr.status != "finished" and "verflow" not in str(tr.message):
        require(False, "failed: %s", tr.message)
    n = compare(p.fun, tabs_of(m, tr.solver), tr, rtol, atol, m.nystrom)
    from extensisq.common import NFS
    return [c["method"]] + (["rejections"] if NFS > 0 else []) if n > 1 else []


# -------------------------------------------- discontinuous right-hand sides ---
@st.composite
def rough_case(draw):
    """jumps force rejections and the fallback formulas of CKdisc"""
    name = draw(st.sampled_from(RK + ["CKdisc"] * 4 + RKN))
    return dict(method=name, a=draw(num(0.3, 3)), jump=draw(num(0.5, 5)),
                at=[draw(num(0.1, 3.9)) for _ in range(draw(st.integers(1, 3)))],
                rtol=draw(logu(-6, -2)), sgn=draw(st.sampled_from([1, -1])),
                first=draw(st.sampled_from([None, 1.0, 0.3])), state=draw(st.booleans()))


def rough(c):
    m = METHODS[c["method"]]
    s = c["sgn"]

    def push(t, x):
        u = sum(c["jump"] * (-1) ** k for k, a in enumerate(c["at"]) if s * t > a)
        if c["state"]:
            u = u + (c["jump"] if np.real(x) > 0.5 else 0.0)
        return u
    if m.nystrom:
        def fun(t, y): return np.array([y[1], -c["a"] * y[0] + push(t, y[0])])
        y0 = np.array([0.3, 0.2])
    else:
        def fun(t, y): return s * np.array([-c["a"] * y[0] + push(t, y[0]), y[0] - 0.3 * y[1]])
        y0 = np.array([0.3, 0.2])

    class P:
        t0, tf = 0.0, 4.0 * s
    P.fun, P.y0 = staticmethod(fun), y0
    o = {"first_frac": c["first"]} if c["first"] else {}
    tr = drive(m, P, c["rtol"], c["rtol"], o, dense=False)
    require(tr.status == "finished", "failed: %s", tr.message)
    # a stage that falls on a jump may see either side: skip these steps
    bad = [k for k in range(tr.t.size - 1)
           if any(abs(s * tr.t[k] + cc * abs(tr.t[k + 1] - tr.t[k]) / f - a) < 1e-9
                  for a in c["at"] for cc in list(m.cls.C) + [1.0]
                  for f in ([1.0] if m.kind != "ckdisc" else [1.0, .2, .6]))]
    if c["state"] or bad:
        # states at the switching threshold are as ambiguous; judge the rest
        n = 0
        for k in range(tr.t.size - 1):
            if k in bad or (c["state"] and np.any(np.abs(tr.y[0, k:k + 2] - 0.5) < 0.3)):
                continue
            sub = type("T", (), dict(t=tr.t[k:k + 2], y=tr.y[:, k:k + 2]))
            n += compare(fun, tabs_of(m, tr.solver), sub, c["rtol"], c["rtol"], m.nystrom)
    else:
        n = compare(fun, tabs_of(m, tr.solver), tr, c["rtol"], c["rtol"], m.nystrom)
    return [c["method"], "state" if c["state"] else "time"] if n > 1 else []


# -------------------------------------------------------------- user defined ---
@st.composite
def user_case(draw):
    nys = draw(st.booleans())
    s = draw(st.integers(2, 6))
    strict = nys and draw(st.booleans())
    d = dict(nys=nys, strict=strict, s=s,
             C=[0.0] + [draw(st.integers(1, 20)) / 20 for _ in range(s - 1)],
             A=[[draw(num(-0.6, 0.6, 2)) for _ in range(i)] for i in range(s)],
             B=[draw(num(-0.5, 1, 2)) for _ in range(s)],
             E=[draw(num(-0.4, 0.4, 2)) for _ in range(s)],
             fsal=draw(st.sampled_from([0.0, 0.3, -0.2])))
    if nys:
        d.update(Ap=[[draw(num(-0.6, 0.6, 2)) for _ in range(i)] for i in range(s)],
                 Bp=[draw(num(-0.5, 1, 2)) for _ in range(s)],
                 Ep=[draw(num(-0.4, 0.4, 2)) for _ in range(s)],
                 fsalp=draw(st.sampled_from([0.0, 0.3, -0.2])))
        spec = draw(pr.second_order(strict=strict, span=(0.5, 2.0)))
    else:
        spec = draw(pr.first_order(complex_=draw(st.booleans()), span=(0.5, 2.0)))
    return dict(tab=d, spec=spec, rtol=draw(logu(-3.5, -1.5)),
                vec=draw(st.booleans()), sc=draw(st.sampled_from([None, "G", "standard"])),
                first=draw(st.sampled_from([None, 1.0, 0.2, 0.05])),
                detect=draw(st.booleans()))


def make_class(d):
    s = d["s"]

    def mat(rows, want):
        A = np.zeros((s, s))
        for i in range(1, s):
            A[i, :i] = rows[i]
            A[i, 0] += want[i] - A[i].sum()
        return A

    def vec(b, total):
        b = np.array(b)
        b[0] += total - b.sum()
        return b

    def err(e, last):
        e = np.append(np.array(e), last)
        e[0] -= e.sum()
        if not np.any(e):
            e[0], e[1] = 0.3, -0.3
        return e
    C = np.array(d["C"])
    ns = dict(order=1, order_secondary=1, n_stages=s, C=C)
    if d["nys"]:
        ns.update(A=mat(d["A"], C ** 2 / 2), B=vec(d["B"], 0.5), E=err(d["E"], d["fsal"]),
                  Bp=vec(d["Bp"], 1.0), Ep=err(d["Ep"], d["fsalp"]))
        if not d["strict"]:
            ns["Ap"] = mat(d["Ap"], C)
        return type("UserN", (RungeKuttaNystrom,), ns)
    ns.update(A=mat(d["A"], C), B=vec(d["B"], 1.0), E=err(d["E"], d["fsal"]))
    if d.get("detect"):
        ns.update(stbrad=2.0, tanang=2.0)
    return type("User", (RungeKutta,), ns)


class UserMethod:
    kind, name = "rk", "user"

    def __init__(s, cls): s.cls = cls


def user(c):
    d = c["tab"]
    cls = make_class(d)
    p = build(c["spec"])
    scale = np.max(np.abs(p.y0))
    atol = c["rtol"] * scale
    if c["vec"]:
        atol = atol * (1 + 0.1 * np.arange(p.n))
    kw = {}
    if c["sc"]:
        kw["sc_params"] = c["sc"]
    if c["first"]:
        kw["first_step"] = c["first"] * abs(p.tf - p.t0) * (1 - 1e-15)
    if c["detect"]:
        kw["nfev_stiff_detect"] = 40
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        tr = drive(UserMethod(cls), p, c["rtol"], atol, {}, dense=False, kw=kw, max_steps=3000)
    # random low-order tables at loose tolerance may run into singularities (Kepler):
    # a failure is not judged here, only the steps that were taken
    T = table(cls)
    n = compare(p.fun, [(T, 1.0)], tr, c["rtol"], atol, d["nys"])
    return ["nystrom" if d["nys"] else "rk", "strict" if d["strict"] else "general",
            "fsal" if d["fsal"] or d.get("fsalp") else "non-fsal"] if n > 1 else []


SUBS = [Sub("builtin", builtin_case(RK + RKN + ["CKdisc"]), builtin, 5000, 150000),
        Sub("rough", rough_case(), rough, 3000, 80000),
        Sub("user", user_case(), user, 2500, 60000)]
