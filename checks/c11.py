"""C11: equivalent ways of stating a problem give the same result"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from scipy.sparse import coo_array, csc_array, csc_matrix, csr_array, lil_array

from pbt.core import Inconclusive, Sub, require
from pbt.gen import matrix, num, vector
from pbt.methods import (METHODS, NAMES, Watch, acc_bound, accuracy_case, kwargs, options,
                         require_ok, tols)
from pbt.problems import build

RULE = ("a case is (method, problem, options, two ways to state it); non-trivial when both solves "
        "finished and were compared")


class Net:
    """y' = A y + b sin(C y + w t)  (or x'' = that, with integers in the initial state)"""

    def __init__(s, c):
        m = METHODS[c["method"]]
        k = s.k = len(c["b"])
        s.second = m.nystrom
        s.strict = m.strict
        s.A = np.array(c["A"]) / k - 0.3 * np.eye(k)
        s.b, s.w, s.C = np.array(c["b"]), np.array(c["w"]), np.array(c["C"])
        if c.get("linear"):
            s.C = s.C * 0
        s.n = 2 * k if s.second else k
        s.y0 = np.array((c["y0"] * 2)[:s.n])
        if s.second and np.array_equal(s.y0[:k], s.y0[k:]):
            s.y0[0] += 1                # documented: x and v must differ at the start
        s.t0, s.tf = c["t0"], c["t0"] + c["dir"] * c["span"]
        s.dtype = float

    def fun(s, t, y):
        y = np.asarray(y)
        if y.ndim == 2:                 # rounded like the single evaluations
            return np.array([s.fun(t, y[:, j].copy()) for j in range(y.shape[1])]).T
        k = s.k
        x = y[:k]
        a = s.A @ x + s.b * np.sin(s.C @ x + s.w * t)
        if not s.second:
            return a
        if not s.strict:
            a = a - 0.1 * y[k:]
        return np.concatenate((y[k:], a))

    def jac(s, t, y):
        return s.A + (s.b * np.cos(s.C @ y + s.w * t))[:, None] * s.C


@st.composite
def net(draw, names=NAMES):
    name = draw(st.sampled_from(names))
    m = METHODS[name]
    k = draw(st.integers(1, 5))
    lin = draw(st.integers(0, 3)) == 0
    c = dict(method=name, A=draw(matrix(k, k)), b=draw(vector(k)), C=draw(matrix(k, k)),
             w=draw(vector(k, 0, 3)), y0=draw(st.lists(st.integers(-3, 3), min_size=k, max_size=k)),
             t0=draw(st.integers(-3, 3)), dir=draw(st.sampled_from([1, -1])),
             span=draw(st.integers(1, 4)), linear=lin)
    c["rtol"] = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5]))
    c["atol"] = draw(st.sampled_from([1e-3, 1e-5, 1e-6, 0.0]))
    if not any(c["y0"]):
        c["y0"] = [1] + c["y0"][1:]
    c["opts"] = draw(options(m, vectorized=False))
    if c["opts"].get("first_frac", 0) > 0.1:
        c["opts"]["first_frac"] = 0.1
    if "jac" in c["opts"] and lin:
        c["opts"]["jac"] = draw(st.sampled_from(["const", "call", "none"]))
    return c


FORMS = dict(
    ret=[None, "list", "tuple", "npfloats", "list", "tuple", "strided"],
    y0=["float", "list", "tuple", "int", "ints", "float32"],
    span=["int", "float", "list"],
    atol=["scalar", "vector", "list", "int"],
    args=[False, True],
    vec=[False, True],
    jac=[None, "list", "tuple", "csc", "csr", "coo", "lil", "cscm", "dense"],
    via=["ivp", "class"])


@st.composite
def case(draw):
    c = draw(net())
    c["realjac"] = draw(st.booleans())
    c["forms"] = [{k: draw(st.sampled_from(v)) for k, v in FORMS.items()} for _ in range(2)]
    return c


def jacform(J, form):
    return dict(list=lambda: J.tolist(), tuple=lambda: tuple(map(tuple, J.tolist())),
                csc=lambda: csc_array(J), csr=lambda: csr_array(J), coo=lambda: coo_array(J),
                lil=lambda: lil_array(J), cscm=lambda: csc_matrix(J), dense=lambda: J)[form]()


def run(c, f, p, cx=False):
    m = METHODS[c["method"]]

    def ret(v):
        if f["ret"] == "list":
            return v.tolist()
        if f["ret"] == "tuple":
            return tuple(map(tuple, v)) if v.ndim == 2 else tuple(v)
        if f["ret"] == "npfloats":
            return [x for x in v]
        if f["ret"] == "strided":
            big = np.zeros((3,) + v.shape, v.dtype).T if v.ndim == 2 else np.zeros(3 * v.size, v.dtype)
            if v.ndim == 2:
                return v
            big[::3] = v
            return big[::3]
        return v

    def fun0(t, y, *extra):
        if f["args"]:
            require(extra == (3.5, "a"), "args not passed: %s", extra)
        y = np.asarray(y)
        require(f["vec"] or y.ndim == 1, "fun called with shape %s without `vectorized`", y.shape)
        return ret(p.fun(t, y))
    kw = kwargs(m, c["opts"], p)
    J = kw.get("jac")
    if J is not None:
        form = f["jac"] or "dense"
        if callable(J):
            # (real Jacobians are as good in complex arithmetic)
            get = (lambda t, y: p.jac(t, np.real(y))) if cx and f["realjac"] else p.jac
            kw["jac"] = lambda t, y, *extra: jacform(get(t, y), form)
        else:
            kw["jac"] = jacform(np.asarray(J), form)
    if "jac_sparsity" in kw:
        form = f["jac"] or "dense"
        kw["jac_sparsity"] = jacform(np.ones((p.n, p.n)), "list" if form == "tuple" else form)
    kw["vectorized"] = f["vec"]
    if m.kind == "rkc":
        r = lambda t, y, *extra: float(np.linalg.norm(p.jac(t, y))) + 1e-3
        kw["rho_jac"] = r
    y0 = p.y0
    y0 = dict(float=lambda: y0.astype(float), list=lambda: [float(x) for x in y0],
              tuple=lambda: tuple(map(float, y0)), int=lambda: y0.astype(int),
              ints=lambda: [int(x) for x in y0], float32=lambda: y0.astype(np.float32))[f["y0"]]()
    if cx:
        y0 = np.array(y0) + 0j
    num_ = int if f["span"] == "int" else float
    t0, tf = num_(p.t0), num_(p.tf)
    atol = c["atol"]
    if f["atol"] == "vector":
        atol = np.full(p.n, atol)
    elif f["atol"] == "list":
        atol = [atol] * p.n
    elif f["atol"] == "int" and atol == 0:
        atol = 0
    w = Watch(lambda t, y: y, 100000)
    if f["args"] and f["via"] == "ivp":
        extra, fun1, cargs = (), fun0, (3.5, "a")
    else:
        extra, cargs = (3.5, "a"), None
        if not f["args"]:
            extra = ()

        def fun1(t, y): return fun0(t, y, *extra)

    n = [0]

    def fun(t, y, *e):
        n[0] += 1
        require(n[0] < 100000, "no end after 100000 evaluations")
        return fun1(t, y, *e)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if f["via"] == "ivp":
            span = [t0, tf] if f["span"] == "list" else (t0, tf)
            r = solve_ivp(fun, span, y0, method=m.cls, rtol=c["rtol"], atol=atol, args=cargs,
                          dense_output=True, **kw)
            ok, msg, t, y, sol = r.success, r.message, r.t, r.y, r.sol
            mid = np.array([sol(x) for x in (t[:-1] + np.diff(t) * 0.3)]).T
        else:
            s = m.cls(fun, t0, y0, tf, rtol=c["rtol"], atol=atol, **kw)
            t, y, mid = [s.t], [s.y.copy()], []
            msg = None
            while s.status == "running":
                msg = s.step()
                if s.status == "failed":
                    break
                d = s.dense_output()
                mid.append(d(s.t_old + (s.t - s.t_old) * 0.3))
                t.append(s.t)
                y.append(s.y.copy())
            ok = s.status == "finished"
            t, y, mid = np.array(t), np.array(y).T, np.array(mid).T
    require_ok(m, ok, msg, t[-1])
    return t, y, mid


def check(c):
    m, p = METHODS[c["method"]], Net(c)
    a, b = (dict(f) for f in c["forms"])
    numeric = m.implicit and c["opts"].get("jac") in ("none", "pattern")
    if (m.name == "Fi5N" and c["opts"].get("interpolant") == 1):
        b["via"] = a["via"]
    # factorisations and difference quotients then differ by rounding
    loose = m.implicit and (numeric and a["vec"] != b["vec"] or a["jac"] != b["jac"])
    if loose:
        c = dict(c, rtol=min(c["rtol"], 1e-3), atol=max(c["atol"], 1e-6))
    A = run(c, a, p)
    B = run(c, b, p)
    scale = np.max(np.abs(A[1]))
    tol = c["rtol"] * scale + c["atol"]
    what = "stated as %s and as %s" % tuple(
        {k: v for k, v in f.items() if a[k] != b[k]} for f in (a, b))
    tags = [m.name] + [k for k in a if a[k] != b[k]]
    if not loose:
        if "strided" in (a["ret"], b["ret"]) and A[0].size != B[0].size and A[0].size < 7:
            raise Inconclusive("steps are determined by rounding")
        require(A[0].size == B[0].size, "%d and %d steps when %s", A[0].size, B[0].size, what)
        if "strided" in (a["ret"], b["ret"]):
            # sums over strided arrays may be rounded differently
            et = np.max(np.abs(A[0] - B[0]))
            e = np.max(np.abs(A[1][:, -1] - B[1][:, -1]))
            require(e <= 1e-3 * tol + 1e-11 * scale and et <= 1e-4 * abs(p.tf - p.t0),
                    "end points differ by %.3g and times by %.3g when %s", e, et, what)
            return tags
        for x, y, w in zip(A, B, ("times", "states", "dense output")):
            e = np.max(np.abs(x - y))
            require(e <= 1e-14 * scale if w != "times" else e == 0,
                    "%s differ by %.3g when %s", w, e, what)
    else:
        require(abs(A[0].size - B[0].size) <= 2 + A[0].size // 8, "%d and %d steps when %s",
                A[0].size, B[0].size, what)
        e = np.max(np.abs(A[1][:, -1] - B[1][:, -1]))
        require(e <= 20 * tol, "end points differ by %.3g (tolerance %.3g) when %s", e, tol, what)
        tags.append("loosely")
    return tags if len(tags) > 1 else []


# ------------------------------------------------------------------ complex ---
def real_as_complex(c):
    m, p = METHODS[c["method"]], Net(c)
    f = dict(c["forms"][0], realjac=c.get("realjac", False))
    o = dict(c["opts"])
    if c["atol"] == 0:
        c = dict(c, atol=1e-8)
    if f["y0"] in ("int", "ints", "float32"):
        f["y0"] = "float"
    if m.implicit and c["opts"].get("jac") in ("none", "pattern"):
        c = dict(c, opts=dict(o, jac="call"))
    A = run(c, f, p)
    B = run(c, f, p, cx=True)
    scale = np.max(np.abs(A[1]))
    tol = c["rtol"] * scale + c["atol"]
    require(np.iscomplexobj(B[1]), "the complex solve returns real states")
    for k in (1, 2):
        e = np.max(np.abs(B[k].imag))
        require(e <= 1e-13 * scale, "imaginary part %.3g of a real problem", e)
    L = abs(p.tf - p.t0)
    if m.implicit:
        require(abs(A[0].size - B[0].size) <= 1 + A[0].size // 8,
                "%d steps, but %d in complex arithmetic", A[0].size, B[0].size)
        e = np.max(np.abs(A[1][:, -1] - B[1][:, -1]))
        require(e <= 20 * tol, "end points differ by %.3g (tolerance %.3g) in complex arithmetic", e, tol)
        return [m.name]

    def differ(X, Y):
        if X[0].size != Y[0].size:
            return "%d steps, but %d" % (X[0].size - 1, Y[0].size - 1)
        et = np.max(np.abs(X[0] - Y[0])) / L
        if et > 1e-6:
            return "times differ by %.3g of the interval" % et
        e = np.max(np.abs(X[1] - Y[1]))
        if e > 1e-4 * tol + (1e-11 + 30 * et) * scale:
            return "states differ by %.3g" % e
    msg = differ(A, B)
    if msg:
        if min(A[0].size, B[0].size) <= 6:
            raise Inconclusive("steps are determined by rounding")
        y0 = p.y0
        for k in range(5):
            p.y0 = y0 * (1 + 1e-14 * np.cos(k + np.arange(p.n)))
            N = run(c, f, p)
            if differ(A, N) or np.max(np.abs(A[0] - N[0])) > 1e-9 * L:
                raise Inconclusive("steps are determined by rounding")
        require(False, "%s in complex arithmetic", msg)
    return [m.name]


@st.composite
def split_case(draw):
    c = draw(accuracy_case([n for n in NAMES if METHODS[n].complex], hi=-2.5,
                           opts=dict(steps=False), span=(0.5, 3.0)))
    if "phase" not in c["spec"]:
        c["spec"]["phase"] = [draw(num(-0.6, 0.6, 2)) for _ in c["spec"]["mods"]]
        ok = ("osc", "mag") if c["spec"]["kind"] == "so" else \
            ("lin", "logistic", "cubic", "tdep", "forced", "sine", "rot", "chain")
        mods = [k for k in c["spec"]["mods"] if k["kind"] in ok] or (
            [dict(kind="osc", w=1.3, z=0.7, v=0.3)] if c["spec"]["kind"] == "so" else
            [dict(kind="lin", k=1.0, z=0.7)])
        mods = [dict(k, b=0.0) if k["kind"] == "osc" else k for k in mods]
        d = dict(osc=1, mag=2, rot=2, chain=2)
        n = sum(d.get(k["kind"], 1) for k in mods)
        c["spec"]["mods"], c["spec"]["ang"] = mods, c["spec"]["ang"][:n - 1]
        if METHODS[c["method"]].strict and any(k["kind"] == "mag" or k.get("g") for k in mods):
            c["spec"]["mods"] = [dict(kind="osc", w=1.3, z=0.7, v=0.3)]
            c["spec"]["ang"] = []
    c["rtol"] = max(c["rtol"], 1e-7)
    return c


class Split:
    """real and imaginary parts as a real system"""

    def __init__(q, p, nystrom):
        q.p, q.n, q.t0, q.tf = p, 2 * p.n, p.t0, p.tf
        n = p.n
        if nystrom:                     # [xr, xi, vr, vi]
            h = n // 2
            q.re = np.r_[0:h, n:n + h]
            q.im = np.r_[h:n, n + h:2 * n]
        else:
            q.re, q.im = np.arange(n), np.arange(n, 2 * n)
        q.y0 = q.put(p.y0)

    def put(q, v):
        out = np.empty((q.n,) + v.shape[1:])
        out[q.re], out[q.im] = v.real, v.imag
        return out

    def get(q, y): return y[q.re] + 1j * y[q.im]
    def fun(q, t, y): return q.put(q.p.fun(t, q.get(np.asarray(y))))

    def jac(q, t, y):
        J = q.p.jac(t, q.get(y))
        out = np.empty((q.n, q.n))
        out[np.ix_(q.re, q.re)] = J.real
        out[np.ix_(q.im, q.im)] = J.real
        out[np.ix_(q.re, q.im)] = -J.imag
        out[np.ix_(q.im, q.re)] = J.imag
        return out


def split(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, tol = tols(c, p)
    q = Split(p, m.nystrom)
    at = q.put(np.asarray(atol) * (1 + 1j)) if np.ndim(atol) else atol
    out = []
    for r, a in ((p, atol), (q, at)):
        kw = kwargs(m, c["opts"], r)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = solve_ivp(Watch(r.fun, 100000), (p.t0, p.tf), r.y0, method=m.cls, rtol=rtol, atol=a, **kw)
        require_ok(m, s.success, s.message, s.t[-1])
        out.append(s)
    a, b = out
    require(np.iscomplexobj(a.y), "complex states are lost")
    bound = 2 * acc_bound(m.name, rtol) * tol * p.amp + 3e-13 * np.max(np.abs(a.y))
    e = np.max(np.abs(a.y[:, -1] - q.get(b.y[:, -1])))
    require(e <= bound, "complex and split solutions differ by %.3g (allowed %.3g)", e, bound)
    r = (a.t.size + 3) / (b.t.size + 3)
    require(0.4 < r < 2.5, "%d steps, but %d when split", a.t.size - 1, b.t.size - 1)
    return [m.name]


SUBS = [Sub("forms", case(), check, 4000, 100000),
        Sub("complexified", case().filter(lambda c: METHODS[c["method"]].complex),
            real_as_complex, 2500, 60000),
        Sub("split", split_case(), split, 1500, 40000)]
