"""C15: implicit solvers give the same answer however the Jacobian is supplied"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from scipy.sparse import coo_array, csc_array, csc_matrix, csr_array, lil_array

from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, num
from pbt.methods import IMPL, METHODS, Watch, acc_bound, options, kwargs, require_ok
from pbt.problems import KINDS, build, module, stiff_mods, _S, PLAIN

RULE = ("a case is (implicit method, problem with closed-form solution, tolerance, two ways to supply the "
        "Jacobian); non-trivial when both solves were compared with the true solution and each other")
FORMS = ["dense", "list", "tuple", "csc", "csr", "coo", "lil", "cscm", "none", "none",
         "pattern", "pattern_list", "pattern_bool", "pattern_csc", "pattern_full"]
WRONG = ["scale", "zero", "frozen", "noise", "diag"]


@st.composite
def problem(draw, stiff_hi=4.0, complex_=True, max_mods=4):
    kinds = sorted(PLAIN)
    cx = complex_ and draw(st.integers(0, 4)) == 0
    if cx:
        kinds = [k for k in kinds if KINDS[k].analytic]
    mods = draw(st.lists(st.one_of(module(kinds), module(kinds), stiff_mods(0.5, stiff_hi)),
                         min_size=1, max_size=max_mods))
    lin = draw(st.integers(0, 3)) == 0
    if lin:
        mods = [x for x in mods if x["kind"] in ("lin", "rot", "forced", "prothero")] or \
            [dict(kind="rot", w=1.3, g=0.2, z=0.7, z2=0.4)]
    n = sum(KINDS[k["kind"]].d for k in mods)
    mix = n > 1 and draw(st.booleans())
    spec = dict(kind="fo", mods=mods, ang=draw(st.lists(num(-3.1, 3.1, 2), min_size=n - 1, max_size=n - 1))
                if mix else [], span=draw(num(0.5, 4.0)), dir=draw(st.sampled_from([1, -1])),
                c=draw(st.one_of(st.just(0.0), num(-3, 3, 2))), scale=draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3])))
    if cx:
        spec["phase"] = [0.0 if k["kind"] in ("prothero", "protheroNL", "kaps") else draw(num(-0.6, 0.6, 2))
                         for k in mods]
    return spec, lin


@st.composite
def case(draw):
    name = draw(st.sampled_from(IMPL))
    spec, lin = draw(problem())
    forms = FORMS + ["const", "const_csc", "const_list"] * 2 * lin
    c = dict(method=name, spec=spec, rtol=draw(logu(max(METHODS[name].rtol_min, -6), -3)),
             forms=[dict(jac=draw(st.sampled_from(forms + (WRONG if k else []))),
                         each=draw(st.booleans()), vec=draw(st.booleans())) for k in (0, 1)],
             opts=draw(options(METHODS[name], jac=False, vectorized=False, steps=False)),
             seed=draw(st.integers(0, 10 ** 6)), wrong=draw(num(-0.3, 0.3, 2)))
    if draw(st.integers(0, 3)) == 0:
        c["first"] = draw(logu(-4, -1))
    return c


def sparse(J, form):
    return dict(csc=csc_array, csr=csr_array, coo=coo_array, lil=lil_array, cscm=csc_matrix)[form](J)


def pattern(p):
    """true sparsity of the Jacobian"""
    n, S = p.n, np.zeros((p.n, p.n))
    if p.spec["ang"]:
        return S + 1
    for sl in p.sl:
        S[sl, sl] = 1
    return S


def jac_kw(c, f, p, nonstiff):
    form = f["jac"]
    rng = np.random.default_rng(c["seed"])
    N = rng.uniform(-1, 1, (p.n, p.n))
    if form == "none":
        return {}
    if form.startswith("pattern"):
        S = pattern(p)
        if form == "pattern_full":
            S = S * 0 + 1
        return dict(jac_sparsity={"pattern_list": S.tolist(), "pattern_bool": S.astype(bool),
                                  "pattern_csc": csc_array(S)}.get(form, S))
    if form.startswith("const"):
        J = np.array(p.jac(p.t0, p.y0))
        return dict(jac={"const": J, "const_csc": csc_array(J), "const_list": J.tolist()}[form])
    if form in WRONG:
        def wrong(t, y):
            J = p.jac(t, y)
            if form == "scale":
                return J * (1 + c["wrong"])
            if form == "noise":
                return J + c["wrong"] * 0.3 * N * min(np.linalg.norm(J), 1.0)
            if not nonstiff:
                return J * (1 - 0.5 * c["wrong"])
            if form == "zero":
                return J * 0
            if form == "frozen":
                return p.jac(p.t0, p.y0)
            return np.diag(np.diag(J))
        return dict(jac=wrong)
    if form == "dense":
        return dict(jac=p.jac)
    if form in ("list", "tuple"):
        conv = (lambda J: J.tolist()) if form == "list" else (lambda J: tuple(map(tuple, J)))
        return dict(jac=lambda t, y: conv(p.jac(t, y)))
    return dict(jac=lambda t, y: sparse(p.jac(t, y), form))


def check(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    nonstiff = not any(k["kind"] in ("prothero", "protheroNL", "kaps") for k in c["spec"]["mods"])
    ymax = np.max(np.abs(p.exact(np.linspace(p.t0, p.tf, 30))))
    rtol, atol = c["rtol"], c["rtol"] * ymax
    tol = 2 * rtol * ymax
    kw0 = kwargs(m, c["opts"], p)
    if "first" in c:
        kw0["first_step"] = c["first"] * abs(p.tf - p.t0)
    out, tags = [], [m.name]
    bound = acc_bound(m.name, rtol) * tol * p.amp * (1 if nonstiff else 2)
    for f in c["forms"]:
        kw = dict(kw0, jac_each_step=f["each"], vectorized=f["vec"], **jac_kw(c, f, p, nonstiff))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = solve_ivp(Watch(p.fun, 200000), (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol, **kw)
        require_ok(m, r.success, "%s with Jacobian %s" % (r.message, f), r.t[-1])
        e = np.max(np.abs(r.y - p.exact(r.t)))
        require(e <= bound, "error %.3g with Jacobian %s, allowed %.3g (tolerance %.3g)", e, f, bound, tol)
        out.append(r)
        tags.append(f["jac"])
    a, b = out
    if c["forms"][1]["jac"] not in WRONG:
        # the same problem: similar steps and work
        ra = (a.t.size + 4) / (b.t.size + 4)
        require(0.5 < ra < 2, "%d steps, but %d with Jacobian %s instead of %s", b.t.size - 1, a.t.size - 1,
                c["forms"][1], c["forms"][0])
        if c["forms"][0]["each"] == c["forms"][1]["each"]:
            ra = (a.nfev + 40) / (b.nfev + 40)
            # stages of linear problems with a constant Jacobian take a single evaluation
            r = 4 if any("const" in f["jac"] for f in c["forms"]) else 2
            require(1 / r < ra < r, "%d evaluations, but %d with Jacobian %s instead of %s", b.nfev, a.nfev,
                    c["forms"][1], c["forms"][0])
    return tags + ["stiff"] * (not nonstiff)


# ------------------------------------------------- many unknowns, sparse pattern ---
@st.composite
def big_case(draw):
    name = draw(st.sampled_from(IMPL))
    n = draw(st.integers(3, 40))
    return dict(method=name, n=n, a=draw(logu(-1, 3)), r=draw(num(0, 2)), dir=draw(st.sampled_from([1, -1])),
                per=draw(st.booleans()), form=draw(st.sampled_from(["pattern_csc", "pattern", "pattern_list", "csc", "none"])),
                rtol=draw(logu(max(METHODS[name].rtol_min, -5), -3)), vec=draw(st.booleans()),
                each=draw(st.booleans()), span=draw(num(0.3, 3)))


def big(c):
    """chain of reacting cells; sparse and numerical Jacobians against a dense one"""
    m, n = METHODS[c["method"]], c["n"]
    A = np.diag(-2 * np.ones(n)) + np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1)
    if c["per"]:
        A[0, -1] = A[-1, 0] = 1
    A *= c["a"]
    S = (A != 0) * 1.0
    y0 = 1 + 0.5 * np.sin(2 * np.pi * np.arange(n) / n)
    d, r = c["dir"], c["r"]
    idx = [np.nonzero(S[i])[0] for i in range(n)]
    shapes = set()

    def fun(t, y):
        shapes.add(np.ndim(y))
        w = y if y.ndim == 2 else y[:, None]
        f = d * (A @ w + r * w * (1 - w) + 0.3 * np.cos(d * t))
        return f if y.ndim == 2 else f[:, 0]

    def jac(t, y): return d * (A + np.diag(r * (1 - 2 * y)))
    rtol, span = c["rtol"], (0.0, d * c["span"])
    res = []
    for form in ("dense", c["form"]):
        kw = dict(jac=jac) if form == "dense" else dict(jac=lambda t, y: csc_array(jac(t, y))) \
            if form == "csc" else {} if form == "none" else dict(jac_sparsity=dict(
                pattern=S, pattern_list=S.tolist(), pattern_csc=csc_array(S))[form])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cnt = Watch(fun, 200000)
            r_ = solve_ivp(cnt, span, y0, method=m.cls, rtol=rtol, atol=rtol, vectorized=c["vec"],
                           jac_each_step=c["each"], **kw)
        require_ok(m, r_.success, r_.message, r_.t[-1])
        res.append((r_, cnt))
    (a, ca), (b, cb) = res
    tol = 2 * rtol * np.max(np.abs(a.y))
    e = np.max(np.abs(a.y[:, -1] - b.y[:, -1]))
    require(e <= 2 * acc_bound(m.name, rtol) * tol, "end points differ by %.3g with Jacobian %s (tolerance "
            "%.3g)", e, c["form"], tol)
    ra = (a.t.size + 4) / (b.t.size + 4)
    require(0.6 < ra < 1.6, "%d steps, but %d with Jacobian %s", a.t.size - 1, b.t.size - 1, c["form"])
    if c["form"].startswith("pattern"):
        # columns are grouped: the cost of a Jacobian does not grow with n
        groups = 5 if c["per"] else 3
        extra = cb.points - b.nfev
        require(extra <= b.njev * (1 + 2 * groups) + 6, "%d evaluations for %d Jacobians of a tridiagonal "
                "system", extra, b.njev)
    return [m.name, c["form"]]


# ------------------------------------------ where the Jacobian is evaluated ---
@st.composite
def updates_case(draw):
    name = draw(st.sampled_from(IMPL))
    spec, lin = draw(problem())
    c = dict(method=name, spec=spec, rtol=draw(logu(max(METHODS[name].rtol_min, -5), -2)),
             form=dict(jac=draw(st.sampled_from(["dense", "list", "csc", "coo", "none", "pattern"])),
                       each=draw(st.integers(0, 2)) > 0, vec=draw(st.booleans())),
             opts=draw(options(METHODS[name], jac=False, vectorized=False, steps=False)),
             seed=0, wrong=0.0)
    if draw(st.integers(0, 2)) == 0:
        c["first"] = draw(logu(-3, 0))
    return c


def updates(c):
    """a Jacobian belongs to a state that was reached, each of them with jac_each_step"""
    m, p, f = METHODS[c["method"]], build(c["spec"]), c["form"]
    rtol = c["rtol"]
    atol = rtol * np.max(np.abs(p.exact(np.linspace(p.t0, p.tf, 30))))
    kw = dict(kwargs(m, c["opts"], p), jac_each_step=f["each"], vectorized=f["vec"], **jac_kw(c, f, p, True))
    if "first" in c:
        kw["first_step"] = c["first"] * abs(p.tf - p.t0)
    calls = []
    if "jac" in kw:
        plain = kw["jac"]

        def jac(t, y):
            calls.append((float(t), np.array(y)))
            return plain(t, y)
        kw["jac"] = jac
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = solve_ivp(Watch(p.fun, 200000), (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol, **kw)
    require_ok(m, r.success, r.message, r.t[-1])
    n = r.t.size - 1
    require(not f["each"] or r.njev >= n, "%d Jacobians in %d steps with jac_each_step", r.njev, n)
    if "jac" in kw:
        at = {float(t): i for i, t in enumerate(r.t)}
        seen = set()
        for t, y in calls:
            require(t in at, "a Jacobian was evaluated at %s, which is not a point of the solution", t)
            e = np.max(np.abs(y - r.y[:, at[t]]))
            require(e <= 1e-12 * np.max(np.abs(y)), "a Jacobian at %s was evaluated %.3g from the solution", t, e)
            seen.add(at[t])
        require(not f["each"] or seen >= set(range(n)), "with jac_each_step no Jacobian was evaluated at the points %s "
                "(%d steps)", sorted(set(range(n)) - seen)[:5], n)
    return [m.name, f["jac"], "each" if f["each"] else "when needed"] if n > 2 else []


SUBS = [Sub("forms", case(), check, 5000, 60000),
        Sub("sparse", big_case(), big, 1500, 20000),
        Sub("updates", updates_case(), updates, 1000, 20000)]
