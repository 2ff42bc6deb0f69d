"""C13: reported work counters tell the truth"""
import warnings

import numpy as np
import extensisq as ex
from extensisq import sommeijer
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from pbt.core import Inconclusive, Sub, require
from pbt.gen import logu, num
from pbt.methods import METHODS, Watch, accuracy_case, kwargs, method_problem, options, require_ok, tols
from pbt.problems import build

RULE = ("a case is (method, problem, options, how it is run); every call of the user's functions is "
        "logged and compared with the counters after every step; non-trivial when the solve took "
        "steps, and tagged when there were failed steps or iterations to count")
LINEAR = ("CK5", "Ts5", "Me4", "Pr7", "Pr8", "Pr9", "Fi4N", "Fi5N", "Mu5Nmb", "MR6NN")


@st.composite
def case(draw):
    c = draw(accuracy_case(hi=-1.5, opts=dict(steps=False), span=(0.5, 6.0)))
    c["rtol"] = max(c["rtol"], 1e-7)
    c["first"] = draw(st.one_of(st.none(), logu(-4, -0.5)))
    if draw(st.integers(0, 1)) == 0:
        c["jumps"] = draw(st.lists(num(0.05, 0.95), min_size=1, max_size=3))
    c["dense"] = draw(st.sampled_from(["no", "all", "some"]))
    if METHODS[c["method"]].detect and draw(st.booleans()):
        c["opts"]["nfev_stiff_detect"] = 0
    return c


def make(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, tol = tols(c, p)
    half = p.n // 2 if m.nystrom else 0
    kick = 0.7 * np.max(np.abs(p.y0))
    plain = p.fun

    def fun(t, y):
        y = np.asarray(y)
        f = np.array(plain(t, y))
        k = sum((t - p.t0) / (p.tf - p.t0) > a for a in c.get("jumps", ()))
        if k % 2:
            f[half:] += kick
        return f
    log = []

    class Q:
        n, y0, t0, tf = p.n, p.y0, p.t0, p.tf

        def jac(t, y):
            log.append(("j", t))
            return p.jac(t, y)
    kw = kwargs(m, c["opts"], Q)
    del log[:]                                   # made for a constant Jacobian
    if c["first"]:
        kw["first_step"] = c["first"] * abs(p.tf - p.t0)

    def wrapped(t, y):
        log.append(("f", t))
        if len(log) > 60000:
            raise Inconclusive("the jumps make this problem too hard")
        return fun(t, y)
    return m, p, rtol, atol, kw, wrapped, log


def check(c):
    m, p, rtol, atol, kw, fun, log = make(c)
    numeric = m.implicit and "jac" not in kw
    ownrho = m.kind == "rkc"
    d = 1 if p.tf > p.t0 else -1
    steps, tags = 0, [m.name]
    base = slope = None
    C = getattr(m.cls, "C", None)
    ordered = m.implicit and np.all(np.diff(np.array(C, float)) > 0) and not numeric

    def calls(kind, start=0): return sum(1 for a, _ in log[start:] if a == kind)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = m.cls(fun, p.t0, p.y0, p.tf, rtol=rtol, atol=atol, **kw)
        require((int(ex.NFS), int(ex.NFI) * m.implicit, int(ex.NLS) * m.implicit) == (0, 0, 0),
                "counters of failures are %s, %s, %s for a new solver", ex.NFS, ex.NFI, ex.NLS)
        if m.implicit:
            init = calls("f") - s.nfev           # not counted: first step, Jacobian
            require(0 <= init <= 6 + 3 * p.n * numeric, "%d evaluations uncounted at the start", init)
        else:
            require(s.nfev == calls("f"), "nfev is %d after construction, but %d calls",
                    s.nfev, calls("f"))
        require(not callable(kw.get("jac")) or s.njev == calls("j"), "njev is %d after construction, "
                "but %d calls", s.njev, calls("j"))
        while s.status == "running":
            n0, f0, j0 = len(log), s.nfev, s.njev
            fs0, fi0, ls0, sig0 = int(ex.NFS), int(ex.NFI), int(ex.NLS), int(sommeijer.nfesig)
            msg = s.step()
            if s.status == "failed":
                if "jumps" in c:
                    raise Inconclusive("failed at a jump")
                require_ok(m, False, msg, s.t)
            df, dj = calls("f", n0), calls("j", n0)
            fs, fi, ls = int(ex.NFS) - fs0, int(ex.NFI) - fi0, int(ex.NLS) - ls0
            require(fs >= 0 and (not m.implicit or fi >= 0 and ls >= 0), "a counter went down")
            plain = df
            if ownrho:
                extra = int(sommeijer.nfesig) - sig0
                require(df == s.nfev - f0 + extra, "%d calls in step %d, but nfev grew by %d "
                        "and the spectral radius took %d", df, steps, s.nfev - f0, extra)
            elif numeric:
                gj = s.njev - j0
                require(gj * 2 <= df - (s.nfev - f0) <= gj * (1 + 2 * p.n), "%d calls in step %d, but nfev "
                        "grew by %d and njev by %d", df, steps, s.nfev - f0, gj)
            else:
                require(df == s.nfev - f0, "%d calls in step %d, but nfev grew by %d",
                        df, steps, s.nfev - f0)
            if m.implicit and callable(kw.get("jac")):
                require(dj == s.njev - j0, "%d Jacobian calls in step %d, but njev grew by %d",
                        dj, steps, s.njev - j0)
            if m.name in LINEAR and not c["opts"].get("nfev_stiff_detect", 1):
                # the same work for every attempt, plus that for the new point
                if fs == 0:
                    base = df if base is None else base
                    require(df == base, "%d calls without failure in step %d, %d earlier",
                            df, steps, base)
                elif base is not None:
                    q = (df - base) / fs
                    slope = q if slope is None else slope
                    require(q == slope and base - 1 <= slope <= base, "%d calls in step %d with %d "
                            "failures, %d without failure, %s per failure", df, steps, fs, base, slope)
            if m.name in ("BS5", "CFMR7osc") and not c["opts"].get("nfev_stiff_detect", 1):
                # failed attempts stop early, after more than half of the work
                base = df if base is None and fs == 0 else base
                if base is not None:
                    require(base + fs * base / 2 <= df <= base * (1 + fs) and (fs or df == base),
                            "%d calls in step %d with %d failures, %d without", df, steps, fs, base)
            if m.kind == "ckdisc":
                require(2 + fs <= df <= 7 * (1 + fs), "%d calls in step %d with %d failures", df, steps, fs)
            if m.kind == "multistep":
                require(df == 2 + fs or df == 0 and fs == 0, "%d calls in step %d, %d failures",
                        df, steps, fs)
            if m.implicit:
                # one evaluation per linear solve, and one solve to filter the error
                # of every completed attempt (some methods)
                filt = m.name in ("TRBDF2", "TRX2")
                iters = s.nfev - f0
                require(ls == iters + filt * (1 + fs), "%d linear solves in step %d, %d iterations "
                        "and %d failures", ls, steps, iters, fs)
            if ordered:
                att, last = 1, None
                for kind, t in log[n0:]:
                    if kind == "j":
                        if last is not None:
                            att, last = att + 1, None
                    else:
                        if last is not None and (t - last) * d < 0:
                            att += 1
                        last = t
                if not c["opts"].get("jac_each_step"):
                    require(fs + fi == att - 1, "%d attempts in step %d, but %d failed steps and %d failed "
                            "iterations", att, steps, fs, fi)
                    tags += ["attempts"] * (att > 1)
            if fs:
                tags.append("failed steps")
            if m.implicit and fi:
                tags.append("failed iterations")
            if c["dense"] == "all" or c["dense"] == "some" and steps % 3 == 0:
                n0, f0, fs0 = len(log), s.nfev, int(ex.NFS)
                s.dense_output()
                require(calls("f", n0) == s.nfev - f0, "%d calls for dense output, nfev grew by %d",
                        calls("f", n0), s.nfev - f0)
                require(int(ex.NFS) == fs0, "dense output counts as a failed step")
            steps += 1
    return tags if steps else []


# ------------------------------------------------------- the totals of solve_ivp ---
@st.composite
def pair(draw):
    c = draw(case())
    b = draw(case())
    c["before"] = dict(method=b["method"], spec=b["spec"], rtol=max(b["rtol"], 1e-5), opts=b["opts"],
                       af=b["af"], first=b["first"], jumps=b.get("jumps", [0.5]))
    c["ev"] = draw(st.sampled_from([None, None, "event", "t_eval"]))
    c["mid"] = draw(st.booleans())
    return c


def totals(c):
    """the counters after solve_ivp, and that they do not depend on what ran before"""
    first = None
    out = []
    for turn in (0, 1):
        if turn and c["before"]:
            m, p, rtol, atol, kw, fun, log = make(c["before"])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sb = m.cls(fun, p.t0, p.y0, p.tf, rtol=rtol, atol=atol, **kw)
                n = 0
                while sb.status == "running" and (n < 5 or not c["mid"]):
                    sb.step()
                    n += 1
        m, p, rtol, atol, kw, fun, log = make(c)
        extra = {}
        if c["ev"] == "event":
            extra["events"] = lambda t, y: float(np.real(y[0]) - 0.5 * np.real(p.y0[0]))
        if c["ev"] == "t_eval":
            extra["t_eval"] = np.linspace(p.t0, p.tf, 7)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = solve_ivp(fun, (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol,
                          dense_output=c["dense"] == "all", **kw, **extra)
        if not r.success:
            if "jumps" in c:
                raise Inconclusive("failed at a jump")
            require_ok(m, False, r.message, r.t[-1])
        fc = sum(1 for a, _ in log if a == "f")
        jc = len(log) - fc
        if m.kind == "rkc":
            require(fc == r.nfev + int(sommeijer.nfesig), "nfev is %d, but %d calls (%d for the spectral "
                    "radius)", r.nfev, fc, sommeijer.nfesig)
        elif m.implicit and "jac" not in kw:
            require(r.njev * 2 <= fc - r.nfev <= 6 + r.njev * (1 + 2 * p.n), "nfev is %d and njev %d, "
                    "but %d calls", r.nfev, r.njev, fc)
        elif m.implicit:
            require(0 <= fc - r.nfev <= 6, "nfev is %d, but %d calls", r.nfev, fc)
            if callable(kw["jac"]):
                require(jc == r.njev, "njev is %d, but %d calls", r.njev, jc)
        else:
            require(fc == r.nfev, "nfev is %d, but %d calls", r.nfev, fc)
        if not m.implicit:
            require(r.njev == 0 and r.nlu == 0, "an explicit solve reports njev %d, nlu %d", r.njev, r.nlu)
        else:
            nls = int(ex.NLS)
            require(1 <= r.nlu <= nls, "nlu is %d, with %d linear solves", r.nlu, nls)
        out.append([r.nfev, r.njev, r.nlu, int(ex.NFS)] +
                   ([int(ex.NFI), int(ex.NLS)] if m.implicit else []))
    require(out[0] == out[1], "counters (nfev, njev, nlu, NFS..) are %s, but %s after another solve",
            out[0], out[1])
    return [m.name] + ["failures"] * (out[0][3] > 0)


SUBS = [Sub("steps", case(), check, 4000, 100000),
        Sub("totals", pair(), totals, 1500, 40000)]
