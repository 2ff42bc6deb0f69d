"""C08: results respect the symmetries of the system of equations"""
import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csc_array, csr_array

from pbt.core import Inconclusive, Sub, require
from pbt.gen import matrix, num
from pbt.methods import METHODS, accuracy_case, drive, require_ok, tols
from pbt.problems import build

RULE = ("a case is (method, problem, options, symmetry); the solve of the transformed system is "
        "compared step by step with the transformed solve; non-trivial when both solves finished "
        "with at least 2 steps")


class Image:
    """problem whose state is  y[idx] * s  (idx: permutation or repeated indices; s: a number
    or one for each component)"""

    def __init__(q, p, idx, s):
        q.p, q.idx, q.n = p, idx, idx.size
        q.s = s = np.broadcast_to(s, (q.n,))
        q.t0, q.tf = p.t0, p.tf
        q.y0 = p.y0[idx] * s
        first = np.full(p.n, -1)
        for k, i in enumerate(idx):
            if first[i] < 0:
                first[i] = k
        q.first = first

    def fun(q, t, y):
        y = np.asarray(y)
        out = np.empty_like(y, dtype=np.result_type(y, q.p.dtype))
        for sel in q.copies():
            u = q.s[sel][:, None] if y.ndim == 2 else q.s[sel]
            out[sel] = q.p.fun(t, y[sel] / u) * u
        return out

    def copies(q):
        """positions of each copy, in the order of the original components"""
        k = q.n // q.p.n
        pos = [np.flatnonzero(q.idx == i) for i in range(q.p.n)]
        return [np.array([pos[i][j] for i in range(q.p.n)]) for j in range(k)]

    def jac(q, t, y):
        y = np.asarray(y)
        J = np.zeros((q.n, q.n), dtype=q.p.dtype)
        for sel in q.copies():
            J[np.ix_(sel, sel)] = q.p.jac(t, y[sel] / q.s[sel]) * q.s[sel][:, None] / q.s[sel]
        return J

    def mat(q, B):
        out = np.zeros((q.n, q.n))
        for sel in q.copies():
            out[np.ix_(sel, sel)] = B
        return out


@st.composite
def case(draw):
    c = draw(accuracy_case(hi=-2.5, opts=dict(), span=(0.5, 4.0)))
    m = METHODS[c["method"]]
    c["rtol"] = max(c["rtol"], 1e-6)
    o = c["opts"]
    o.pop("first_frac", None)
    if "max_frac" in o:                 # keep clear of exact fractions of the interval
        o["max_frac"] *= 0.987
    c["first"] = draw(st.sampled_from([0.0371, 0.00713, 1.171e-4]))
    n = sum(1 + (k["kind"] in ("rot", "hopf", "nlrot", "chain", "mag", "kepler"))
            for k in c["spec"]["mods"]) * (2 if c["spec"]["kind"] == "so" else 1)
    kind = draw(st.sampled_from(["permute", "scale", "copy"]))
    if n == 1 and kind == "permute":
        kind = "copy"
    if "phase" in c["spec"] and draw(st.booleans()):
        kind = "turn"                   # copies multiplied by 1, i, -1 or -i
        c["turns"] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=4))
    c["sym"] = kind
    if kind == "permute":
        half = n // 2 if m.nystrom else n
        c["perm"] = draw(st.permutations(list(range(half))))
    elif kind == "scale":
        c["s"] = 2.0 ** draw(st.integers(-40, 40))
    else:
        c["copies"] = draw(st.integers(2, 5)) if kind == "copy" else len(c["turns"])
        c["interleave"] = draw(st.booleans())
    if kind == "scale" and draw(st.integers(0, 2)) == 0:
        c["jumps"] = draw(st.lists(num(0.02, 0.98), min_size=1, max_size=2))
    if m.implicit and draw(st.integers(0, 2)) == 0:
        c["M"] = draw(matrix(n, n, -0.4 / n, 0.4 / n))
        c["Mform"] = draw(st.sampled_from(["dense", "diag", "sparse"]))
    if kind == "permute" and draw(st.booleans()):
        c["first"] = None               # the automatic first step has no such symmetry otherwise
    if ("jumps" in c or "M" in c) and o.get("jac") in ("const", "constsparse"):
        o["jac"] = "call"
    if m.implicit and kind != "scale":
        # Newton's stopping test may see pure rounding in tiny steps
        c["first"], c["rtol"] = 0.0371, max(c["rtol"], 1e-4)
        o.pop("max_frac", None)
    return c


def runs(c, nudge=0):
    m, p = METHODS[c["method"]], build(c["spec"])
    rtol, atol, tol = tols(c, p)
    n = p.n
    if "jumps" in c:
        smooth, kick = p.fun, 0.7 * np.max(np.abs(p.y0))
        half = n // 2 if m.nystrom else 0

        def fun(t, y):
            f = np.array(smooth(t, y))
            k = sum((t - p.t0) / (p.tf - p.t0) > a for a in c["jumps"])
            if k % 2:
                f[half:] += kick
            return f
        p.fun = fun
    B = None
    if "M" in c:
        B = np.eye(n) + np.array(c["M"]).reshape(n, n)
        if c["Mform"] == "diag":
            B = np.diag(np.diag(B))
        plain, pjac = p.fun, p.jac
        p.fun = lambda t, y: B @ plain(t, y)
        p.jac = lambda t, y: B @ pjac(t, y)

    idx, s = np.arange(n), 1.0
    if nudge:
        p.y0 = p.y0 * (1 + 1e-14 * np.cos(nudge + idx))
    if c["sym"] == "permute":
        idx = np.array(c["perm"])
        if m.nystrom:
            idx = np.concatenate((idx, idx + n // 2))
    elif c["sym"] == "scale":
        s = c["s"]
    else:
        k = c["copies"]
        blocks = [idx[:n // 2], idx[n // 2:]] if m.nystrom else [idx]
        idx = np.concatenate([np.repeat(b, k) if c["interleave"] else np.tile(b, k)
                              for b in blocks])
        if c["sym"] == "turn":
            u = np.array([1, 1j, -1, -1j])[c["turns"]]
            s = np.concatenate([np.tile(u, b.size) if c["interleave"] else np.repeat(u, b.size)
                                for b in blocks])
    q = Image(p, idx, s)
    a2 = atol[idx] * abs(q.s) if np.ndim(atol) else atol * abs(q.s[0])

    def mass(r, A):
        if A is None:
            return {}
        return dict(M=csc_array(A) if c["Mform"] == "sparse" else
                    np.diag(A) if c["Mform"] == "diag" else A)
    kw = [mass(p, B), mass(q, None if B is None else q.mat(B))]
    if m.kind == "rkc":
        kw[0]["rho_jac"] = lambda t, y: float(np.linalg.norm(p.jac(t, y))) + 1e-3
        kw[1]["rho_jac"] = lambda t, y: float(np.linalg.norm(
            p.jac(t, y[q.first] / q.s[q.first]))) + 1e-3
    if c["first"]:
        for k in kw:
            k["first_step"] = c["first"] * abs(p.tf - p.t0)
    out = []
    for r, at, k in ((p, atol, kw[0]), (q, a2, kw[1])):
        out.append(drive(m, r, rtol, at, c["opts"], kw=k))
        if out[-1].status == "failed" and "jumps" in c:
            raise Inconclusive("jumps led to failure")
        require_ok(m, out[-1].status == "finished", out[-1].message, out[-1].t[-1])
    return m, p, q, out, tol


def check(c):
    m, p, q, (a, b), tol = runs(c)
    L = abs(p.tf - p.t0)
    scale = np.max(np.abs(a.y))
    if c["sym"] == "scale":             # exact in floating point arithmetic
        lt, lim = 1e-9, 1e-6 * tol + 1e-11 * scale
    else:
        lt, lim = 1e-6, 1e-4 * tol + 1e-11 * scale
        if m.implicit:                  # Newton's stopping test may see rounding
            lt, lim = 2e-2, 1.0 * tol
    what = dict(permute="permuted", scale="scaled", copy="copied", turn="turned")[c["sym"]] + " system"

    def agree():
        if a.t.size != b.t.size and m.implicit and abs(a.t.size - b.t.size) <= 1 + a.t.size // 8 \
                and c["sym"] != "scale":
            e = np.max(np.abs(b.y[:, -1] / q.s - a.y[q.idx, -1]))
            return None if e < lim else "end points of the %s differ by %.3g" % (what, e)
        if a.t.size != b.t.size:
            return "%d steps, but %d for the %s" % (a.t.size - 1, b.t.size - 1, what)
        et = np.max(np.abs(b.t - a.t)) / L
        if et > lt:
            return "times of the %s differ by %.3g of the interval (allowed %.3g)" % (what, et, lt)
        e = np.max(np.abs(b.y / q.s[:, None] - a.y[q.idx]), axis=0)
        ey = e[-1] if et > 1e-11 else np.max(e)
        if ey > lim:
            return "states of the %s differ by %.3g (allowed %.3g)" % (what, ey, lim)
    msg = agree()
    if msg and c["sym"] != "scale":
        if not m.implicit and min(a.t.size, b.t.size) <= 6:
            raise Inconclusive("steps are determined by rounding")
        for k in range(6):
            for r, r2 in zip((a, b), runs(c, k + 1)[3]):
                if r2.t.size != r.t.size or np.max(np.abs(r.t - r2.t)) / L > 1e-8 or \
                        np.max(np.abs(r.y - r2.y)) > 1e-6 * tol + 3e-13 * scale:
                    raise Inconclusive("steps are determined by rounding")
            # the error of a tiny first step may be pure rounding, or zero
            if c["first"]:
                near = runs(dict(c, first=c["first"] * (1 + 1e-3 * (k + 1))), k + 1)[3]
                for r, r2 in zip((a, b), near):
                    if r2.t.size != r.t.size or np.max(np.abs(r.t - r2.t)) / L > 1e-5 + 0.02 * c["first"]:
                        raise Inconclusive("steps are determined by rounding")
    require(msg is None, msg)
    if a.t.size < 3:
        return []
    if a.t.size != b.t.size or np.max(np.abs(b.t - a.t)) / L > 1e-9:
        return [c["method"], "loosely"]
    x = np.array([0.17, 0.5, 0.83])
    for da, db in zip(a.sol, b.sol):
        e = np.max(np.abs(db(db.t_old + x * (db.t - db.t_old)) / q.s[:, None]
                          - da(da.t_old + x * (da.t - da.t_old))[q.idx]))
        lim2 = 10 * lim + (2e-8 if c["sym"] != "scale" else 1e-13) * scale
        require(e <= lim2, "dense output of the %s differs by %.3g (allowed %.3g)", what, e, lim2)
    return [c["method"], c["sym"], "jumps" if "jumps" in c else "M" if "M" in c else "plain"]


SUBS = [Sub("images", case(), check, 5000, 120000)]
