"""C09: solves are deterministic, isolated and leave their inputs alone"""
import inspect
import os
import pickle
import signal
import warnings

import numpy as np
import extensisq
import extensisq.common
from hypothesis import strategies as st
from scipy.integrate import OdeSolver
from scipy.sparse import csc_array, issparse

from pbt.core import Inconclusive, Sub, Violation, describe, from_repo, require
from pbt.gen import matrix, num
from pbt.methods import METHODS, NAMES, Watch, accuracy_case, kwargs, tols
from pbt.problems import build

RULE = ("a case is a set of 1-4 solver configurations and a schedule of creations, steps and dense "
        "output requests; each is compared bit by bit with a solve by itself, and all arrays that "
        "belong to the caller or to the classes are compared with copies; or a sequence of solves in a "
        "new process, of which the last is compared with the same solve in a new process by itself; "
        "non-trivial when at "
        "least two solves overlapped or options other than the defaults were used")


def class_arrays():
    """every array or list of numbers that is stored on a class of the package"""
    out = {}
    mods = [m for m in vars(extensisq).values() if inspect.ismodule(m)]
    for mod in mods:
        for name, cls in vars(mod).items():
            if inspect.isclass(cls) and cls.__module__.startswith("extensisq"):
                for k, v in vars(cls).items():
                    if k.startswith("__") or callable(v):
                        continue
                    if isinstance(v, (np.ndarray, int, float, str, tuple, list, dict, bool)):
                        out[cls.__module__, name, k] = v
            elif not name.startswith("__") and isinstance(cls, np.ndarray) and cls.ndim:
                out[mod.__name__, "", name] = cls
    return out


def freeze(v):
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, v.tobytes()) if v.dtype != object else repr(v)
    return repr(v)


TABLES = {k: freeze(v) for k, v in class_arrays().items()}


def tables_intact():
    now = class_arrays()
    for k, v in TABLES.items():
        require(k in now, "%s disappeared", k)
        require(freeze(now[k]) == v, "class data %s.%s was changed", k[1], k[2])


@st.composite
def config(draw, names=NAMES):
    c = draw(accuracy_case(names, hi=-2.0, span=(0.3, 3.0)))
    m = METHODS[c["method"]]
    c["rtol"] = max(c["rtol"], 1e-6)
    if draw(st.booleans()):
        c["jumps"] = draw(st.lists(num(0.02, 0.98), min_size=1, max_size=2))
    if m.implicit and draw(st.booleans()):
        n = sum(1 + (k["kind"] in ("rot", "hopf", "nlrot", "chain", "mag", "kepler"))
                for k in c["spec"]["mods"]) * (2 if c["spec"]["kind"] == "so" else 1)
        c["M"] = draw(matrix(n, n, -0.4 / n, 0.4 / n))
        c["Mform"] = draw(st.sampled_from(["dense", "diag", "sparse", "list"]))
        c["dae"] = n > 1 and draw(st.booleans())
    if ("jumps" in c or "M" in c) and c["opts"].get("jac") in ("const", "constsparse"):
        c["opts"]["jac"] = "call"
    if "jumps" in c:
        c["opts"].pop("const_jac", None)
    return c


@st.composite
def case(draw):
    k = draw(st.integers(1, 4))
    same = draw(st.booleans())          # the same class, with different options
    names = [draw(st.sampled_from(NAMES))] if same else NAMES
    confs = [draw(config(names)) for _ in range(k)]
    if k > 1 and draw(st.integers(0, 3)) == 0:
        confs[1] = confs[0]             # the very same solve twice
    return dict(confs=confs,
                dense=draw(st.lists(st.booleans(), min_size=1, max_size=5)),
                late=draw(st.booleans()),       # dense output: only when next scheduled
                order=draw(st.lists(st.integers(0, 7), min_size=4, max_size=40)))


class Solve:
    """one solver with everything the caller owns, and copies of that"""

    def __init__(s, c, dense, late=False):
        s.c, s.m, s.p = c, METHODS[c["method"]], build(c["spec"])
        s.late, s.todo = late, False
        p, m = s.p, s.m
        rtol, atol, tol = tols(c, p)
        s.given = []
        s.kept = []
        plain, kick = p.fun, 0.7 * np.max(np.abs(p.y0))
        half = p.n // 2 if m.nystrom else 0
        D, B = np.ones(p.n), None
        if "M" in c:
            B = np.eye(p.n) + np.array(c["M"]).reshape(p.n, p.n)
            if c["Mform"] == "diag":
                B = np.diag(np.diag(B))
            if c["dae"]:
                D[-1] = 0.0             # last equation: an algebraic one
        BB = None if B is None else (np.diag(D) @ B)

        def base(t, y):
            f = np.array(plain(t, y))
            k = sum((t - p.t0) / (p.tf - p.t0) > a for a in c.get("jumps", []))
            if k % 2:
                f[half:] += kick
            if B is not None:
                f = B @ f
                if c["dae"]:
                    f[-1] = np.sum(y, axis=0) - np.sum(p.y0)
            return f

        def jac(t, y):
            J = np.array(p.jac(t, y))
            if B is not None:
                J = B @ J
                if c["dae"]:
                    J[-1] = 1.0
            return J

        def fun(t, y):
            before = np.array(y)
            f = base(t, y)
            s.keep("array returned by fun", f)
            require(np.array_equal(before, y, equal_nan=True), "harness")
            return f
        q = type("P", (), {})()
        q.t0, q.tf, q.n, q.y0 = p.t0, p.tf, p.n, p.y0
        q.jac = lambda t, y: s.keep("array returned by jac", jac(t, y))
        kw = kwargs(m, c["opts"], q)
        if B is not None:
            kw["M"] = dict(dense=lambda: BB, list=lambda: BB.tolist(), sparse=lambda: csc_array(BB),
                           diag=lambda: np.diag(BB).copy())[c["Mform"]]()
        if m.kind == "rkc":
            kw["rho_jac"] = lambda t, y: float(np.linalg.norm(p.jac(t, y))) + 1e-3
        y0 = p.y0.copy()
        atol = np.array(atol) if np.ndim(atol) else atol
        s.keep("y0", y0)
        if np.ndim(atol):
            s.keep("atol", atol)
        for k, v in kw.items():
            if isinstance(v, np.ndarray) or issparse(v):
                s.keep(k, v)
        s.dense, s.steps, s.failed, s.err = dense, 0, None, None
        s.log, s.sols = [], []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                s.solver = m.cls(Watch(fun, 100000), p.t0, y0, p.tf, rtol=rtol, atol=atol, **kw)
            except (ValueError, np.linalg.LinAlgError) as e:
                s.err = type(e).__name__
                return
        s.record()

    def keep(s, what, v):
        if len(s.kept) < 400:
            s.kept.append((what, v, v.copy()))
        return v

    def record(s):
        sv = s.solver
        s.log.append((sv.t, sv.y, sv.y.copy()))

    @property
    def done(s): return s.err is not None or s.solver.status != "running" or s.steps > 3000

    def step(s):
        if s.todo:
            s.ask()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                s.solver.step()
            except (ValueError, np.linalg.LinAlgError) as e:
                s.err = type(e).__name__
                return
        k = s.steps
        s.steps += 1
        if s.solver.status == "failed":
            s.failed = True
            return
        s.record()
        if s.dense[k % len(s.dense)]:
            s.todo = True
            if not s.late:
                s.ask()

    def ask(s):
        """the dense output of the last step"""
        s.todo = False
        d = s.solver.dense_output()
        x = d.t_old + np.array([0.2, 0.7]) * (d.t - d.t_old)
        s.sols.append((d, x, d(x)))
        if s.m.name == "Fi5N" and s.c["opts"].get("interpolant") == 1:
            s.log.pop()                 # documented: replaces the end point
            s.record()

    def finish(s):
        if s.todo:
            s.ask()
        s.intact()
        return ([x[0] for x in s.log], [x[2] for x in s.log], [x[2] for x in s.sols],
                s.failed, s.err, int(s.solver.nfev) if s.err is None else None)

    def intact(s):
        for what, v, old in s.kept:
            if issparse(v):
                same = v.shape == old.shape and (v != old).nnz == 0
            else:
                same = np.array_equal(v, old, equal_nan=True)
            require(same, "%s was modified", what)
        for t, y, old in s.log:
            require(np.array_equal(y, old), "the state returned at t=%r was modified later", t)
        for d, x, old in s.sols:
            require(np.array_equal(d(x), old), "dense output at t=%r changed later", d.t)


def alone(c, dense, late=False):
    s = Solve(c, dense, late)
    while not s.done:
        s.step()
    return s.finish()


def same(a, b, what):
    require(a[3:5] == b[3:5], "%s: ended with %s, by itself with %s", what, b[3:5], a[3:5])
    require(len(a[0]) == len(b[0]), "%s: %d points, but %d when solved by itself", what,
            len(b[0]), len(a[0]))
    for i, (t, u) in enumerate(zip(a[0], b[0])):
        require(t == u, "%s: time %d is %r, by itself %r", what, i, u, t)
    for k, w in ((1, "state"), (2, "dense output")):
        for i, (y, z) in enumerate(zip(a[k], b[k])):
            require(np.array_equal(y, z, equal_nan=True), "%s: %s %d differs by %.3g from that of the "
                    "solve by itself", what, w, i, np.max(np.abs(y - z)))
    require(a[5] == b[5], "%s: nfev %s, by itself %s", what, b[5], a[5])


def check(c):
    confs = c["confs"]
    late = c.get("late", False)
    ref = [alone(x, c["dense"], late) for x in confs]
    tables_intact()
    live, pending, k = [], list(range(len(confs))), 0
    solves = {}
    order = c["order"]
    while True:
        r = order[k % len(order)]
        k += 1
        if pending and (r >= 5 or not live):
            i = pending.pop(0)
            solves[i] = Solve(confs[i], c["dense"], late)
            live.append(i)
            continue
        live = [i for i in live if not solves[i].done]
        if not live:
            if not pending:
                break
            continue
        solves[live[(r + k) % len(live)]].step()
    for i, x in enumerate(confs):
        same(ref[i], solves[i].finish(), x["method"] + " interleaved")
    # once more, by itself, after everything
    same(ref[0], alone(confs[0], c["dense"], late), confs[0]["method"] + " repeated")
    tables_intact()
    tags = [x["method"] for x in confs]
    if len(confs) > 1:
        tags.append("overlapping")
    elif not confs[0]["opts"]:
        return []
    return tags + ["failed"] * any(r[3] or r[4] for r in ref)


# ------------------------------------------------------------ new processes ---
def in_child(fn):
    """the result of fn in a process in which nothing was solved before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(40)
            try:
                out = "ok", fn()
            except Violation as e:
                out = "violation", str(e)
            except Exception as e:
                out = "repo" if from_repo(e) else "error", describe(e)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise Inconclusive("the process took too long")
    kind, out = pickle.loads(data)
    require(kind != "violation", "%s", out)
    require(kind != "repo", "unexpected exception %s", out)
    if kind == "error":
        raise RuntimeError(out)
    return out


@st.composite
def fresh_case(draw):
    k = draw(st.integers(2, 4))
    names = [draw(st.sampled_from(NAMES))] if draw(st.integers(0, 3)) else NAMES
    confs = [draw(config(names)) for _ in range(k)]
    for c in confs:
        if "first_frac" in c["opts"] or draw(st.booleans()):
            c["opts"]["first_frac"] = draw(st.sampled_from([1e-5, 1e-3, 0.1]))
    if draw(st.booleans()):
        confs[-1] = confs[0]
    return dict(confs=confs, dense=draw(st.lists(st.booleans(), min_size=1, max_size=3)),
                stop=draw(st.lists(st.integers(0, 40), min_size=k - 1, max_size=k - 1)))


def fresh(c):
    """solves before another one, completed or abandoned, do not influence it"""
    confs = c["confs"]

    def sequence():
        keep = []
        for x, n in zip(confs, c["stop"]):
            s = Solve(x, c["dense"])
            keep.append(s)
            while not s.done and (s.steps < n or n > 30):
                s.step()
        return alone(confs[-1], c["dense"])
    a = in_child(lambda: alone(confs[-1], c["dense"]))
    b = in_child(sequence)
    same(a, b, confs[-1]["method"] + " after other solves")
    return [confs[-1]["method"]] + ["same class"] * any(
        x["method"] == confs[-1]["method"] for x in confs[:-1])


# `fresh` comes first: no solve is made in the processes of the runner before it
SUBS = [Sub("fresh", fresh_case(), fresh, 800, 30000),
        Sub("interleaved", case(), check, 1500, 60000)]
