"""C28: events and requested output times"""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from pbt.core import Inconclusive, Sub, require
from pbt.gen import num
from pbt.methods import METHODS, acc_bound, accuracy_case, kwargs, require_ok, tols
from pbt.problems import build

RULE = ("a case is a problem with closed-form solution, a method with options, and one to three event functions that cross "
        "zero at a generated time, or a generated grid of output times; non-trivial when at least one event was found, or "
        "at least 3 output times lie inside steps")


def solve(m, p, c, **kw):
    rtol, atol, _ = tols(c, p)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        r = solve_ivp(p.fun, (p.t0, p.tf), p.y0, method=m.cls, rtol=rtol, atol=atol, **kwargs(m, c["opts"], p), **kw)
    require_ok(m, r.success, r.message)
    return r


def level(c, p):
    """allowed error in between"""
    tol = tols(c, p)[2]
    ymax = np.max(np.abs(p.exact(np.linspace(p.t0, p.tf, 30))))
    return acc_bound(c["method"], c["rtol"], True) * tol * p.amp + 1e-13 * p.amp * ymax


def exempt(c): return c["method"] == "Fi5N" and c["opts"].get("interpolant") == 1


@st.composite
def event_case(draw):
    c = draw(accuracy_case(hi=-4.5, span=(0.5, 6.0)))
    n = build(c["spec"]).n
    c["events"] = [dict(w=draw(st.one_of(st.lists(num(-1, 1), min_size=n, max_size=n),
                                         st.integers(0, n - 1).map(lambda i: [float(i == k) for k in range(n)]))),
                        at=draw(num(0.05, 0.97)), dir=draw(st.sampled_from([0, 0, 1, -1])))
                   for _ in range(draw(st.integers(1, 3)))]
    c["terminal"] = [draw(st.integers(0, len(c["events"]) - 1)), draw(st.sampled_from([True, 1, 2]))]
    return c


class Event:
    def __init__(s, p, e):
        s.w, s.direction = np.array(e["w"]), e["dir"]
        s.level = float(np.real(s.w @ p.exact(p.t0 + e["at"] * (p.tf - p.t0))))

    def __call__(s, t, y): return float(np.real(s.w @ y) - s.level)


def events(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    ev = [Event(p, e) for e in c["events"]]
    lev = level(c, p)
    try:
        r = solve(m, p, c, events=ev, dense_output=True)
    except ValueError as e:
        # scipy's root finder gives up if an interpolant has another sign at its end than the event function of the
        # step: a matter of rounding if the event lies at the step point, an error if the interpolant is elsewhere
        if "different signs" not in str(e):
            raise
        r = solve(m, p, c, dense_output=True)
        gap = max(np.max(np.abs(f(t) - y)) for f, a, b in zip(r.sol.interpolants, range(r.t.size - 1), range(1, r.t.size))
                  for t, y in ((r.t[a], r.y[:, a]), (r.t[b], r.y[:, b])))
        require(gap <= 1e-11 * np.max(np.abs(r.y)) + 0.1 * lev, "an interpolant is %.3g away from the solution at the ends "
                "of its step, level %.3g", gap, lev)
        raise Inconclusive("event at a step point")
    require(r.t[-1] == p.tf, "did not reach the end")
    if exempt(c):
        return []
    found = 0
    clear = []
    for k, e in enumerate(ev):
        d = 1.01 * lev * np.sum(np.abs(e.w))
        true = np.array([e(t, p.exact(t)) for t in r.t])
        te, ye = r.t_events[k], r.y_events[k]
        for t, y in zip(te, ye):
            require(abs(e(t, p.exact(t))) <= d, "event %d at t=%r: event function of the true solution is %r, allowed %r",
                    k, t, e(t, p.exact(t)), d)
            require(np.max(np.abs(y - p.exact(t))) <= 1.01 * lev, "state at event %d: error %r, allowed %r", k,
                    np.max(np.abs(y - p.exact(t))), lev)
            require(np.max(np.abs(y - r.sol(t))) <= 1e-11 * np.max(np.abs(r.y)) + 0.1 * lev, "y_events differs from the dense output")
        # one event for each step over which the true event function changes sign
        clear.append(not np.any(np.abs(true) <= 3 * d))
        if not clear[-1] or d == 0:
            continue
        s = np.sign(true)
        up, down = (s[:-1] < 0) & (s[1:] > 0), (s[:-1] > 0) & (s[1:] < 0)
        want = {0: up | down, 1: up, -1: down}[e.direction]
        steps = np.flatnonzero(want)
        require(te.size == steps.size, "event %d: %d found, %d steps with a change of sign", k, te.size, steps.size)
        lo, hi = np.minimum(r.t[:-1], r.t[1:]), np.maximum(r.t[:-1], r.t[1:])
        for t, i in zip(te, steps):
            require(lo[i] <= t <= hi[i], "event %d at %r, but the change of sign is in step (%r, %r)", k, t, r.t[i], r.t[i + 1])
        found += te.size
    # a terminal event stops the solve there
    j, count = c["terminal"]
    if not clear[j]:
        return []
    want = r.t_events[j]
    ev[j].terminal = count
    q = solve(m, p, c, events=ev)
    tags = [c["method"], "direction" if ev[j].direction else "both", "backward" if p.tf < p.t0 else "forward"]
    if want.size < int(count):
        require(q.status == 0 and q.t[-1] == p.tf, "terminal event: status %s, last time %r", q.status, q.t[-1])
        return tags if found else []
    stop = want[int(count) - 1]
    require(q.status == 1, "terminal event: status %s", q.status)
    require(q.t[-1] == stop == q.t_events[j][-1], "terminal event: stopped at %r, event at %r", q.t[-1], stop)
    n = q.t.size - 1
    require(np.array_equal(q.t[:n], r.t[:n]), "terminal event: other steps before it")
    require(np.max(np.abs(q.y[:, -1] - p.exact(stop))) <= 1.01 * lev, "terminal event: error of the last state %r, allowed %r",
            np.max(np.abs(q.y[:, -1] - p.exact(stop))), lev)
    return tags + ["terminal"]


# ---------------------------------------------------------------- output times
@st.composite
def output_case(draw):
    c = draw(accuracy_case(hi=-3.5, span=(0.5, 6.0)))
    c["grid"] = draw(st.one_of(
        st.lists(num(0, 1, 6), min_size=5, max_size=25),
        st.builds(lambda n, a, b: (np.linspace(a, max(a, b), n)).round(6).tolist(), st.integers(2, 60), num(0, 1), num(0, 1)),
        # many times close together
        st.builds(lambda n, a: (a + 1e-5 * np.arange(n)).clip(0, 1).tolist(), st.integers(2, 20), num(0, 1)),
        st.builds(lambda n, a, w: (a + w * np.arange(n) / n).clip(0, 1).tolist(), st.integers(50, 400), num(0, 1), st.sampled_from([1e-3, 0.02, 1.0]))))
    c["ends"] = draw(st.sampled_from(["", "t0", "tf", "both"]))
    c["steps"] = draw(st.booleans())
    return c


def output(c):
    m, p = METHODS[c["method"]], build(c["spec"])
    if exempt(c):
        return []
    r = solve(m, p, c, dense_output=True)
    lev = level(c, p)
    grid = p.t0 + np.array(c["grid"]) * (p.tf - p.t0)
    if c["ends"] in ("t0", "both"):
        grid = np.append(grid, p.t0)
    if c["ends"] in ("tf", "both"):
        grid = np.append(grid, p.tf)
    if c["steps"]:
        grid = np.append(grid, r.t[1:-1:2])
    grid = np.unique(np.clip(grid, min(p.t0, p.tf), max(p.t0, p.tf)))
    if p.tf < p.t0:
        grid = grid[::-1]
    q = solve(m, p, c, t_eval=grid)
    require(np.array_equal(q.t, grid), "times differ from t_eval")
    require(q.y.shape == (p.n, grid.size), "shape of y is %s", q.y.shape)
    err = np.max(np.abs(q.y - p.exact(grid)))
    require(err <= lev, "error at the output times %.3g, allowed %.3g", err, lev)
    # at most rounding and the choice of the step at a boundary
    dif = np.max(np.abs(q.y - r.sol(grid)))
    require(dif <= 1e-11 * np.max(np.abs(r.y)) + 0.1 * lev, "values at t_eval differ from the continuous solution by %.3g", dif)
    one = np.array([r.sol(t) for t in grid]).T
    dif = np.max(np.abs(one - r.sol(grid)))
    require(dif <= 1e-12 * np.max(np.abs(r.y)) + 1e-13 * lev / c["rtol"], "values of the continuous solution depend on the number of times by %.3g", dif)
    both = solve(m, p, c, t_eval=grid, dense_output=True)
    require(np.array_equal(both.y, q.y), "values at t_eval depend on dense_output")
    on = np.isin(grid, r.t)
    for t, y in zip(grid[on], q.y.T[on]):
        z = r.y[:, np.flatnonzero(r.t == t)[0]]
        require(np.max(np.abs(y - z)) <= 1e-11 * np.max(np.abs(r.y)) + 0.1 * lev, "value at the step point %r differs from the solution there by %.3g, level %.3g", t, np.max(np.abs(y - z)), lev)
    return [c["method"], "ends " + c["ends"], "backward" if p.tf < p.t0 else "forward"] if np.sum(~on) >= 3 else []


SUBS = [Sub("events", event_case(), events, 2000, 30000), Sub("output", output_case(), output, 2000, 30000)]
