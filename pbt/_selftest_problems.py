"""The exact solutions satisfy their own equations (run by the harness tests)."""
import numpy as np
from .problems import build


def residual(spec):
    p = build(spec)
    ts = np.linspace(p.t0, p.tf, 7)[1:-1]
    h = 1e-3 * (p.tf - p.t0)
    worst = 0.0
    for t in ts:
        # 6th order central difference
        d = sum(w * (p.exact(t + k * h) - p.exact(t - k * h)) for k, w in ((1, 45), (2, -9), (3, 1))) / (60 * h)
        f = p.fun(t, p.exact(t))
        worst = max(worst, np.max(np.abs(d - f)) / (p.scale))
        J = p.jac(t, p.exact(t))
        y = p.exact(t)
        for j in range(p.n):
            e = np.zeros(p.n); e[j] = 1e-5 * p.scale
            fd = (p.fun(t, y + e) - p.fun(t, y - e)) / (2e-5 * p.scale)
            worst = max(worst, np.max(np.abs(fd - J[:, j])) * 1e-2)
    return worst, p.amp


def main(n=150):
    """the generated problems are consistent: exact solution, rhs and Jacobian"""
    import hypothesis
    from hypothesis import HealthCheck, given, settings, strategies as st
    from . import problems as pr

    @hypothesis.seed(1)
    @settings(max_examples=n, database=None, deadline=None,
              suppress_health_check=list(HealthCheck))
    @given(st.one_of(pr.first_order(), pr.second_order(), pr.first_order(complex_=True), pr.second_order(complex_=True)))
    def test(spec):
        w, amp = residual(spec)
        assert w < 1e-6 and np.isfinite(amp), (w, spec)
    test()
