"""Hypothesis strategies for numbers and small arrays, all JSON-able.
Numbers are short decimals: they shrink well and contain no subnormals."""
from hypothesis import strategies as st


def num(lo, hi, digits=3):
    """decimal number in [lo, hi], roughly uniform"""
    s = 10 ** digits
    a, b = int(round(lo * s)), int(round(hi * s))
    return st.integers(a, b).map(lambda i: i / s)


def logu(lo, hi, digits=2):
    """10**u with u in [lo, hi], rounded to 3 significant digits"""
    return num(lo, hi, digits).map(lambda u: float("%.3g" % 10.0 ** u))


def matrix(n, m, lo=-1.0, hi=1.0):
    return st.lists(st.lists(num(lo, hi), min_size=m, max_size=m),
                    min_size=n, max_size=n)


def vector(n, lo=-1.0, hi=1.0):
    return st.lists(num(lo, hi), min_size=n, max_size=n)


def mags(lo, hi):
    """signed number with magnitude in [lo, hi]"""
    return st.tuples(num(lo, hi), st.booleans()).map(
        lambda t: t[0] if t[1] else -t[0])
