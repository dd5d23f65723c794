"""The Cornish-Fisher expansion of the binomial quantile, derived by tools/cornish_fisher.py from the cumulants of the
law smoothed by a uniform variate (coefficients of the inverse powers of the deviation)."""
import mpmath
from fractions import Fraction as Fr


def f(n, d=1):
    return mpmath.mpf(n) / d


def expansion(n, p, w):
    """upper end of the unit interval that holds the quantile: the quantile is its integer part"""
    n, p = f(n), f(p.numerator, p.denominator)
    v = n * p * (1 - p)
    s = mpmath.sqrt(v)
    o = [None] * 5
    o[0] = -(2 * p - 1) * (w - 1) * (w + 1) / 6
    o[1] = w * (w ** 2 * (2 * p ** 2 - 2 * p - 1) - 2 * (7 * p ** 2 - 7 * p + 1)) / 72
    o[2] = (w ** 4 / 540 + 7 * w ** 2 / 1620 - f(4, 405)) * (p - 2) * (p + 1) * (2 * p - 1)
    o[3] = (w ** 5 * (4 * p ** 4 - 8 * p ** 3 - 48 * p ** 2 + 52 * p - 23) / 17280 + w ** 3 * (256 * p ** 4 - 512 * p ** 3 - 147 * p ** 2 + 403 * p - 137) / 38880
            - w * (433 * p ** 4 - 866 * p ** 3 - 921 * p ** 2 + 1354 * p - 671) / 38880)
    o[4] = (-w ** 6 * (2 * p - 1) * (p ** 2 - p + 1) * (p ** 2 - p + 19) / 34020 + w ** 4 * (2 * p - 1) * (9 * p ** 4 - 18 * p ** 3 - 35 * p ** 2 + 44 * p - 25) / 15120
            + w ** 2 * (2 * p - 1) * (923 * p ** 4 - 1846 * p ** 3 + 5271 * p ** 2 - 4348 * p + 5189) / 408240
            - 4 * (p - 2) * (p + 1) * (2 * p - 1) * (23 * p ** 2 - 23 * p + 2) / 25515)
    return n * p + s * w + f(1, 2) + sum(o[i] / s ** i for i in range(5))


def solve(n, p, target):
    """w at which the expansion takes the target value"""
    pm = f(p.numerator, p.denominator)
    s = mpmath.sqrt(n * pm * (1 - pm))
    w = (target - n * pm) / s
    for _ in range(60):
        d = (expansion(n, p, w) - target) / s
        w -= d
        if abs(d) < mpmath.mpf(10) ** -40:
            break
    return w


def phi(w):
    return mpmath.erfc(-w / mpmath.sqrt(2)) / 2
