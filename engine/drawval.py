"""Values of draws that are uninterpreted functions of their parameters: one formula per draw, the same on both sides."""
import hashlib
import re


def hashed(name):
    return int.from_bytes(hashlib.sha256(name.encode()).digest()[:4], 'big') / 2 ** 32


def positive(name, a):
    """chi-square or gamma"""
    return (a + 1) * (.5 + hashed(name))


def mvn(name, j, mean, cov):
    return mean[j] + cov[j][j] * (hashed(name) - .5)


def numeric(name):
    """the formula of the uninterpreted function of that name, or None"""
    m = re.match(r'(chi2|gam|mvn)(\d*)\[', name)
    if m is None:
        return None
    if m[1] != 'mvn':
        return lambda a: positive(name, a)
    j = int(m[2])

    def f(*xs):
        d = next(k for k in range(1, 20) if k + k * k == len(xs))
        return mvn(name, j, xs[:d], [xs[d + i * d:2 * d + i * d] for i in range(d)])

    return f
