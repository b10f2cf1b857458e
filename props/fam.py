"""Archimedean families with a symbolic parameter (no cases here)."""

FAMS = ['clayton', 'frank', 'gumbel', 'frank-', 'clayton-']
POS = ['clayton', 'frank', 'gumbel']

DOMAIN = {'clayton': 'theta > 0', 'frank': 'theta > 0', 'gumbel': 'theta > 1', 'frank-': '-36 < theta < 0',
          'clayton-': '-1 < theta < 0'}


def theta(s, fam, name='th'):
    if fam == 'clayton':
        th = s.real(name, 0)
        s.floats((0.05 < th) & (th < 12))
    elif fam == 'frank':
        th = s.real(name, 0)
        s.floats((0.05 < th) & (th < 12))
    elif fam == 'frank-':
        th = s.real(name, -36, 0)
        s.floats((-12 < th) & (th < -0.05))
    elif fam == 'gumbel':
        th = s.real(name, 1)
        s.floats((1.02 < th) & (th < 8))
    elif fam == 'clayton-':
        th = s.real(name, -1, 0)
        s.floats((-0.97 < th) & (th < -0.05))
    else:
        raise KeyError(fam)
    return th


def cls(s, fam):
    return {'c': s.cp.ClaytonCopula, 'f': s.cp.FrankCopula, 'g': s.cp.GumbelCopula}[fam[0]]


def make(s, fam, dim=2, name='th'):
    return cls(s, fam)(theta(s, fam, name), dim=dim)


def unit(s, name):
    u = s.real(name, 0, 1)
    s.floats((0.002 < u) & (u < 0.998))
    return u


def gen_ref(s, fam, th, u):
    """textbook inverse generator"""
    np = s.np
    if fam[0] == 'c':
        return u ** (-th) - 1 if fam == 'clayton' else 1 - u ** (-th)
    if fam[0] == 'g':
        return (-np.log(u)) ** th
    return -np.log((np.exp(-th * u) - 1) / (np.exp(-th) - 1))


def cdf_ref(s, fam, th, us):
    """textbook closed forms"""
    np = s.np
    if fam == 'clayton':
        return (sum(u ** (-th) for u in us) - len(us) + 1) ** (-1 / th)
    if fam[0] == 'g':
        return np.exp(-sum((-np.log(u)) ** th for u in us) ** (1 / th))
    if fam[0] == 'f':
        p = 1
        for u in us:
            p = p * (np.exp(-th * u) - 1)
        return -np.log(1 + p / (np.exp(-th) - 1) ** (len(us) - 1)) / th
    raise KeyError(fam)
