"""The cases that decide each property.  A case is a function of a context s; the same function runs symbolically (s holds
symbolic values, s.eq ... record proof obligations) and on the real package (s holds floats, s.eq ... compare)."""
import importlib
import os
import pkgutil

CASES = {}


class Case:
    def __init__(self, prop, name, fn, kw, opts):
        self.prop, self.name, self.fn, self.kw, self.opts = prop, name, fn, kw, opts

    @property
    def key(self):
        return f'{self.prop}/{self.name}'

    def run(self, s):
        return self.fn(s, **self.kw)


def case(prop, over=None, tier='quick', timeout=60, max_paths=300, prove_ms=4000, witnesses=6, rtol=1e-6, atol=1e-8,
         bounds=None, tick=500, points=40, name=None, pure=True):
    """over: dict suffix -> keyword arguments (one case each); a suffix starting with '+' belongs to the thorough tier"""

    def deco(fn):
        base = name or fn.__name__
        for suffix, kw in (over or {'': {}}).items():
            t = tier
            if suffix.startswith('+'):
                t, suffix = 'thorough', suffix[1:]
            nm = base + (f'[{suffix}]' if suffix else '')
            c = Case(prop, nm, fn, kw, dict(tier=t, timeout=timeout, max_paths=max_paths, prove_ms=prove_ms,
                                            witnesses=witnesses, rtol=rtol, atol=atol, bounds=bounds or fn.__doc__ or '',
                                            quick_ms=tick, points=points, pure=pure))
            if c.key in CASES:
                raise ValueError('duplicate case ' + c.key)
            CASES[c.key] = c
        return fn

    return deco


def load():
    import props
    for m in sorted(m.name for m in pkgutil.iter_modules(props.__path__)):
        importlib.import_module('props.' + m)
    return CASES


def load_for(prop):
    load()
    return {k: c for k, c in CASES.items() if c.prop == prop}
