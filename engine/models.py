"""Stand-ins for parts that have no closed form: installed on the symbolic side only, nothing on the real package."""


def _lazy(name):
    def f(s, *a, **k):
        if s.mode == 'sym':
            from . import symmodels
            return getattr(symmodels, name)(s, *a, **k)

    f.__name__ = name
    return f


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return _lazy(name)
