"""
Concrete twin of symex.explore.Ctx, and what harnesses share.  Runs on the
un-instrumented library when a model is replayed.
"""
import math

from mo_parsing import whitespaces


class Failed(BaseException):
    pass


class Excluded(BaseException):
    pass


class Env(dict):
    """of a path that ended before all was chosen: nothing to replay from there on"""

    def __missing__(self, key):
        raise Excluded()


class ConcreteCtx(object):
    symbolic = False

    def __init__(self, env):
        self.env = Env(env)
        self.observed = []
        self.labels = []
        self.failed = None

    def string(self, name, lo, hi=None, domain=None):
        n = lo if hi is None else lo + self.choice(name + ".len", hi - lo + 1)
        return "".join(chr(self.env[f"{name}[{i}]"]) for i in range(n))

    def char(self, name, domain=None):
        return chr(self.env[name])

    def int(self, name, lo, hi):
        return self.env[name]

    def choice(self, name, n):
        if isinstance(n, int):
            return self.env[name] if n > 1 else 0
        return n[self.env[name]] if len(n) > 1 else n[0]

    def flag(self, name):
        return bool(self.env[name])

    def assume(self, cond):
        if not cond:
            raise Excluded()

    def reach(self, label):
        self.labels.append(label)

    def observe(self, label, value):
        self.observed.append((label, freeze(value)))

    def check(self, cond, label, **info):
        if not cond:
            self.failed = (label, {k: freeze(v) for k, v in info.items()})
            raise Failed()

    def equal(self, got, want, label, **info):
        self.check(deep_eq(got, want), label, got=got, want=want, **info)


def deep_eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, str) != isinstance(b, str):
        return False
    return bool(a == b)


def freeze(v):
    if isinstance(v, (list, tuple)):
        return [freeze(x) for x in v]
    if isinstance(v, dict):
        return {str(k): freeze(x) for k, x in v.items()}
    if isinstance(v, float) and math.isnan(v):
        return "nan"
    if v is None or isinstance(v, (int, str, bool, float)):
        return v
    return "<%s>" % type(v).__name__


def reset():
    """the library's global state as it is after import"""
    whitespaces.whitespace_stack[:] = BASE_STACK
    whitespaces.CURRENT = BASE_WHITESPACE
    for w, n in BASE_COPIES:
        del w.copies[n:]
        w.content = None
        w.skips = {}


BASE_WHITESPACE = whitespaces.CURRENT
BASE_STACK = list(whitespaces.whitespace_stack)
BASE_COPIES = [(w, len(w.copies)) for w in BASE_STACK + [BASE_WHITESPACE] if w is not None]
