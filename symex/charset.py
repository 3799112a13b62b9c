"""Sets of code points as sorted disjoint closed intervals (tuples of (lo, hi))."""
from functools import lru_cache

MAXCP = 0x10FFFF
FULL = ((0, MAXCP),)
EMPTY = ()


def norm(pairs):
    out = []
    for lo, hi in sorted(pairs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def of_chars(chars):
    return norm([(ord(c), ord(c)) for c in chars])


@lru_cache(maxsize=None)
def single(code):
    return ((code, code),)


@lru_cache(maxsize=200000)
def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


@lru_cache(maxsize=200000)
def comp(a):
    out = []
    prev = 0
    for lo, hi in a:
        if prev <= lo - 1:
            out.append((prev, lo - 1))
        prev = hi + 1
    if prev <= MAXCP:
        out.append((prev, MAXCP))
    return tuple(out)


@lru_cache(maxsize=200000)
def diff(a, b):
    return inter(a, comp(b))


@lru_cache(maxsize=200000)
def union(a, b):
    return norm(a + b)


@lru_cache(maxsize=20000)
def shift(a, off):
    if not off:
        return a
    return tuple((lo + off, hi + off) for lo, hi in a)


@lru_cache(maxsize=200000)
def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


def contains(a, code):
    for lo, hi in a:
        if code < lo:
            return False
        if code <= hi:
            return True
    return False


def members(a):
    for lo, hi in a:
        yield from range(lo, hi + 1)


@lru_cache(maxsize=None)
def of_pred(name):
    """Code points whose one-character string answers true to str.<name>()."""
    pred = getattr(str, name)
    return of_function(lambda c: pred(chr(c)))


def of_function(f):
    out = []
    start = None
    for c in range(MAXCP + 1):
        if f(c):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, MAXCP))
    return tuple(out)


@lru_cache(maxsize=None)
def case_table(name):
    """
    (groups, multi): groups = [(offset, set)] of code points that str.<name>()
    moves by offset; multi = {code: replacement} for the rest.
    """
    f = getattr(str, name)
    groups = {}
    multi = {}
    for c in range(MAXCP + 1):
        s = chr(c)
        t = f(s)
        if t == s:
            continue
        if len(t) == 1:
            groups.setdefault(ord(t) - c, []).append((c, c))
        else:
            multi[c] = t
    return [(off, norm(p)) for off, p in groups.items()], multi


@lru_cache(maxsize=None)
def multi_set(fn):
    return norm([(c, c) for c in case_table(fn)[1]])


@lru_cache(maxsize=None)
def moved_set(fn):
    return norm([p for _, S in case_table(fn)[0] for p in S])


@lru_cache(maxsize=20000)
def preimage(S, fn):
    """code points with a one-character str.<fn>() whose image is in S"""
    groups, _ = case_table(fn)
    out = list(diff(diff(S, moved_set(fn)), multi_set(fn)))
    for off, G in groups:
        out.extend(inter(shift(S, -off), G))
    return norm([(max(lo, 0), hi) for lo, hi in out if hi >= 0])
