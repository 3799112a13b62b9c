"""Symbolic strings, integers and booleans."""
import z3

from symex import charset as cs
from symex import engine as E
from symex.engine import CT, EngineError, PLACE0


def eng():
    return E.ENGINE


# ---------------------------------------------------------------------- helpers
def is_sym(x):
    return type(x) is SymStr


def elems_of(x):
    """tuple of elements of a str or SymStr"""
    if type(x) is SymStr:
        return x.elems
    en = E.ENGINE
    if en is not None and en.leaked and not x.isascii():
        return tuple(en.at_place(ord(c)) for c in x)
    return tuple(map(ord, x))


def make(elems):
    """str when every element is concrete, else SymStr"""
    en = E.ENGINE
    out = None
    for i, e in enumerate(elems):
        if type(e) is not int:
            v = en.value(e)
            if v is None:
                return SymStr(tuple(elems))
    return "".join(chr(e if type(e) is int else en.value(e)) for e in elems)


def lift(x):
    """plain string that may contain placeholders -> SymStr"""
    if type(x) is str and x and not x.isascii():
        en = E.ENGINE
        if en is not None and en.leaked:
            n = PLACE0 + len(en.places)
            if any(PLACE0 <= ord(c) < n for c in x):
                return make(tuple(en.at_place(ord(c)) for c in x))
    return x


def strlike(x):
    return type(x) is SymStr or isinstance(x, str)


SPACE = cs.of_pred("isspace")
NUMSPACE = cs.diff(SPACE, ((0x1C, 0x1F),))
LINEBREAKS = cs.of_chars("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
DECIMAL = cs.of_pred("isdecimal")


def elem_matches(a, i, b):
    """elements b occur in a at i"""
    en = E.ENGINE
    for k, e in enumerate(b):
        if not en.eq(a[i + k], e):
            return False
    return True


def slice_indices(start, stop, n):
    s, e, _ = slice(
        None if start is None else int(start), None if stop is None else int(stop)
    ).indices(n)
    return s, e


class SymStr(object):
    __slots__ = ["elems"]

    def __init__(self, elems):
        self.elems = elems

    @property
    def __class__(self):
        return str

    # -- conversion to the representation that C code can carry
    def _content(self):
        en = E.ENGINE
        en.leaked = True
        return "".join(chr(e if type(e) is int else e.place) for e in self.elems)

    def __str__(self):
        return self._content()

    def __repr__(self):
        return repr(self._content())

    def __format__(self, spec):
        return format(self._content(), spec)

    def concrete(self, where):
        en = E.ENGINE
        return "".join(chr(en.concrete_char(e, where)) for e in self.elems)

    def __hash__(self):
        return hash(self.concrete("hash of a symbolic string"))

    def __reduce__(self):
        raise EngineError("pickle of symbolic string")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- comparisons
    def __eq__(self, other):
        if self is other:
            return True
        if not strlike(other):
            return NotImplemented
        b = elems_of(other)
        a = self.elems
        return len(a) == len(b) and elem_matches(a, 0, b)

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def _cmp(self, other):
        a, b = self.elems, elems_of(other)
        en = E.ENGINE
        for x, y in zip(a, b):
            if en.eq(x, y):
                continue
            return -1 if en.less(x, y) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, other):
        return self._cmp(other) < 0 if strlike(other) else NotImplemented

    def __le__(self, other):
        return self._cmp(other) <= 0 if strlike(other) else NotImplemented

    def __gt__(self, other):
        return self._cmp(other) > 0 if strlike(other) else NotImplemented

    def __ge__(self, other):
        return self._cmp(other) >= 0 if strlike(other) else NotImplemented

    # -- sequence
    def __len__(self):
        return len(self.elems)

    def __bool__(self):
        return bool(self.elems)

    def __getitem__(self, i):
        if isinstance(i, slice):
            part = self.elems[i]
            if len(part) == len(self.elems) and (i.step is None or i.step == 1):
                return self
            return make(part)
        e = self.elems[i]
        return make((e,))

    def __iter__(self):
        for e in self.elems:
            yield make((e,))

    def __contains__(self, sub):
        if not strlike(sub):
            raise TypeError("'in <string>' requires string as left operand, not " + type(sub).__name__)
        return self.find(sub) >= 0

    def __add__(self, other):
        if not strlike(other):
            return NotImplemented
        return make(self.elems + elems_of(other))

    def __radd__(self, other):
        if not strlike(other):
            return NotImplemented
        return make(elems_of(other) + self.elems)

    def __mul__(self, n):
        return make(self.elems * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return lift(self._content() % args)

    # -- searching
    def startswith(self, prefix, start=None, end=None):
        n = len(self.elems)
        s, e = slice_indices(start, end, n)
        if start is not None and int(start) > n:
            # "abc".startswith("", 4) is False
            return False
        for p in prefix if isinstance(prefix, tuple) else (prefix,):
            b = elems_of(p)
            if s + len(b) <= e and elem_matches(self.elems, s, b):
                return True
        return False

    def endswith(self, suffix, start=None, end=None):
        n = len(self.elems)
        s, e = slice_indices(start, end, n)
        for p in suffix if isinstance(suffix, tuple) else (suffix,):
            b = elems_of(p)
            if s + len(b) <= e and elem_matches(self.elems, e - len(b), b):
                return True
        return False

    def find(self, sub, start=None, end=None):
        n = len(self.elems)
        s, e = slice_indices(start, end, n)
        if start is not None and int(start) > n:
            return -1
        b = elems_of(sub)
        for i in range(s, e - len(b) + 1):
            if elem_matches(self.elems, i, b):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        n = len(self.elems)
        s, e = slice_indices(start, end, n)
        if start is not None and int(start) > n:
            return -1
        b = elems_of(sub)
        for i in range(e - len(b), s - 1, -1):
            if elem_matches(self.elems, i, b):
                return i
        return -1

    def index(self, *args):
        r = self.find(*args)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *args):
        r = self.rfind(*args)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        n = len(self.elems)
        s, e = slice_indices(start, end, n)
        b = elems_of(sub)
        if not b:
            return e - s + 1 if e >= s else 0
        out = 0
        i = s
        while i <= e - len(b):
            if elem_matches(self.elems, i, b):
                out += 1
                i += len(b)
            else:
                i += 1
        return out

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        a = self.elems
        en = E.ENGINE
        out = []
        if sep is None:
            i, n = 0, len(a)
            while True:
                while i < n and en.in_set(a[i], SPACE):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    e = n
                    while e > i and en.in_set(a[e - 1], SPACE):
                        e -= 1
                    out.append(make(a[i:e]))
                    break
                s = i
                while i < n and not en.in_set(a[i], SPACE):
                    i += 1
                out.append(make(a[s:i]))
            return out
        b = elems_of(sep)
        if not b:
            raise ValueError("empty separator")
        last = i = 0
        while i <= len(a) - len(b) and (maxsplit < 0 or len(out) < maxsplit):
            if elem_matches(a, i, b):
                out.append(make(a[last:i]))
                i += len(b)
                last = i
            else:
                i += 1
        out.append(make(a[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if int(maxsplit) < 0:
            return self.split(sep)
        b = elems_of(sep) if sep is not None else None
        if b is None:
            return self.concrete("str.rsplit").rsplit(sep, maxsplit)
        a = self.elems
        out = []
        last = i = len(a)
        while i - len(b) >= 0 and len(out) < maxsplit:
            if elem_matches(a, i - len(b), b):
                out.append(make(a[i:last]))
                i -= len(b)
                last = i
            else:
                i -= 1
        out.append(make(a[:last]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        return self[:i], sep, self[i + len(sep):]

    def splitlines(self, keepends=False):
        a = self.elems
        en = E.ENGINE
        out = []
        last = i = 0
        while i < len(a):
            if en.in_set(a[i], LINEBREAKS):
                stop = i
                if en.in_set(a[i], cs.single(13)) and i + 1 < len(a) and en.in_set(a[i + 1], cs.single(10)):
                    i += 1
                i += 1
                out.append(make(a[last: i if keepends else stop]))
                last = i
            else:
                i += 1
        if last < len(a):
            out.append(make(a[last:]))
        return out

    def _strip_set(self, chars):
        return SPACE if chars is None else None

    def _strippable(self, e, chars):
        en = E.ENGINE
        if chars is None:
            return en.in_set(e, SPACE)
        if type(chars) is str and not (en.leaked and not chars.isascii()):
            return en.in_set(e, cs.of_chars(chars))
        return any(en.eq(e, c) for c in elems_of(chars))

    def lstrip(self, chars=None):
        i = 0
        a = self.elems
        while i < len(a) and self._strippable(a[i], chars):
            i += 1
        return self[i:]

    def rstrip(self, chars=None):
        a = self.elems
        i = len(a)
        while i > 0 and self._strippable(a[i - 1], chars):
            i -= 1
        return self[:i]

    def strip(self, chars=None):
        out = self.lstrip(chars)
        return out.rstrip(chars)

    def num_strip(self):
        """strip as int() and float() do"""
        a = self.elems
        en = E.ENGINE
        i, j = 0, len(a)
        while i < j and en.in_set(a[i], NUMSPACE):
            i += 1
        while j > i and en.in_set(a[j - 1], NUMSPACE):
            j -= 1
        return self[i:j]

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if p and self.endswith(p) else self

    def join(self, items):
        return str_join(self, items)

    def replace(self, old, new, count=-1):
        a = self.elems
        b = elems_of(old)
        c = elems_of(new)
        count = int(count)
        out = []
        i = done = 0
        if not b:
            for k, e in enumerate(a):
                if count < 0 or done < count:
                    out.extend(c)
                    done += 1
                out.append(e)
            if count < 0 or done < count:
                out.extend(c)
            return make(tuple(out))
        while i < len(a):
            if (count < 0 or done < count) and i + len(b) <= len(a) and elem_matches(a, i, b):
                out.extend(c)
                i += len(b)
                done += 1
            else:
                out.append(a[i])
                i += 1
        return make(tuple(out))

    # -- case
    def lower(self):
        en = E.ENGINE
        out = []
        for e in self.elems:
            if len(self.elems) > 1 and en.in_set(e, cs.single(0x3A3)):
                en.realised.add("str.lower of capital sigma (context dependent), excluded")
                en.infeasible()
            out.extend(en.case(e, "lower"))
        return make(tuple(out))

    def upper(self):
        en = E.ENGINE
        out = []
        for e in self.elems:
            out.extend(en.case(e, "upper"))
        return make(tuple(out))

    def casefold(self):
        en = E.ENGINE
        out = []
        for e in self.elems:
            out.extend(en.case(e, "casefold"))
        return make(tuple(out))

    # -- classification
    def _all(self, name):
        en = E.ENGINE
        S = cs.of_pred(name)
        return bool(self.elems) and all(en.in_set(e, S) for e in self.elems)

    def isspace(self):
        return self._all("isspace")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isprintable(self):
        S = cs.of_pred("isprintable")
        return all(E.ENGINE.in_set(e, S) for e in self.elems)

    def isascii(self):
        return all(E.ENGINE.in_set(e, ((0, 127),)) for e in self.elems)

    # -- padding
    def ljust(self, width, fill=" "):
        return make(self.elems + elems_of(fill) * max(0, int(width) - len(self.elems)))

    def rjust(self, width, fill=" "):
        return make(elems_of(fill) * max(0, int(width) - len(self.elems)) + self.elems)

    def expandtabs(self, tabsize=8):
        en = E.ENGINE
        col = 0
        out = []
        for e in self.elems:
            if en.in_set(e, cs.single(9)):
                if tabsize > 0:
                    n = tabsize - col % tabsize
                    out.extend([32] * n)
                    col += n
            else:
                out.append(e)
                col = 0 if en.in_set(e, cs.of_chars("\n\r")) else col + 1
        return make(tuple(out))

    def __getattr__(self, name):
        if not hasattr(str, name):
            raise AttributeError("'str' object has no attribute '%s'" % name)
        return getattr(self.concrete("str." + name), name)


def str_join(sep, items):
    out = []
    s = elems_of(sep)
    first = True
    for x in items:
        if not strlike(x):
            raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
        if not first:
            out.extend(s)
        first = False
        out.extend(elems_of(x))
    return make(tuple(out))


# ---------------------------------------------------------------------- integers
class SymBool(object):
    __slots__ = ["z"]

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.ENGINE.branch(self.z)

    def __eq__(self, other):
        return bool(self) == other

    def __ne__(self, other):
        return bool(self) != other

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return repr(bool(self))


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


def zint(x):
    if type(x) is SymInt:
        return x.z
    if type(x) is SymBool:
        return z3.If(x.z, 1, 0)
    if isinstance(x, int):
        return z3.IntVal(int(x))
    return None


def _bin(op):
    def f(self, other):
        o = zint(other)
        if o is None:
            if isinstance(other, float):
                a, b = float(int(self)), concretise(other, "float")
                return getattr(a, op)(b)
            return NotImplemented
        a = self.z
        if op == "__add__":
            return mkint(a + o)
        if op == "__sub__":
            return mkint(a - o)
        if op == "__rsub__":
            return mkint(o - a)
        if op == "__mul__":
            return mkint(a * o)
        if op == "__lt__":
            return mkbool(a < o)
        if op == "__le__":
            return mkbool(a <= o)
        if op == "__gt__":
            return mkbool(a > o)
        if op == "__ge__":
            return mkbool(a >= o)
        if op == "__eq__":
            return mkbool(a == o)
        if op == "__ne__":
            return mkbool(a != o)
        if op in ("__floordiv__", "__mod__"):
            if z3.is_int_value(o) and o.as_long() > 0:
                return mkint(a / o if op == "__floordiv__" else a % o)
            return getattr(int(self), op)(int(mkint(o)))
        raise EngineError(op)

    return f


class SymInt(object):
    __slots__ = ["z"]

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return int

    __add__ = __radd__ = _bin("__add__")
    __sub__ = _bin("__sub__")
    __rsub__ = _bin("__rsub__")
    __mul__ = __rmul__ = _bin("__mul__")
    __floordiv__ = _bin("__floordiv__")
    __mod__ = _bin("__mod__")
    __lt__ = _bin("__lt__")
    __le__ = _bin("__le__")
    __gt__ = _bin("__gt__")
    __ge__ = _bin("__ge__")
    __eq__ = _bin("__eq__")
    __ne__ = _bin("__ne__")

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def __bool__(self):
        return E.ENGINE.branch(self.z != 0)

    def __int__(self):
        return E.ENGINE.values_of(self.z)

    __index__ = __int__
    __trunc__ = __int__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def __repr__(self):
        return repr(int(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(int(self), spec)

    def __getattr__(self, name):
        return getattr(int(self), name)


class SymFloat(object):
    """float(text) of a symbolic text; equality only through its text"""

    __slots__ = ["text"]

    def __init__(self, text):
        self.text = text

    @property
    def __class__(self):
        return float

    def concrete(self):
        t = self.text
        return float(t.concrete("float of symbolic text") if type(t) is SymStr else t)

    def __eq__(self, other):
        if type(other) is SymFloat:
            a, b = self.text, other.text
            if len(a) == len(b) and a == b:
                return True
            return self.concrete() == other.concrete()
        return self.concrete() == other

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return repr(self.concrete())

    __str__ = __repr__

    def __float__(self):
        return self.concrete()

    def __getattr__(self, name):
        return getattr(self.concrete(), name)


for _op in "add radd sub rsub mul rmul truediv rtruediv lt le gt ge neg abs bool int".split():
    def _mk(op):
        def f(self, *args):
            args = [concretise(a, "float") for a in args]
            return getattr(self.concrete(), op)(*args)
        return f
    setattr(SymFloat, "__%s__" % _op, _mk("__%s__" % _op))
SYMS = (SymStr, SymInt, SymBool, SymFloat)


def sym_any(args):
    for a in args:
        t = type(a)
        if t is SymStr or t is SymInt or t is SymFloat or t is SymBool:
            return True
    return False


def concretise(x, where):
    t = type(x)
    if t is SymStr:
        return x.concrete(where)
    if t is SymInt:
        return int(x)
    if t is SymBool:
        return bool(x)
    if t is SymFloat:
        return x.concrete()
    return x
