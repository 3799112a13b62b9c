"""
Regular expressions over symbolic strings.

The pattern is parsed by CPython's own re._parser; the tree is executed by a
backtracking matcher with CPython's semantics in which every test of a
character is a decision of the engine.  Strings without symbolic characters go
to the real re module.
"""
import re as real_re
import types
from functools import lru_cache
from re import _parser, _constants as C

from symex import charset as cs
from symex import engine as E
from symex.symstr import SymStr, SymInt, elems_of, make, lift, strlike, str_join, concretise

MAXREPEAT = C.MAXREPEAT
SPECIAL = cs.of_chars("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")
TEMP0 = 0x100000  # codes standing for pattern positions
DIGIT = cs.of_function(lambda c: chr(c).isdecimal())
SPACE = cs.of_pred("isspace")
WORD = cs.union(cs.of_pred("isalnum"), cs.of_chars("_"))
A_DIGIT = cs.of_chars("0123456789")
A_SPACE = cs.of_chars(" \t\n\r\f\v")
A_WORD = cs.of_chars("0123456789_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
NEWLINE = cs.single(10)
CASED = None


def cased():
    global CASED
    if CASED is None:
        CASED = [
            c for c in range(0x110000)
            if not 0xD800 <= c < 0xE000 and (chr(c).lower() != chr(c) or chr(c).upper() != chr(c) or chr(c).casefold() != chr(c))
        ]
    return CASED


@lru_cache(maxsize=None)
def category(cat, ascii_only):
    name = str(cat)
    table = {
        "CATEGORY_DIGIT": (DIGIT, A_DIGIT),
        "CATEGORY_SPACE": (SPACE, A_SPACE),
        "CATEGORY_WORD": (WORD, A_WORD),
    }
    neg = "_NOT_" in name
    S = table[name.replace("_NOT", "")][1 if ascii_only else 0]
    return cs.comp(S) if neg else S


@lru_cache(maxsize=None)
def ignorecase_closure(S, ascii_only):
    """set of characters the class S matches under IGNORECASE"""
    flags = real_re.I | (real_re.A if ascii_only else 0)
    parts = []
    for lo, hi in S:
        parts.append("\\U%08x-\\U%08x" % (lo, hi))
    if not parts:
        return ()
    p = real_re.compile("[" + "".join(parts) + "]", flags)
    cas = cased()
    out = list(cs.diff(S, cs.norm([(c, c) for c in cas])))
    out.extend((c, c) for c in cas if p.match(chr(c)))
    return cs.norm(out)


def decode_escape(code):
    """character an escaped character stands for in a class; None for classes and the like"""
    if type(code) is not int:
        return None
    c = chr(code)
    if c in "abfnrtv":
        return ord({"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}[c])
    if c.isascii() and c.isalnum():
        return None
    return code


class Node(object):
    pass


class Matcher(object):
    """compiled tree"""

    def __init__(self, elems, flags):
        self.temp = {}
        en = E.ENGINE
        codes = []
        escaped = False
        braces = False
        sym_seen = False
        for i, e in enumerate(elems):
            if type(e) is not int:
                v = en.value(e)
                if v is None and (escaped or braces or en.in_set(e, SPECIAL)):
                    v = en.concrete_char(e, "symbolic regex metacharacter")
                if v is None:
                    sym_seen = True
                    self.temp[TEMP0 + i] = e
                    codes.append(TEMP0 + i)
                    escaped = False
                    continue
                e = v
            if escaped:
                escaped = False
                codes.append(e)
                continue
            escaped = e == 92
            if e == 123:
                braces = True
            elif e == 125:
                braces = False
            codes.append(e)
        self.rangefix(codes)
        source = "".join(map(chr, codes))
        tree = _parser.parse(source, flags)
        self.flags = tree.state.flags
        if isinstance(source, str) and not self.flags & real_re.A:
            self.flags |= real_re.U
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)
        self.node = self.seq(list(tree), self.flags)

    def rangefix(self, codes):
        """symbolic ends of character ranges: order is decided by the engine"""
        if not self.temp:
            return
        en = E.ENGINE
        i = 1
        while i < len(codes) - 1:
            i += 1
            self.fix_one(codes, i - 1, en)

    def fix_one(self, codes, i, en):
        if codes[i] != 45 or not self.in_class(codes, i):
            return
        if codes[i - 1] == 92 and not (i >= 2 and codes[i - 2] == 92):  # escaped hyphen
            return
        lo = codes[i - 1]
        hi = codes[i + 1]
        drop = False
        if hi == 92 and i + 2 < len(codes):
            hi = decode_escape(codes[i + 2])
            drop = True
        if lo not in self.temp and hi not in self.temp:
            return
        if lo not in self.temp and i >= 2 and codes[i - 2] == 92:
            lo = decode_escape(lo)
        elif lo == 91:
            return
        if lo is None or hi is None or hi == 93 and not drop:
            return
        if en.less(self.temp.get(hi, hi), self.temp.get(lo, lo)):
            raise real_re.error("bad character range")
        if hi not in self.temp:
            # above anything, so the real parser is content
            code = TEMP0 + 30000 + i + 1
            self.temp[code] = hi
            codes[i + 1] = code
            if drop:
                del codes[i + 2]

    @staticmethod
    def in_class(codes, i):
        inside = False
        k = 0
        while k < i:
            if codes[k] == 92:
                k += 2
                continue
            if codes[k] == 91 and not inside:
                inside = True
                if codes[k + 1] == 94:
                    k += 1
                if codes[k + 1] == 93:
                    k += 1
            elif codes[k] == 93:
                inside = False
            k += 1
        return inside

    # ------------------------------------------------------------ char tests
    def chartest(self, op, av, flags):
        """function element -> bool for one-character nodes, or None"""
        ign = flags & real_re.I
        asc = bool(flags & real_re.A)
        temp = self.temp
        if op is C.LITERAL or op is C.NOT_LITERAL:
            neg = op is C.NOT_LITERAL
            if av in temp:
                sym = temp[av]

                def test(e):
                    return E.ENGINE.eq(e, sym) != neg

                return test
            S = cs.single(av)
            if ign:
                S = ignorecase_closure(S, asc)
            if neg:
                S = cs.comp(S)
            return self.settest(S)
        if op is C.ANY:
            if flags & real_re.S:
                return self.settest(cs.FULL)
            return self.settest(cs.comp(NEWLINE))
        if op is C.CATEGORY:
            return self.settest(category(av, asc))
        if op is C.IN:
            neg = False
            pairs = []
            syms = []
            for o, a in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    if a in temp:
                        syms.append((temp[a], temp[a]))
                    else:
                        pairs.append((a, a))
                elif o is C.RANGE:
                    lo, hi = a
                    if lo in temp or hi in temp:
                        syms.append((temp.get(lo, lo), temp.get(hi, hi)))
                    else:
                        pairs.append((lo, hi))
                elif o is C.CATEGORY:
                    pairs.extend(category(a, asc))
                else:
                    raise E.EngineError("regex class item %s" % o)
            S = cs.norm(pairs)
            if ign:
                S = ignorecase_closure(S, asc)
            if not syms:
                return self.settest(cs.comp(S) if neg else S)

            def test(e):
                en = E.ENGINE
                if en.in_set(e, S):
                    return not neg
                for lo, hi in syms:
                    if lo is hi:
                        if en.eq(e, lo):
                            return not neg
                    elif not en.less(e, lo) and not en.less(hi, e):
                        return not neg
                return neg

            return test
        return None

    @staticmethod
    def settest(S):
        def test(e):
            if type(e) is int:
                return cs.contains(S, e)
            return E.ENGINE.in_set(e, S)

        return test

    # ------------------------------------------------------------ nodes
    # a node is f(st, i, k) -> truthy when the rest of the match succeeds;
    # st.s elements, st.n length, st.g groups; k(i) continuation
    def seq(self, items, flags):
        nodes = [self.compile(op, av, flags) for op, av in items]
        if not nodes:
            return lambda st, i, k: k(i)
        if len(nodes) == 1:
            return nodes[0]

        def run(st, i, k, at=0):
            if at == len(nodes) - 1:
                return nodes[at](st, i, k)
            return nodes[at](st, i, lambda j: run(st, j, k, at + 1))

        return run

    def compile(self, op, av, flags):
        test = self.chartest(op, av, flags)
        if test is not None:

            def one(st, i, k):
                return i < st.n and test(st.s[i]) and k(i + 1)

            return one
        if op is C.BRANCH:
            alts = [self.seq(list(a), flags) for a in av[1]]

            def branch(st, i, k):
                for a in alts:
                    g = st.g[:]
                    if a(st, i, k):
                        return True
                    st.g = g
                return False

            return branch
        if op is C.SUBPATTERN:
            group, add, rem, p = av
            inner = self.seq(list(p), (flags | add) & ~rem)
            if group is None:
                return inner

            def sub(st, i, k):
                def done(j):
                    old = st.g[group], st.last
                    st.g[group] = (i, j)
                    st.last = group
                    if k(j):
                        return True
                    st.g[group], st.last = old
                    return False

                return inner(st, i, done)

            return sub
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            items = list(p)
            unlimited = hi is MAXREPEAT or hi == MAXREPEAT
            if len(items) == 1 and op is C.MAX_REPEAT:
                test = self.chartest(items[0][0], items[0][1], flags)
                if test is not None:

                    def greedy_chars(st, i, k):
                        j = i
                        stop = st.n if unlimited else min(st.n, i + hi)
                        s = st.s
                        while j < stop and test(s[j]):
                            j += 1
                        while j >= i + lo:
                            if k(j):
                                return True
                            j -= 1
                        return False

                    return greedy_chars
            body = self.seq(items, flags)
            if op is C.MAX_REPEAT:

                def greedy(st, i, k):
                    def until(j, count, last):
                        if count < lo:
                            return body(st, j, lambda x: until(x, count + 1, j))
                        if (unlimited or count < hi) and j != last:
                            g = st.g[:]
                            if body(st, j, lambda x: until(x, count + 1, j)):
                                return True
                            st.g = g
                        return k(j)

                    return until(i, 0, None)

                return greedy
            if op is C.MIN_REPEAT:

                def lazy(st, i, k):
                    def until(j, count, last):
                        if count < lo:
                            return body(st, j, lambda x: until(x, count + 1, j))
                        g = st.g[:]
                        if k(j):
                            return True
                        st.g = g
                        if (not unlimited and count >= hi) or j == last:
                            return False
                        return body(st, j, lambda x: until(x, count + 1, j))

                    return until(i, 0, None)

                return lazy

            def possessive(st, i, k):
                j, count = i, 0
                while unlimited or count < hi:
                    end = self.once(body, st, j)
                    if end is None:
                        break
                    count += 1
                    if end == j and count >= lo:
                        break
                    j = end
                return count >= lo and k(j)

            return possessive
        if op is C.ATOMIC_GROUP:
            body = self.seq(list(av), flags)

            def atomic(st, i, k):
                end = self.once(body, st, i)
                return end is not None and k(end)

            return atomic
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            body = self.seq(list(p), flags)
            positive = op is C.ASSERT
            back = p.getwidth()[0] if direction < 0 else 0

            def look(st, i, k):
                if i - back < 0:
                    return (not positive) and k(i)
                g = st.g[:]
                end = self.once(body, st, i - back)
                if positive:
                    return end is not None and k(i)
                st.g = g
                return end is None and k(i)

            return look
        if op is C.GROUPREF:

            def ref(st, i, k):
                g = st.g[av]
                if g is None:
                    return False
                a, b = g
                if i + b - a > st.n:
                    return False
                for x in range(b - a):
                    if not E.ENGINE.eq(st.s[a + x], st.s[i + x]):
                        return False
                return k(i + b - a)

            return ref
        if op is C.GROUPREF_EXISTS:
            group, yes, no = av
            y = self.seq(list(yes), flags)
            n = self.seq(list(no), flags) if no else (lambda st, i, k: k(i))

            def cond(st, i, k):
                return (y if st.g[group] is not None else n)(st, i, k)

            return cond
        if op is C.AT:
            return self.anchor(av, flags)
        if op is C.FAILURE:
            return lambda st, i, k: False
        raise E.EngineError("regex operation %s" % op)

    @staticmethod
    def once(body, st, i):
        box = []

        def done(j):
            box.append(j)
            return True

        return box[0] if body(st, i, done) else None

    def anchor(self, av, flags):
        multi = flags & real_re.M
        nl = self.settest(NEWLINE)
        word = self.settest(A_WORD if flags & real_re.A else WORD)
        name = str(av)
        if name == "AT_BEGINNING" and not multi or name == "AT_BEGINNING_STRING":
            ok = lambda st, i: i == 0
        elif name in ("AT_BEGINNING", "AT_BEGINNING_LINE"):
            ok = lambda st, i: i == 0 or nl(st.s[i - 1])
        elif name == "AT_END" and not multi:
            ok = lambda st, i: i == st.n or (i == st.n - 1 and nl(st.s[i]))
        elif name in ("AT_END", "AT_END_LINE"):
            ok = lambda st, i: i == st.n or nl(st.s[i])
        elif name == "AT_END_STRING":
            ok = lambda st, i: i == st.n
        elif name in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            want = name == "AT_BOUNDARY"

            def ok(st, i):
                if st.n == 0:
                    return False  # CPython 3.12: \B does not match the empty string
                a = i > 0 and word(st.s[i - 1])
                b = i < st.n and word(st.s[i])
                return (a != b) == want

        else:
            raise E.EngineError("regex anchor %s" % name)
        return lambda st, i, k: ok(st, i) and k(i)


class State(object):
    __slots__ = ["s", "n", "g", "last"]


class SxMatch(object):
    def __init__(self, pattern, string, pos, endpos, regs, last):
        self.re = pattern
        self.string = string
        self.pos = pos
        self.endpos = endpos
        self.regs = tuple(r if r is not None else (-1, -1) for r in regs)
        self.lastindex = last
        self.lastgroup = None
        for n, i in pattern.groupindex.items():
            if i == last:
                self.lastgroup = n

    @property
    def __class__(self):
        return real_re.Match

    def _i(self, g):
        if strlike(g):
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError("no such group") from None
        g = int(g)
        if not 0 <= g < len(self.regs):
            raise IndexError("no such group")
        return g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = tuple(self._get(g) for g in gs)
        return out[0] if len(out) == 1 else out

    def _get(self, g, default=None):
        a, b = self.regs[self._i(g)]
        return default if a < 0 else self.string[a:b]

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, len(self.regs)))

    def groupdict(self, default=None):
        return {n: self._get(i, default) for n, i in self.re.groupindex.items()}

    def start(self, g=0):
        return self.regs[self._i(g)][0]

    def end(self, g=0):
        return self.regs[self._i(g)][1]

    def span(self, g=0):
        return self.regs[self._i(g)]

    def expand(self, template):
        return expand(self, template)

    def __bool__(self):
        return True


def expand(m, template):
    """re.Match.expand for templates without symbolic characters"""
    if type(template) is SymStr:
        # a template character that may be a backslash matters
        for e in template.elems:
            if type(e) is not int:
                if E.ENGINE.in_set(e, cs.single(92)):
                    E.ENGINE.concrete_char(e, "template")
    t = "".join(chr(e if type(e) is int else e.place) for e in elems_of(template))
    class FakePattern:
        groupindex = m.re.groupindex
        groups = m.re.groups
    parsed = _parser.parse_template(t, FakePattern)
    out = []
    for x in parsed:
        if isinstance(x, int):
            out.append(m._get(x, ""))
        elif x is not None:
            E.ENGINE.leaked = True
            out.append(lift(x))
    return str_join("", out)


_matchers = {}


class SxPattern(object):
    def __init__(self, pattern, flags):
        self.pattern = pattern
        self._real = None
        self._matcher = None
        self._flags_in = flags
        if type(pattern) is str:
            self._real = real_re.compile(pattern, flags)
            self.flags = self._real.flags
            self.groups = self._real.groups
            self.groupindex = dict(self._real.groupindex)
        else:
            m = self.matcher()
            self.flags = m.flags
            self.groups = m.groups
            self.groupindex = m.groupindex

    @property
    def __class__(self):
        return real_re.Pattern

    def __repr__(self):
        return "re.compile(%r)" % (self.pattern,)

    def __eq__(self, other):
        return type(other) is SxPattern and self.pattern == other.pattern and self.flags == other.flags

    def __hash__(self):
        return hash((self.pattern, self.flags))

    def __deepcopy__(self, memo):
        return self

    def matcher(self):
        if self._matcher is None:
            if type(self.pattern) is str:
                key = (self.pattern, int(self._flags_in))
                m = _matchers.get(key)
                if m is None:
                    m = _matchers[key] = Matcher(tuple(map(ord, self.pattern)), int(self._flags_in))
                self._matcher = m
            else:
                self._matcher = Matcher(self.pattern.elems, int(self._flags_in))
        return self._matcher

    def _exec(self, string, pos, endpos, mode, notempty_at=None):
        if not strlike(string):
            raise TypeError("expected string or bytes-like object, got %r" % type(string).__name__)
        string = lift(string)
        n = len(string)
        pos = min(max(int(pos), 0), n)
        end = n if endpos is None else min(max(int(endpos), 0), n)
        if pos > end:
            return None
        m = self.matcher()
        st = State()
        st.s = elems_of(string)
        st.n = end
        starts = range(pos, end + 1) if mode == "search" else (pos,)
        for i in starts:
            st.g = [None] * (m.groups + 1)
            st.last = None
            box = []

            def done(j):
                if mode == "full" and j != end:
                    return False
                if notempty_at is not None and i == j == notempty_at:
                    return False
                box.append(j)
                return True

            if m.node(st, i, done):
                st.g[0] = (i, box[0])
                return SxMatch(self, string, pos, end, st.g, st.last)
        return None

    def _concrete(self, string):
        return (
            self._real is not None
            and type(string) is str
            and (string.isascii() or E.ENGINE is None or not E.ENGINE.leaked)
        )

    def match(self, string, pos=0, endpos=None):
        if self._concrete(string):
            pos = int(pos)
            return self._real.match(string, pos) if endpos is None else self._real.match(string, pos, int(endpos))
        return self._exec(string, pos, endpos, "match")

    def fullmatch(self, string, pos=0, endpos=None):
        if self._concrete(string):
            pos = int(pos)
            return self._real.fullmatch(string, pos) if endpos is None else self._real.fullmatch(string, pos, int(endpos))
        return self._exec(string, pos, endpos, "full")

    def search(self, string, pos=0, endpos=None):
        if self._concrete(string):
            pos = int(pos)
            return self._real.search(string, pos) if endpos is None else self._real.search(string, pos, int(endpos))
        return self._exec(string, pos, endpos, "search")

    def finditer(self, string, pos=0, endpos=None):
        string = lift(string)
        n = len(string)
        end = n if endpos is None else min(max(int(endpos), 0), n)
        i = max(int(pos), 0)
        must_advance = None
        while i <= end:
            m = self._exec(string, i, end, "search", must_advance)
            if m is None:
                return
            yield m
            a, b = m.regs[0]
            must_advance = b if a == b else None
            i = b

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group(0))
            elif self.groups == 1:
                out.append(m._get(1, ""))
            else:
                out.append(m.groups(""))
        return out

    def split(self, string, maxsplit=0):
        string = lift(string)
        out = []
        last = 0
        for m in self.finditer(string):
            if maxsplit and len(out) >= maxsplit:
                break
            a, b = m.regs[0]
            out.append(string[last:a])
            out.extend(m.groups())
            last = b
        out.append(string[last:])
        return out

    def subn(self, repl, string, count=0):
        string = lift(string)
        out = []
        last = n = 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            a, b = m.regs[0]
            out.append(string[last:a])
            if callable(repl) and not strlike(repl):
                out.append(lift(repl(m)))
            else:
                out.append(expand(m, repl))
            last = b
            n += 1
        out.append(string[last:])
        return str_join("", out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]


_patterns = {}


def compile(pattern, flags=0):
    if type(pattern) is SxPattern:
        return pattern
    if isinstance(pattern, real_re.Pattern):
        return compile(pattern.pattern, pattern.flags)
    pattern = lift(pattern)
    if type(pattern) is str:
        key = (pattern, int(flags))
        p = _patterns.get(key)
        if p is None:
            p = SxPattern(pattern, flags)
            if len(_patterns) < 5000:
                _patterns[key] = p
        return p
    return SxPattern(pattern, flags)


def escape(pattern):
    pattern = lift(pattern)
    if type(pattern) is str:
        return real_re.escape(pattern)
    out = []
    en = E.ENGINE
    for e in pattern.elems:
        if en.in_set(e, SPECIAL):
            out.append(92)
        out.append(e)
    return make(tuple(out))


def shim():
    m = types.ModuleType("re")
    for k in dir(real_re):
        if not (k.startswith("__") and k != "__all__"):
            setattr(m, k, getattr(real_re, k))
    m.__version__ = real_re.__version__
    m.compile = compile
    m.escape = escape
    m.match = lambda p, s, flags=0: compile(p, flags).match(s)
    m.fullmatch = lambda p, s, flags=0: compile(p, flags).fullmatch(s)
    m.search = lambda p, s, flags=0: compile(p, flags).search(s)
    m.split = lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(s, maxsplit)
    m.findall = lambda p, s, flags=0: compile(p, flags).findall(s)
    m.finditer = lambda p, s, flags=0: compile(p, flags).finditer(s)
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: compile(p, flags).subn(r, s, count)
    return m
