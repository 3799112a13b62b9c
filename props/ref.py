"""
Reference semantics of a grammar spec, written from the documentation: a plain
backtracking PEG interpreter.  Knows nothing of streamlining, lookups, regular
expressions or caches.
"""

import re

WS = " \n\r\t"
IDENT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$"


class N(object):
    """a node of the result tree"""

    def __init__(self, kind, start, end, toks, name=None, optional=False):
        self.kind = kind
        self.optional = optional
        self.start = start
        self.end = end
        self.toks = toks
        self.name = name


class Stop(Exception):
    """what follows an error stop does not match"""

    def __init__(self, at):
        Exception.__init__(self)
        self.at = at


BIG = 1 << 60
GROUPS = ("group",)


class Ref(object):
    def __init__(self, string, white=WS, table=None, comment=None):
        self.s = string
        self.white = white
        self.table = table
        self.comment = comment
        self.calls = []
        self.acts = []
        self.do = True  # RUN ACTIONS AND CONDITIONS
        self.columns = [1]  # OF THE OPEN BLOCKS

    def skip(self, i):
        s, n, w = self.s, len(self.s), self.white
        while True:
            while i < n and s[i] in w:
                i += 1
            for spec in self.comment or ():
                r = Ref(s, "").run(spec, i)
                if r is not None and r.end > i:
                    i = r.end
                    break
            else:
                return i

    def run(self, spec, i, env=None):
        """N or None"""
        return getattr(self, "r_" + spec[0])(env or {}, i, *spec[1:])

    def trial(self, spec, i, env):
        """match only: actions and conditions are not run"""
        do, self.do = self.do, False
        r = self.run(spec, i, env)
        self.do = do
        return r

    # ---- leaves
    def _leaf(self, i, j):
        return N("leaf", i, j, [self.s[i:j]])

    def r_stub(self, env, i, name):
        take = self.table.get(name, self.s, i)
        if take is None:
            return None
        return N("leaf", i, i + take, [self.s[i:i + take]] if take else [])

    def r_lit(self, env, i, m):
        if i + len(m) <= len(self.s) and self.s[i:i + len(m)] == m:
            return N("leaf", i, i + len(m), [m])

    def r_clit(self, env, i, m):
        if i + len(m) <= len(self.s) and all(same_letter(a, b) for a, b in zip(self.s[i:i + len(m)], m)):
            return N("leaf", i, i + len(m), [m])

    def _boundary(self, j, ident):
        return j >= len(self.s) or self.s[j] not in ident

    def r_kw(self, env, i, m, ident=None):
        r = self.r_lit(env, i, m)
        if r and self._boundary(r.end, IDENT if ident is None else ident):
            return r

    def r_ckw(self, env, i, m, ident=None):
        ident = IDENT if ident is None else ident
        r = self.r_clit(env, i, m)
        if r and self._boundary(r.end, ident.lower() + ident.upper()):
            return r

    def r_char(self, env, i, chars, exclude=""):
        if i < len(self.s):
            c = self.s[i]
            if (c in chars if chars else True) and (c not in exclude if exclude else True):
                return self._leaf(i, i + 1)

    def r_word(self, env, i, init, body=None, lo=1, hi=None, exclude=""):
        body = init if body is None else body
        j = i
        while j < len(self.s) and (hi is None or j - i < hi):
            c = self.s[j]
            if exclude and c in exclude:
                break
            if c not in (init if j == i else body):
                break
            j += 1
        if j - i >= lo:
            return self._leaf(i, j)

    def r_cni(self, env, i, chars, lo=1, hi=0):
        j = i
        while j < len(self.s) and (not hi or j - i < hi) and self.s[j] not in chars:
            j += 1
        if j - i >= lo:
            return self._leaf(i, j)

    def r_white(self, env, i, chars, lo=1, hi=0):
        j = i
        while j < len(self.s) and (not hi or j - i < hi) and self.s[j] in chars:
            j += 1
        if j - i >= lo and j > i:
            return self._leaf(i, j)

    def r_any(self, env, i):
        if i < len(self.s):
            return self._leaf(i, i + 1)

    def r_empty(self, env, i):
        return N("empty", i, i, [])

    def r_nomatch(self, env, i):
        return None

    def r_lstart(self, env, i):
        if i == 0 or self.s[i - 1] == "\n":
            return N("leaf", i, i, [])

    def r_lend(self, env, i):
        n = len(self.s)
        j = i + 1 if i < n and self.s[i] == "\r" else i
        if j >= n:
            return N("leaf", i, n, ["\n"])
        if self.s[j] == "\n":
            return N("leaf", i, j + 1, ["\n"])

    def r_sstart(self, env, i):
        if i == 0:
            return N("leaf", i, i, [])

    def r_send(self, env, i):
        n = len(self.s)
        j = i
        while j < n:
            if self.s[j] == "\n":
                j += 1
            elif j + 1 < n and self.s[j] == "\r" and self.s[j + 1] == "\n":
                j += 2
            else:
                return None
        return N("leaf", i, n, [])

    def r_wstart(self, env, i, chars):
        if i < len(self.s) and self.s[i] in chars and (i == 0 or self.s[i - 1] not in chars):
            return N("leaf", i, i, [])

    def r_wend(self, env, i, chars):
        if i > 0 and self.s[i - 1] in chars and (i >= len(self.s) or self.s[i] not in chars):
            return N("leaf", i, i, [])

    def r_close(self, env, i, m, n):
        j = i + len(m)
        if j <= len(self.s):
            bad = [k for k, c in enumerate(m) if self.s[i + k] != c]
            if len(bad) <= n:
                return N("leaf", i, j, [
                    self.s[i:j], N("ann", i, j, [m], "original"), N("ann", i, j, list(bad), "mismatches"),
                ])

    def r_re(self, env, i, pattern):
        r = re.compile(pattern, re.DOTALL).match(self.s, i)
        if r:
            return self._leaf(i, r.end())

    # ---- combinators
    def r_and(self, env, i, *specs):
        end = index = i
        acc = []
        guarded = False
        for spec in flatten_and(specs):
            if spec[0] == "guard":
                guarded = True
                continue
            if end > index:
                index = end if plain(spec)[0] == "behind" else self.skip(end)
            r = self.run(spec, index, env)
            if r is None:
                if guarded:
                    raise Stop(index)
                return None
            if r.optional and not truth(r) and r.end == index:
                continue  # nothing there: the space before it is not taken
            acc.append(r)
            end = r.end
        return N("and", i, end, acc)

    r_plus = r_and

    def r_first(self, env, i, *specs):
        for spec in specs:
            r = self.run(spec, i, env)
            if r is not None:
                return N("first", r.start, r.end, [r])

    r_bar = r_first

    def r_or(self, env, i, *specs):
        do, self.do = self.do, True  # conditions have a say in which is longest
        best = chosen = stop = None
        for spec in specs:
            try:
                r = self.run(spec, i, env)
            except Stop as s:
                stop = s
                continue
            if r is not None and (best is None or r.end > best.end):
                best, chosen = r, spec
        self.do = do
        if best is None and stop:
            raise Stop(i)
        if best is not None and not do:
            best = self.run(chosen, i, env)
        return best and N("or", best.start, best.end, [best])

    r_xor = r_or

    def annotated(self, spec, i, env):
        # expr*1 is expr, except where it is what carries the name or action
        if spec[0] == "many":
            return self.r_many(env, i, *spec[1:], strict=True)
        return self.run(spec, i, env)

    def r_ws(self, env, i, white, e):
        # made where other characters were whitespace
        before, self.white = self.white, white
        try:
            return self.run(e, i, env)
        finally:
            self.white = before

    def r_sub(self, env, i, *specs):
        return self.r_and(env, i, ["sub"] + list(specs))

    def r_all(self, env, i, *specs):
        """every element, in whatever order they come: at each point the first
        of those still wanted that takes something"""
        specs = list(flatten_all(specs))
        todo = [(k, spec) + limits(spec) for k, spec in enumerate(specs)]
        seen = {k: 0 for k, _, _, _ in todo}
        order = []
        do, self.do = self.do, True
        end = i
        while True:
            for item in todo:
                k, spec, lo, hi = item
                r = self.run(spec, end, env)
                if r is not None and r.end != end:
                    break
            else:
                break
            end = self.skip(r.end)
            order.append(spec)
            seen[k] += 1
            if seen[k] >= hi:
                todo.remove(item)
        self.do = do
        if any(seen[k] < limits(spec)[0] for k, spec in enumerate(specs)):
            return None
        # what did not come is given the chance to supply a default
        order += [spec for k, spec in enumerate(specs) if not seen[k]]
        acc = []
        end = last = i
        for spec in order:
            r = self.run(spec, end, env)
            if r is None:
                return None
            acc.append(r)
            if r.end > end:
                # (space is only for what comes after)
                last = r.end
            end = self.skip(r.end)
        return N("all", acc[0].start, last, acc) if acc else N("all", i, i, acc)

    def r_many(self, env, i, spec, lo, hi=None, stop=None, strict=False):
        if lo == hi and not strict:
            if lo == 0:
                return self.r_empty(env, i)
            if lo == 1:
                return self.run(spec, i, env)
        acc = []
        end = i
        while end < len(self.s) and (hi is None or len(acc) < hi):
            index = self.skip(end)
            if stop is not None and self.run(stop, index, env) is not None:
                break
            r = self.run(spec, index, env)
            if r is None:
                break
            if r.end == r.start:
                break
            acc.append(r)
            end = r.end
        if len(acc) < lo:
            return None
        if acc:
            return N("many", acc[0].start, acc[-1].end, acc, None, lo == 0)
        return N("many", i, i, [], None, lo == 0)

    def r_times(self, env, i, spec, n):
        if isinstance(n, (list, tuple)):
            lo, hi = (list(n) + [None])[:2]
        else:
            lo = hi = n
        return self.r_many(env, i, spec, lo or 0, hi)

    def r_zom(self, env, i, spec, stop=None):
        return self.r_many(env, i, spec, 0, None, stop)

    def r_oom(self, env, i, spec, stop=None):
        return self.r_many(env, i, spec, 1, None, stop)

    def r_opt(self, env, i, spec, default=None):
        r = self.run(spec, i, env)
        if r is None:
            return N("many", i, i, [] if default is None else default if isinstance(default, list) else [default], None, True)
        return N("many", r.start, r.end, [r], None, True)

    def r_group(self, env, i, spec):
        r = self.run(spec, i, env)
        return r and N("group", r.start, r.end, [r])

    def r_supp(self, env, i, spec):
        r = self.run(spec, i, env)
        return r and N("supp", r.start, r.end, [])

    def r_supm(self, env, i, spec):
        # nothing is left, but the name
        r = self.run(spec, i, env)
        return r and N("supp" if r.kind in GROUPS else r.kind, r.start, r.end, [], r.name, r.optional)

    def r_comb(self, env, i, spec, sep=""):
        r = self.run(spec, i, env)
        return r and N("comb", i, r.end, [sep.join(strings(r))])

    def r_not(self, env, i, spec):
        if self.trial(spec, i, env) is None:
            return N("leaf", i, i, [])

    def r_ahead(self, env, i, spec):
        r = self.run(spec, i, env)
        return r and N("leaf", i, i, [ann(r)])

    def r_behind(self, env, i, spec):
        whole = plain(spec)[0] in ("lit", "clit", "kw", "ckw", "char")  # A KEYWORD CAN SEE WHAT FOLLOWS IT
        for j in range(i, -1, -1):
            sub = self if whole else Ref(self.s[:i], self.white, self.table, self.comment)
            r = sub.run(spec, j, env)
            if r is not None and r.end == i:
                return N("leaf", i, i, [ann(r)])

    def r_skip(self, env, i, spec, include=False, fail=None, ignore=None):
        loc = i
        while loc <= len(self.s):
            stop = loc
            loc = self.skip(loc)
            if fail is not None and self.run(fail, loc, env) is not None:
                return None
            if ignore is not None:
                while True:
                    r = self.run(ignore, loc, env)
                    if r is None or r.end == loc:
                        break
                    stop = r.end
                    loc = self.skip(r.end)
            r = self.trial(spec, loc, env)
            if r is not None:
                toks = [self.s[i:stop]] if stop > i else []
                if include:
                    r = self.run(spec, loc, env)
                    if r is None:
                        return None
                    return N("skip", i, r.end, toks + [r])
                return N("skip", i, loc, toks)
            loc += 1

    def r_name(self, env, i, spec, name):
        r = self.annotated(spec, i, env)
        return r and N(r.kind, r.start, r.end, r.toks, name, r.optional)

    def r_pname(self, env, i, spec, name):
        return self.annotated(spec, i, env)

    def r_act(self, env, i, spec, kind):
        r = self.annotated(spec, i, env)
        if r is None or not self.do:
            return r
        self.acts.append((kind, r.start))
        if kind == "none":
            return r
        items = list(flat(r))
        toks = {
            "wrap": lambda: ["<"] + items + [">"],
            "pos": lambda: [r.start],
            "count": lambda: [len(items)],
            "const": lambda: ["K"],
        }[kind]()
        return N(r.kind, r.start, r.end, toks, r.name, r.optional)

    def r_cond(self, env, i, spec, kind):
        r = self.annotated(spec, i, env)
        if r is None or not self.do:
            return r
        items = list(flat(r))
        ok = {"yes": True, "no": False, "one": len(items) == 1, "notfirst": r.start > 0}[kind]
        return r if ok else None

    def r_rec(self, env, i, name, spec):
        env = dict(env)
        env[name] = spec
        return self.run(spec, i, env)

    def r_block(self, env, i, spec, indent=True):
        """statements at the same column, which is that of the open block or (indent) further right"""
        lines = ["opt", ["oom", ["supp", ["lend"]]]]
        depth = len(self.columns)
        r = self.run(["group", ["and", lines, ["col", "in" if indent else "same"], ["oom", ["and", ["col", "peer"], ["group", spec], lines]], ["col", "out"]]], i, env)
        del self.columns[depth:]
        return r

    def r_col(self, env, i, kind):
        c = 1
        while c <= i and self.s[i - c] != "\n":
            c += 1
        if kind in ("in", "same"):
            if not (c > self.columns[-1] if kind == "in" else c == self.columns[-1]):
                return None
            self.columns.append(c)
        elif i < len(self.s) and (c != self.columns[-1] if kind == "peer" else c not in self.columns):
            return None
        return N("empty", i, i, [])

    def r_let(self, env, i, defs, spec):
        env = dict(env)
        env.update((k, v) for k, v in defs)
        return self.run(spec, i, env)

    def r_ref(self, env, i, name):
        return self.run(env[name], i, env)

    def r_fwd(self, env, i, spec):
        return self.run(spec, i, env)


def ann(r):
    """what matched is kept for its names only"""
    return N("supp" if r.kind == "supp" else "ann", r.start, r.end, r.toks, r.name)


def plain(spec):
    while spec[0] in ("name", "pname", "act", "cond"):
        spec = spec[1]  # ANNOTATED, IT IS STILL WHAT IT WAS
    return spec


def limits(spec):
    spec = plain(spec)
    op = spec[0]
    if op == "many":
        return min(spec[2], 1), BIG if len(spec) < 4 or spec[3] is None else 1
    if op == "times":
        lo, hi = (list(spec[2]) + [None])[:2] if isinstance(spec[2], (list, tuple)) else (spec[2], spec[2])
        return min(lo or 0, 1), BIG if hi is None else 1
    return {"zom": (0, BIG), "oom": (1, BIG), "opt": (0, 1)}.get(op, (1, 1))


def same_letter(a, b):
    return a == b or a == b.lower() or a == b.upper()


def flatten_and(specs):
    for spec in specs:
        if spec[0] in ("and", "plus"):
            for x in flatten_and(spec[1:]):
                yield x
        elif spec[0] == "sub":
            for k, y in enumerate(spec[1:]):
                if k:
                    yield ["guard"]
                for x in flatten_and([y]):
                    yield x
        else:
            yield spec


def flatten_all(specs):
    # a & (b & c) is a & b & c
    for spec in specs:
        while spec[0] in ("many", "times") and spec[2:] in ([1], [1, 1]) and (spec[0] == "times" or len(spec) == 4):
            spec = spec[1]
        if spec[0] == "all":
            for x in flatten_all(spec[1:]):
                yield x
        else:
            yield spec


def truth(n):
    for t in n.toks:
        if not isinstance(t, N) or t.name or t.kind in GROUPS or truth(t):
            return True
    return False


def flat(n):
    for t in n.toks:
        if not isinstance(t, N):
            yield t
        elif t.kind == "ann":
            continue
        elif t.kind in GROUPS:
            yield t
        else:
            for x in flat(t):
                yield x


def strings(n):
    for t in flat(n):
        if isinstance(t, N):
            for x in strings(t):
                yield x
        else:
            yield t


def inner(t):
    """the values a named node stands for"""
    if not isinstance(t, N) or t.kind in GROUPS or t.name:
        yield t
    else:
        for x in t.toks:
            for y in inner(x):
                yield y


def named(n, name):
    for t in n.toks:
        if not isinstance(t, N):
            continue
        if t.name == name:
            if t.kind in GROUPS:
                yield t
            else:
                for x in t.toks:
                    for y in inner(x):
                        yield y
        elif t.name or t.kind in GROUPS:
            continue
        else:
            for x in named(t, name):
                yield x


def names_of(n, acc=None):
    acc = [] if acc is None else acc
    for t in n.toks:
        if not isinstance(t, N) or t.kind == "supp":
            continue
        if t.name:
            if t.name not in acc:
                acc.append(t.name)
        elif t.kind not in GROUPS:
            names_of(t, acc)
    return acc


def as_list(n):
    if n.kind == "ann":
        return []
    out = []
    for t in n.toks:
        out.extend(as_list(t) if isinstance(t, N) else [t])
    return [out] if n.kind in GROUPS else out


def view(n):
    if not isinstance(n, N):
        return n
    names = {}
    for k in names_of(n):
        vs = list(named(n, k))
        if len(vs) > 1:
            vs = [v for v in vs if not isinstance(v, N) or v.kind != "ann"]
        if len(vs) == 1 and isinstance(vs[0], N) and vs[0].kind not in GROUPS:
            names[k] = [view(x) for x in flat(vs[0])]
        else:
            names[k] = [view(x) for v in vs for x in ([v] if not isinstance(v, N) or v.kind in GROUPS else flat(v))]
    return {
        "start": n.start,
        "end": n.end,
        "items": [view(x) for x in flat(n)],
        "list": as_list(n),
        "names": names,
    }


def attempt(spec, s, white=WS, table=None, parse_all=False, comment=None):
    ref = Ref(s, white, table, comment)
    r = ref.run(spec, ref.skip(0))
    if r is None:
        return ["fail"]
    if parse_all and ref.r_send(None, ref.skip(r.end)) is None:
        return ["fail"]
    if r.name:
        r = N("group", r.start, r.end, [r])
    return ["ok", view(r)]
