"""helpers for structure: nested_expr, originalTextFor, located_expr, ungroup"""
from props.common import *
from mo_parsing import helpers as H

REACH = ("ok", "fail", "nested", "quoted", "space", "named")
BOUNDS = (
    "nested_expr: delimiters of one and of two characters, with content given or not, quotes or comments ignored or nothing; every string of up to 5 to 7 characters over the characters that matter, up to 3 over Unicode; "
    "originalTextFor, located_expr and ungroup around tokens, sequences, groups, names, choices and arbitrary sub-parsers, alone, repeated, and before others; every string of up to 4 to 5 characters"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["nested_expr: delimiters share no character with the content that is given; a text in there does not begin or end with a character str.strip takes away and Whitespace does not skip"]
SPACES = "".join(c for c in map(chr, range(0x110000)) if c.isspace())


class Nest(object):
    """nested_expr by hand: lists of texts and lists, or None"""

    def __init__(self, ctx, s, opener, closer, ignore, content, white):
        self.ctx = ctx
        self.ref = ref.Ref(s, white)
        self.s = s
        self.o = opener
        self.c = closer
        self.ignore = ignore
        self.content = content
        self.white = white

    def at(self, i, text):
        return i + len(text) <= len(self.s) and self.s[i:i + len(text)] == text

    def quoted(self, i):
        """end of what is ignored"""
        s = self.s
        if self.ignore == "comment":
            if self.at(i, "/*"):
                for j in range(i + 2, len(s) - 1):
                    if self.at(j, "*/"):
                        return j + 2
        elif self.ignore == "quote" and i < len(s) and s[i] in "\"'":
            q = s[i]
            j = i + 1
            while j < len(s):
                if s[j] == q:
                    if j + 1 < len(s) and s[j + 1] == q:
                        j += 2
                        continue
                    return j + 1
                if s[j] in "\n\r":
                    return None
                if s[j] == "\\":
                    self.ctx.assume(False)
                j += 1
        return None

    def item(self, i):
        """(end, value) of a piece of content at i"""
        if self.content:
            x = self.ref.run(self.content, i)
            return None if x is None else (x.end, list(ref.flat(x)))
        s, j = self.s, i
        while j < len(s) and s[j] not in self.white and self.quoted(j) is None:
            if self.at(j, self.o) or self.at(j, self.c):
                break
            j += 1
        if j > i:
            # what Python takes for whitespace, and Whitespace does not, is stripped
            self.ctx.assume(s[i] not in SPACES and s[j - 1] not in SPACES)
            return (j, [s[i:j]])
        return None

    def run(self, i):
        if not self.at(i, self.o):
            return None
        end = i + len(self.o)
        acc = []
        while True:
            j = self.ref.skip(end)
            k = self.quoted(j)
            if k is not None:
                self.ctx.reach("quoted")
                acc.append(self.s[j:k])
                end = k
                continue
            x = self.run(j)
            if x is not None:
                self.ctx.reach("nested")
                acc.append(x)
                end = x[1]
                continue
            x = self.item(j)
            if x is None:
                break
            acc.extend(x[1])
            end = x[0]
        j = self.ref.skip(end)
        if self.at(j, self.c):
            return (i, j + len(self.c), acc)

    def view(self, x):
        return [x[0], x[1], [self.view(v) if isinstance(v, tuple) else v for v in x[2]]]


def look(r):
    return [r.start, r.end, [look(x) if isinstance(x, gram.ParseResults) else x for x in r]]


def h_nested(ctx, opener, closer, ignore, content, n, alphabet, white, before="", after="", twice=False):
    s = before + ctx.string("s", 0, n, alphabet) + after
    with Whitespace(white):
        more = {}
        if ignore == "comment":
            more["ignore_expr"] = H.cStyleComment
        elif ignore is None:
            more["ignore_expr"] = None
        if content:
            more["content"] = gram.build(content)
        p = H.nested_expr(opener, closer, **more)
        if twice:
            p = gram.Group(p + p)
        else:
            p = gram.Group(p)
        try:
            got = look(p.parse(s))
        except gram.ParseException:
            got = None
    nest = Nest(ctx, s, opener, closer, ignore, content, list(white))
    i = nest.ref.skip(0)
    x = nest.run(i)
    want = x and [x[0], x[1], [nest.view(x)]]
    if twice and x:
        y = nest.run(nest.ref.skip(x[1]))
        want = y and [x[0], y[1], [nest.view(x), nest.view(y)]]
    ctx.reach("ok" if want else "fail")
    ctx.observe("got", got)
    ctx.equal(got, want, "nested_expr")


def h_original(ctx, specs, n, alphabet, white, how, before="", after=""):
    """the text of what matched, no more and no less; and names"""
    spec = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx) if has(spec, "stub") else None
    with Whitespace(white):
        e = H.originalTextFor(gram.build(spec, {"table": table}))
        called = ctx.flag("called")
        if called:
            e = e("called")
        p = {"alone": lambda: e, "many": lambda: gram.OneOrMore(e), "before": lambda: gram.And([e, gram.Literal("!")], whitespaces.CURRENT), "after": lambda: gram.And([gram.Literal("!"), e], whitespaces.CURRENT)}[how]()
        p = gram.Group(p)
        try:
            r = p.parse(s)
        except gram.ParseException:
            r = None
    k = ref.Ref(s, white, table)
    xs = placed(k, spec, how)
    ctx.reach("ok" if xs else "fail")
    ctx.observe("got", None if r is None else r.as_list())
    ctx.check((r is None) == (xs is None), "matches")
    if r is None:
        return
    if any(x.end < len(s) and s[x.end] in white for x, w in xs if w is not None):
        ctx.reach("space")
    ctx.equal(len(r), len(xs), "number of results")
    ctx.equal([r.start, r.end], [xs[0][0].start, xs[-1][0].end], "extent")
    ctx.equal(list(r.keys()), ["called"] if called else [], "the name of the text")
    if called:
        texts = [s[x.start:x.end] for x, w in xs if w is None]
        ctx.equal([y.as_list() for y in (r["called"] if len(texts) > 1 else [r["called"]])], [[[t]] for t in texts], "the named text")
    for (x, w), y in zip(xs, r):
        if w is not None:
            ctx.equal(y, w, "other")
            continue
        ctx.equal(list(y), [s[x.start:x.end]], "text")
        ctx.equal([y.start, y.end], [x.start, x.end], "extent of the text")
        names = ref.names_of(outer(x))
        ctx.equal(list(y.keys()), names, "names")
        for name in names:
            ctx.reach("named")
            want = list(ref.named(outer(x), name))
            if len(want) == 1 and not isinstance(want[0], ref.N):
                got = y[name]
                ctx.equal(list(got) if isinstance(got, gram.ParseResults) else [got], want, "named value")


def outer(x):
    return ref.N("and", x.start, x.end, [x])


def placed(k, spec, how):
    """what should be in the result: (node, token) or None; token None: the text of the node"""
    i = k.skip(0)
    bang = ["lit", "!"]
    if how == "after":
        b = k.run(bang, i)
        x = b and k.run(spec, k.skip(b.end))
        return x and [(b, "!"), (x, None)]
    x = k.run(spec, i)
    if x is None:
        return None
    if how == "alone":
        return [(x, None)]
    if how == "before":
        b = k.run(bang, k.skip(x.end) if x.end > i else i)
        return b and [(x, None), (b, "!")]
    acc = []
    while x is not None and x.end > x.start:
        acc.append((x, None))
        if x.end >= len(k.s):
            break
        x = k.run(spec, k.skip(x.end))
    return acc or None


def h_located(ctx, specs, n, alphabet, white, how, before="", after=""):
    spec = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx) if has(spec, "stub") else None
    with Whitespace(white):
        e = H.located_expr(gram.build(spec, {"table": table}))
        p = {"alone": lambda: e, "many": lambda: gram.OneOrMore(e), "before": lambda: gram.And([e, gram.Literal("!")], whitespaces.CURRENT), "after": lambda: gram.And([gram.Literal("!"), e], whitespaces.CURRENT)}[how]()
        p = gram.Group(p)
        try:
            r = p.parse(s)
        except gram.ParseException:
            r = None
    k = ref.Ref(s, white, table)
    xs = placed(k, spec, how)
    ctx.reach("ok" if xs else "fail")
    ctx.observe("got", None if r is None else r.as_list())
    ctx.check((r is None) == (xs is None), "matches")
    if r is None:
        return
    if any(x.end < len(s) and s[x.end] in white for x, w in xs if w is None):
        ctx.reach("space")
    ctx.equal(len(r), len(xs), "number of results")
    for (x, w), y in zip(xs, r):
        if w is not None:
            ctx.equal(y, w, "other")
            continue
        ctx.equal([y["locn_start"], y["locn_end"]], [x.start, x.end], "location")
        ctx.equal([y[0], y[2]], [x.start, x.end], "location")
        ctx.equal([gram.view(z) for z in y[1]], [ref.view(z) for z in ref.flat(outer(x))], "value")
        ctx.equal([gram.view(z) for z in y["value"]], [ref.view(z) for z in ref.flat(outer(x))], "value")
        ctx.equal([y.start, y.end], [x.start, x.end], "extent")


def h_ungroup(ctx, specs, n, alphabet, white, before="", after=""):
    """what is in the group, without the group"""
    spec, around = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx) if has(spec, "stub") else None
    with Whitespace(white):
        p = H.ungroup(gram.Group(gram.build(spec, {"table": table})))
        if around == "many":
            p = gram.OneOrMore(p)
        elif around == "name":
            p = p("z")
        elif around == "and":
            p = gram.And([p, gram.Literal("!")], whitespaces.CURRENT)
        got = gram.attempt(gram.Group(p), s)
    want = ["conv", spec]
    want = {"many": ["oom", want], "name": ["name", want, "z"], "and": ["and", want, L("!")], None: want}[around]
    k = Converting(s, white, table)
    x = k.run(["group", want], k.skip(0))
    want = ["fail"] if x is None else ["ok", ref.view(x)]
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "ungroup")


class Converting(ref.Ref):
    def r_conv(self, env, i, spec):
        x = self.run(spec, i, env)
        return x and ref.N("conv", x.start, x.end, [x])


SPECS = [
    ["and", ["word", "ab"], L(";")], ["word", "ab"], ["and", ["name", ["word", "ab"], "x"], ["name", L(";"), "y"]], ["and", ["group", ["word", "ab"]], ["supp", L(";")]], ["first", ["and", L("a"), L("b")], L("a")],
    ["oom", L("a")], ["and", L("a"), ["opt", L("b")]], ["and", ["opt", L("a")], L("b")], ["comb", ["and", L("a"), L(";")]], ["and", L("a"), ["zom", L(";")]], ["name", ["and", L("a"), L("b")], "x"],
    ["act", ["word", "ab"], "wrap"], ["and", L("a"), ["supp", L("b")]], ["fwd", ["and", L("a"), L("b")]],
]


def tasks(tier):
    d = deep(tier, 0, 1)
    for opener, closer, ignore, content, n, alphabet in (
        ("(", ")", "quote", None, 6, "(a) '"), ("(", ")", None, None, 6, "(a) '"), ("{{", "}}", "quote", None, 5, "{}a '"), ("{{", "}}", None, None, 6, "{}a "), ("<<", ">", None, None, 6, "<>a"),
        ("(", ")", "quote", ["word", "ab"], 5, "(a)' c"), ("(", ")", None, ["first", ["word", "ab"], ["word", "01"]], 5, "(a0) c"), ("(", ")", "comment", None, 5, "(/*)"), ("[", "]", "comment", ["char", "ab"], 5, "[a]/*"),
        ("begin", "end", None, ["char", "01"], 4, "01e "),
    ):
        for before, after, k in ((opener, closer, 0), ("", "", 1 if len(opener) < 5 else -9), (opener + opener, closer, 0)):
            if k < 0:
                before, after = opener + "0 " + opener, closer + closer
            yield dict(harness="h_nested", params=dict(opener=opener, closer=closer, ignore=ignore, content=content, n=n + d - (0 if k > 0 else 1), alphabet=alphabet, white=ref.WS if k else " ", before=before, after=after))
    yield dict(harness="h_nested", params=dict(opener="(", closer=")", ignore="quote", content=None, n=3 + d, alphabet=None, white=ref.WS, before="(", after=")"))
    yield dict(harness="h_nested", params=dict(opener="(", closer=")", ignore=None, content=None, n=3 + d, alphabet=None, white=ref.WS, before="(", after=")"))
    yield dict(harness="h_nested", params=dict(opener="{{", closer="}}", ignore=None, content=None, n=3 + d, alphabet=None, white=ref.WS, before="{{", after="}}"))
    yield dict(harness="h_nested", params=dict(opener="(", closer=")", ignore=None, content=None, n=5 + d, alphabet="(a) ", white=" ", before="(", after=")", twice=True))
    for how in ("alone", "many", "before", "after"):
        for harness in ("h_original", "h_located"):
            for k, spec in enumerate(SPECS):
                yield dict(harness=harness, params=dict(specs=[spec], n=4 + d, alphabet="ab; !" if how in ("before", "after") else "ab; ", white=" ", how=how))
            for x in (S[0], ["and", S[0], S[1]], ["group", S[0]], ["and", ["name", S[0], "x"], S[1]], ["first", S[0], S[1]]):
                yield dict(harness=harness, params=dict(specs=[x], n=2 + d, alphabet="a !", white=" ", how=how))
    for around in (None, "many", "name", "and"):
        for k, spec in enumerate(SPECS):
            yield dict(harness="h_ungroup", params=dict(specs=[[spec, around]], n=4 + d, alphabet="ab; " if around != "and" else "ab;!", white=" "))
        for x in (S[0], ["and", S[0], S[1]], ["group", S[0]], ["and", ["name", S[0], "x"], S[1]]):
            yield dict(harness="h_ungroup", params=dict(specs=[[x, around]], n=2 + d, alphabet="a !", white=" "))
    # long and deep
    for opener, closer, ignore, content, unit, alphabet in (
        ("(", ")", "quote", None, "(a ", "(a) '"), ("(", ")", None, None, "(a", "(a) "), ("{{", "}}", None, None, "{{a ", "{}a "), ("(", ")", "quote", ["word", "ab"], "(a ", "(a) b"), ("[", "]", "comment", ["char", "ab"], "[a", "[a]/*"),
    ):
        for size in (6, 12):
            yield dict(harness="h_nested", params=dict(opener=opener, closer=closer, ignore=ignore, content=content, n=2, alphabet=alphabet, white=" ", before=unit * size, after=closer * size))
        for size in (12, 40, 80):
            if content is None:
                yield dict(harness="h_nested", params=dict(opener=opener, closer=closer, ignore=ignore, content=content, n=2, alphabet=alphabet, white=" ", before=opener + "a" * size, after="a" * size + closer))
            yield dict(harness="h_nested", params=dict(opener=opener, closer=closer, ignore=ignore, content=content, n=2, alphabet=alphabet, white=" ", before=opener + "a  b " * (size // 3), after=opener + closer + closer))
    for k, spec in enumerate(SPECS):
        for size in (9, 40):
            text = {0: "ab;", 1: "ab ", 2: "a;", 3: "b ;", 4: "ab a", 5: "a", 6: "aba", 7: "b", 8: "a;", 9: "a;;", 10: "ab", 11: "ab ", 12: "ab", 13: "ab"}[k]
            for harness in ("h_original", "h_located"):
                yield dict(harness=harness, params=dict(specs=[spec], n=2, alphabet="ab; ", white=" ", how="many", before=text * size, after=" " + text))
            yield dict(harness="h_ungroup", params=dict(specs=[[spec, "many"]], n=2, alphabet="ab; ", white=" ", before=text * size, after=" " + text))
