"""what was matched before, and where, decides what matches: matchPreviousLiteral, matchPreviousExpr, matchOnlyAtCol"""
from props.common import *
from mo_parsing import helpers as H

REACH = ("ok", "fail", "same", "different", "prefix", "column")
BOUNDS = (
    "matchPreviousLiteral and matchPreviousExpr of tokens, sequences, repetitions, groups, options and arbitrary sub-parsers, in sequences, repetitions, choices and with names; matchOnlyAtCol of tokens at columns 1 to 4; every string of up to 5 characters over the characters that matter, "
    "also parsed a second time after another string"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["the repeat is not the start of an alternative"]


class Remembering(ref.Ref):
    memory = None

    def r_mem(self, env, i, spec):
        x = self.run(spec, i, env)
        if x is not None:
            self.memory = list(ref.strings(outer(x)))
        return x

    def r_prev(self, env, i, kind, spec):
        self.ctx.assume(self.memory is not None)
        if kind == "literal":
            x = self.run(["and"] + [L(w) for w in self.memory], i, env)
        else:
            x = self.run(spec, i, env)
            if x is not None:
                got = list(ref.strings(outer(x)))
                if len(got) == len(self.memory) and all(a == b for a, b in zip(got, self.memory)):
                    self.ctx.reach("same")
                else:
                    if any(a.startswith(b) for a, b in zip(got, self.memory)):
                        self.ctx.reach("prefix")
                    x = None
        if x is None:
            self.ctx.reach("different")
        return x

    def r_col(self, env, i, spec, n):
        x = self.run(spec, i, env)
        if x is not None:
            k = x.start
            while k > 0 and self.s[k - 1] != "\n":
                k -= 1
            if x.start < len(self.s) and self.s[x.start] == "\n":
                self.ctx.assume(False)
            if x.start - k + 1 == n:
                self.ctx.reach("column")
                return x


def outer(x):
    return ref.N("and", x.start, x.end, [x])


COLON, SEMI = L(":"), L(";")


def shapes(kind, e):
    m, p = ["mem", e], ["prev", kind, e]
    return {
        "and": ["and", m, COLON, p],
        "name": ["and", m, COLON, ["name", p, "z"]],
        "many": ["oom", ["and", m, COLON, p, ["opt", SEMI]]],
        "first": ["first", ["and", m, SEMI], ["and", m, COLON, p]],
        "list": ["and", m, ["zom", ["and", COLON, p]]],
        "group": ["group", ["and", m, COLON, ["group", p]]],
        "opt": ["and", m, COLON, ["opt", p]],
    }


def build(spec, first, second, env):
    """as gram.build, with these two where they belong"""
    if spec[0] == "mem":
        return first
    if spec[0] == "prev":
        return second
    sub = [x if not isinstance(x, list) else build(x, first, second, env) for x in spec[1:]]
    op = spec[0]
    if op == "and":
        return gram.And(sub, whitespaces.CURRENT)
    if op == "name":
        return sub[0](sub[1])
    if op == "first":
        return gram.MatchFirst(sub)
    if op in ("oom", "zom", "group", "opt"):
        return {"oom": gram.OneOrMore, "zom": gram.ZeroOrMore, "group": gram.Group, "opt": gram.Optional}[op](*sub)
    return gram.build(spec, env)


def h_previous(ctx, kind, e, shape, n, alphabet, white, warm=None, before="", after=""):
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx, zero=False) if has(e, "stub") else None
    spec = shapes(kind, e)[shape]
    with Whitespace(white):
        first = gram.build(e, {"table": table})
        second = {"literal": H.matchPreviousLiteral, "expr": H.matchPreviousExpr}[kind](first)
        p = gram.Group(build(spec, first, second, {"table": table}))
        if warm:
            gram.attempt(p, warm)
        got = gram.attempt(p, s)
    k = Remembering(s, white, table)
    k.ctx = ctx
    x = k.run(["group", spec], k.skip(0))
    want = ["fail"] if x is None else ["ok", ref.view(x)]
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "previous")


def h_column(ctx, e, col, many, n, alphabet, white, before="", after=""):
    s = before + ctx.string("s", 0, n, alphabet) + after
    with Whitespace(white):
        p = gram.build(e) / H.matchOnlyAtCol(col)
        spec = ["col", e, col]
        if many:
            p = gram.ZeroOrMore(gram.MatchFirst([p, gram.build(["and", L("b"), ["opt", e]])]))
            spec = ["zom", ["first", spec, ["and", L("b"), ["opt", e]]]]
        got = gram.attempt(gram.Group(p), s)
    k = Remembering(s, white)
    k.ctx = ctx
    x = k.run(["group", spec], k.skip(0))
    want = ["fail"] if x is None else ["ok", ref.view(x)]
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "column")


def tasks(tier):
    d = deep(tier, 0, 1)
    w = ["word", "ab"]
    for kind in ("literal", "expr"):
        for k, (e, alphabet) in enumerate([
            (w, "ab:; "), (["char", "ab"], "ab:; "), (["and", w, ["opt", L("c")]], "ac:; "), (["group", ["and", w, ["opt", L("c")]]], "ac:; "), (["oom", ["char", "ab"]], "ab: "), (["name", w, "x"], "ab: "), (["comb", ["and", L("a"), ["opt", L("b")]]], "ab: "),
            (["first", L("ab"), L("a")], "ab:"), (["act", w, "none"], "ab:"), (["supp", L("a")], "a: "), (["and", ["supp", L("(")], w], "a(:"),
        ]):
            for shape in ("and", "name", "many", "first", "list", "group", "opt"):
                yield dict(harness="h_previous", params=dict(kind=kind, e=e, shape=shape, n=5 + d, alphabet=alphabet, white=" " if " " in alphabet else "", warm=[None, "ab:ab", "b:a", "a(a:"][k % 4]))
        # groups in groups, in the middle of other matches
        for k, e in enumerate([
            ["group", ["and", ["char", "ab"], ["group", ["opt", L("c")]]]], ["group", ["group", ["char", "ab"]]], ["and", L("a"), ["group", ["group", ["and", L("b"), ["opt", L("c")]]]]], ["group", ["and", ["group", ["char", "ab"]], ["group", ["opt", ["group", L("c")]]]]],
            ["zom", ["group", ["and", ["char", "ab"], ["opt", ["group", L("c")]]]]], ["group", ["name", ["group", ["char", "ab"]], "y"]], ["group", ["supp", L("a")]],
        ]):
            for shape in ("and", "name", "list", "many"):
                yield dict(harness="h_previous", params=dict(kind=kind, e=e, shape=shape, n=5 + d, alphabet="abc:", white=["", " "][k % 2], warm=[None, "ab:ab", "b:a", "ac:"][k % 4]))
        yield dict(harness="h_previous", params=dict(kind=kind, e=S[0], shape="and", n=5, alphabet="a:", white=""))
        yield dict(harness="h_previous", params=dict(kind=kind, e=["any"], shape="list", n=3 + d, alphabet=None, white=ref.WS))
    for col in (1, 2, 3, 4):
        for many in (False, True):
            for e in (L("a"), ["word", "a"], ["and", L("a"), ["opt", L("b")]]):
                yield dict(harness="h_column", params=dict(e=e, col=col, many=many, n=5 + d, alphabet="ab \n", white=ref.WS))
    for k, col in enumerate((1, 2, 3, 4)):
        for many in (False, True):
            for e, alphabet, n, white in ((L("a"), "ab\r\n", 4, ref.WS), (["word", "a"], "ab\t\n", 4, " \n"), (["char", "ab\r\t"], "ab\r\t\n", 4, ""), (["and", L("a"), ["opt", L("b")]], "ab\f\v\n", 4, ref.WS)):
                yield dict(harness="h_column", params=dict(e=e, col=col, many=many, n=n + d, alphabet=alphabet, white=white))
        yield dict(harness="h_column", params=dict(e=["any"], col=col, many=False, n=3, alphabet=None, white=""))
    # long ones
    for kind in ("literal", "expr"):
        for e, text in ((w, "ab" * 20), (["oom", ["char", "ab"]], "ab" * 9), (["group", ["and", w, ["opt", L("c")]]], "ab" * 30 + "c"), (["name", w, "x"], "b" * 70)):
            yield dict(harness="h_previous", params=dict(kind=kind, e=e, shape="and", n=2, alphabet="abc:", white="", before=text, after=":" + text))
            yield dict(harness="h_previous", params=dict(kind=kind, e=e, shape="and", n=2, alphabet="abc:", white="", before=text + ":" + text[:-2], after=text[-1]))
            yield dict(harness="h_previous", params=dict(kind=kind, e=e, shape="list", n=2, alphabet="abc:", white="", before=":".join([text] * 6), after=":" + text))
            yield dict(harness="h_previous", params=dict(kind=kind, e=e, shape="many", n=2, alphabet="abc:", white="", before=(text[-4:] + ":" + text[-4:] + ";") * 9, after=":b;"))
    for col in (9, 12, 70):
        for e in (L("a"), ["word", "a"], ["and", L("a"), ["opt", L("b")]]):
            for before in ("b" * (col - 2), "b\n" * 20 + " " * (col - 2), "b" + "\n" * 50 + "b" * (col - 1)):
                yield dict(harness="h_column", params=dict(e=e, col=col, many=True, n=3, alphabet="ab \n", white=ref.WS, before=before, after="ab"))
