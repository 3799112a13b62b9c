"""what a failed parse reports"""
from props import large
from props.common import *
from mo_parsing.exceptions import ParseException
from mo_parsing.utils import col, line, lineno

REACH = ("raised", "deep", "later line", "end of text")
BOUNDS = (
    "hand-written grammars over arbitrary sub-parsers and generated grammars (depth 3) of tokens, sequences, choices, repetition, groups and Forward; input: every string of up to 3 or 4 characters; "
    "line, lineno and col: every string of up to 5 characters, every position"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["the location is compared for grammars without conditions, negation, lookaround and SkipTo, the rest for all"]


class FarRef(ref.Ref):
    """notes how far it got before something did not match"""

    def __init__(self, *a):
        ref.Ref.__init__(self, *a)
        self.far = -1

    def run(self, spec, i, env=None):
        r = ref.Ref.run(self, spec, i, env)
        if r is None and i > self.far:
            self.far = i
        return r


def position(s, loc):
    """line, line number and column, by walking there"""
    number, begin = 1, 0
    for k in range(loc):
        if s[k] == "\n":
            number += 1
            begin = k + 1
    end = loc
    while end < len(s) and s[end] != "\n":
        end += 1
    return s[begin:end], number, loc - begin + 1


def raised(p, s, parse_all):
    try:
        p.parse(s, parse_all)
    except ParseException as cause:
        return cause


def h_error(ctx, specs, n, alphabet, white, where, before="", after=""):
    spec = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx) if has(spec, "stub") else None
    parse_all = ctx.flag("parse_all")
    with Whitespace(white):
        p = gram.Group(gram.build(spec, {"table": table}))
        e = raised(p, s, parse_all)
    r = FarRef(s, white, table)
    x = r.run(["group", spec], r.skip(0))
    failed = x is None
    if not failed and parse_all:
        at = r.skip(x.end)
        failed = r.run(["send"], at) is None
    ctx.check((e is not None) == failed, "raises when there is no match")
    if e is None:
        return
    ctx.reach("raised")
    loc = e.loc
    ctx.check(e.string is s, "string")
    ctx.check(0 <= loc <= len(s), "location is in the text", loc=loc)
    if loc > 0:
        ctx.reach("deep")
    if where:
        ctx.equal(loc, r.far, "furthest failure")
    text, number, column = position(s, loc)
    if number > 1:
        ctx.reach("later line")
    ctx.equal(e.line, text, "line")
    ctx.equal(e.lineno, number, "lineno")
    ctx.equal(e.col, column, "col")
    ctx.equal(e.column, column, "column")
    ctx.equal(e.mark_inputline(), (text[:column - 1] + ">!<" + text[column - 1:]).strip(), "mark_inputline")
    ctx.observe("loc", [loc, number, column])


def h_text(ctx, specs, n, alphabet, white, before="", after=""):
    """the message says where, and what was found there"""
    spec = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    with Whitespace(white):
        p = gram.Group(gram.build(spec, {}))
        e = raised(p, s, True)
    if e is None:
        return
    ctx.reach("raised")
    message = str(e)
    loc = e.loc
    _, number, column = position(s, loc)
    ctx.check("(at char %d), (line:%d, col:%d)" % (loc, number, column) in message, "where", message=message)
    if loc >= len(s):
        ctx.reach("end of text")
        ctx.check("found end of text" in message, "end of text", message=message)
    else:
        ctx.check(', found "' in message, "found", message=message)


def h_position(ctx, n, alphabet, before="", after=""):
    s = before + ctx.string("s", 0, n, alphabet) + after
    loc = ctx.choice("loc", sorted({0, 1, len(before), len(before) + 1, len(before) + n, len(s) - 1, len(s)}) if before else len(s) + 1)
    ctx.assume(loc <= len(s))
    text, number, column = position(s, loc)
    if number > 1:
        ctx.reach("later line")
    ctx.equal(line(loc, s), text, "line")
    ctx.equal(lineno(loc, s), number, "lineno")
    ctx.equal(col(loc, s), column, "col")


def SK(p, q, r):
    return [
        p, ["and", p, q], ["and", p, q, r], ["first", p, q], ["first", ["and", p, q], ["and", q, p]], ["or", p, q], ["or", ["and", p, q], q], ["and", ["zom", p], q], ["and", ["opt", p], q], ["oom", ["and", p, q]],
        ["group", ["and", p, q]], ["fwd", ["and", p, q]], ["many", p, 2, 3], ["and", ["zom", ["and", p, q]], r], ["name", ["and", p, q], "x"], ["comb", ["and", p, q]], ["supp", ["and", p, q]],
        ["and", ["first", ["and", p, q], p], r], ["act", ["and", p, q], "wrap"], ["and", ["opt", ["and", p, q]], r],
        ["and", ["opt", ["and", p, q], "D"], r], ["and", ["group", ["opt", ["and", p, q], ["x", "y"]]], r], ["and", ["many", ["and", p, q], 0, 2], r], ["and", ["zom", ["and", p, ["opt", ["and", q, p]]]], r],
        ["all", ["and", p, q], ["opt", r]], ["and", ["all", p, ["opt", ["and", q, q], "D"]], r], ["and", ["times", ["and", p, q], [0, 2]], r], ["or", ["and", ["opt", ["and", p, q], "D"], r], q],
    ]


def tasks(tier):
    yield dict(harness="h_position", params=dict(n=deep(tier, 5, 7), alphabet="a\n\r"))
    yield dict(harness="h_position", params=dict(n=2, alphabet=None))
    for spec in SK(*S[:3]):
        yield dict(harness="h_error", params=dict(specs=[spec], n=2, alphabet="a\n", white="", where=True))
    tok = SK(L("a"), ["char", "ab"], L("b")) + SK(L("ab"), L("aa"), ["word", "ab"])
    for k, (white, alphabet) in enumerate((("", "ab\n"), (ref.WS, "ab\n "), (" ", "ab "))):
        for i in range(0, len(tok), 8):
            yield dict(harness="h_error", params=dict(specs=tok[i:i + 8], n=deep(tier, 3, 4), alphabet=alphabet, white=white, where=True))
            yield dict(harness="h_text", params=dict(specs=tok[i:i + 8], n=deep(tier, 2, 3), alphabet=alphabet, white=white))
    ops = ["and", "plus", "first", "bar", "or", "xor", "many", "zom", "oom", "opt", "group", "supp", "comb", "name", "act", "fwd", "times"]
    leaves = [["lit", "a"], ["lit", "b"], ["lit", "ab"], ["kw", "a"], ["char", "ab"], ["word", "ab"], ["clit", "aB"], ["any"], ["re", "ab"], ["cni", "a\n"], ["lend"], ["send"]]
    specs = family(21, deep(tier, 150, 1500), ops, 3, leaves, ops)
    for i in range(0, len(specs), 15):
        yield dict(harness="h_error", params=dict(specs=specs[i:i + 15], n=3, alphabet="ab\n", white=["", " ", ref.WS][i // 15 % 3], where=True))
    specs = family(22, deep(tier, 90, 1000), OPS, 3)
    for i in range(0, len(specs), 15):
        yield dict(harness="h_error", params=dict(specs=specs[i:i + 15], n=3, alphabet="ab\n" if i % 30 else None, white=["", " ", ref.WS][i // 15 % 3], where=False))
        yield dict(harness="h_text", params=dict(specs=specs[i:i + 15], n=2, alphabet="ab\n", white=["", " ", ref.WS][i // 15 % 3]))
    # far into a long text
    for before, after in (("ab a\n" * 30, "a\n" * 20), ("ab " * 60, "b" * 90), ("\n" * 60 + "a" * 90, ""), ("a\n" + "ab" * 70, "\nab")):
        yield dict(harness="h_position", params=dict(n=2, alphabet="a\n\r", before=before, after=after))
        for spec in (["zom", ["group", ["and", ["word", "ab"], ["opt", ["and", L(";"), L("a")]]]]], ["and", ["zom", ["word", "ab"]], L(";"), ["word", "ab"], ["send"]], ["zom", ["first", ["and", L("a"), L("b")], L("a"), ["and", L("b"), L("!")]]]):
            for white in (ref.WS, " "):
                yield dict(harness="h_error", params=dict(specs=[spec], n=2, alphabet="ab;\n", white=white, where=True, before=before, after=after))
                yield dict(harness="h_text", params=dict(specs=[spec], n=2, alphabet="ab;\n", white=white, before=before, after=after))
