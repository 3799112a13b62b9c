"""parse_all, matches, parse_string, and what a parse raises"""
from props import large
from props.common import *
from mo_parsing.results import ParseResults

REACH = ("ok", "fail", "rest")
BOUNDS = (
    "hand-written grammars over arbitrary sub-parsers and generated grammars (depth 3); input: every string of up to 3 characters over Unicode, up to 5 over small alphabets; "
    "default, blank and no whitespace, ignored expressions"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS


def h_all(ctx, specs, n, alphabet, white, comment=None, before="", after=""):
    """parse_all is parse, and then nothing but whitespace"""
    spec = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx) if has(spec, "stub") else None
    comments = [comment] if comment else None
    with Whitespace(white) as w:
        if comment:
            with whitespaces.NO_WHITESPACE:
                e = gram.build(comment, {})
            w.add_ignore(e)
        p = gram.Group(gram.build(spec, {"table": table}))
        how = ctx.choice("how", ["parse", "parse_string", "object", "matches", "send"])
        some = ref.attempt(["group", spec], s, white, table, False, comments)
        full = ref.attempt(["group", spec], s, white, table, True, comments)
        ctx.reach(full[0])
        if some != full:
            ctx.reach("rest")
        if how == "matches":
            ctx.check(p.matches(s) == (full[0] == "ok"), "matches")
            ctx.check(p.matches(s, parse_all=False) == (some[0] == "ok"), "matches the start")
            return
        if how == "send":
            # ending the grammar with StringEnd()
            r = gram.attempt(gram.And([gram.build(spec, {"table": table}), gram.StringEnd()], whitespaces.CURRENT), s)
            ctx.equal(r[0], ref.attempt(["and", spec, ["send"]], s, white, table, False, comments)[0], "with StringEnd")
            return
        if how == "object":
            p = p.finalize()
        for parse_all, want in ((False, some), (True, full)):
            try:
                r = p.parse_string(s, parse_all=parse_all) if how == "parse_string" else p.parse(s, parse_all)
                got = ["ok", gram.view(r)]
            except gram.ParseException:
                got = ["fail"]
            ctx.equal(got, want, "parse_all" if parse_all else "parse")


def h_top(ctx, spec, n, alphabet, white, before="", after=""):
    """what parse() returns: the element's own result"""
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx) if has(spec, "stub") else None
    with Whitespace(white):
        p = gram.build(spec, {"table": table})
        parse_all = ctx.flag("all")
        got = gram.attempt(p, s, parse_all)
    want = ref.attempt(spec, s, white, table, parse_all)
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "parse")


def SK(p, q):
    return [
        p, ["and", p, q], ["first", p, q], ["first", ["and", p, q], p], ["or", p, q], ["zom", p], ["oom", p], ["opt", p], ["group", p], ["name", p, "x"], ["supp", p], ["comb", p], ["fwd", p], ["act", p, "wrap"],
        ["skip", p], ["all", p, q], ["not", p], ["and", p, ["lend"]], ["many", p, 1, 2],
    ]


def tasks(tier):
    for spec in SK(*S[:2]):
        yield dict(harness="h_all", params=dict(specs=[spec], n=deep(tier, 2, 3), alphabet="a \n", white=" "))
        if spec[0] not in ("name",):
            yield dict(harness="h_top", params=dict(spec=spec, n=2, alphabet="a ", white=["", " "][spec[0] in ("and", "zom")]))
    tok = SK(L("a"), ["word", "ab"])
    for k, white in enumerate((ref.WS, " ", "")):
        for i in range(0, len(tok), 5):
            yield dict(harness="h_all", params=dict(specs=tok[i:i + 5], n=deep(tier, 4, 5), alphabet="ab\n ", white=white))
    yield dict(harness="h_all", params=dict(specs=tok[:12], n=3, alphabet=None, white=ref.WS))
    # what is whitespace elsewhere is not whitespace here
    for white, alphabet in ((" ", "ab \t"), ("", "ab\t"), ("\t", "ab\t "), (" \t", "ab\t\r"), ("\n", "ab\n\r"), ("-", "ab- "), (" ", "ab \u00a0"), (ref.WS, "ab\f\v")):
        yield dict(harness="h_all", params=dict(specs=tok[:13], n=deep(tier, 3, 4), alphabet=alphabet, white=white))
    for white in (" ", "", "\t\n", "x"):
        yield dict(harness="h_all", params=dict(specs=tok[:4], n=3, alphabet=None, white=white))
    yield dict(harness="h_all", params=dict(specs=tok[:6], n=4, alphabet="ab# ", white=" ", comment=L("#")))
    specs = [e for e in family(20, deep(tier, 120, 1200), OPS, 3)]
    for i in range(0, len(specs), 12):
        yield dict(harness="h_all", params=dict(specs=specs[i:i + 12], n=3, alphabet="ab\n ", white=["", " ", ref.WS][i // 12 % 3]))
    # long texts, with much whitespace after them
    for e in (["zom", L("a")], ["and", L("a"), ["opt", L("b")]], ["zom", ["first", ["and", L("a"), L("b")], L("a")]], ["group", ["zom", ["word", "ab"]]], ["skip", L("b"), True]):
        for white in (ref.WS, " ", ""):
            for before, after in (("ab a " * 20, " " * 40), ("a" * 70, " \n" * 40), ("a " * 40 + "\n" * 70, ""), (" " * 90 + "a", " a"), ("a", " " * 130)):
                yield dict(harness="h_all", params=dict(specs=[e], n=2, alphabet="ab ", white=white, before=before, after=after))
                yield dict(harness="h_top", params=dict(spec=e, n=1, alphabet="ab ", white=white, before=before, after=after))
