"""whitespace contexts"""
from props.common import *
from mo_parsing.whitespaces import NO_WHITESPACE

REACH = ("ok", "fail", "skipped", "stayed")
BOUNDS = (
    "whitespace characters: every set of 0..2 characters of an alphabet (one of all Unicode), and default, blank, none; ignored expressions: up to two of a list, up to four characters; "
    "input: every string of up to 4..6 characters over small alphabets; histories of up to 4 skips over two strings; programs of up to 4 context operations; whitespace given to Many, OneOrMore, ZeroOrMore, And and SkipTo: eight forms, four pairs of contexts"
)
IGNORES = [
    ["lit", "#"], ["lit", "/*"], ["re", "#[^\n]*"], ["and", ["lit", "("], ["cni", ")", 1, 0], ["lit", ")"]], ["char", "#/"], ["word", "#"], ["first", ["lit", "#/"], ["lit", "*"]],
]


def h_skip(ctx, m, n, alphabet, calls):
    """skip() is the longest run from there, whatever was asked before"""
    chars = ctx.string("chars", 0, m, alphabet)
    w = Whitespace(chars)
    texts = [ctx.string("s", 0, n, alphabet), ctx.string("t", 0, n, alphabet)]
    for k in range(calls):
        s = texts[ctx.choice("text%d" % k, 2)] if k else texts[0]
        i = ctx.choice("at%d" % k, len(s) + 1)
        got = w.skip(s, i)
        want = ref.Ref(s, chars).skip(i)
        ctx.reach("skipped" if want > i else "stayed")
        ctx.equal(got, want, "skip")


def h_three(ctx, n, alphabet, white, calls):
    """every ignored expression is skipped, however many there are, and in whatever way they were added"""
    marks = "#/*!"[:ctx.choice("count", [3, 4])]
    s = ctx.string("s", 0, n, alphabet)
    w = Whitespace(white)
    left = list(marks)
    while left:
        k = 1 + ctx.choice("together%d" % len(left), min(len(left), 3)) if calls == "some" else len(left) if calls == "one" else 1
        w.add_ignore(*[gram.Literal(c) for c in left[:k]])
        del left[:k]
    with w:
        p = gram.Literal("a") + "b"
    i = 0
    while i < len(s) and s[i] in marks + white:
        i += 1
    for at in range(len(s) + 1):
        end = at
        while end < len(s) and s[end] in marks + white:
            end += 1
        ctx.reach("skipped" if end > at else "stayed")
        ctx.equal(w.skip(s, at), end, "skip", at=at)
    got = gram.attempt(p, "a" + s + "b")
    ctx.reach("ok" if i == len(s) or s[i] == "b" else "fail")
    ctx.check((got[0] == "ok") == (i == len(s) or s[i] == "b"), "ignored")


def h_change(ctx, n, alphabet, steps, how):
    """what a context skips is what its settings are, though it skipped the same text with others"""
    s = ctx.string("s", 0, n, alphabet)
    white, marks = " ", ""
    w = Whitespace(white)
    text = "a" + s + "b"
    if how == "parse":
        with w as w:
            p = gram.Group(gram.Literal("a") + "b")
    for k in range(steps + 1):
        if k:
            step = ctx.choice("step%d" % k, ["tab", "none", "#", "/"])
            if step in "#/":
                w.add_ignore(gram.Literal(step))
                marks += step
            else:
                white = {"tab": "\t", "none": ""}[step]
                w.set_whitespace(white)
        for i in range(len(s) + 1):
            end = i
            while end < len(s) and s[end] in marks + white:
                end += 1
            ctx.reach("skipped" if end > i else "stayed")
            if how == "skip":
                ctx.equal(w.skip(s, i), end, "skip", at=i, step=k)
        if how == "parse":
            i = 0
            while i < len(s) and s[i] in marks + white:
                i += 1
            ctx.check((gram.attempt(p, text)[0] == "ok") == (i == len(s) or s[i] == "b"), "parse", step=k)


def h_ignore_skip(ctx, n, alphabet, white, at_once):
    """ignored expressions are skipped with the whitespace around them"""
    chosen = [IGNORES[ctx.choice("first", len(IGNORES))]]
    second = ctx.choice("second", [None] + IGNORES)
    if second:
        chosen.append(second)
    s = ctx.string("s", 0, n, alphabet)
    with NO_WHITESPACE:
        exprs = [gram.build(e, {}) for e in chosen]
    w = Whitespace(white)
    if at_once:
        w.add_ignore(*exprs)
    else:
        for e in exprs:
            w.add_ignore(e)
    r = ref.Ref(s, white, None, chosen)
    for i in range(len(s) + 1):
        want = r.skip(i)
        ctx.reach("skipped" if want > i else "stayed")
        ctx.equal(w.skip(s, i), want, "skip", at=i)


def h_ignore(ctx, spec, n, alphabet, white, ignore, parse_all, before="", after=""):
    """ignored expressions come anywhere whitespace can"""
    s = before + ctx.string("s", 0, n, alphabet) + after
    with NO_WHITESPACE:
        exprs = [gram.build(e, {}) for e in ignore]
    with Whitespace(white) as w:
        for e in exprs:
            w.add_ignore(e)
        got = gram.attempt(gram.Group(gram.build(spec, {})), s, parse_all)
    want = ref.attempt(["group", spec], s, white, None, parse_all, ignore)
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "ignored")


class Boom(Exception):
    pass


def h_program(ctx, steps, alphabet, first):
    """entering and leaving contexts, whatever happens inside: each element
    keeps the context it was made in, and the outer context comes back"""
    s = "a" + ctx.string("s", 0, 1, alphabet) + "b"
    settings = [[ref.WS]]  # what elements of a context see is what it is set to
    made = []

    def make():
        white = settings[-1]
        p = gram.And([gram.Literal("a"), gram.Literal("b")], whitespaces.CURRENT)
        made.append((p, white))
        ctx.equal(whitespaces.CURRENT.white_chars, "".join(sorted(white[0])), "current whitespace")

    def run(k):
        make()
        if k == steps:
            return
        step = ctx.choice("step%d" % k, ["enter", "stop", "raise", "set", "use", "again"]) if k else first
        before = whitespaces.CURRENT
        if step == "stop":
            return
        if step == "set":
            whitespaces.CURRENT.set_whitespace("\t")
            settings[-1][0] = "\t"
            run(k + 1)
            return
        white = ctx.choice("white%d" % k, ["", " ", "b"])
        settings.append([white])
        if step == "use":
            w = Whitespace(white).use()
            run(k + 1)
            w.release()
        elif step == "again":
            # one setting, entered again inside of itself
            w = Whitespace(white)
            with w:
                settings.append([white])
                with w:
                    run(k + 1)
                settings.pop()
                make()
        else:
            try:
                with Whitespace(white):
                    run(k + 1)
                    if step == "raise":
                        raise Boom()
            except Boom:
                pass
        settings.pop()
        ctx.check(whitespaces.CURRENT is before, "context restored")
        make()

    with Whitespace(ref.WS):
        run(0)
        current = whitespaces.CURRENT
        for p, white in made:
            got = gram.attempt(gram.Group(p), s)
            want = ref.attempt(["group", ["and", L("a"), L("b")]], s, white[0])
            ctx.reach(want[0])
            ctx.equal(got, want, "whitespace of the element")
        ctx.check(whitespaces.CURRENT is current, "context untouched by parsing")


def h_settings(ctx, n, alphabet):
    """settings of a context do not leak out of it, and are inherited by none"""
    s = ctx.string("s", 0, n, alphabet)
    kind = ctx.choice("kind", ["literal", "keyword", "white", "ignore"])
    with Whitespace(" ") as outer:
        with Whitespace(" ") as w:
            if kind == "literal":
                w.set_literal(gram.CaselessLiteral)
            elif kind == "keyword":
                w.set_keyword_chars("b")
            elif kind == "white":
                w.set_whitespace("b")
            else:
                w.add_ignore(gram.Literal("b"))
            inside = gram.Group(gram.Empty() + "a" + gram.Keyword("a"))
        outside = gram.Group(gram.Empty() + "a" + gram.Keyword("a"))
    got = gram.attempt(inside, s), gram.attempt(outside, s)
    a, k = L("a"), ["kw", "a"]
    want = (
        ref.attempt(["group", ["and", ["empty"], ["clit", "a"] if kind == "literal" else a, ["kw", "a", "b"] if kind == "keyword" else k]], s, "b" if kind == "white" else " ",
                    None, False, [L("b")] if kind == "ignore" else None),
        ref.attempt(["group", ["and", ["empty"], a, k]], s, " "),
    )
    ctx.reach(want[0][0])
    ctx.equal(got, want, "settings")


def h_edges(ctx, spec, n, alphabet, inner, outer, before="", after=""):
    """leading and trailing whitespace is what the outermost element skips"""
    s = before + ctx.string("s", 0, n, alphabet) + after
    with Whitespace(inner):
        p = gram.build(spec, {})
    parse_all = ctx.flag("parse_all")
    how = ctx.choice("how", ["plain", "group", "name", "action"])
    if how == "group":
        p, spec = gram.Group(p), ["group", spec]
    elif how == "name":
        p, spec = p("x"), ["name", spec, "x"]
    elif how == "action":
        p, spec = p / (lambda: None), spec
    with Whitespace(outer):
        got = gram.attempt(p, s, parse_all)
    want = ref.attempt(spec, s, inner, None, parse_all)
    ctx.reach(want[0])
    ctx.equal(got, want, "edges")


GIVEN = {
    "many": (lambda w: gram.Many(gram.Char("ab"), w, min_match=1, max_match=3), ["many", ["char", "ab"], 1, 3]),
    "exact": (lambda w: gram.Many(gram.Char("ab"), whitespace=w, exact=2), ["times", ["char", "ab"], 2]),
    "oom": (lambda w: gram.OneOrMore(gram.Char("ab"), w), ["oom", ["char", "ab"]]),
    "zom": (lambda w: gram.ZeroOrMore(gram.Char("ab"), whitespace=w), ["zom", ["char", "ab"]]),
    "until": (lambda w: gram.ZeroOrMore(gram.AnyChar(), w, stop_on=gram.Char("b")), ["many", ["any"], 0, None, ["char", "b"]]),
    "and": (lambda w: gram.And([gram.Literal("a"), gram.Char("ab"), gram.Literal("b")], w), ["and", L("a"), ["char", "ab"], L("b")]),
    "skip": (lambda w: gram.SkipTo(gram.Literal("b"), include=True, engine_=w), ["skip", L("b"), True]),
    "skip on": (lambda w: gram.SkipTo(gram.Literal("b"), ignore=gram.Literal("-"), engine_=w), ["skip", L("b"), False, None, L("-")]),
}


def h_given(ctx, form, n, inner, outer, also):
    """whitespace that is given is as good as that of the context"""
    s = ctx.string("s", 0, n, "ab- \t")
    make, spec = GIVEN[form]
    with Whitespace(inner) as w:
        pass
    with Whitespace(outer):
        p = make(w)
        e = p
        if also == "group":
            e, spec = gram.Group(p), ["group", ["ws", inner, spec]]
        elif also == "and":
            e, spec = gram.Group(gram.Literal("a") + gram.Group(p) + gram.Optional("-")), ["group", ["and", L("a"), ["group", ["ws", inner, spec]], ["opt", L("-")]]]
        elif also == "copy":
            e, spec = gram.Group(p("x")), ["group", ["name", ["ws", inner, spec], "x"]]
        got = gram.attempt(e, s)
    # (SkipTo has that of its target, which is a token)
    lead = outer if also == "and" or form in ("skip", "skip on") else inner
    want = ref.attempt(spec, s, lead, None)
    ctx.reach(want[0])
    ctx.equal(got, want, "given")


def tasks(tier):
    for form in sorted(GIVEN):
        for inner, outer in ((" ", ""), ("", " "), (" \t", " "), ("-", " ")):
            for also in ("group", "and", "copy"):
                if form == "skip on" and inner == "-":
                    continue
                yield dict(harness="h_given", params=dict(form=form, n=deep(tier, 3, 4), inner=inner, outer=outer, also=also))
    yield dict(harness="h_skip", params=dict(m=2, n=3, alphabet="a \n", calls=1))
    yield dict(harness="h_skip", params=dict(m=1, n=2, alphabet=None, calls=1))
    yield dict(harness="h_skip", params=dict(m=2, n=3, alphabet="]-^\\", calls=1))
    yield dict(harness="h_skip", params=dict(m=1, n=2, alphabet="a ", calls=deep(tier, 3, 4)))
    for calls in ("one", "each", "some"):
        yield dict(harness="h_three", params=dict(n=deep(tier, 3, 4), alphabet="#/*!b ", white=" ", calls=calls))
    for how in ("skip", "parse"):
        yield dict(harness="h_change", params=dict(n=3, alphabet="#/ \t", steps=deep(tier, 2, 3), how=how))
    for white in ("", " "):
        for at_once in (False, True):
            yield dict(harness="h_ignore_skip", params=dict(n=deep(tier, 3, 5), alphabet="#/* " if white else "#/*\n", white=white, at_once=at_once))
        yield dict(harness="h_ignore_skip", params=dict(n=deep(tier, 4, 5), alphabet="#a\n " if white else "#(a)", white=white, at_once=False))
    for spec in (
        ["and", L("a"), L("b")], ["oom", L("a")], ["and", ["opt", L("a")], ["many", L("b"), 1, 2]], ["skip", L("b")], ["all", L("a"), L("b")],
        ["group", ["and", L("a"), ["first", L("b"), L("a")]]], ["comb", ["and", L("a"), L("b")]], ["and", ["word", "ab"], ["zom", ["word", "ab"]]],
    ):
        for white, ignore in ((" ", [L("#")]), ("", [L("#"), L("/*")]), (ref.WS, [["re", "#[^\n]*"]]), (" ", [["and", L("("), ["cni", ")"], L(")")]])):
            alphabet = {"#": "ab# ", "(": "ab()"}["(" if ignore[0][0] == "and" else "#"]
            if ignore[0][0] == "re":
                alphabet = "ab#\n"
            if len(ignore) == 2:
                alphabet = "ab#/*"
            for parse_all in (False, True):
                yield dict(harness="h_ignore", params=dict(spec=spec, n=deep(tier, 4, 5), alphabet=alphabet, white=white, ignore=ignore, parse_all=parse_all))
    for first in ("enter", "raise", "set", "use", "again"):
        yield dict(harness="h_program", params=dict(steps=3, alphabet="b \t", first=first))
    yield dict(harness="h_settings", params=dict(n=deep(tier, 4, 5), alphabet="aAb "))
    for spec in (["and", L("a"), L("b")], ["oom", L("a")], ["and", ["group", L("a")], L("b")], ["zom", ["and", L("a"), L("b")]], ["first", ["and", L("a"), L("b")], ["and", L("b"), L("a")]]):
        for inner, outer in ((" ", ref.WS), ("\t", " ")):
            yield dict(harness="h_edges", params=dict(spec=spec, n=deep(tier, 4, 5), alphabet="ab \t", inner=inner, outer=outer))
    for spec in (
        ["all", L("a"), L("b")], ["all", ["word", "ab"], ["opt", L("-")]], ["group", ["all", L("a"), ["zom", L("b")]]], ["or", ["all", L("a"), L("b")], ["and", L("a"), L("-")]],
        ["opt", ["all", L("a"), L("b")]], ["fwd", ["all", L("a"), L("b")]], ["all", ["and", L("a"), L("b")], L("-")], ["and", ["all", L("a"), L("b")], L("-")], ["opt", L("a")], ["many", L("a"), 2, 2],
    ):
        for inner, outer in ((" ", ref.WS), ("-", " "), ("- ", ""), ("", "-"), (" ", "")):
            # alternatives none of which skips anything leave it to what is in effect
            if not (inner and "-" in inner and "-" in str(spec)) and (inner or spec[0] not in ("or", "first")):
                yield dict(harness="h_edges", params=dict(spec=spec, n=deep(tier, 4, 5), alphabet="ab -\t"[:4 if outer != ref.WS else 5], inner=inner, outer=outer))
    # much of it
    for spec, unit in ((["zom", L("a")], "a"), (["and", L("a"), ["zom", ["group", ["and", L("b"), L("a")]]]], "a"), (["zom", ["word", "ab"]], "ab")):
        for white, ignore, some in (
            (" ", [L("#")], "#"), (" ", [["re", "#[^\n]*"], L("\n")], "#ab b\n"), (ref.WS, [["re", "#[^\n]*"]], "\n# b#\n"), (" ", [["and", L("("), ["cni", ")"], L(")")]], "(a b)"), ("", [L("#"), L("/*")], "#/*"), (" ", [L("#"), L("/*"), L("!"), L("$"), L("%")], "#!$%/*"),
        ):
            for before in (unit + some * 30, (unit + some) * 12, some * 9 + unit + " " * 80, " " * 70 + some + unit):
                if white == "" and " " in before:
                    continue
                for parse_all in (False, True):
                    yield dict(harness="h_ignore", params=dict(spec=spec, n=2, alphabet="a b#\n" if "\n" in some else "a #(b)", white=white, ignore=ignore, parse_all=parse_all, before=before, after=some + unit + some))
