"""literals and keywords"""
from props import large
from props.common import *

REACH = ("ok", "fail")
BOUNDS = (
    "literal and keyword text: every string of 1..2 characters over the given alphabet (all of Unicode where null), symbolic; "
    "input: every string of up to 3 characters, at offsets 0..1; keyword characters: default, a symbolic set, or a Regex"
)


def h_text(ctx, kind, m, n, text_alphabet, alphabet, at):
    """a literal or keyword of every text"""
    text = ctx.string("text", m, None, text_alphabet)
    s = ctx.string("s", at, n, alphabet)
    spec = [kind, text]
    if at:
        spec = ["and"] + [["any"]] * at + [spec]
    h(ctx, spec, s)


def h_ident(ctx, kind, text, m, n, alphabet):
    """keyword with its own word characters"""
    ident = ctx.string("ident", m, None, alphabet)
    s = ctx.string("s", 0, n, alphabet)
    h(ctx, [kind, text, ident], s)


def h(ctx, spec, s, white=""):
    with Whitespace(white):
        got = gram.attempt(gram.Group(gram.build(spec, {})), s)
    want = ref.attempt(["group", spec], s, white)
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "token")


def h_case(ctx, text, n):
    """caseless matching of special characters"""
    s = ctx.string("s", 0, n)
    h(ctx, [ctx.choice("kind", ["clit", "ckw", "lit", "kw"]), text], s)


def h_keyword_chars(ctx, n, alphabet):
    """keywords follow the word characters of the whitespace context they are made in"""
    chars = ctx.string("chars", 1, 2, alphabet)
    s = ctx.string("s", 0, n, alphabet)
    kind = ctx.choice("kind", ["kw", "ckw"])
    with Whitespace("") as w:
        w.set_keyword_chars(chars)
        p = gram.Group(gram.build([kind, "a"], {}))
    with Whitespace(""):
        got = gram.attempt(p, s)
    want = ref.attempt(["group", [kind, "a", chars]], s, "")
    ctx.reach(want[0])
    ctx.equal(got, want, "keyword chars")


def h_default_literal(ctx, n, alphabet):
    """strings become the literals of the current context"""
    s = ctx.string("s", 0, n, alphabet)
    kind = ctx.choice("kind", ["lit", "clit", "kw", "ckw"])
    with Whitespace(" ") as w:
        w.set_literal({"lit": gram.Literal, "clit": gram.CaselessLiteral, "kw": gram.Keyword, "ckw": gram.CaselessKeyword}[kind])
        p = gram.Group(gram.Word("c") + "a" + gram.Optional("b"))
    q = gram.Literal("c") + "a"
    with Whitespace(" "):
        got = gram.attempt(p, s)
    with Whitespace(""):
        plain = gram.attempt(gram.Group(q), s)
    want = ref.attempt(["group", ["and", ["word", "c"], [kind, "a"], ["opt", [kind, "b"]]]], s, " ")
    ctx.reach(want[0])
    ctx.equal(got, want, "set_literal")
    ctx.equal(plain, ref.attempt(["group", ["and", L("c"), L("a")]], s, ref.WS), "literal outside")


def tasks(tier):
    for kind in ("lit", "clit", "kw", "ckw"):
        for at in (0, 1):
            for m in (1, 2):
                yield dict(harness="h_text", params=dict(kind=kind, m=m, n=deep(tier, 3, 4), text_alphabet="aB0_.", alphabet="abB0_$. ", at=at))
                yield dict(harness="h_text", params=dict(kind=kind, m=m, n=3, text_alphabet=".*[(]\\^$|?+{}-", alphabet=".*[(]\\^$|?+{}-a", at=at))
        if kind in ("lit", "kw"):
            yield dict(harness="h_text", params=dict(kind=kind, m=1, n=2, text_alphabet=None, alphabet=None, at=0))
            yield dict(harness="h_text", params=dict(kind=kind, m=2, n=3, text_alphabet=None, alphabet=None, at=0))
    for kind in ("kw", "ckw"):
        for m in (1, 2):
            yield dict(harness="h_ident", params=dict(kind=kind, text="a", m=m, n=3, alphabet="abB-]^\\"))
            yield dict(harness="h_ident", params=dict(kind=kind, text="ab", m=m, n=3, alphabet="abAB1"))
            yield dict(harness="h_ident", params=dict(kind=kind, text="a", m=m, n=3, alphabet="aB\n\r "))
    for text in ("\xdf", "\u0130", "i", "I", "k", "\u212a", "s", "\u017f", "\xb5", "\u01c5", "a.b", "A*", "\ufb01", "\u1e9e", "\u03c2", "A\u0345", "aB", "1", " "):
        yield dict(harness="h_case", params=dict(text=text, n=2 if len(text) == 1 else 3))
    yield dict(harness="h_keyword_chars", params=dict(n=3, alphabet="abA-_"))
    yield dict(harness="h_default_literal", params=dict(n=4, alphabet="abAc "))
    for k in ("kw", "ckw", "lit", "clit"):
        yield one([k, "for"], 4, alphabet="forF_ ")
        yield one(["and", [k, "abcab"], ["opt", ["any"]]], 6, lo=5, alphabet="abC")
    # long and wide
    for t in large.tokens(tier):
        yield t
