"""character-class tokens"""
from props import large
from props.common import *
from mo_parsing.utils import regex_range
import re

REACH = ("ok", "fail")
BOUNDS = (
    "character sets: every set of 1..3 symbolic characters over the given alphabet (and fixed sets of special characters); limits 1..3; "
    "input: every string of up to 4 characters over all of Unicode or the given alphabet"
)
SPECIAL = "]-^\\[.a"


def run(ctx, spec, s, white="", real=None):
    with Whitespace(white):
        got = gram.attempt(gram.Group(real() if real else gram.build(spec, {})), s)
    want = ref.attempt(["group", spec], s, white)
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "token")


def h_char(ctx, m, n, alphabet):
    inc = ctx.string("include", 0, m, alphabet)
    exc = ctx.string("exclude", 0, m, alphabet)
    for x in (inc, exc):
        for a, b in zip(x, x[1:]):
            ctx.assume(a < b)
    ctx.assume(len(inc) + len(exc) > 0)
    if inc:
        # include less exclude, where that leaves something
        ctx.assume(any(c not in exc for c in inc))
    s = ctx.string("s", 0, n, alphabet)
    run(ctx, ["char", inc, exc], s)


def h_range(ctx, m, alphabet, sample):
    """regex_range is the set of its characters"""
    chars = ctx.string("chars", 1, m, alphabet)
    s = ctx.string("s", 1, 1, sample)
    negate = ctx.flag("exclude")
    pattern = regex_range(chars, exclude=True) if negate else regex_range(chars)
    got = bool(re.compile(pattern, re.DOTALL).match(s))
    ctx.reach("ok" if got else "fail")
    ctx.equal(got, (s[0] in chars) != negate, "regex_range")


def h_runs(ctx, starts, longest):
    """sets with long contiguous runs"""
    a = ord(ctx.choice("start", starts))
    k = 1 + ctx.choice("run", longest)
    chars = "".join(map(chr, range(a, a + k)))
    more = ctx.choice("more", ["", chr(a - 1) if a > 1 else "", chr(a + k + 1), chr(a + k + 2) + chr(a + k + 1), "-"])
    kind = ctx.choice("kind", ["char", "not", "word", "cni"])
    chars = more[:1] + chars + more[1:]
    s = ctx.string("s", 1, 1)
    run(ctx, {"char": ["char", chars], "not": ["char", "", chars], "word": ["word", chars], "cni": ["cni", chars]}[kind], s)


def h_word(ctx, m, n, alphabet, exclude, kind, lo, hi):
    init = ctx.string("init", 1, m, alphabet)
    body = None if kind == "init" else init if kind == "same" else ctx.string("body", 1, m, alphabet)
    exc = ctx.string("exclude", 1, 1, alphabet) if exclude else ""
    for x in (init, body or ""):
        if len(x) == 2:
            ctx.assume(x[0] < x[1])
    ctx.assume(any(c not in exc for c in init))
    ctx.assume(body is None or any(c not in exc for c in body))
    s = ctx.string("s", 0, n, alphabet)
    run(ctx, ["word", init, body, lo, hi, exc], s)


def h_word_args(ctx, n, alphabet):
    """fixed sets, all limits, exact"""
    init, body = ctx.choice("sets", [["ab", None], ["a", "ab"], ["ab", "b"], ["a", "b"], ["-", "]^"]])
    s = ctx.string("s", 0, n, alphabet)
    if ctx.flag("exact"):
        k = 1 + ctx.choice("k", 4)
        run(ctx, ["word", init, body, k, k], s, real=lambda: gram.Word(init, body, exact=k))
    else:
        lo = 1 + ctx.choice("lo", 4)
        hi = ctx.choice("hi", [None, 1, 2, 3, 4])
        ctx.assume(hi is None or hi >= lo)
        run(ctx, ["word", init, body, lo, hi], s)


def h_not_in(ctx, m, n, alphabet):
    chars = ctx.string("chars", 1, m, alphabet)
    for a, b in zip(chars, chars[1:]):
        ctx.assume(a < b)
    s = ctx.string("s", 0, n, alphabet)
    if ctx.flag("exact"):
        k = 1 + ctx.choice("k", 3)
        run(ctx, ["cni", chars, k, k], s, real=lambda: gram.CharsNotIn(chars, exact=k))
    else:
        lo = 1 + ctx.choice("lo", 3)
        hi = ctx.choice("hi", 4)
        ctx.assume(not hi or hi >= lo)
        run(ctx, ["cni", chars, lo, hi], s)


def h_white(ctx, n, alphabet):
    chars = ctx.choice("chars", [" ", " \t", "\n", " \t\r\n", "\u00a0 "])
    s = ctx.string("s", 0, n, alphabet)
    if ctx.flag("exact"):
        k = 1 + ctx.choice("k", 3)
        run(ctx, ["white", chars, k, k], s, real=lambda: gram.White(chars, exact=k))
    else:
        lo = 1 + ctx.choice("lo", 3)
        hi = ctx.choice("hi", 4)
        ctx.assume(not hi or hi >= lo)
        run(ctx, ["white", chars, lo, hi], s)


def h_close(ctx, m, n, alphabet, at):
    text = ctx.string("text", 1, m, alphabet)
    s = ctx.string("s", at, n, alphabet)
    k = ctx.choice("mismatches", 3)
    spec = ["close", text, k]
    run(ctx, ["and"] + [["any"]] * at + [spec] if at else spec, s)


def h_bound(ctx, kind, n, alphabet):
    """as_keyword: whole words only"""
    chars = "ab"
    s = ctx.string("s", 0, n, alphabet)
    with Whitespace(""):
        p = gram.Word(chars, as_keyword=True) if kind == "word" else gram.Char(chars, as_keyword=True)
        got = gram.attempt(gram.Group(gram.And([gram.Optional(gram.AnyChar()), gram.Group(p)], whitespaces.CURRENT)), s)
    i = 1 if len(s) else 0
    j = i
    while j < len(s) and s[j] in chars and (kind == "word" or j == i):
        j += 1

    def w(c):
        return c.isalnum() or c == "_"

    ok = j > i and (i == 0 or not w(s[i - 1])) and (j >= len(s) or not w(s[j]))
    ctx.reach("ok" if ok else "fail")
    ctx.check((got[0] == "ok") == ok, "as_keyword", got=got)
    if ok:
        ctx.equal(got[1]["end"], j, "end")


def tasks(tier):
    yield dict(harness="h_char", params=dict(m=2, n=2, alphabet="ab-]^\\"))
    yield dict(harness="h_char", params=dict(m=3, n=1, alphabet="abcd"))
    yield dict(harness="h_char", params=dict(m=deep(tier, 1, 2), n=2, alphabet=None))
    yield dict(harness="h_range", params=dict(m=deep(tier, 3, 4), alphabet="abcde", sample="abcdef"))
    yield dict(harness="h_range", params=dict(m=3, alphabet=SPECIAL, sample=SPECIAL + "b"))
    yield dict(harness="h_range", params=dict(m=3, alphabet="+,-./]", sample="+,-./]^\\["))
    yield dict(harness="h_range", params=dict(m=deep(tier, 2, 3), alphabet=None, sample=None))
    for starts in ("!", "0", "A", "[", "a", "\u00e0", "\u4e00"):
        yield dict(harness="h_runs", params=dict(starts=starts, longest=deep(tier, 28, 70)))
    limits = [(1, None), (1, 2), (2, 2), (2, 3)] + deep(tier, [], [(1, 1), (2, None), (3, None), (1, 3), (3, 3)])
    for lo, hi in limits:
        for exclude in (False, True):
            yield dict(harness="h_word", params=dict(m=2, n=3, alphabet="ab-", exclude=exclude, kind="init", lo=lo, hi=hi))
            yield dict(harness="h_word", params=dict(m=2, n=3, alphabet="ab", exclude=False, kind="body", lo=lo, hi=hi))
        yield dict(harness="h_word", params=dict(m=2, n=3, alphabet="ab-", exclude=False, kind="same", lo=lo, hi=hi))
    for kind in ("init", "body"):
        for exclude in (False, True):
            for lo, hi in ((1, None), (1, 2)):
                yield dict(harness="h_word", params=dict(m=1, n=deep(tier, 2, 3), alphabet=None, exclude=exclude, kind=kind, lo=lo, hi=hi))
    yield dict(harness="h_word_args", params=dict(n=deep(tier, 5, 6), alphabet="ab-"))
    yield dict(harness="h_word_args", params=dict(n=4, alphabet=None))
    yield dict(harness="h_not_in", params=dict(m=2, n=4, alphabet="ab-]^"))
    yield dict(harness="h_not_in", params=dict(m=1, n=3, alphabet=None))
    yield dict(harness="h_white", params=dict(n=4, alphabet=" \t\n\ra\u00a0"))
    yield dict(harness="h_white", params=dict(n=3, alphabet=None))
    for at in (0, 1):
        yield dict(harness="h_close", params=dict(m=3, n=deep(tier, 4, 5), alphabet="abc", at=at))
        yield dict(harness="h_close", params=dict(m=2, n=3, alphabet=None, at=at))
    for kind in ("word", "char"):
        yield dict(harness="h_bound", params=dict(kind=kind, n=4, alphabet="ab1_ -"))
    for e in (["word", "ab"], ["char", "ab"], ["cni", "b"], ["any"], ["white", " "], ["word", "a-c"], ["char", "", "ab"]):
        for white in (" ", ""):
            yield one(["and", ["opt", L("c")], e, ["zom", ["any"]]], 4, alphabet="abc -", white=white)
            yield one(["zom", ["group", ["first", e, ["any"]]]], 4, alphabet="abc ", white=white)
    # the character sets of the library
    for chars in ("0123456789", "0123456789abcdefABCDEF", ref.IDENT, "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", "abcdefghijklmnop"):
        yield one(["word", chars], 3)
        yield one(["word", chars, chars[1:-1]], 3)
        yield one(["word", chars, None, 1, None, chars[2]], 3)
        yield one(["char", "", chars], 2)
        yield one(["cni", chars], 3)
    # long and wide
    for t in large.classes(tier):
        yield t
