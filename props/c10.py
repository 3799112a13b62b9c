"""positional tokens"""
from props import large
from props.common import *

REACH = ("ok", "fail")
BOUNDS = (
    "LineStart, LineEnd, StringStart, StringEnd, WordStart, WordEnd after 0..3 arbitrary characters, followed by an optional character; "
    "input: every string of up to 4 characters over Unicode or the given alphabet; word characters: every set of 1..2 characters of an alphabet; "
    "and generated grammars around them (strings up to 3 characters)"
)
POS = [["lstart"], ["lend"], ["sstart"], ["send"]]


def run(ctx, spec, s, white=""):
    with Whitespace(white):
        got = gram.attempt(gram.Group(gram.build(spec, {})), s)
    want = ref.attempt(["group", spec], s, white)
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "position")


def h_at(ctx, n, alphabet=None, white=""):
    """the token at every position"""
    tok = POS[ctx.choice("token", len(POS))]
    at = ctx.choice("at", n)
    s = ctx.string("s", 0, n, alphabet)
    spec = ["and"] + [["any"]] * at + [tok]
    if ctx.flag("more"):
        spec.append(["opt", ["any"]])
    run(ctx, spec, s, white)


def h_word(ctx, n, m, alphabet):
    """word boundaries of every character set"""
    chars = ctx.string("chars", 1, m, alphabet)
    for a, b in zip(chars, chars[1:]):
        ctx.assume(a < b)
    tok = [ctx.choice("kind", ["wstart", "wend"]), chars]
    at = ctx.choice("at", n)
    s = ctx.string("s", 0, n, alphabet)
    spec = ["and"] + [["any"]] * at + [tok]
    if ctx.flag("more"):
        spec.append(["opt", ["any"]])
    run(ctx, spec, s)


def h_default(ctx, n, alphabet):
    """without arguments: printable characters, and the keyword characters of the context"""
    at = ctx.choice("at", n)
    s = ctx.string("s", 0, n, alphabet)
    with Whitespace("") as w:
        if ctx.flag("start"):
            p = gram.WordStart()
            spec = ["wstart", "".join(chr(c) for c in range(33, 127))]
        else:
            if ctx.flag("own"):
                w.set_keyword_chars("ab")
                chars = "ab"
            else:
                chars = gram.alphanums + "_$"
            p = gram.WordEnd()
            spec = ["wend", chars]
        p = gram.And([gram.AnyChar()] * at + [p], whitespaces.CURRENT)
        got = gram.attempt(gram.Group(p), s)
    want = ref.attempt(["group", ["and"] + [["any"]] * at + [spec]], s, "")
    ctx.reach(want[0])
    ctx.equal(got, want, "default characters")


def h_copies(ctx, n, alphabet):
    """annotated, they are still what they were"""
    tok = (POS + [["wstart", "ab"], ["wend", "ab"]])[ctx.choice("token", 6)]
    how = ctx.choice("how", ["name", "act", "group", "supp", "comb", "not", "ahead", "opt", "oom"])
    if how == "name":
        spec = ["name", tok, "x"]
    elif how == "act":
        spec = ["act", tok, "pos"]
    else:
        spec = [how, tok]
    at = ctx.choice("at", 2)
    s = ctx.string("s", 0, n, alphabet)
    if how == "oom":
        ctx.assume(tok[0] == "lend")
    run(ctx, ["and"] + [["any"]] * at + [spec, ["opt", ["any"]]], s)


def tasks(tier):
    yield dict(harness="h_at", params=dict(n=deep(tier, 3, 4)))
    yield dict(harness="h_at", params=dict(n=deep(tier, 4, 6), alphabet="a\r\n"))
    yield dict(harness="h_at", params=dict(n=deep(tier, 3, 4), alphabet="a \n\r", white=ref.WS))
    yield dict(harness="h_at", params=dict(n=deep(tier, 3, 4), alphabet="a \n\r", white=" "))
    yield dict(harness="h_word", params=dict(n=deep(tier, 3, 4), m=2, alphabet="ab\n "))
    yield dict(harness="h_word", params=dict(n=deep(tier, 2, 3), m=deep(tier, 1, 2), alphabet=None))
    yield dict(harness="h_word", params=dict(n=2, m=2, alphabet="]-^\\a"))
    yield dict(harness="h_default", params=dict(n=deep(tier, 2, 3), alphabet=None))
    yield dict(harness="h_copies", params=dict(n=deep(tier, 2, 3), alphabet="ab\n"))
    leaves = POS + [["wstart", "ab"], ["wend", "ab"], ["lit", "a"], ["lit", "\n"], ["any"], ["word", "ab"]]
    ops = ["and", "first", "opt", "name", "act", "group", "or", "zom", "not", "ahead", "skip", "supp", "fwd"]
    for t in grammars(tier, 10, ["and", "first", "zom", "opt", "skip"], ops, leaves, count=(120, 1200), depth=2):
        yield t
    specs = family(11, deep(tier, 60, 400), ["and", "skip"], 2, leaves, ops)
    for t in batches(specs, deep(tier, 3, 4), alphabet="a\n\r ", whites=(" ", "", ref.WS)):
        yield t
    # long and wide
    for t in large.positions(tier):
        yield t
