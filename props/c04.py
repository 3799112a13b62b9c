"""repetition"""
from props import large
from props.common import *

REACH = ("ok", "fail")
BOUNDS = GRAMMAR_BOUNDS + "; limits min 0..3, max 0..4"
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS


def h_limits(ctx, elem, n, alphabet, after, white):
    lo = ctx.choice("lo", 4)
    hi = ctx.choice("hi", [None, 0, 1, 2, 3, 4])
    ctx.assume(hi is None or hi >= lo)
    spec = ["many", elem, lo, hi]
    if ctx.flag("times"):
        spec = ["times", elem, [lo, hi]]
    if after:
        spec = ["and", spec, after]
    h_grammar(ctx, spec, n, 0, alphabet, white)


def h_slice(ctx, n):
    """expr[i:j], expr[i], expr[...], expr * n"""
    e = gram.Literal("a")
    i = ctx.choice("i", 4)
    j = ctx.choice("j", 4)
    D = Ellipsis
    form = ctx.choice("form", [
        "i", "i:", ":j", "i:j", "...", "i:...", "...:j", ":", "(i,)", "(i,...)", "(...,j)", "(i,j)", "(None,j)", "*i", "i*", "*(i,)", "*(i,None)", "*(None,j)", "*(i,...)", "*(i,j)", "*(None,None)",
    ])
    ctx.assume("j" not in form or "i" not in form or i <= j)
    s = ctx.string("s", 0, n, "ab")
    p = {
        "i": lambda: e[i], "i:": lambda: e[i:], ":j": lambda: e[:j], "i:j": lambda: e[i:j], "...": lambda: e[D], "i:...": lambda: e[i:D],
        "...:j": lambda: e[D:j], ":": lambda: e[:], "(i,)": lambda: e[i, ], "(i,...)": lambda: e[i, D], "(...,j)": lambda: e[D, j],
        "(i,j)": lambda: e[i, j], "(None,j)": lambda: e[None, j], "*i": lambda: e * i, "i*": lambda: i * e, "*(i,)": lambda: e * (i,),
        "*(i,None)": lambda: e * (i, None), "*(None,j)": lambda: e * (None, j), "*(i,...)": lambda: e * (i, D), "*(i,j)": lambda: e * (i, j),
        "*(None,None)": lambda: e * (None, None),
    }[form]()
    if form in ("i", "*i", "i*"):
        lo, hi = i, i
    else:
        lo, hi = i if "i" in form else 0, j if "j" in form else None
    got = gram.attempt(gram.Group(p), s)
    want = ref.attempt(["group", ["many", L("a"), lo, hi]], s)
    ctx.reach(want[0])
    ctx.equal(got, want, "slice")


def tasks(tier):
    for e in quiet(["zom", S[0]], ["many", ["char", "ab"], 1, 2], ["oom", L("ab")], ["times", L("a"), 2]):
        yield one(e, deep(tier, 2, 3) if has(e, "stub") else 4, alphabet="abc ")
    for elem in (["lit", "a"], ["char", "ab"], ["and", L("a"), L("b")], ["group", ["lit", "a"]], ["first", L("ab"), L("a")]):
        for after in (None, ["lit", "a"], ["any"]):
            yield dict(harness="h_limits", params=dict(elem=elem, n=deep(tier, 5, 6), alphabet="ab", after=after, white=ref.WS))
        yield dict(harness="h_limits", params=dict(elem=elem, n=deep(tier, 4, 5), alphabet="a b", after=None, white=" "))
        yield dict(harness="h_limits", params=dict(elem=elem, n=deep(tier, 4, 5), alphabet="a b", after=None, white=""))
    yield dict(harness="h_slice", params=dict(n=4))
    for op in (["zom"], ["opt"], ["oom"]):
        for e in (S[0], ["group", S[0]], ["name", S[0], "x"], ["act", S[0], "wrap"], ["first", S[0], S[1]], ["cond", S[0], "notfirst"]):
            yield one(op + [e], 3, alphabet="a ")
        yield one(["and", op + [S[0]], S[1]], 3, alphabet="a ")
        yield one(["name", op + [["and", ["name", L("a"), "x"], ["opt", L("b")]]], "y"], 5, alphabet="ab ")
        yield one(op + [["group", op + [L("a")] if op[0] == "oom" else ["oom", L("a")]]], 4, alphabet="ab ")
    for stop in (["lit", "b"], ["kw", "ab"], ["char", "bc"], ["clit", "B"], ["word", "b"]):
        for op in ("zom", "oom"):
            for e in (["any"], ["word", "abc", None, 1, 1], ["lit", "a"], ["char", "ab"]):
                yield one([op, e, stop], 4, alphabet="abB ")
                yield one(["and", [op, e, stop], stop], 4, alphabet="ab ", white=" ")
        yield one(["many", ["any"], 2, 3, stop], 4, alphabet="abB")
    for d in ("D", ["x", "y"]):
        yield one(["and", ["opt", S[0], d], S[1]], 3, alphabet="a ")
        yield one(["and", L("a"), ["name", ["opt", L("b"), d], "x"], ["opt", L("c"), d]], 4, alphabet="abc ")
    # nothing repeated may hang
    for e in (["empty"], ["opt", L("a")], ["zom", L("a")], ["lend"], ["not", L("a")], ["ahead", L("a")], ["sstart"]):
        yield one(["zom", e], 4, alphabet="ab\n")
        yield one(["zom", ["zom", e]], 4, alphabet="ab\n")
        yield one(["opt", ["zom", e]], 3, alphabet="ab\n")
    for t in grammars(tier, 401, ["many", "zom", "oom", "opt", "times"]):
        yield t
    # many of them
    for e, unit in ((L("a"), "a"), (["and", L("a"), ["opt", L("b")]], "a"), (["group", ["word", "ab", None, 1, 2]], "ab"), (["name", ["char", "ab"], "x"], "a"), (["re", "a|b"], "a"), (["first", L("ab"), L("a")], "ab")):
        for k in (9, 70, 130):
            for op in (["zom"], ["oom"], ["many"]):
                if op[0] == "many":
                    op, more = ["many", e, k - 1, k + 1], []
                else:
                    op = op + [e]
                yield one(["and", op, ["zom", ["any"]]], 2, alphabet="abc", before=unit * k, after="ab")
    # long and wide
    for t in large.repeated(tier, 174, ("many", "zom", "oom", "times")):
        yield t
