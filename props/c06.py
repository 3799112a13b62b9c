"""lookaround"""
from props import large
from props.common import *

REACH = ("ok", "fail")
BOUNDS = GRAMMAR_BOUNDS
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["a lookbehind can match nothing, or see past where it is, only if it is of a token"]


BEHIND = [
    ["and", L("a"), ["zom", L("b")]], ["and", ["opt", L("a")], L("b")], ["first", L("ab"), L("b")], ["oom", ["char", "ab"]], ["and", L("a"), ["name", ["zom", L("b")], "y"]], ["first", ["and", L("a"), ["word", "b"]], L("c")],
    ["many", L("b"), 2, 3], ["and", L("c"), L("a"), ["word", "b"]], ["word", "a", "b"], ["re", "ab*"], ["fwd", ["and", L("a"), ["zom", L("b")]]], ["or", L("b"), ["and", L("a"), L("b")]], ["cond", L("b"), "yes"], ["cond", L("b"), "no"],
]


def h_behind(ctx, spec, n, alphabet, k):
    """lookbehind right after k characters, no whitespace"""
    s = ctx.string("s", k, n, alphabet)
    g = ["and", ["many", ["any"], k, k], ["behind", spec], ["zom", ["any"]]] if k else ["and", ["behind", spec], ["zom", ["any"]]]
    with Whitespace(""):
        got = gram.attempt(gram.Group(gram.build(g, {})), s)
    want = ref.attempt(["group", g], s, "")
    ctx.reach(want[0])
    ctx.equal(got, want, "lookbehind")


def tasks(tier):
    for op in ("not", "ahead"):
        for e in (
            S[0], ["first", S[0], S[1]], ["and", S[0], S[1]], ["opt", S[0]], ["zom", S[0]], ["name", S[0], "x"], ["act", S[0], "wrap"],
            ["cond", S[0], "yes"], ["or", S[0], S[1]], ["fwd", S[0]], ["not", S[0]], ["ahead", S[0]], ["supp", S[0]],
        ):
            yield one(["and", [op, e], S[2]], 2, alphabet="a ")
            yield one(["and", S[2], [op, e], ["any"]], 3, alphabet="a ")
        for e in LEAVES:
            yield one(["and", ["any"], [op, e], ["any"]], 3)
            yield one(["zom", ["and", [op, e], ["any"]]], 3)
        for e in (["cond", L("a"), "no"], ["cond", L("a"), "yes"], ["act", L("a"), "const"], ["name", ["kw", "a"], "x"], ["comb", ["and", L("a"), L("b")]],
                  ["and", ["name", L("a"), "x"], ["name", L("b"), "y"]], ["zom", ["char", "ab"], L("b")], ["first", L("a"), ["kw", "ab"], L("b")],
                  ["word", "ab"], ["first", L("a"), L("ab")], ["and", ["zom", L("a")], L("a")], ["and", ["first", L("a"), L("ab")], L("c")]):
            yield one(["and", [op, e], ["word", "abc"]], 4, alphabet="abc ")
            yield one(["and", ["opt", L("c")], [op, e], ["zom", ["any"]]], 4, alphabet="abc ")
            yield one(["zom", ["and", [op, e], ["char", "abc"]]], 4, alphabet="abc ", white="")
    for e in (["lit", "a"], ["lit", "ab"], ["char", "ab"], ["char", "", "a"], ["kw", "a"], ["clit", "aB"], ["word", "ab"], ["word", "a", "b"], ["word", "ab", None, 2, 2], ["cni", "b"], ["re", "a|b"]):
        for k in range(4):
            yield dict(harness="h_behind", params=dict(spec=e, n=3, alphabet=None, k=k))
        yield one(["and", ["word", "ab"], ["behind", e], ["word", "cd"]], 4, alphabet="abc ", white="")
        yield one(["and", ["word", "ab"], ["behind", ["name", e, "x"]], ["zom", ["any"]]], 4, alphabet="ab ", white=" ")
    for e in BEHIND:
        for k in range(4):
            yield dict(harness="h_behind", params=dict(spec=e, n=deep(tier, 3, 4), alphabet="abc", k=k))
            yield dict(harness="h_behind", params=dict(spec=["name", e, "x"] if e[0] not in ("name", "oom") else e, n=3, alphabet="abc", k=k))
        yield one(["and", ["word", "ab"], ["behind", e], ["zom", ["any"]]], 4, alphabet="abc", white="")
        yield one(["zom", ["and", ["any"], ["opt", ["and", ["behind", e], L("c")]]]], 3, alphabet="abc", white="")
        for before in ("c" * 30 + "a" + "b" * 11, "a" + "b" * 23, "ab" * 20, "cabb" * 9, "b" * 18):
            yield one(["and", ["word", "abc"], ["behind", e], ["zom", L("-")]], 2, alphabet="abc", white="", before=before)
            yield one(["and", ["many", ["any"], len(before), len(before)], ["behind", e], ["zom", ["any"]]], 1, alphabet="abc", white="", before=before)
    for t in grammars(tier, 601, ["and", "plus"], ["not", "ahead", "behind", "not", "ahead", "first", "and", "opt", "zom", "cond", "name", "act"]):
        yield t
    for t in grammars(tier, 602, ["not", "ahead"], count=(100, 1000)):
        yield t
    # long and wide
    for t in large.lookaround(tier):
        yield t
    for t in large.repeated(tier, 176, ("and", "plus"), sub_ops=["not", "ahead", "behind", "not", "ahead", "first", "and", "opt", "zom", "cond", "name", "act"]):
        yield t
