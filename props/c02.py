"""longest choice"""
from props import large
from props.common import *

REACH = ("ok", "fail")
BOUNDS = GRAMMAR_BOUNDS
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS
WORDS = ["a", "b", "ab", "ba", "aab", "abb"]


def h_words(ctx, kinds, m, n, more):
    texts = [ctx.choice("w%d" % i, WORDS) for i in range(m)]
    alts = [[k, w] for k, w in zip(kinds, texts)] + more
    h_grammar(ctx, ["or"] + alts, n, n, "aAb")


def tasks(tier):
    for e in quiet(["or", L("a"), L("ab"), L("b")], ["or", S[0], S[1]], ["xor", ["char", "ab"], ["zom", L("a")], L("abb")]):
        yield one(e, deep(tier, 2, 3) if has(e, "stub") else 4, alphabet="abc ")
    for e in empties('or'):
        yield one(e, 3, alphabet="abc ")
    for kinds in (["lit", "lit"], ["lit", "kw"], ["clit", "lit"], ["kw", "clit"], ["ckw", "lit"], ["ckw", "clit"]):
        for more in ([], [["word", "a"]], [["empty"]]):
            yield dict(harness="h_words", params=dict(kinds=kinds, m=2, n=3, more=more))
    for kinds in (["lit"] * 3, ["lit", "clit", "kw"], ["kw", "lit", "clit"]):
        yield dict(harness="h_words", params=dict(kinds=kinds, m=3, n=deep(tier, 2, 3), more=[]))
    for op in ("or", "xor"):
        yield one([op] + S[:2], 3)
        yield one([op] + S[:3], 2)
        yield one([op] + S[:4], 2, alphabet="a ")
        yield one(["and", [op, S[0], S[1]], S[2]], 2)
        yield one([op, ["and", S[0], S[1]], S[2]], 2)
        yield one([op, ["group", S[0]], ["name", S[1], "x"], ["act", S[2], "wrap"]], 2)
        yield one([op, ["cond", S[0], "no"], ["cond", S[1], "notfirst"], S[2]], 2)
        yield one([op, ["cond", S[0], "no"], ["name", S[1], "x"]], 2)
        yield one([op, [op, S[0], S[1]], ["first", S[2], S[0]]], 2)
        yield one(["zom", [op, S[0], S[1]]], 3, alphabet="a ")
        yield one(["first", ["and", [op, S[0], S[1]], L("b")], S[2]], 3, alphabet="ab ")
    yield one(["or", ["word", "0123456789"], ["and", ["word", "0123456789"], L("."), ["word", "0123456789"]], ["word", "12", "0"]], 5, alphabet="102. ")
    yield one(["or"] + [L(w) for w in ("<", "<=", "<<", "<<=", "=", "==", "<<<<")], 4, alphabet="<=>")
    yield one(["xor", L("a"), ["zom", ["char", "ab"]], ["oom", L("b")], ["white", " "]], 5, alphabet="ab ", white="")
    yield one(["or", ["act", L("ab"), "const"], ["act", ["word", "ab"], "wrap"], ["name", ["re", "a|b"], "x"]], 4, alphabet="ab ")
    # no alternatives at all
    for e in (["or"], ["or", ["or"], L("a")], ["and", L("a"), ["zom", ["or"]]], ["and", L("a"), ["opt", ["or"]], L("b")], ["name", ["or"], "x"], ["act", ["or"], "wrap"], ["not", ["or"]]):
        yield one(e, 3, alphabet="ab ")
    for t in grammars(tier, 201, ["or", "xor"]):
        yield t
    # long and wide
    for t in large.choices(tier, 72, "or"):
        yield t
    for t in large.repeated(tier, 172, ("or", "xor")):
        yield t
