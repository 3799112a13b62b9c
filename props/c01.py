"""ordered choice"""
from props import large
from props.common import *

REACH = ("ok", "fail")
BOUNDS = GRAMMAR_BOUNDS
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS
WORDS = ["a", "b", "ab", "ba", "aab", "abb", "bb"]


def h_words(ctx, kinds, m, n, bar):
    """alternatives of every combination of kind and text, over every string"""
    texts = [ctx.choice("w%d" % i, WORDS) for i in range(m)]
    alts = [[k, w] for k, w in zip(kinds, texts)]
    if bar == "tail":
        alts.append(["word", "ab"])
    if bar == "head":
        alts.insert(0, ["and", ["lit", "a"], ["lit", "a"]])
    if bar == "mid":
        alts.insert(1, ["opt", ["lit", "bb"]])
    h_grammar(ctx, ["first"] + alts if bar else ["bar"] + alts, n, n, "aAb")


def tasks(tier):
    for e in quiet(["first", L("a"), L("ab"), L("b")], ["first", S[0], S[1]], ["bar", ["opt", L("b")], L("a")]):
        yield one(e, deep(tier, 2, 3) if has(e, "stub") else 4, alphabet="abc ")
    for e in empties('first'):
        yield one(e, 3, alphabet="abc ")
    for kinds in (["lit", "lit"], ["lit", "kw"], ["clit", "lit"], ["kw", "clit"], ["ckw", "lit"], ["ckw", "clit"]):
        for bar in (None, "tail", "head", "mid"):
            yield dict(harness="h_words", params=dict(kinds=kinds, m=2, n=3, bar=bar))
    for kinds in (["lit"] * 3, ["lit", "clit", "kw"], ["clit", "lit", "ckw"], ["kw", "lit", "clit"]):
        yield dict(harness="h_words", params=dict(kinds=kinds, m=3, n=deep(tier, 2, 3), bar=None))
        yield dict(harness="h_words", params=dict(kinds=kinds, m=3, n=deep(tier, 2, 3), bar="mid"))
    # arbitrary alternatives
    for op in ("first", "bar"):
        yield one([op] + S[:2], 3)
        yield one([op] + S[:3], 2)
        yield one([op] + S[:4], 2, alphabet="a ")
        yield one(["and", [op, S[0], S[1]], S[2]], 2)
        yield one([op, ["and", S[0], S[1]], S[2]], 2)
        yield one([op, ["group", S[0]], ["name", S[1], "x"], ["act", S[2], "wrap"]], 2)
        yield one([op, ["cond", S[0], "no"], ["cond", S[1], "notfirst"], S[2]], 2)
        yield one([op, [op, S[0], S[1]], [op, S[2], S[0]]], 2)
        yield one(["zom", [op, S[0], S[1]]], 3, alphabet="a ")
    # keywords of a language, with the identifier last
    kws = [["kw", w] for w in ("if", "in", "is", "i", "int")]
    yield one(["first"] + kws + [["word", "intsf"]], 4, alphabet="ints f")
    yield one(["first"] + kws[::-1] + [["word", "intsf"]], 4, alphabet="ints f")
    ckws = [["ckw", w] for w in ("if", "in", "is", "int")]
    yield one(["first", ["word", "xy"]] + ckws + [["clit", "INT"], ["lit", "Int"]], 4, alphabet="iInNtx ")
    yield one(["first"] + [L(w) for w in ("<", "<=", "<<", "<<=", "=", "==", ">", ">=", "->")], 4, alphabet="<=>-")
    yield one(["first"] + [L(w) for w in ("<<=", "<<", "<=", "<", "==", "=", ">=", ">", "->")], 4, alphabet="<=>-")
    yield one(["first"] + [["clit", w] for w in ("\xdf", "ss", "\u0130", "i", "\u212a", "k", "\u017f", "s")], 2)
    yield one(["first"] + [L(w) for w in ("\u01c5", "\u01c4", "\u01c6", "dz", "\xb5", "\u03bc", "\u039c")], 2)
    yield one(["first", L("a"), ["act", L("b"), "const"], ["fwd", L("ab")], ["group", L("ba")], ["comb", ["and", L("c"), L("d")]], ["any"]], 3, alphabet="abcd ")
    # no alternatives at all
    for e in (["first"], ["first", ["first"], L("a")], ["and", L("a"), ["zom", ["first"]]], ["and", L("a"), ["opt", ["first"]], L("b")], ["name", ["first"], "x"], ["act", ["first"], "wrap"], ["not", ["first"]]):
        yield one(e, 3, alphabet="ab ")
    for t in grammars(tier, 101, ["first", "bar"]):
        yield t
    # long and wide
    for t in large.choices(tier, 71, "first"):
        yield t
    for t in large.repeated(tier, 171, ("first", "bar")):
        yield t
