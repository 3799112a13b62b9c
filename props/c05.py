"""unordered collection"""
from props import large
from props.common import *

REACH = ("ok", "fail")
BOUNDS = GRAMMAR_BOUNDS
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["required elements that match nothing, and expr*0, are not given to MatchAll"]


def tasks(tier):
    for e in quiet(["all", S[0], S[1]], ["all", L("a"), ["opt", L("b")]], ["all", L("a"), ["oom", L("b")]]):
        yield one(e, deep(tier, 2, 3) if has(e, "stub") else 4, alphabet="abc ")
    for e in empties('all'):
        yield one(e, 3, alphabet="abc ")
    yield one(["all", ["cond", S[0], "yes"], S[1]], 3, alphabet="a ")
    yield one(["all"] + S[:2], 3)
    yield one(["all"] + S[:3], 3, alphabet="a")
    yield one(["all"] + S[:3], 2, alphabet="a ")
    kinds = [["lit", "a"], ["opt", L("a")], ["zom", L("a")], ["oom", L("a")], ["opt", L("a"), "D"]]

    def on(e, c):
        return [on(x, c) if isinstance(x, list) else c if x == "a" else x for x in e]

    for k1 in kinds:
        for k2 in kinds:
            yield one(["all", k1, on(k2, "b")], 4, alphabet="ab ")
            for k3 in kinds[: deep(tier, 3, 5)]:
                yield one(["all", k1, on(k2, "b"), on(k3, "c")], deep(tier, 3, 4), alphabet="abc")
    yield one(["all", L("a"), ["all", L("b"), ["opt", L("c")]]], 4, alphabet="abc ")
    yield one(["all", ["name", L("a"), "x"], ["name", ["zom", L("b")], "y"], ["name", ["opt", ["group", L("c")]], "z"]], 4, alphabet="abc ")
    yield one(["and", ["all", ["word", "a"], ["opt", ["word", "b"]]], L("c")], 5, alphabet="abc ")
    yield one(["zom", ["group", ["all", L("a"), ["opt", L("b")]]]], 5, alphabet="ab ")
    # one element in two places
    for k1 in kinds + [["char", "ab"], ["opt", ["name", ["word", "ab"], "x"], "D"]]:
        yield one(["all", k1, k1], 4, alphabet="ab ", share=True)
        yield one(["all", k1, L("b"), k1], 4, alphabet="ab ", share=True)
        yield one(["all", k1, ["group", k1], k1], 3, alphabet="ab ", share=True)
    for t in grammars(tier, 501, ["all"]):
        yield t
    # long and wide
    for t in large.collections(tier):
        yield t
    for t in large.repeated(tier, 175, ("all",)):
        yield t
