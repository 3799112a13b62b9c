"""SkipTo"""
from props import large
from props.common import *

REACH = ("ok", "fail")
BOUNDS = GRAMMAR_BOUNDS
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS


def tasks(tier):
    targets = [["lit", "b"], ["lit", "ab"], ["kw", "b"], ["char", "bc"], ["word", "b"], ["lend"], ["send"], ["empty"], ["and", L("a"), L("b")], ["first", L("c"), L("b")], ["cond", L("b"), "notfirst"], ["white", " "]]
    for t in targets:
        for inc in (False, True):
            for white in (ref.WS, " ", ""):
                yield one(["skip", t, inc], 4, alphabet="ab \n", white=white)
                yield one(["and", ["skip", t, inc], ["opt", t]], 4, alphabet="abc ", white=white)
                yield one(["and", L("a"), ["name", ["skip", t, inc], "x"]], 4, alphabet="abc ", white=white)
            yield one(["skip", t, inc], 3)
    for inc in (False, True):
        for fail in (None, ["lit", "c"], ["kw", "a"], ["word", "ac", None, 2]):
            for ignore in (None, ["lit", "c"], ["and", L("c"), L("b")], ["word", "c"], ["opt", L("c")], ["and", L("c"), ["skip", L("c"), True]]):
                for white in (" ", ""):
                    yield one(["and", ["skip", ["lit", "b"], inc, fail, ignore], ["opt", ["any"]]], 4, alphabet="abc ", white=white)
        yield one(["skip", S[0], inc], 3, alphabet="a ")
        yield one(["skip", S[0], inc], 2)
        yield one(["and", ["skip", S[0], inc], S[1]], 2, alphabet="a ")
        yield one(["skip", S[0], inc, S[1]], 2, alphabet="a ")
        yield one(["skip", S[0], inc, None, S[1]], 2, alphabet="a ")
        yield one(["zom", ["skip", ["lit", "b"], inc]], 4, alphabet="ab ")
        yield one(["zom", ["group", ["and", ["skip", ["lit", "b"], inc], ["opt", L("b")]]]], 4, alphabet="ab ")
    for t in grammars(tier, 701, ["skip"]):
        yield t
    # long and wide
    for t in large.skips(tier):
        yield t
    for t in large.repeated(tier, 177, ("and",), sub_ops=["skip", "and", "skip", "opt", "group", "first"]):
        yield t
