"""regular expressions made of grammars"""
import re

from props.common import *

REACH = ("ok", "fail")
BOUNDS = (
    "tokens, and compositions of tokens whose matches need no backtracking: sequences, choices of equally long or distinct alternatives, counted and open repetition, "
    "lookahead, SkipTo, Forward, converters; with and without whitespace; input: every string of up to 4..5 characters over an alphabet (all of Unicode up to 2..3)"
)
FIXED = [
    ["lit", "a"], ["lit", "ab"], ["lit", "."], ["clit", "aB"], ["char", "ab"], ["char", "", "a"], ["cni", "a ", 1, 1], ["word", "ab", None, 2, 2], ["any"], ["kw", "ab"], ["ckw", "ab"], ["lit", "|"], ["lit", "*a"],
]


class Made(Gen):
    """grammars where the first way to match is the only one"""

    def fixed(self, d):
        r = self.r
        if d == 0 or r.random() < 0.2:
            return r.choice(FIXED)
        op = r.choice(["and", "first", "group", "supp", "supm", "name", "fwd", "comb", "count", "or", "act", "ahead"])
        if op == "and":
            return ["and"] + [self.fixed(d - 1) for _ in range(r.randint(2, 3))]
        if op in ("first", "or"):
            one = r.randint(1, 2)
            short = [["lit", "a"], ["lit", "b"], ["char", "ab"], ["clit", "b"], ["lit", "|"], ["group", ["lit", "b"]]]
            long = [["lit", "ab"], ["lit", "ba"], ["clit", "aB"], ["and", ["lit", "b"], ["char", "ab"]], ["lit", "*a"], ["word", "ab", None, 2, 2]]
            return [op] + [r.choice(short if one == 1 else long) for _ in range(r.randint(2, 4))]
        if op == "count":
            k = r.randint(1, 3)
            return ["many", self.fixed(d - 1), k, k]
        if op == "name":
            return ["name", self.fixed(d - 1), "x"]
        if op == "act":
            return ["act", self.fixed(d - 1), "none"]
        if op == "ahead":
            return ["and", r.choice([["ahead", self.fixed(0)], ["not", self.fixed(0)]]), self.fixed(d - 1)]
        return [op, self.fixed(d - 1)]

    def top(self, d):
        r = self.r
        e = self.fixed(d)
        op = r.choice(["plain", "many", "opt", "word", "skip"])
        if op == "many":
            lo = r.randint(0, 2)
            e = ["many", e, lo, r.choice([None, lo + 1])]
        elif op == "opt":
            e = ["opt", e]
        elif op == "word":
            e = ["and", e, r.choice([["word", "ab"], ["cni", "a"], ["word", "a", "b"], ["lend"], ["wend", "ab"], ["re", "ab*"]])]
        elif op == "skip":
            # last, because what is skipped is the least that lets the rest match
            e = ["skip", r.choice(FIXED[:5]) if r.random() < 0.3 else self.fixed(2), r.choice([True, False])]
        if r.random() < 0.3:
            e = ["and", self.fixed(1), e]
        return e


def h_regex(ctx, specs, n, alphabet=None, white="", lo=0):
    spec = ctx.choice("grammar", specs)
    s = ctx.string("s", lo, n, alphabet)
    at = ctx.choice("at", 2) if white == "" else 0
    ctx.assume(at <= len(s))
    with Whitespace(white):
        p = gram.build(spec, {})
        pattern = re.compile(p.streamline().__regex__()[1] if ctx.flag("streamline") else p.__regex__()[1], re.DOTALL)
        m = pattern.match(s, at)
        try:
            end = p._parse(s, at).end
        except gram.ParseException:
            end = None
    ctx.reach("fail" if end is None else "ok")
    ctx.observe("end", end)
    ctx.equal(m and m.end(), end, "regex", pattern=pattern.pattern)


# choices inside of something, with something around
INSIDE = [
    ["and", y, [op, x], z]
    for x in (["first", ["lit", "a"], ["lit", "b"]], ["or", ["lit", "|"], ["lit", "b"]], ["first", ["and", ["lit", "a"], ["lit", "b"]], ["lit", "ba"]], ["re", "a|b"])
    for op in ("fwd", "group", "supp", "comb", "act", "name", "opt", "twice", "ahead", "not")
    for y, z in ((["lit", "b"], ["lit", "|"]), (["fwd", ["char", "ab"]], ["fwd", ["lit", "a"]]))
]
# (nothing else can match what an optional part does)
INSIDE = [["and", x[1], {"act": ["act", x[2][-1], "none"], "name": ["name", x[2][-1], "x"], "twice": ["many", x[2][-1], 2, 2]}.get(x[2][0], x[2]), L(".") if x[2][0] == "opt" else x[3]] for x in INSIDE]

TOKENS = FIXED + [
    ["word", "ab"], ["word", "a", "b"], ["word", "ab", "b", 1, 2], ["word", "ab", None, 2, None], ["word", "abc", None, 1, None, "b"], ["cni", "a"], ["cni", "a", 2], ["cni", "a", 1, 2],
    ["lstart"], ["lend"], ["wstart", "ab"], ["wend", "ab"], ["re", "a|b"], ["re", "ab|a"], ["re", "a*"], ["char", "ab-]^"], ["char", "", "]^"], ["lit", "\n"], ["kw", "a"], ["lit", "\u00e9"], ["clit", "\u00e9"],
]

SPACED = [
    ["and", ["lit", "a"], ["lit", "b"]], ["and", ["word", "ab"], ["lit", "|"], ["opt", ["lit", "a"]]], ["and", ["lit", "a"], ["group", ["and", ["lit", "b"], ["char", "ab"]]]],
    ["first", ["and", ["lit", "a"], ["lit", "b"]], ["and", ["lit", "b"], ["lit", "a"]]], ["plus", ["kw", "a"], ["kw", "b"], ["lit", "a"]],
]


def tasks(tier):
    for i in range(0, len(TOKENS), 6):
        yield dict(harness="h_regex", params=dict(specs=TOKENS[i:i + 6], n=deep(tier, 3, 4)))
    g = Made(13)
    specs = [g.top(deep(tier, 3, 3)) for _ in range(deep(tier, 500, 3000))]
    for i in range(0, len(specs), 20):
        yield dict(harness="h_regex", params=dict(specs=specs[i:i + 20], n=deep(tier, 4, 5), alphabet="ab|"))
    for i in range(0, len(INSIDE), 10):
        yield dict(harness="h_regex", params=dict(specs=INSIDE[i:i + 10], n=4, alphabet="ab|."))
    for white in (" ", " \n", "]"):
        yield dict(harness="h_regex", params=dict(specs=SPACED, n=deep(tier, 4, 5), alphabet="ab" + white, white=white))
