"""Harness and grammar families shared by the grammar properties."""
import json
import random

from mo_parsing import whitespaces
from mo_parsing.whitespaces import Whitespace

from props import gram, ref

WS = ref.WS


def h_grammar(ctx, spec, n, lo=0, alphabet=None, white=ref.WS, parse_all=False, group=True, before="", after="", share=False):
    """the parser built from spec, against the reference, on every string"""
    s = ctx.string("s", lo, n, alphabet)
    if before or after:
        # somewhere in a long text
        s = before + s + after
    table = gram.Table(ctx) if "stub" in json.dumps(spec) else None
    with Whitespace(white):
        parser = gram.build(spec, {"table": table, "made": {} if share else None})
        if group:
            parser = gram.Group(parser)
        got = gram.attempt(parser, s, parse_all)
    want = ref.attempt(["group", spec] if group else spec, s, white, table, parse_all)
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "parse")


def h_grammars(ctx, specs, n, lo=0, alphabet=None, white=ref.WS, parse_all=False, share=False):
    spec = specs[ctx.choice("grammar", len(specs))]
    h_grammar(ctx, spec, n, lo, alphabet, white, parse_all, share=share)


LEAVES = [
    ["lit", "a"], ["lit", "b"], ["lit", "ab"], ["lit", "ba"], ["kw", "a"], ["kw", "ab"], ["ckw", "b"], ["clit", "aB"],
    ["char", "ab"], ["char", "", "a"], ["word", "ab"], ["word", "a", "b"], ["word", "ab", None, 1, 2], ["word", "ab", "b", 1, 2],
    ["cni", "a "], ["cni", "b", 2], ["cni", " ", 1, 2], ["any"], ["empty"], ["nomatch"], ["lend"], ["lstart"], ["sstart"],
    ["send"], ["white", " "], ["close", "ab", 1], ["wstart", "ab"], ["wend", "ab"], ["re", "a|b"], ["re", "ab*"],
]
PLAIN = [
    ["lit", "a"], ["lit", "b"], ["lit", "ab"], ["kw", "a"], ["clit", "aB"], ["char", "ab"], ["word", "ab"], ["word", "a", "b"], ["any"],
]
OPS = [
    "and", "and", "plus", "first", "first", "bar", "or", "xor", "many", "zom", "oom", "opt", "group", "supp", "comb",
    "not", "ahead", "skip", "name", "act", "cond", "fwd", "times", "all", "behind",
]
LOOP = ("many", "zom", "oom", "opt", "times")


def nullable(e):
    op = e[0]
    if op in ("lit", "kw", "ckw", "clit", "char", "word", "cni", "any", "nomatch", "white", "close"):
        return False
    if op in ("and", "plus", "sub"):
        return all(nullable(x) for x in e[1:])
    if op in ("first", "bar", "or", "xor"):
        return any(nullable(x) for x in e[1:])
    if op in ("group", "supp", "comb", "name", "act", "cond", "fwd", "oom"):
        return nullable(e[1])
    if op == "ws":
        return nullable(e[2])
    if op == "re":
        return False
    if op == "many":
        return e[2] == 0 or nullable(e[1])
    return True


def has(e, *words):
    return e in words if not isinstance(e, list) else any(has(x, *words) for x in e)


def forward_of_named_group(e):
    # what a Forward to a named group yields has the name too
    if not isinstance(e, list):
        return False
    if e[0] == "fwd":
        x, name = e[1], False
        while x[0] in ("name", "fwd", "act", "cond"):
            name = name or x[0] == "name"
            x = x[1]
        if x[0] == "group" and name:
            return True
    return any(forward_of_named_group(x) for x in e)


class Gen(object):
    """grammars of bounded depth, drawn with a fixed seed"""

    def __init__(self, seed, leaves=LEAVES, ops=OPS):
        self.r = random.Random(seed)
        self.leaves = leaves
        self.ops = ops
        self.seen = []

    def leaf(self):
        return self.r.choice(self.leaves)

    def such(self, d, ok):
        while True:
            e = self.gen(d)
            if ok(e):
                return e

    def mixed(self, e):
        if e[0] in ("and", "many", "zom", "oom", "opt", "skip", "group", "first", "all") and self.r.random() < 0.5:
            return ["ws", self.r.choice(["", " ", "a", WS]), e]
        return e

    def gen(self, d, op=None):
        e = self.make(d, op)
        if op is None:
            self.seen.append((d, e))
        return e

    def make(self, d, op=None):
        r = self.r
        if op is None:
            if self.seen and r.random() < 0.1:
                # a part that is used again
                again = [e for k, e in self.seen[-8:] if k <= d]
                if again:
                    return r.choice(again)
            if d == 0 or r.random() < 0.15:
                return self.leaf()
            op = r.choice([o for o in self.ops if o != "ws"])

        def g():
            return self.gen(d - 1)

        def eat():
            return self.such(d - 1, lambda e: not nullable(e))

        def once():
            # "can only look behind once"
            return self.such(d - 1, lambda e: not (e[0] == "behind" or e[0] in ("act", "cond", "name", "pname") and has(e, "behind")))

        if op in ("and", "plus") and "ws" in self.ops:
            return [op] + [self.mixed(e) for e in [g() for _ in range(r.randint(2, 3))]]
        if op in ("and", "plus", "or", "xor", "sub"):
            return [op] + [g() for _ in range(r.randint(2, 3))]
        if op in ("first", "bar"):
            return [op] + [g() for _ in range(r.randint(2, 5))]
        if op == "all":
            return [op] + [self.such(d - 1, lambda e: not has(e, "times")) for _ in range(r.randint(2, 3))]
        if op == "many":
            lo = r.randint(0, 2)
            return [op, eat() if lo else once(), lo, r.choice([None, lo or 1, lo + 1, lo + 2])]
        if op in ("zom", "oom"):
            stop = [r.choice([["lit", "b"], ["kw", "a"], ["char", "ab"]])] if r.random() < 0.3 else []
            return [op, once() if op == "zom" else eat()] + stop
        if op == "opt":
            return [op, once()] + ([r.choice(["D", ["x", "y"]])] if r.random() < 0.3 else [])
        if op == "skip":
            return [
                op, g(), r.choice([True, False]), r.choice([None, None, ["lit", "a"]]), r.choice([None, None, ["lit", "b"]]),
            ]
        if op == "name":
            # a repetition does not take the name its own element has
            # (one that a Forward has stays out of the Group: see DESIGN.md)
            e = self.such(d - 1, lambda e: not (e[0] in LOOP and e[1][0] == "name"))
            return [op, e, r.choice("xy")]
        if op == "act":
            return [op, self.such(d - 1, lambda e: True), r.choice(["wrap", "none", "pos", "count", "const"])]
        if op == "cond":
            return [op, g(), r.choice(["yes", "no", "one", "notfirst"])]
        if op == "times":
            return [op, eat(), r.choice([0, 1, 2, [1, 2], [None, 2], [2, None]])]
        if op == "comb":
            return [op, self.such(d - 1, lambda e: not has(e, "pos", "count", "group"))]
        if op == "ahead":
            return [op, self.such(d - 1, lambda e: not has(e, "group"))]
        if op == "behind":
            return [op, r.choice([["lit", "a"], ["lit", "ab"], ["char", "ab"]])]
        return [op, g()]


def family(seed, count, ops, depth, leaves=LEAVES, sub_ops=OPS):
    """count grammars whose top is one of ops"""
    g = Gen(seed, leaves, sub_ops)
    return [g.gen(depth, g.r.choice(ops)) for _ in range(count)]


def batches(specs, n, size=20, module="common", whites=(ref.WS, " ", ""), **more):
    """tasks of up to `size` grammars each"""
    for i in range(0, len(specs), size):
        yield dict(
            harness="h_grammars", module=module,
            params=dict(specs=specs[i:i + size], n=n, white=whites[(i // size) % len(whites)], share=(i // size) % 2 == 1, **more),
        )


def one(spec, n, **more):
    """task of a single grammar"""
    return dict(harness="h_grammar", module="common", params=dict(spec=spec, n=n, **more))


def deep(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


def grammars(tier, seed, ops, sub_ops=OPS, leaves=LEAVES, count=(300, 3000), depth=3):
    """the generated part of a grammar property"""
    specs = family(seed, deep(tier, *count), ops, depth, leaves, sub_ops)
    for t in batches(specs, 3, size=deep(tier, 15, 25)):
        yield t
    if tier == "thorough":
        for t in batches(family(seed + 1000, 600, ops, depth + 1, leaves, sub_ops), 4, size=6, alphabet="ab 1\n"):
            yield t


def L(s):
    return ["lit", s]


S = [["stub", x] for x in "pqrs"]
GRAMMAR_BOUNDS = (
    "grammars: hand-written skeletons with arbitrary sub-parsers (each call of a stub fails, or takes 0..2 characters; all "
    "combinations), and a fixed family of generated grammars (depth 3, up to 5 alternatives; thorough also depth 4); inputs: every "
    "string over all of Unicode up to length 3, and up to length 4-8 over small alphabets where the task says so"
)
GRAMMAR_ASSUMPTIONS = [
    "repetition with a minimum of a sub-grammar that can match nothing, a name set directly over a named repetition, and groups directly inside "
    "lookahead or Combine are not generated",
    "stop_on is exercised with single tokens only",
]


def quiet(*es):
    """where e is tried before it counts, or without actions; what follows tells where it ended"""
    w, t = ["word", "abc"], L("c")
    for e in es:
        x = ["and", e, t]
        yield ["and", ["not", x], w]
        yield ["and", ["ahead", x], w]
        yield ["and", ["skip", x], w]
        yield ["and", ["skip", x, True], ["zom", ["any"]]]
        yield ["and", ["skip", t, False, x], w]
        yield ["and", ["opt", x], ["opt", w]]
        yield ["xor", x, ["and", ["zom", ["char", "ab"]], t]]
        yield ["all", x, L("b")]
        yield ["and", ["zom", x], w]
        yield ["and", ["ahead", ["not", x]], w]


def empties(op):
    """a collection of no parts, alone, named, with an action, and in other elements"""
    e = [op]
    a, b = L("a"), L("b")
    for x in (e, ["name", e, "x"], ["act", e, "const"], ["group", e]):
        yield x
        yield ["and", a, x, b]
        yield ["and", x, a]
        yield ["first", a, x]
        yield ["first", ["and", x, b], a]
        yield ["first", a, b, ["and", x, L("c")]]
        yield ["or", x, a]
        yield ["opt", x]
        yield ["fwd", x]
        if x[0] != "group":
            yield ["comb", ["and", a, x, b]]
        yield ["not", x]
        yield ["and", ["skip", ["and", x, b]], b]
