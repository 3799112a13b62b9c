"""recursive grammars"""
from mo_parsing.exceptions import RecursiveGrammarException

from props import large
from props.common import *

REACH = ("ok", "fail", "refused")
BOUNDS = (
    "hand-written recursive grammars (brackets, a^n b^n, a^n b^n c^n, palindromes, lists, expression/term/factor, mutual recursion, recursion below every operator) on every string "
    "of 6 to 9 characters over their own alphabet; generated recursive grammars of one and two Forwards (depth 3): refused when left recursive, else every string of up to 5 characters over a small alphabet; Forwards that are defined again (eight definitions, five uses, and six that are used before)"
)
ASSUMPTIONS = [
    "a Forward that is not defined yet counts as one that can match nothing, so `a << (b + a)` is refused while b has no definition",
    "recursion that goes only through stop_on, which works with a compiled regex, is left out",
]


class LeftRecursive(Exception):
    pass


def empty(e, known):
    """can e match nothing, as far as is known"""
    op = e[0]
    if op == "ref":
        return known.get(e[1], True)
    if op == "rec":
        return known.get(e[1], True)
    if op == "let":
        return empty(e[2], known)
    if op in ("and", "plus"):
        return all([empty(x, known) for x in e[1:]])
    if op in ("first", "bar", "or", "xor", "all"):
        return any([empty(x, known) for x in e[1:]])
    if op in ("group", "supp", "comb", "name", "act", "cond", "fwd", "oom"):
        return empty(e[1], known)
    return nullable(e)


def heads(e, known):
    """the Forwards e may turn to before any character is consumed"""
    op = e[0]
    if op == "ref":
        return {e[1]} | known.get("heads " + e[1], set())
    if op == "rec":
        return {e[1]} | heads(e[2], known)
    if op == "let":
        return heads(e[2], known)
    if op in ("and", "plus"):
        out = set()
        for x in e[1:]:
            out |= heads(x, known)
            if not empty(x, known):
                break
        return out
    out = set()
    for x in e[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            out |= heads(x, known)
    return out


def parts(e):
    return [x for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str)]


def orderly(e, known):
    """definitions in the order a program would make them, every Forward
    taken for one that can match nothing until it has its definition"""
    for x in parts(e):
        orderly(x, known)
    if e[0] == "let":
        for name, body in e[1]:
            orderly(body, known)
            know(name, body, known)
        orderly(e[2], known)
    if e[0] == "rec":
        know(e[1], e[2], known)


def know(name, body, known):
    h = heads(body, known)
    for x in list(h):
        h |= known.get("heads " + x, set())
    if name in h:
        raise LeftRecursive()
    known[name] = empty(body, known)
    known["heads " + name] = h
    for k in list(known):
        if k.startswith("heads ") and name in known[k]:
            known[k] |= h
            if k[6:] in known[k]:
                raise LeftRecursive()


def collect(e, into):
    for x in parts(e):
        collect(x, into)
    if e[0] == "let":
        for name, body in e[1]:
            into[name] = body
            collect(body, into)
        collect(e[2], into)
    if e[0] == "rec":
        into[e[1]] = e[2]


def truly_left(spec):
    defs = {}
    collect(spec, defs)
    known = {k: False for k in defs}
    while True:
        now = {k: empty(v, known) for k, v in defs.items()}
        if now == known:
            break
        known = now
    edges = {k: heads(v, known) for k, v in defs.items()}
    for k in defs:
        seen, todo = set(), list(edges[k])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(edges[x])
        if k in seen:
            return True
    return False


def h_recursive(ctx, specs, n, alphabet, white):
    spec = ctx.choice("grammar", specs)
    try:
        orderly(spec, {})
        doubtful = False
    except LeftRecursive:
        doubtful = True
    with Whitespace(white):
        try:
            parser = gram.Group(gram.build(spec, {}))
            refused = False
        except RecursiveGrammarException:
            refused = True
    if refused:
        ctx.reach("refused")
        ctx.check(doubtful, "not left recursive, and refused")
        return
    ctx.check(not truly_left(spec), "left recursive, and not refused")
    s = ctx.string("s", 0, n, alphabet)
    with Whitespace(white):
        got = gram.attempt(parser, s)
    want = ref.attempt(["group", spec], s, white)
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "parse")


R, Q = ["ref", "r"], ["ref", "q"]
A, B, C = L("a"), L("b"), L("c")


def rec(*e):
    return ["rec", "r"] + list(e)


def known_languages(tier):
    d = deep(tier, 0, 1)
    par = lambda x: ["and", L("("), x, L(")")]
    yield rec(["group", ["and", L("("), ["zom", R], L(")")]]), "()", 7 + d
    yield rec(["and", L("("), ["opt", R], L(")"), ["opt", R]]), "()", 7 + d
    yield rec(["zom", par(R)]), "()", 7 + d
    anbn = rec(["first", ["and", A, R, B], ["and", A, B]])
    yield anbn, "ab", 8 + d
    yield rec(["and", A, ["opt", R], B]), "ab", 8 + d
    yield rec(["group", ["and", A, ["opt", R], B]]), "ab", 8 + d
    yield ["and", ["ahead", ["and", anbn, ["not", B]]], ["oom", A], ["rec", "q", ["first", ["and", B, Q, C], ["and", B, C]]], ["not", C]], "abc", 6 + d
    yield rec(["first", ["and", A, R, A], ["and", B, R, B], C]), "abc", 5 + d
    yield rec(["first", ["and", A, R, A], A]), "a", 9
    yield rec(["or", ["and", A, R, A], A]), "a", 9
    yield rec(["and", ["word", "ab"], ["opt", ["and", L(","), R]]]), "ab,", 5 + d
    yield rec(["first", ["and", A, R], ["empty"]]), "ab", 6 + d
    yield rec(["and", A, ["name", ["opt", R], "x"]]), "ab", 6 + d
    factor = ["first", ["word", "ab"], ["group", par(["ref", "expr"])]]
    term = ["and", factor, ["zom", ["and", L("*"), factor]]]
    yield ["rec", "expr", ["and", term, ["zom", ["and", L("+"), term]]]], "a(+)", 5 + d
    yield ["rec", "expr", ["and", ["group", term], ["zom", ["and", L("+"), ["group", term]]]]], "a*(+)", 4 + d
    # TWO OF THEM
    yield rec(["first", ["and", A, ["rec", "q", ["first", ["and", B, R], B]]], A]), "ab", 7 + d
    yield rec(["first", ["and", A, ["rec", "q", ["first", ["and", B, Q], ["and", B, R], C]]], A]), "abc", 5 + d
    yield ["and", ["rec", "q", ["and", A, ["opt", Q]]], rec(["and", B, ["opt", R]])], "ab", 7 + d
    yield rec(["and", ["rec", "q", ["and", A, ["opt", Q]]], ["opt", ["and", B, R]]]), "ab", 7 + d
    yield ["let", [["q", ["and", A, ["opt", R]]], ["r", ["and", B, Q]]], ["first", Q, R]], "ab", 7 + d
    yield ["let", [["r", ["and", Q, ["opt", R]]], ["q", A]], R], "ab", 4 + d
    yield ["let", [["q", A], ["r", ["and", Q, ["opt", R]]]], R], "ab", 7 + d
    yield ["let", [["q", R], ["r", ["and", A, ["opt", Q], B]]], ["group", Q]], "ab", 7 + d
    # BELOW ALL OPERATORS
    yield rec(["and", A, ["oom", R]]), "ab", 6
    yield rec(["first", ["and", A, ["oom", ["and", B, R]]], A]), "ab", 6 + d
    yield rec(["first", ["and", A, ["many", ["and", B, R], 1, 2]], A]), "ab", 6 + d
    yield rec(["first", ["and", A, ["not", R], B], ["and", B, R]]), "ab", 6 + d
    yield rec(["first", ["and", A, ["ahead", R], ["any"]], B]), "ab", 6 + d
    yield rec(["first", ["and", A, ["comb", ["and", B, R]]], ["and", A, B]]), "ab", 6 + d
    yield rec(["first", ["and", A, ["supp", R], B], A]), "ab", 6 + d
    yield rec(["first", ["and", A, ["act", R, "pos"], B], A]), "ab", 6 + d
    yield rec(["act", ["first", ["and", A, R, B], A], "wrap"]), "ab", 6 + d
    yield rec(["first", ["and", A, ["cond", R, "one"], B], A]), "ab", 6 + d
    yield rec(["first", ["and", A, ["skip", R, True]], B]), "ab", 6 + d
    yield rec(["skip", A, True, R]), "ab", 3
    yield rec(["skip", A, True, None, ["and", ["opt", A], R]]), "ab", 3
    yield rec(["first", ["and", A, ["skip", C, True, R]], B]), "abc", 5 + d
    yield rec(["first", ["and", A, ["skip", C, True, None, R]], B]), "abc", 5 + d
    yield rec(["first", ["and", A, ["all", R, C]], B]), "abc", 5 + d
    yield rec(["first", ["and", A, ["or", R, ["and", R, C]]], B]), "abc", 5 + d
    yield rec(["first", ["and", A, ["name", R, "x"], ["name", ["opt", R], "y"]], B]), "ab", 6 + d


class RecGen(Gen):
    def __init__(self, seed, names):
        Gen.__init__(self, seed, [A, B, ["word", "ab"], ["any"]] + [["ref", x] for x in names] * 2, [
            "and", "and", "and", "plus", "first", "first", "bar", "or", "zom", "oom", "opt", "group", "name", "not", "ahead", "act", "supp", "all", "skip",
        ])

    def gen(self, d, op=None):
        out = Gen.gen(self, d, op)
        if out[0] in ("zom", "oom"):
            return out[:2]
        return out


def usable(e):
    """outside of what the generators of the other grammars leave out"""
    op = e[0]
    kids = parts(e) + ([d for _, d in e[1]] if op == "let" else [])
    if op == "oom" and loose(e[1]):
        return False
    if op == "all" and any(loose(x) and x[0] not in ("opt", "zom") for x in kids):
        return False
    if op in ("ahead",) and has(e, "group", "ref"):
        return False
    if op == "name" and has(e[1], "ref") and e[1][0] in LOOP + ("act", "ref"):
        return False
    if op == "name" and ref.plain(e[1])[0] == "group":
        return False  # SEE DESIGN.md, FORWARD OF A NAMED GROUP
    return all(usable(x) for x in kids)


def loose(e):
    return empty(e, {})


def generated(tier, seed, count):
    g = RecGen(seed, "r")
    h = RecGen(seed + 1, "rq")
    out = []
    while len(out) < count:
        body = g.gen(3)
        spec = rec(body)
        if len(out) % 2:
            inner = ["rec", "q", h.gen(2)]
            spec = rec(["first", ["and", g.leaf(), inner], body])
        if len(out) % 3 == 2:
            # BOTH DECLARED FIRST
            spec = ["let", [["q", h.gen(2)], ["r", h.gen(3)]], R]
        if not has(spec[2], "ref") or not usable(spec):
            continue
        out.append(spec)
    return out


AGAIN = [["lit", "ab"], ["lit", "b"], ["opt", ["lit", "a"]], ["word", "ab"], ["and", ["opt", ["lit", "b"]], ["lit", "a"]], ["zom", ["char", "ab"]], ["group", ["lit", "ba"]], ["first", ["lit", "aa"], ["lit", "b"]]]


def h_again(ctx, n, looked):
    """a Forward that is given another definition is what it was defined as last"""
    s = ctx.string("s", 0, n, "abc")
    one = ctx.choice("one", AGAIN)
    two = ctx.choice("two", AGAIN)
    use = ctx.choice("use", ["and", "first", "or", "opt", "all"])
    with Whitespace(" "):
        f = gram.Forward()
        f << gram.build(one)
        if looked:
            # it is put to use as it is
            gram.attempt(gram.Group((f + "c") | gram.Literal("a") | gram.Literal("b")), s)
        f << gram.build(two)
        again = ["fwd", two]
        if use == "and":
            p, spec = f + "c", ["and", again, L("c")]
        elif use == "first":
            p, spec = (f + "c") | gram.Literal("d") | gram.Literal("e"), ["first", ["and", again, L("c")], L("d"), L("e")]
        elif use == "or":
            p, spec = (gram.Literal("c") + f) ^ gram.Literal("a") ^ (f + gram.Literal("b")), ["or", ["and", L("c"), again], L("a"), ["and", again, L("b")]]
        elif use == "opt":
            p, spec = gram.Optional(f + gram.Literal("c")) + gram.ZeroOrMore(gram.AnyChar()), ["and", ["opt", ["and", again, L("c")]], ["zom", ["any"]]]
        else:
            p, spec = (f + "c") & gram.Optional("a"), ["all", ["and", again, L("c")], ["opt", L("a")]]
        got = gram.attempt(gram.Group(p), s)
    want = ref.attempt(["group", spec], s, " ", None)
    ctx.reach(want[0])
    ctx.equal(got, want, "defined again")


def h_later(ctx, n, use):
    """what a Forward is in follows its definition, whenever that comes"""
    s = ctx.string("s", 0, n, "abc")
    t = ctx.choice("t", ["", "ab", "abab", "baab", "c"])
    one = ctx.choice("one", AGAIN)
    two = ctx.choice("two", AGAIN)
    with Whitespace(" "):
        f = gram.Forward()
        f << gram.build(one)
        b, c = gram.Literal("b"), gram.Literal("c")
        p, spec = {
            "oom": lambda: (gram.OneOrMore(f) + gram.Optional(c), lambda x: ["and", ["oom", x], ["opt", L("c")]]),
            "zom": lambda: (gram.ZeroOrMore(gram.Group(f)) + c, lambda x: ["and", ["zom", ["group", x]], L("c")]),
            "and": lambda: (c + f + gram.Optional(f), lambda x: ["and", L("c"), x, ["opt", x]]),
            "not": lambda: (~f + gram.Word("abc"), lambda x: ["and", ["not", x], ["word", "abc"]]),
            "skip": lambda: (gram.SkipTo(f, include=True) + gram.Optional(c), lambda x: ["and", ["skip", x, True], ["opt", L("c")]]),
            "many": lambda: (gram.Many(f, min_match=2, max_match=3)("x") + gram.Optional(b), lambda x: ["and", ["name", ["many", x, 2, 3], "x"], ["opt", L("b")]]),
        }[use]()
        p = gram.Group(p)
        if use in ("oom", "many"):
            ctx.assume(not nullable(one) and not nullable(two))
        for spec_of, text in ((one, t), (two, s), (one, t), (two, s)):
            f << gram.build(spec_of)
            got = gram.attempt(p, text)
            want = ref.attempt(["group", spec(["fwd", spec_of])], text, " ", None)
            ctx.reach(want[0])
            ctx.equal(got, want, "defined later")


def tasks(tier):
    for use in ("oom", "zom", "and", "not", "skip", "many"):
        yield dict(harness="h_later", params=dict(n=deep(tier, 3, 4), use=use))
    for looked in (False, True):
        yield dict(harness="h_again", params=dict(n=deep(tier, 3, 4), looked=looked))
    for spec, alphabet, n in known_languages(tier):
        yield dict(harness="h_recursive", params=dict(specs=[spec], n=n, alphabet=alphabet, white=""))
        yield dict(harness="h_recursive", params=dict(specs=[spec], n=4, alphabet=alphabet + " ", white=" "))
    specs = generated(tier, 31, deep(tier, 1500, 9000))
    for i in range(0, len(specs), 25):
        yield dict(harness="h_recursive", params=dict(specs=specs[i:i + 25], n=[5, 4][(i // 25) % 2], alphabet=["ab", "ab "][(i // 25) % 2], white=["", " "][(i // 25) % 2]))
    for t in large.recursion(tier):
        yield t
