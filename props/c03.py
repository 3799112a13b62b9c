"""sequence"""
from props import large
from props.common import *

REACH = ("ok", "fail")
BOUNDS = GRAMMAR_BOUNDS
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS


def h_contexts(ctx, spec, n, inner, outer, alphabet):
    """the sequence keeps the whitespace in force when it was written"""
    s = ctx.string("s", 0, n, alphabet)
    with Whitespace(inner):
        a = gram.build(spec, {})
    with Whitespace(outer):
        b = gram.And([a, gram.Literal("c")], whitespaces.CURRENT)
        got = gram.attempt(gram.Group(b), s)

    r = ref.Ref(s, outer)
    i = r.skip(0)
    sub = ref.Ref(s, inner)
    x = sub.run(spec, i)
    y = x and r.run(L("c"), r.skip(x.end) if x.end > i else i)
    if y is None:
        want = ["fail"]
    else:
        n = ref.N("and", i, y.end, [x, y])
        want = ["ok", ref.view(ref.N("group", i, y.end, [n]))]
    ctx.reach(want[0])
    ctx.equal(got, want, "nested whitespace")


def tasks(tier):
    for e in quiet(["and", S[0], S[1]], ["plus", L("a"), ["opt", L("b")], L("a")]):
        yield one(e, deep(tier, 2, 3) if has(e, "stub") else 4, alphabet="abc ")
    for e in empties('and'):
        yield one(e, 3, alphabet="abc ")
    for op in ("and", "plus"):
        yield one([op] + S[:2], 3)
        yield one([op] + S[:3], 3, alphabet="a ")
        yield one([op] + S[:3], 3, alphabet="a ", white="")
        yield one([op, S[0], [op, S[1], S[2]]], 3, alphabet="a\t")
        yield one([op, [op, S[0], S[1]], S[2]], 3, alphabet="a\n")
        yield one([op, ["group", S[0]], ["name", S[1], "x"], ["act", S[2], "wrap"]], 2)
        yield one([op, ["name", [op, S[0], S[1]], "x"], ["group", [op, S[2], S[0]]]], 2)
        yield one([op, ["opt", S[0]], S[1], ["zom", S[2]]], 3, alphabet="a ")
        yield one([op, ["supp", S[0]], S[1], ["supp", S[2]]], 2)
        yield one([op, ["first", S[0], S[1]], ["first", S[2], S[0]]], 2)
    yield one(["and", L("a"), L("b"), L("a"), L("b"), L("a")], 8, alphabet="ab ")
    yield one(["plus", ["word", "ab"], L("="), ["word", "01"], ["lend"]], 7, alphabet="a=0 \n", white=" ")
    yield one(["and", ["word", "ab"], ["group", ["and", L("="), ["word", "01"]]], ["opt", L(";")]], 6, alphabet="a=0; ")
    for e in (L("a"), ["char", "ab"], ["word", "ab"], ["kw", "ab"], ["name", L("b"), "x"]):
        for white in ("", " "):
            yield one(["and", ["word", "ab"], ["behind", e]], 4, alphabet="ab ", white=white)
            yield one(["and", ["opt", L("a")], ["behind", e], ["opt", L("b")], ["behind", e]], 4, alphabet="ab ", white=white)
    for inner, outer in ((" ", " \n"), ("", " "), (" \n", ""), ("\t", " ")):
        for spec in (["and", L("a"), L("b")], ["and", ["opt", L("a")], L("b")], ["and", ["zom", L("a")], ["group", L("b")]], ["oom", L("a")]):
            yield dict(harness="h_contexts", params=dict(spec=spec, n=5, inner=inner, outer=outer, alphabet="abc \n" if "\n" in inner + outer else "abc \t"[: 5 if "\t" in inner else 4]))
    for t in grammars(tier, 301, ["and", "plus"], count=(230, 3000)):
        yield t
    for t in grammars(tier, 302, ["and", "plus"], OPS + ["ws"], count=(150, 2000)):
        yield t
    # long and wide
    for t in large.sequences(tier):
        yield t
    for t in large.repeated(tier, 173, ("and", "plus")):
        yield t
