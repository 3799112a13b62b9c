"""results: structure, names and access"""
from props import large
from props.common import *
from mo_parsing.results import ParseResults

REACH = ("ok", "fail", "named", "nested")
BOUNDS = (
    "grammars: hand-written skeletons over arbitrary sub-parsers and a fixed family of generated ones (depth 3) of groups, suppression, combination, names, sequences, repetition, choices, "
    "Forward and actions; input: every string of up to 3 characters over Unicode; every index and slice of the result, and comparison with the lists and texts equal to it and one item more, less or different"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS


def plain_value(n):
    """value(): what is left without the structure of single values"""
    acc = [plain_value(t) if isinstance(t, ref.N) else t for t in ref.flat(n)]
    return None if not acc else acc[0] if len(acc) == 1 else acc


def any_name(n):
    # (or what was looked ahead at)
    return any(isinstance(t, ref.N) and (t.name or t.kind == "ann" or any_name(t)) for t in n.toks)


def occurrences(n, name):
    for t in n.toks:
        if not isinstance(t, ref.N) or t.kind == "supp":
            continue
        if t.name:
            if t.name == name:
                yield t
        elif t.kind not in ref.GROUPS:
            yield from occurrences(t, name)


def text_of(n):
    return list(ref.strings(n))


def compare(ctx, r, n, depth=0):
    """every way to look at a result"""
    items = list(ref.flat(n))
    ctx.equal(len(r), len(items), "len")
    ctx.equal(r.length(), len(items), "length")
    ctx.equal([gram.view(x) for x in r], [ref.view(x) for x in items], "iteration")
    if items or not any_name(n):
        ctx.equal(bool(r), bool(items), "truth")
    for i in range(len(items)):
        ctx.equal(gram.view(r[i]), ref.view(items[i]), "index")
        ctx.equal(gram.view(r[i - len(items)]), ref.view(items[i]), "negative index")
    ctx.equal([gram.view(x) for x in r[1:]], [ref.view(x) for x in items[1:]], "slice")
    ctx.equal([gram.view(x) for x in r[:-1]], [ref.view(x) for x in items[:-1]], "slice")
    ctx.equal([gram.view(x) for x in r[::2]], [ref.view(x) for x in items[::2]], "slice")
    ctx.equal(r.as_list(), ref.as_list(n), "as_list")
    words = text_of(n)
    if all(isinstance(w, str) for w in words):
        ctx.equal(r.as_string(), "".join(words), "as_string")
        ctx.equal(r.as_string(sep="-"), "-".join(words), "as_string with separator")
    ctx.equal(r.value(), plain_value(n), "value")
    if items and all(isinstance(w, str) for w in words):
        # a result is equal to the list of what is in it, and to the text when that is all there is
        whole = ref.as_list(n)
        whole = whole[0] if n.kind in ref.GROUPS else whole
        ctx.check(r == whole and not r != whole, "equal to the list of its items")
        ctx.check(not r == whole[:-1], "equal to less than its items")
        ctx.check(not r == whole + ["?"], "equal to more than its items")
        ctx.check(not r == whole[:-1] + ["?" * 9], "equal to other items")
        if all(isinstance(x, str) for x in items):
            ctx.check(r == "".join(words), "equal to its text")
            ctx.check(not r == "".join(words) + "?", "equal to other text")
    ctx.check(r.start == n.start and r.end == n.end, "extent", got=[r.start, r.end], want=[n.start, n.end])
    names = ref.names_of(n)
    ctx.equal(list(r.keys()), names, "keys")
    ctx.equal([k for k, _ in r.items()], names, "keys of items")
    of = [[[ref.view(x) for x in ref.flat(t)] for t in occurrences(n, k)] for k in names]
    ctx.equal([[[gram.view(x) for x in t] for t in v] for _, v in r.items()], of, "items")
    ctx.equal([[[gram.view(x) for x in t] for t in v] for v in r.values()], of, "values")
    for k in ("x", "y", "nothing"):
        want = list(ref.named(n, k))
        if k not in names:
            if not want:
                # (what is suppressed can still have names)
                ctx.check(not r[k], "no such name")
                ctx.check(k not in r, "not in")
                ctx.check(r.get(k) is None, "get without default")
                ctx.equal(r.get(k, "?"), "?", "get with default")
            continue
        ctx.reach("named")
        if len(want) == 1 and not isinstance(want[0], ref.N):
            ctx.equal(r[k], want[0], "named value")
            ctx.equal(r.get(k, "?"), want[0], "get")
            ctx.check(k in r, "in")
    for i, x in enumerate(items):
        if isinstance(x, ref.N):
            ctx.reach("nested")
            if depth < 3:
                compare(ctx, r[i], x, depth + 1)


def h_result(ctx, specs, n, alphabet=None, white=ref.WS):
    spec = ctx.choice("grammar", specs)
    s = ctx.string("s", 0, n, alphabet)
    table = gram.Table(ctx) if has(spec, "stub") else None
    with Whitespace(white):
        p = gram.Group(gram.build(spec, {"table": table}))
        try:
            r = p.parse(s)
        except gram.ParseException:
            r = None
    k = ref.Ref(s, white, table)
    x = k.run(["group", spec], k.skip(0))
    ctx.reach("ok" if x else "fail")
    ctx.check((r is None) == (x is None), "success")
    if x is None:
        return
    ctx.observe("list", r.as_list())
    compare(ctx, r, x)


def SK(*x):
    return [
        ["group", ["and", x[0], x[1]]], ["and", ["group", x[0]], ["group", x[1]]], ["group", ["group", x[0]]], ["and", ["supp", x[0]], x[1]], ["and", ["supm", x[0]], ["name", x[1], "x"]],
        ["comb", ["and", x[0], x[1]]], ["comb", ["and", x[0], x[1]], "-"], ["and", ["name", x[0], "x"], ["name", x[1], "y"]], ["and", ["name", x[0], "x"], ["name", x[1], "x"]],
        ["name", ["group", ["name", x[0], "x"]], "y"], ["name", ["and", ["name", x[0], "x"], x[1]], "y"], ["group", ["name", ["and", x[0], x[1]], "x"]], ["and", ["group", ["name", x[0], "x"]], ["name", x[1], "x"]],
        ["zom", ["group", ["name", x[0], "x"]]], ["oom", ["name", ["group", x[0]], "x"]], ["name", ["zom", x[0]], "x"], ["opt", ["name", x[0], "x"]], ["name", ["opt", x[0], "D"], "x"],
        ["fwd", ["name", x[0], "x"]], ["name", ["fwd", x[0]], "x"], ["fwd", ["group", x[0]]], ["group", ["fwd", ["and", x[0], ["name", x[1], "y"]]]], ["name", ["supp", x[0]], "x"], ["supp", ["name", x[0], "x"]],
        ["name", ["comb", ["and", x[0], x[1]]], "x"], ["comb", ["name", x[0], "x"]], ["first", ["name", x[0], "x"], ["name", x[1], "y"]], ["name", ["first", x[0], ["group", x[1]]], "x"],
        ["all", ["name", x[0], "x"], ["group", x[1]]], ["name", ["all", x[0], ["opt", x[1]]], "y"], ["and", ["group", ["all", x[0], ["name", x[1], "x"]]], ["opt", x[2]]], ["name", ["or", ["name", x[0], "x"], ["group", ["and", x[0], x[1]]]], "y"],
        ["and", ["ahead", ["name", x[0], "x"]], ["group", ["opt", x[0]]]], ["and", ["skip", x[0], True], ["group", ["not", x[1]]]], ["and", ["name", ["skip", x[0]], "x"], ["name", x[0], "y"]],
        ["name", ["comb", ["group", ["and", ["and", x[0], x[1]], x[2]]]], "x"], ["and", ["name", ["comb", ["and", ["and", x[0], x[1]], ["first", ["first", x[1], x[0]], x[2]]]], "x"], x[0]],
        ["name", ["comb", ["opt", ["and", ["and", x[0], x[1]], x[2]]]], "x"], ["name", ["comb", ["zom", ["and", ["and", x[0], x[1]], x[2]]]], "x"], ["name", ["group", ["opt", ["and", x[0], ["and", x[1], x[2]]]]], "x"],
        ["and", ["group", ["zom", ["name", x[0], "x"]]], ["name", x[1], "y"]], ["name", ["and", x[0], ["group", ["and", x[1], ["name", x[2], "y"]]]], "x"], ["group", ["zom", ["group", ["and", ["name", x[0], "x"], ["opt", x[1]]]]]],
    ]


def tasks(tier):
    for spec in SK(*S):
        yield dict(harness="h_result", params=dict(specs=[spec], n=deep(tier, 2, 3), alphabet="ab " if tier == "thorough" else "a "))
    some = SK(["word", "ab"], ["word", "01"], L(";"))
    for i in range(0, len(some), 8):
        yield dict(harness="h_result", params=dict(specs=some[i:i + 8], n=deep(tier, 4, 5), alphabet="a0; "))
    ops = ["group", "group", "supp", "supm", "comb", "name", "name", "and", "and", "zom", "opt", "first", "fwd", "act", "oom"]
    leaves = [["word", "ab"], ["lit", "a"], ["any"], ["char", "ab"], ["lit", "b"], ["close", "ab", 1], ["re", "ab*"]]
    specs = family(14, deep(tier, 300, 3000), ["group", "name", "and", "comb", "zom", "supp", "fwd", "act"], 3, leaves, ops)
    # what is joined is all of the text, whitespace too
    joined = [["comb", ["and", L("a"), ["cni", "a"], ["opt", L("a")]]], ["comb", ["zom", ["white", " \t"]]], ["comb", ["and", ["cni", "a"], L("a"), ["opt", ["cni", "a"]]]], ["and", ["comb", ["and", ["white", " \t"], ["opt", L("a")]]], ["opt", L("a")]], ["comb", ["oom", ["group", ["first", L("a"), ["cni", "a"]]]]]]
    for spec in joined:
        yield dict(harness="h_result", params=dict(specs=[spec], n=4, white="", alphabet="a \t\n"))
    # where sub-grammars have other whitespace
    specs += family(15, deep(tier, 90, 1500), ["and", "plus"], 4, leaves, ops + ["ws", "ws", "many", "plus"])
    specs += family(16, deep(tier, 120, 1500), ["all", "or", "skip", "name", "group", "and"], 3, leaves, ["group", "name", "name", "and", "and", "all", "or", "xor", "skip", "ahead", "not", "opt", "zom", "times", "supp", "act"])
    specs = [e for e in specs if not forward_of_named_group(e)]
    mixed = []
    for x in (["oom", ["any"]], ["zom", L("a")], ["many", ["char", "ab"], 1, 2], ["opt", ["any"]], ["and", ["opt", L("b")], L("a")], ["first", ["word", "ab"], ["any"]], ["comb", ["oom", L("a")]], ["skip", L("b"), True, None, None], ["fwd", ["oom", L("a")]]):
        for w in (" ", "b"):
            mixed += [["and", ["opt", L("a")], ["group", ["ws", w, x]]], ["and", ["opt", L("a")], ["ws", w, ["group", x]]], ["and", ["opt", L("a")], ["ws", w, ["name", ["group", x], "x"]], ["ws", "", ["group", ["zom", ["any"]]]]]]
    for i in range(0, len(mixed), 9):
        for white in ("", "a"):
            yield dict(harness="h_result", params=dict(specs=mixed[i:i + 9], n=3, white=white, alphabet="ab "))
    for i in range(0, len(specs), 12):
        yield dict(harness="h_result", params=dict(specs=specs[i:i + 12], n=3, white=[ref.WS, ""][(i // 12) % 2], alphabet="ab " if i % 24 else None))
    for t in large.results(tier):
        yield t
