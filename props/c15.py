"""changing results: setting and deleting names, adding results"""
from props.common import *
from mo_parsing.helpers import located_expr, originalTextFor
from mo_parsing.infix import infix_notation, LEFT_ASSOC, RIGHT_ASSOC
from mo_parsing import CloseMatch, Dict, OpenDict, Regex
from mo_parsing.results import ParseResults

REACH = ("set", "deleted", "new", "replaced", "sum")
BOUNDS = (
    "results of hand-written grammars with up to three names, nested names, names in groups, over arbitrary sub-parsers or small tokens, input of up to 3 characters; "
    "every sequence of one to three changes (set to text, list, another result, None; delete) of three names; sum of two results"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["the order of keys after a change is not compared"]


def remove(n, k, top=True):
    """n without what is named k; what is in groups, or has another name, stays"""
    toks = []
    for t in n.toks:
        if isinstance(t, ref.N):
            if t.name == k:
                continue
            if not t.name and t.kind not in ref.GROUPS:
                t = remove(t, k)
        toks.append(t)
    return ref.N(n.kind, n.start, n.end, toks, n.name)


def h_change(ctx, spec, n, steps, alphabet, before="", after=""):
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx) if has(spec, "stub") else None
    with Whitespace(""):
        p = gram.Group(gram.build(spec, {"table": table}))
        other = gram.Group(gram.OneOrMore(gram.Char("mn")))
        try:
            r = p.parse(s)
        except gram.ParseException:
            return
    x = ref.Ref(s, "", table).run(["group", spec], 0)
    for i in range(steps):
        k = ctx.choice("name%d" % i, ["x", "y", "new"])
        how = ctx.choice("how%d" % i, ["text", "list", "one", "result", "None", "del"])
        had = k in ref.names_of(x)
        x = remove(x, k)
        if how == "del":
            del r[k]
            ctx.reach("deleted")
        elif how == "None":
            r[k] = None
        else:
            ctx.reach("set")
            ctx.reach("replaced" if had else "new")
            if how == "text":
                value, want = "T%d" % i, ["T%d" % i]
            elif how == "list":
                value, want = ["p", "q"], ["p", "q"]
            elif how == "one":
                value, want = ["p"], ["p"]
            else:
                value, want = other.parse("mn"), ["m", "n"]
            r[k] = value
            x.toks.append(ref.N("ann", -1, 0, want, k))
        compare(ctx, r, x)


def compare(ctx, r, x):
    ctx.equal([gram.view(t) for t in r], [ref.view(t) for t in ref.flat(x)], "items")
    ctx.equal(r.as_list(), ref.as_list(x), "as_list")
    names = ref.names_of(x)
    ctx.equal(sorted(r.keys()), sorted(names), "names")
    for k in ("x", "y", "new"):
        want = list(ref.named(x, k))
        if k not in names:
            if not want:
                ctx.check(not r[k], "deleted")
                ctx.check(k not in r, "not in")
                ctx.equal(r.get(k, "?"), "?", "get")
        elif len(want) == 1:
            if isinstance(want[0], ref.N):
                ctx.equal(plain(r[k]), plain(want[0]), "value")
            else:
                ctx.equal(r[k], want[0], "value")
        elif want and not any(isinstance(w, ref.N) for w in want):
            ctx.equal(r[k].as_list(), want, "values")


def plain(v):
    return gram.view(v)["list"] if isinstance(v, ParseResults) else ref.view(v)["list"]


def h_equal(ctx, specs, n, alphabet):
    """comparison, copy"""
    spec = ctx.choice("grammar", specs)
    s = ctx.string("s", 0, n, alphabet)
    with Whitespace(""):
        p = gram.build(spec, {})
        q = gram.Group(p)
        try:
            r, g = p.parse(s), q.parse(s)
        except gram.ParseException:
            return
    x = ref.Ref(s, "").run(spec, 0)
    items = list(ref.flat(x))
    ctx.reach("new")
    if any(isinstance(t, ref.N) for t in items):
        return
    ctx.check(r == items, "equals its list")
    ctx.check(not (r != items), "equals its list")
    ctx.check(not (r == items + ["z"]), "is not longer")
    ctx.check(not (items and r == items[:-1]), "is not shorter")
    for i in range(len(items)):
        ctx.check(not (r == items[:i] + ["????"] + items[i + 1:]), "is not another")
    ctx.check(not (r == items + [None]), "is not longer")
    ctx.check(r == tuple(items), "equals its tuple")
    ctx.check(items == r and not (items + [None] == r), "either way")
    ctx.equal(list(reversed(r)), items[::-1], "reversed")
    ctx.check(r == "".join(items), "equals its text")
    ctx.check(not (r == "".join(items) + "z"), "is not another text")
    from copy import copy
    c = copy(g)
    ctx.check(c == g, "equals its copy")
    ctx.equal(c.as_list(), g.as_list(), "copy")
    before = gram.view(g)
    c["new"] = "T"
    ctx.check("new" not in g, "copy is separate")
    ctx.equal(gram.view(g), before, "copy is separate")


def h_parts(ctx, specs, n, alphabet):
    """copies and sums of the results in a result"""
    from copy import copy

    spec = ctx.choice("grammar", specs)
    s = ctx.string("s", 0, n, alphabet)
    with Whitespace(""):
        p = gram.build(spec, {})
        try:
            r = p.parse(s)
        except gram.ParseException:
            return
    found = nodes(r)
    node = ctx.choice("node", 6)
    ctx.assume(node < len(found))
    node = found[node]
    before, whole = gram.view(node), gram.view(r)
    ctx.reach("nested")
    c = copy(node)
    ctx.equal(gram.view(c), before, "copy")
    ctx.equal(c.as_string(), node.as_string(), "text of the copy")
    ctx.equal(c.value(), node.value(), "value of the copy")
    c["new"] = "T"
    ctx.check("new" not in node and c["new"] == "T", "copy is separate")
    ctx.equal(gram.view(node), before, "copy is separate")
    d = copy(c)
    ctx.equal(gram.view(d), gram.view(c), "copy of the copy")
    del d["new"]
    ctx.equal(gram.view(d), before, "deleted from the copy")
    ctx.check(c["new"] == "T", "deleted from the copy only")
    if isinstance(node.type, gram.Group):
        for other in [x for x in found if isinstance(x.type, gram.Group)][:3]:
            want = [gram.view(x) for x in node] + [gram.view(x) for x in other]
            for total in (node + other, c + other):
                ctx.equal([gram.view(x) for x in total], want, "sum")
            ctx.equal(set((node + other).keys()), set(node.keys()) | set(other.keys()), "names of the sum")
            ctx.equal([gram.view(x) for x in sum([node, other, node])], want + [gram.view(x) for x in node], "sum")
    ctx.equal(gram.view(r), whole, "the result stays")


def h_sum(ctx, specs, n, alphabet, count):
    """sum() of results: the tokens and names of all"""
    parts = []
    with Whitespace(""):
        for i in range(count):
            spec = ctx.choice("grammar%d" % i, specs)
            s = ctx.string("s%d" % i, 0, n, alphabet)
            p = gram.Group(gram.build(spec, {}))
            try:
                r = p.parse(s)
            except gram.ParseException:
                return
            parts.append((r, ref.Ref(s, "").run(["group", spec], 0)))
    ctx.reach("sum")
    before = [gram.view(r) for r, _ in parts]
    total = sum([r for r, _ in parts]) if ctx.flag("sum") else parts[0][0] + parts[-1][0]
    if count == 3:
        total = parts[0][0] + parts[1][0] + parts[2][0] if ctx.flag("plus") else sum(r for r, _ in parts)
    x = ref.N("group", parts[0][1].start, parts[-1][1].end, [t for _, y in parts for t in y.toks], "")
    compare(ctx, total, x)
    total["new"] = "T"
    x.toks.append(ref.N("ann", -1, 0, ["T"], "new"))
    compare(ctx, total, x)
    ctx.equal([gram.view(r) for r, _ in parts], before, "the parts stay")


KEPT = ["K", "L"]
PAIR = ("P", "Q")
FACTORIES = {
    "spec": lambda spec: gram.build(spec, {}),
    "same list": lambda spec: gram.build(spec, {}) / (lambda t, i, s: KEPT),
    "tuple": lambda spec: gram.build(spec, {}) / (lambda t, i, s: PAIR),
    "itself": lambda spec: gram.build(spec, {}) / (lambda t, i, s: t),
    "default": lambda spec: gram.Optional(gram.Literal("+"), default=KEPT) + gram.build(spec, {}),
    "alone": lambda spec: gram.Optional(gram.build(spec, {}), default=PAIR),
    "dict": lambda spec: Dict(gram.ZeroOrMore(gram.Group(gram.Char("ab") + gram.build(spec, {})))),
    "open": lambda spec: OpenDict(gram.ZeroOrMore(gram.Group(gram.Char("ab") + gram.build(spec, {})))),
    "binary": lambda spec: infix_notation(gram.build(spec, {}), [("+", 2, LEFT_ASSOC)]),
    "suppressed": lambda spec: infix_notation(gram.build(spec, {}), [(gram.Suppress("+"), 2, RIGHT_ASSOC), (gram.Suppress("-"), 1, RIGHT_ASSOC)]),
    "unary": lambda spec: infix_notation(gram.build(spec, {}), [("-", 1, RIGHT_ASSOC), ("+", 1, LEFT_ASSOC)]),
    "ternary": lambda spec: infix_notation(gram.build(spec, {}), [((gram.Literal("+"), gram.Literal("-")), 3, LEFT_ASSOC)]),
    "regex": lambda spec: Regex("(?P<x>[ab])(?P<y>[+]?)") + gram.build(spec, {}),
    "combine": lambda spec: gram.Combine(gram.build(spec, {})),
    "original": lambda spec: originalTextFor(gram.build(spec, {})),
    "located": lambda spec: located_expr(gram.build(spec, {})),
    "close": lambda spec: CloseMatch("ab", 1) + gram.build(spec, {}),
}


def nodes(r):
    """the results in a result, as a program comes to them"""
    out = [r]
    for t in r:
        if isinstance(t, ParseResults):
            out += nodes(t)
    for k in list(r.keys()):
        v = r[k]
        if isinstance(v, ParseResults) and v.start >= 0 and not any(v is o for o in out):
            out += [v]
    return out


def h_edit(ctx, factory, specs, n, alphabet, most=5):
    """changing a result changes no other result, and not what the grammar gives"""
    spec = ctx.choice("grammar", specs)
    s = ctx.string("s", 0, n, alphabet)
    with Whitespace(""):
        p = FACTORIES[factory](spec)
        if ctx.flag("grouped"):
            p = gram.Group(p)
        try:
            r, other = p.parse(s), p.parse(s)
        except gram.ParseException:
            return
    want = gram.view(other)
    ctx.equal(gram.view(r), want, "the same twice")
    found = nodes(r)
    node = ctx.choice("node", most)
    ctx.assume(node < len(found))
    node = found[node]
    k = ctx.choice("name", ["x", "new"])
    how = ctx.choice("how", ["text", "tuple", "del"])
    items = [gram.view(t) for t in node]
    had = k in node.keys()
    if how == "del":
        del node[k]
        ctx.reach("deleted")
        ctx.check(k not in node, "deleted")
    else:
        ctx.reach("set")
        ctx.reach("replaced" if k in node else "new")
        node[k] = "T" if how == "text" else ("T", "U")
        v = node[k]
        ctx.equal(v if how == "text" else list(v), "T" if how == "text" else ["T", "U"], "set")
        try:
            r["absent"]["x"] = "T"
        except Exception:
            pass
        ctx.check(not r["absent"] and "x" not in other["absent"], "nothing is there")
    if not had:
        ctx.equal([gram.view(t) for t in node], items, "the items stay")
    ctx.equal(gram.view(other), want, "the other result stays")
    ctx.equal(gram.view(p.parse(s)), want, "the grammar stays")
    ctx.check(KEPT == ["K", "L"] and PAIR == ("P", "Q"), "what was given stays")


def SK(a, b):
    nx, ny = ["name", a, "x"], ["name", b, "y"]
    return [
        nx, ["and", nx, ny], ["and", nx, ["name", b, "x"]], ["and", nx, ["group", ["name", b, "x"]]], ["name", ["and", nx, b], "y"], ["and", ["name", ["group", nx], "y"], nx],
        ["group", ["and", nx, ny]], ["zom", nx], ["and", ["opt", nx], ["zom", ny]], ["and", ["and", nx, b], ["comb", ny]], ["and", ["supp", a], nx], ["name", ["name", a, "x"], "y"],
        ["and", ["ahead", nx], ny], ["act", nx, "wrap"], ["and", ["first", nx, ny], b], ["fwd", ["and", nx, b]], ["and", ["fwd", ["and", nx, b]], ["name", a, "x"]],
    ]


def tasks(tier):
    for spec in SK(["char", "ab"], ["any"]):
        yield dict(harness="h_change", params=dict(spec=spec, n=3, steps=deep(tier, 2, 3), alphabet="ab"))
    for spec in SK(*S[:2]):
        yield dict(harness="h_change", params=dict(spec=spec, n=2, steps=deep(tier, 1, 2), alphabet="ab"))
    nx, ny, nz = ["name", L("a"), "x"], ["name", ["group", ["zom", L("b")]], "y"], ["name", ["group", ["and", ["name", L("c"), "x"], ["name", L("d"), "y"]]], "z"]
    for k in (10, 33, 70):
        for spec in (["zom", ["first", nx, nz, ["group", nx], ["name", ["any"], "y"]]], ["zom", ["group", ["and", nx, ny]]], ["and", ["zom", ["and", nx, ["opt", nz]]], ["zom", ["any"]]], ["name", ["zom", ["first", nx, ["any"]]], "y"]):
            yield dict(harness="h_change", params=dict(spec=spec, n=1, steps=deep(tier, 1, 2), alphabet="abcd", before="abacda"[: k % 6] + "acd" * (k // 3), after="aab"))
    specs = SK(["char", "ab"], ["any"]) + [["zom", ["any"]], ["comb", ["zom", ["any"]]], ["opt", ["and", ["supp", ["any"]], ["any"]]], ["and", ["any"], ["supp", ["any"]], ["zom", ["any"]]]]
    for i in range(0, len(specs), 3):
        yield dict(harness="h_sum", params=dict(specs=specs[i:i + 3], n=2, alphabet="ab", count=2))
    short = [["name", ["char", "ab"], "x"], ["zom", ["name", L("a"), "y"]], ["and", ["name", L("b"), "y"], ["opt", ["group", ["name", L("a"), "x"]]]]]
    yield dict(harness="h_sum", params=dict(specs=short, n=deep(tier, 2, 3), alphabet="ab", count=3))
    inner = [["char", "ab"], ["name", ["char", "ab"], "x"], ["opt", ["char", "ab"], "D"], ["group", ["opt", ["name", ["char", "ab"], "x"], "D"]], ["and", ["char", "ab"], ["group", ["zom", ["name", L("a"), "x"]]]], ["first", ["name", L("a"), "x"], ["group", L("b")]], ["opt", ["group", L("b")], ["E", "F"]]]
    for k in FACTORIES:
        some = [e for e in inner if not (nullable(e) and k in ("binary", "suppressed", "unary", "ternary")) and not (has(e, "group") and k in ("combine",))]
        yield dict(harness="h_edit", params=dict(factory=k, specs=some, n=deep(tier, 3, 4), alphabet="ab+-"))
    for i in range(0, len(specs), 4):
        yield dict(harness="h_edit", params=dict(factory="spec", specs=specs[i:i + 4], n=deep(tier, 3, 4), alphabet="ab"))
    inner = [["and", ["fwd", ["group", e]], e] for e in inner if not nullable(e)] + [["name", ["fwd", ["group", e]], "y"] for e in inner[:3]] + [["fwd", ["fwd", ["group", e]]] for e in inner[1:3]] + [["and", ["fwd", ["group", e]], ["zom", ["group", e]]] for e in inner[:2]] + [["group", ["fwd", e]] for e in inner]
    inner = specs + [e for e in inner if not forward_of_named_group(e)]
    for i in range(0, len(inner), 4):
        yield dict(harness="h_parts", params=dict(specs=inner[i:i + 4], n=deep(tier, 3, 4), alphabet="ab"))
    yield dict(harness="h_equal", params=dict(specs=specs, n=3, alphabet=None))
