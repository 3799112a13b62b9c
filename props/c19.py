"""scanning, searching, transforming and splitting"""
from props import large
from props.common import *
from mo_parsing.results import ParseResults

REACH = ("found", "nothing", "empty match", "overlapping", "limited", "replaced", "split")
BOUNDS = (
    "hand-written grammars over arbitrary sub-parsers, and generated grammars (depth 2), also ones that match nothing; input: every string of up to 3 or 4 characters; max_matches 0..3, overlap, include_separators; "
    "default, blank and no whitespace"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["transform_string is exercised with results that are text"]


def matches(r, spec, n, limit=None, overlap=False):
    """leftmost matches, one after the other; whitespace before a match is not part of it"""
    out = []
    at = 0
    while at <= n and (limit is None or len(out) < limit):
        at = r.skip(at)
        x = r.run(spec, at)
        if x is None:
            at += 1
            continue
        out.append(x)
        at = at + 1 if overlap or x.end <= at else x.end
    return out


def parser_of(spec, table):
    return gram.build(spec, {"table": table})


def h_scan(ctx, specs, n, alphabet, white, method, before="", after="", limits=(None, 0, 1, 2)):
    spec = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx, max_take=2) if has(spec, "stub") else None
    limit = ctx.choice("limit", list(limits))
    r = ref.Ref(s, white, table)
    with Whitespace(white):
        p = parser_of(spec, table)
        if ctx.flag("object"):
            p = p.finalize()
        more = {} if limit is None else {"max_matches": limit}
        if method == "scan":
            overlap = ctx.flag("overlap")
            if overlap:
                more["overlap"] = True
                ctx.reach("overlapping")
            got = [[view(t), b, e] for t, b, e in p.scan_string(s, **more)]
            found = matches(r, spec, len(s), limit, overlap)
            want = [[view(x), x.start, x.end] for x in found]
        elif method == "search":
            result = p.search_string(s, **more)
            got = [gram.view(t) for t in result]
            found = matches(r, ["group", spec], len(s), limit)
            want = [ref.view(x) for x in found]
            ctx.equal(len(result), len(found), "number of matches")
            ctx.equal(result.as_list(), [v for x in found for v in ref.as_list(x)], "as_list")
        elif method == "split":
            found = matches(r, spec, len(s), limit)
            more = {} if limit is None else {"maxsplit": limit}
            include = ctx.flag("include")
            if include:
                more["include_separators"] = True
            got = [view(t) for t in p.split(s, **more)]
            want = []
            last = 0
            for x in found:
                ctx.reach("split")
                want.append(s[last:x.start])
                if include:
                    want.append(view(x))
                last = x.end
            want.append(s[last:])
        else:
            found = matches(r, spec, len(s))
            got = p.transform_string(s)
            want = ""
            last = 0
            for x in found:
                want = want + s[last:x.start] + "".join(ref.strings(x))
                last = x.end
                ctx.reach("replaced")
            want = want + s[last:]
    ctx.reach("found" if found else "nothing")
    if limit is not None and len(found) == limit:
        ctx.reach("limited")
    if any(x.start == x.end for x in found):
        ctx.reach("empty match")
    ctx.observe("got", got)
    ctx.equal(got, want, method)


def view(x):
    # (what a top element with a name is wrapped in, is left out)
    if isinstance(x, ParseResults):
        v = gram.view(x)
        return [v["items"], v["list"], x.start, x.end]
    if isinstance(x, ref.N):
        v = ref.view(x)
        return [v["items"], v["list"], x.start, x.end]
    return x


def SK(p, q):
    return [
        p, ["and", p, q], ["first", p, q], ["or", p, q], ["zom", p], ["oom", p], ["opt", p], ["not", p], ["ahead", p], ["supp", p], ["comb", ["and", p, q]], ["act", p, "wrap"], ["cond", p, "notfirst"],
        ["skip", p], ["skip", p, True], ["fwd", p], ["act", p, "const"], ["and", ["lstart"], p], ["and", p, ["lend"]], ["and", ["sstart"], p], ["and", p, ["send"]],
    ]


def tasks(tier):
    # (a zero-length match of a stub is tried again and again: max_take keeps it small)
    for white in ("", " "):
        for spec in SK(*S[:2]):
            for method in ("scan", "split"):
                yield dict(harness="h_scan", params=dict(specs=[spec], n=2, alphabet="a ", white=white, method=method))
    tok = SK(L("a"), ["word", "ab"])
    for method in ("scan", "search", "split", "transform"):
        for k, white in enumerate((ref.WS, " ", "")):
            for i in range(0, len(tok), 7):
                yield dict(harness="h_scan", params=dict(specs=tok[i:i + 7], n=deep(tier, 3, 5), alphabet=["ab \n", "ab ", "ab1"][k], white=white, method=method))
    leaves = [e for e in LEAVES if e[0] != "close"]
    ops = [o for o in OPS if o not in ("name", "act", "group", "behind")] + ["behind"]
    specs = family(19, deep(tier, 120, 1200), OPS, 2, leaves, [o for o in OPS if o != "name"])
    plain = [e for e in specs if not has(e, "group", "count", "pos", "name")]
    specs = [e for e in specs if e[0] != "name"]
    for i in range(0, len(specs), 12):
        for method in ("scan", "search", "split"):
            yield dict(harness="h_scan", params=dict(specs=specs[i:i + 12], n=deep(tier, 2, 3), alphabet="ab \n" if i % 24 else None, white=[ref.WS, " ", ""][i // 12 % 3], method=method))
    for i in range(0, len(plain), 12):
        yield dict(harness="h_scan", params=dict(specs=plain[i:i + 12], n=deep(tier, 3, 4), alphabet="ab \n", white=[ref.WS, " ", ""][i // 12 % 3], method="transform"))
    # many matches in a long text
    for e in (L("a"), ["word", "ab"], ["and", L("a"), ["opt", L("b")]], ["and", ["lstart"], ["word", "ab"]], ["and", ["word", "ab"], ["lend"]], ["zom", L("b")], ["first", L("ab"), L("a")], ["skip", L("b"), True]):
        for method in ("scan", "search", "split", "transform"):
            for k, (white, unit, count) in enumerate(((ref.WS, "ab a\n", 30), (" ", "a  bb ", 15), ("", "ab.b", 25), (" ", ". " * 60 + "ab", 2))):
                yield dict(harness="h_scan", params=dict(specs=[e if method != "transform" else ["act", e, "const"]], n=1, alphabet="ab ", white=white, method=method, before=unit * count, after=" ab", limits=(None, 1, 9, 17, 33)))
