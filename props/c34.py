"""error stops: after `a -`, what follows has to match"""
from props.common import *
from mo_parsing.debug import Debugger

REACH = ("ok", "fail", "stop", "scanned", "stopped scan", "nested")
BOUNDS = (
    "hand-written skeletons of - below every operator over arbitrary sub-parsers, and generated grammars (depth 3 and 4) with -; every string of up to 3 characters over Unicode and up to 5 over small alphabets; "
    "parse, parse_all, matches and scan_string, with and without a Debugger, and parses in actions of other parses"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["- directly inside of ~ (which may be answered by a regular expression) or behind a lookbehind", "the location of the exception is only known to be no less than where the part that did not match was tried"]


def outcome(ctx, f):
    try:
        return f()
    except gram.ParseSyntaxException as cause:
        return ["stop", cause.loc]
    except gram.ParseException:
        return ["fail"]


def expected(spec, s, white, table, parse_all=False):
    try:
        return ref.attempt(spec, s, white, table, parse_all)
    except ref.Stop as stop:
        return ["stop", stop.at]


def same(ctx, got, want, label):
    if want[0] == "stop" and got[0] == "stop":
        ctx.check(got[1] >= want[1], label + ": location", got=got, want=want)
    else:
        ctx.equal(got, want, label)


def h_stop(ctx, specs, n, alphabet=None, white=ref.WS, parse_all=False, debug=False, before="", after=""):
    spec = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx) if has(spec, "stub") else None
    with Whitespace(white):
        p = gram.Group(gram.build(spec, {"table": table}))

        def run():
            return outcome(ctx, lambda: ["ok", gram.view(p.parse(s, parse_all=parse_all))])

        if debug:
            with Debugger(silent=True):
                got = run()
        else:
            got = run()
        want = expected(["group", spec], s, white, table, parse_all)
        ctx.reach(want[0])
        ctx.observe("got", got[0])
        same(ctx, got, want, "parse")
        ctx.equal(p.matches(s, parse_all=parse_all), want[0] == "ok", "matches")


def h_scan(ctx, specs, n, alphabet, white, before="", after=""):
    """the scan gives what is there before the error, then raises"""
    spec = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    with Whitespace(white):
        p = gram.Group(gram.build(spec))
        got, stopped = [], False
        try:
            for t, b, e in p.scan_string(s):
                got.append([t.as_list(), b, e])
        except gram.ParseSyntaxException:
            stopped = True
        again = outcome(ctx, lambda: ["ok", gram.view(p.parse("", parse_all=False))])
    want, stop = [], False
    r = ref.Ref(s, white)
    end = 0
    while end <= len(s):
        start = r.skip(end)
        try:
            m = r.run(["group", spec], start)
        except ref.Stop:
            stop = True
            break
        if m is None:
            end = start + 1
        else:
            want.append([ref.view(m)["list"], m.start, m.end])
            end = m.end if m.end > start else start + 1
    ctx.reach("stopped scan" if stop else "scanned")
    ctx.equal(got, want, "matches")
    ctx.equal(stopped, stop, "stopped")
    same(ctx, again, expected(["group", spec], "", white, None), "afterwards")


def h_nested(ctx, n, alphabet):
    """a stop in the parse of an action is a failure of that parse alone"""
    s = ctx.string("s", 0, n, alphabet)
    inner = gram.Group(gram.Literal("a") - gram.Literal("b"))
    log = []

    def act(tokens):
        try:
            inner.parse(tokens[0], parse_all=True)
            log.append("ok")
        except gram.ParseSyntaxException:
            log.append("stop")
        except gram.ParseException:
            log.append("fail")

    p = gram.Group(gram.ZeroOrMore(gram.Word("ab") / act | gram.Literal("c")))
    with Whitespace(" "):
        got = gram.attempt(p, s, True)
        words, ok, i = [], True, 0
        while i < len(s):
            if s[i] == " " or s[i] == "c":
                i += 1
            elif s[i] == "a" or s[i] == "b":
                j = i
                while j < len(s) and (s[j] == "a" or s[j] == "b"):
                    j += 1
                words.append(s[i:j])
                i = j
            else:
                ok = False
                break
    ctx.reach("nested")
    ctx.equal(got[0], "ok" if ok else "fail", "outer parse")
    ctx.equal(log, ["ok" if w == "ab" else "stop" if w[0] == "a" and w[1:2] != "b" else "fail" for w in words], "inner parses")


def SK(p, q, r):
    g = ["sub", p, q]
    return [
        g, ["sub", p, q, r], ["plus", g, r], ["plus", p, ["sub", q, r]], ["first", g, r], ["first", ["sub", p, q], ["plus", p, r]], ["first", r, g], ["or", g, r], ["or", r, g], ["all", g, r], ["opt", g], ["zom", g], ["oom", g], ["times", g, 2],
        ["plus", ["opt", g], r], ["plus", ["zom", g], r], ["group", g], ["plus", ["group", g], r], ["first", ["group", g], p], ["supp", g], ["first", ["supp", g], p], ["comb", g], ["first", ["comb", g], r], ["name", g, "x"], ["first", ["name", g, "x"], r],
        ["plus", ["ahead", g], p], ["first", ["ahead", g], p], ["skip", g], ["skip", g, True], ["skip", p, False, g], ["skip", p, False, None, g], ["fwd", g], ["first", ["fwd", g], r], ["first", ["act", g, "wrap"], r], ["first", ["cond", g, "one"], r], ["first", ["cond", g, "no"], r],
        ["rec", "f", ["first", ["sub", p, ["ref", "f"], q], r]], ["sub", p, ["opt", q], r], ["sub", ["opt", p], q], ["first", ["sub", ["opt", p], q], r], ["sub", p, ["not", q]], ["first", ["sub", p, ["not", q]], p], ["sub", p, ["first", q, ["sub", r, q]]],
        ["first", ["sub", p, ["cond", q, "notfirst"]], p], ["zom", ["first", g, r]], ["all", ["opt", g], ["zom", r]], ["xor", ["sub", p, q], ["sub", p, r]], ["bar", ["plus", p, ["group", ["sub", q, r]]], p],
    ]


def ok(spec):
    if not isinstance(spec, list):
        return True
    if spec and spec[0] in ("not", "behind") and has(spec, "sub"):
        return False
    return all(ok(x) for x in spec)


def make(seed, count, depth):
    g = Gen(seed, PLAIN + [["empty"], ["lend"], ["word", "ab", None, 1, 2]], ["sub"] * 8 + [x for x in OPS if x != "behind"])
    out = []
    while len(out) < count:
        e = g.gen(depth, g.r.choice(["sub", "first", "first", "or", "zom", "opt", "all", "and", "bar", "skip", "oom"]))
        if has(e, "sub") and ok(e):
            out.append(e)
    return out


def tasks(tier):
    for spec in SK(*S[:3]):
        if spec[0] != "rec" and spec != ["oom", ["sub", S[0], S[1]]] and spec[0] != "times":
            yield dict(harness="h_stop", params=dict(specs=[spec], n=2, alphabet="a ", white=" "))
    for spec in SK(L("a"), ["word", "ab"], L("c")) + SK(["kw", "a"], L("b"), L("a")):
        yield dict(harness="h_stop", params=dict(specs=[spec], n=deep(tier, 4, 6), alphabet="abc ", white=" "))
        yield dict(harness="h_stop", params=dict(specs=[spec], n=3, alphabet="abc ", white=" ", debug=True))
        yield dict(harness="h_stop", params=dict(specs=[spec], n=3, alphabet="abc ", white=" ", parse_all=True))
    scans = [e for e in SK(L("a"), L("b"), L("c")) if not has(e, "rec", "ref")]
    for i in range(0, len(scans), 8):
        yield dict(harness="h_scan", params=dict(specs=scans[i:i + 8], n=deep(tier, 4, 5), alphabet="abc ", white=" "))
    yield dict(harness="h_nested", params=dict(n=deep(tier, 4, 5), alphabet="abc "))
    specs = make(34, deep(tier, 240, 2400), 3)
    for i in range(0, len(specs), 12):
        yield dict(harness="h_stop", params=dict(specs=specs[i:i + 12], n=3, alphabet=["ab ", None][(i // 12) % 2], white=[ref.WS, " ", ""][(i // 12) % 3], parse_all=bool(i // 12 % 5 == 0)))
    if tier == "thorough":
        specs = make(341, 800, 4)
        for i in range(0, len(specs), 8):
            yield dict(harness="h_stop", params=dict(specs=specs[i:i + 8], n=4, alphabet="ab ", white=" "))
    # among alternatives that are looked up by how they start
    def looked(op, stops):
        parts = []
        for i, w in enumerate(["aa", "ab", "ca", "cb"]):
            parts.append(["sub" if i in stops else "plus", L(w), L("abca"[i])])
        return [op] + parts

    for op in ("or", "first"):
        for stops in ((0,), (2,), (0, 1), (1, 3), (0, 1, 2, 3), ()):
            e = looked(op, stops)
            yield dict(harness="h_stop", params=dict(specs=[e, ["first", e, ["word", "abc"]], ["or", e, ["word", "abc"]], ["opt", e], ["zom", ["group", e]], [op, L("c"), e[1], e[2], ["word", "ab"], e[3], e[4]]], n=deep(tier, 4, 5), alphabet="abc", white=""))
    # after many
    unit = ["and", ["sub", L("a"), L("b")], ["opt", L("c")]]
    for e in (unit, ["group", unit], ["first", ["sub", L("a"), L("b")], L("c")], ["sub", ["first", L("a"), L("c")], L("b")], ["fwd", ["sub", L("a"), L("b"), ["opt", L("c")]]]):
        for before in ("abc" * 12, "ab" * 40, "ab " * 70):
            for top in (["zom", e], ["oom", e], ["and", ["zom", e], ["zom", ["any"]]]):
                yield dict(harness="h_stop", params=dict(specs=[top], n=3, alphabet="abc ", white=" ", before=before, after="ab"))
            yield dict(harness="h_scan", params=dict(specs=[e], n=3, alphabet="abc ", white=" ", before=before, after="ab"))
