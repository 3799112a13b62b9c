"""a parse does not depend on the parses before it"""
from props.common import *

REACH = ("ok", "fail", "raised", "nested", "interleaved")
BOUNDS = (
    "histories of up to 3 or 4 parses by two parsers that share elements and whitespace, over two strings of up to 2 or 3 characters, that succeed, fail, are scans left unfinished, or end in an action's error; "
    "parses inside parse actions; interleaved scans; parser objects and elements alike; generated grammars"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS


class Boom(Exception):
    pass


def spec_pairs():
    a, b, w = L("a"), L("b"), ["word", "ab"]
    return [
        [["zom", ["and", a, b]], ["and", a, a]],
        [["first", ["and", a, b], ["and", a, a], L("ba")], ["or", a, L("ab")]],
        [["all", a, b], ["zom", ["first", a, b]]],
        [["skip", b], ["and", ["skip", b, True], a]],
        [["fwd", ["and", ["opt", a], b]], ["not", ["fwd", ["and", ["opt", a], b]]]],
        [["name", ["oom", w], "x"], ["group", ["oom", w]]],
        [["rec", "r", ["first", ["and", a, ["ref", "r"]], b]], ["opt", ["comb", ["and", a, b]]]],
        [["and", ["behind", a], ["any"]], ["and", ["any"], ["behind", a], ["any"]]],
        [["act", w, "wrap"], ["cond", ["and", a, ["zom", b]], "one"]],
        [["close", "ab", 1], ["and", ["opt", a, "D"], ["opt", b, ["E"]]]],
        [["many", a, 2, 3], ["many", w, 1, 2]],
        [["re", "a|b*"], ["and", ["re", "(?P<x>a)"], b]],
    ]


def h_history(ctx, specs, n, alphabet, steps, white, comment, objects):
    """two parsers, two strings, in any order"""
    texts = [ctx.string("s", 0, n, alphabet), ctx.string("t", 0, n, alphabet)]
    with Whitespace(white) as w:
        if comment:
            with whitespaces.NO_WHITESPACE:
                e = gram.build(comment, {})
            w.add_ignore(e)
        parsers = [gram.Group(gram.build(x, {})) for x in specs]
        if objects:
            # kept Parser objects, the way a program has them
            parsers = [p.finalize() for p in parsers]
        for k in range(steps):
            i = ctx.choice("parser%d" % k, 2)
            s = texts[ctx.choice("text%d" % k, 2)]
            parse_all = ctx.flag("all%d" % k)
            got = gram.attempt(parsers[i], s, parse_all)
            want = ref.attempt(["group", specs[i]], s, white, None, parse_all, [comment] if comment else None)
            ctx.reach(want[0])
            ctx.equal(got, want, "parse")


def h_events(ctx, n, alphabet, steps):
    """parses that do not end well are parses too"""
    texts = [ctx.string("s", 1, n, alphabet), ctx.string("t", 1, n, alphabet)]
    broken = [False]

    def action(toks):
        if broken[0]:
            raise Boom()
        return ["<"] + list(toks) + [">"]

    spec = ["zom", ["act", ["and", L("a"), ["opt", L("b")]], "wrap"]]
    with Whitespace(" "):
        e = gram.And([gram.Literal("a"), gram.Optional(gram.Literal("b"))], whitespaces.CURRENT) / action
        p = gram.Group(gram.ZeroOrMore(e))
        skip = gram.SkipTo(gram.Literal("b"))
    before = whitespaces.CURRENT
    for k in range(steps):
        s = texts[ctx.choice("text%d" % k, 2)]
        event = ctx.choice("event%d" % k, ["parse", "boom", "scan", "string", "skip", "error"])
        if event == "boom":
            broken[0] = True
            try:
                p.parse(s)
            except Exception:
                ctx.reach("raised")
            broken[0] = False
        elif event == "scan":
            for _ in p.scan_string(s):
                break
        elif event == "string":
            try:
                gram.NoMatch().parse(s)
            except gram.ParseException as cause:
                str(cause)
        elif event == "skip":
            gram.attempt(skip, s)
        elif event == "error":
            try:
                with Whitespace("b"):
                    gram.Literal("q").parse(s)
            except gram.ParseException:
                pass
        ctx.check(whitespaces.CURRENT is before, "context")
        got = gram.attempt(p, s)
        ctx.equal(got, ref.attempt(["group", spec], s, " "), "parse")


def h_nested(ctx, n, alphabet):
    """an action may parse, also with the parser it is part of"""
    s = ctx.string("s", 0, n, alphabet)
    other = ctx.string("t", 0, 2, alphabet)
    inner_spec = ["zom", ["and", L("a"), ["opt", L("b")]]]
    results = []
    depth = [0]
    which = ctx.choice("which", ["other", "itself", "text"])

    def action(toks):
        if depth[0]:
            return None
        depth[0] += 1
        try:
            ctx.reach("nested")
            if which == "itself":
                results.append(gram.attempt(whole, other))
            else:
                results.append(gram.attempt(inner, other if which == "other" else s))
        finally:
            depth[0] -= 1

    spec = ["zom", ["and", L("a"), ["opt", L("b")]]]
    with Whitespace(" "):
        inner = gram.Group(gram.build(inner_spec, {}))
        part = gram.Literal("a") / action
        whole = gram.Group(gram.ZeroOrMore(gram.And([part, gram.Optional(gram.Literal("b"))], whitespaces.CURRENT)))
        got = gram.attempt(whole, s)
    ctx.equal(got, ref.attempt(["group", spec], s, " "), "outer")
    want = ref.attempt(["group", inner_spec], s if which == "text" else other, " ")
    for r in results:
        ctx.equal(r, want, "inner")


def h_interleaved(ctx, n, alphabet, specs):
    """scans are lazy: what happens between the matches makes no difference"""
    texts = [ctx.string("s", 0, n, alphabet), ctx.string("t", 0, n, alphabet)]
    with Whitespace(" "):
        parsers = [gram.Group(gram.build(x, {})) for x in specs]
    alone = [[(gram.view(r), b, e) for r, b, e in p.scan_string(s)] for p, s in zip(parsers, texts)]
    scans = [p.scan_string(s) for p, s in zip(parsers, texts)]
    got = [[], []]
    open_ = [0, 1]
    k = 0
    while open_:
        i = open_[ctx.choice("turn%d" % k, len(open_))] if k < 5 else open_[0]
        k += 1
        ctx.reach("interleaved")
        for r, b, e in scans[i]:
            got[i].append((gram.view(r), b, e))
            break
        else:
            open_.remove(i)
        if k < 3 and ctx.flag("parse%d" % k):
            gram.attempt(parsers[1 - i], texts[i])
    ctx.equal(got, alone, "scan")


def h_often(ctx, specs, n, alphabet, white, times):
    """after many other parses"""
    spec = ctx.choice("grammar", specs)
    s = ctx.string("s", 0, n, alphabet)
    with Whitespace(white):
        p = gram.Group(gram.build(spec, {}))
        if ctx.flag("object"):
            p = p.finalize()
        first = gram.attempt(p, s)
        for i in range(times):
            gram.attempt(p, ("ab" * i)[i // 2:] + " a" * (i % 3))
        again = gram.attempt(p, s)
    want = ref.attempt(["group", spec], s, white)
    ctx.reach(want[0])
    ctx.equal(first, want, "first")
    ctx.equal(again, want, "later")


def h_generated(ctx, specs, n, alphabet, white):
    """again, after another string, is the same"""
    spec = ctx.choice("grammar", specs)
    s, t = ctx.string("s", 0, n, alphabet), ctx.string("t", 0, 1, alphabet)
    with Whitespace(white):
        p = gram.Group(gram.build(spec, {}))
        if ctx.flag("object"):
            p = p.finalize()
        got = [gram.attempt(p, x) for x in (s, t, s)]
    want = [ref.attempt(["group", spec], x, white) for x in (s, t)]
    ctx.reach(want[0][0])
    ctx.equal(got, want + want[:1], "again")


def h_contexts(ctx, steps, alphabet, first):
    """the same settings entered, left and entered again, also by an error"""
    s = "a" + ctx.string("s", 0, 1, alphabet) + "b"
    objects = [Whitespace(" "), Whitespace("b")]
    white = [ref.WS]
    left = [steps]
    made = []

    def make():
        ctx.equal(whitespaces.CURRENT.white_chars, "".join(sorted(white[-1])), "current whitespace")
        made.append((gram.And([gram.Literal("a"), gram.Literal("b")], whitespaces.CURRENT), white[-1]))

    def run():
        while left[0]:
            k = left[0]
            left[0] -= 1
            step = ctx.choice("step%d" % k, ["leave", "raise", "with0", "with1", "use0", "use1"]) if k < steps else first
            if step == "leave":
                return
            if step == "raise":
                ctx.reach("raised")
                raise Boom()
            before = whitespaces.CURRENT
            w = objects[int(step[-1])]
            white.append([" ", "b"][int(step[-1])])
            try:
                if step[0] == "w":
                    with w as c:
                        ctx.check(whitespaces.CURRENT is c, "entered")
                        make()
                        run()
                else:
                    w.use()
                    try:
                        make()
                        run()
                    finally:
                        w.release()
            except Boom:
                pass
            white.pop()
            ctx.check(whitespaces.CURRENT is before, "context restored")
            make()

    with Whitespace(ref.WS):
        try:
            run()
        except Boom:
            pass
        for p, w in made:
            ctx.equal(gram.attempt(p, s)[0], ref.attempt(["and", L("a"), L("b")], s, w)[0], "whitespace of the element")


def tasks(tier):
    for first in ("with0", "use0"):
        yield dict(harness="h_contexts", params=dict(steps=deep(tier, 5, 6), alphabet="b \t", first=first))
    for k, specs in enumerate(spec_pairs()):
        comment = ["lit", "#"] if k % 3 == 2 else None
        yield dict(harness="h_history", params=dict(specs=specs, n=deep(tier, 2, 2), alphabet="ab#" if comment else "ab ", steps=deep(tier, 2, 3), white=" ", comment=comment, objects=k % 2 == 1))
    yield dict(harness="h_events", params=dict(n=2, alphabet="ab ", steps=deep(tier, 2, 3)))
    yield dict(harness="h_nested", params=dict(n=3, alphabet="ab "))
    for specs in ([L("a"), ["and", L("a"), L("b")]], [["word", "ab"], ["opt", L("a")]], [["first", L("b"), ["and", L("a"), L("b")]], ["skip", L("b"), True]]):
        yield dict(harness="h_interleaved", params=dict(n=deep(tier, 2, 3), alphabet="ab ", specs=specs))
    ops = [o for o in OPS if o != "behind"]
    specs = family(18, deep(tier, 120, 2000), OPS, 3, LEAVES, ops)
    for i in range(0, len(specs), 10):
        yield dict(harness="h_generated", params=dict(specs=specs[i:i + 10], n=2, alphabet="ab \n" if i % 20 else "a1b", white=[ref.WS, " ", ""][i // 10 % 3]))
    # long histories
    many = [["zom", ["first", ["and", L("a"), ["opt", L("b")]], L("b")]], ["group", ["oom", ["name", ["word", "ab"], "x"]]], ["skip", ["and", L("b"), L("a")], True], ["all", ["zom", L("a")], ["opt", L("b")]], ["or", ["word", "ab"], ["and", L("a"), L("b")]]]
    for white in (" ", ""):
        yield dict(harness="h_often", params=dict(specs=many, n=2, alphabet="ab ", white=white, times=deep(tier, 40, 150)))
