"""parsing under a Debugger"""
import contextlib
import io

from props.common import *
from mo_parsing.core import ParserElement
from mo_parsing.debug import Debugger

REACH = ("ok", "fail", "action", "raised")
BOUNDS = (
    "hand-written skeletons over arbitrary sub-parsers and generated grammars of all operators (depth 3); silent: every string of up to 3 characters over Unicode; talking: every string of up to 2 characters over a small alphabet; "
    "also scanning, Debuggers in one another, actions that raise, and what actions, conditions and failure actions are called with"
)
ASSUMPTIONS = ["what a talking Debugger prints is not looked at"]
REAL = ParserElement._parse


def watched(ctx, p, s, silent, nested=False, scan=False):
    """outcome under a Debugger, and what it was told"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        with Debugger(silent=silent) as d:
            if nested:
                with Debugger(silent=True) as e:
                    got = attempt(ctx, p, s, scan)
                ctx.check(ParserElement._parse is not REAL, "outer Debugger is still there")
                ctx.check(e.parse_count > 0, "count")
            else:
                got = attempt(ctx, p, s, scan)
                ctx.check(d.parse_count > 0, "count")
                ctx.check(d.max_stack_depth > 0, "depth")
    ctx.check(ParserElement._parse is REAL, "Debugger is gone")
    if silent:
        ctx.equal(out.getvalue(), "", "silent")
    return got


def attempt(ctx, p, s, scan):
    if scan:
        return [gram.view(r) for r in p.scan_string(s)]
    try:
        r = p.parse(s)
    except gram.ParseException as cause:
        return ["fail", cause.loc, type(cause).__name__]
    return ["ok", gram.view(r)]


def h_debug(ctx, specs, n, alphabet=None, white=ref.WS, silent=True, nested=False, scan=False, before="", after=""):
    spec = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx) if has(spec, "stub") else None
    with Whitespace(white):
        p = gram.Group(gram.build(spec, {"table": table}))
        want = attempt(ctx, p, s, scan)
        got = watched(ctx, p, s, silent, nested, scan)
        after = attempt(ctx, p, s, scan)
    if has(spec, "act", "cond"):
        ctx.reach("action")
    ctx.reach("fail" if not want or want[0] == "fail" else "ok")
    ctx.observe("got", got)
    ctx.equal(got, want, "under a Debugger")
    ctx.equal(after, want, "after it")


def h_raise(ctx, spec, n, alphabet, kind):
    """what an action raises comes through, and the Debugger goes"""
    s = ctx.string("s", 0, n, alphabet)
    log = []

    def act(tokens, i, string):
        log.append((len(list(tokens)), i))
        if i > 0:
            if kind == "parse":
                raise gram.ParseException(tokens.type, i, string, "not here")
            raise ValueError("no")

    p = gram.Group(gram.ZeroOrMore(gram.MatchFirst([gram.build(spec) / act, gram.Literal("b")])))

    def run():
        del log[:]
        try:
            r = p.parse(s)
            out = ["ok", gram.view(r)]
        except gram.ParseException:
            out = ["fail"]
        except Exception:
            ctx.reach("raised")
            out = ["raised"]
        return out, list(log)

    want = run()
    with Debugger(silent=True):
        got = run()
    ctx.check(ParserElement._parse is REAL, "Debugger is gone")
    ctx.reach(want[0][0])
    ctx.equal(got, want, "under a Debugger")


def say(env, e, k, during=False):
    def act(tokens, i, string):
        env["log"].append(("act", k, len(list(tokens)), i))

    return gram.build(e, env).add_parse_action(act, callDuringTry=during)


def judge(env, e, k, during=False):
    def cond(tokens, i, string):
        env["log"].append(("cond", k, len(list(tokens)), i))
        return (len(list(tokens)) + i + k) % 3 > 0

    return gram.build(e, env).add_condition(cond, callDuringTry=during)


def onfail(env, e, k):
    def fail(*args):
        env["log"].append(("fail", k, [a for a in args if isinstance(a, int)], [type(a).__name__ for a in args if isinstance(a, Exception)]))

    return gram.build(e, env).copy().setFailAction(fail)


gram.BUILD["say"] = say
gram.BUILD["judge"] = judge
gram.BUILD["onfail"] = onfail


def h_calls(ctx, specs, n, alphabet, white, silent=True):
    """what is called, with what, in which order"""
    spec = ctx.choice("grammar", specs)
    s = ctx.string("s", 0, n, alphabet)
    log = []
    with Whitespace(white):
        p = gram.Group(gram.build(spec, {"log": log}))
        want = attempt(ctx, p, s, False)
        calls = list(log)
        del log[:]
        got = watched(ctx, p, s, silent)
    ctx.reach("fail" if want[0] == "fail" else "ok")
    if calls:
        ctx.reach("action")
    ctx.equal(got, want, "under a Debugger")
    ctx.equal(log, calls, "calls")


def h_leave(ctx, how, depth):
    """Debuggers in one another, left by an exception that is met `depth` further out"""
    s = ctx.string("s", 0, 2, "ab")

    def boom(t):
        raise ValueError("no")

    p = gram.OneOrMore(gram.Literal("b") | (gram.Literal("a") / boom if how == "action" else gram.Literal("a")))
    seen = []

    def inside(k):
        with Debugger(silent=True):
            mine = ParserElement._parse
            ctx.check(mine is not REAL, "Debugger is there")
            if k == 0:
                p.parse(s)
                if how == "after":
                    raise ValueError("after")
            elif k == depth:
                try:
                    inside(k - 1)
                except Exception:
                    seen.append(k)
            else:
                inside(k - 1)
            ctx.check(ParserElement._parse is mine, "this Debugger is still there")
            seen.append("left")

    try:
        inside(2)
    except Exception:
        seen.append("out")
    ctx.reach("raised" if "left" not in seen[:1] else "ok")
    ctx.check(ParserElement._parse is REAL, "Debuggers are gone")


class CallGen(Gen):
    def make(self, d, op=None):
        e = Gen.make(self, d, op)
        r = self.r
        if d and r.random() < 0.4 and e[0] not in ("fwd", "name") + LOOP:
            e = r.choice([["say", e, r.randint(0, 9), r.random() < 0.5], ["judge", e, r.randint(0, 9), r.random() < 0.5], ["onfail", e, r.randint(0, 9)]])
        return e


def SK(*x):
    return [
        ["act", ["oom", x[0]], "pos"], ["and", x[0], ["act", ["zom", x[1]], "pos"]], ["act", ["opt", x[0]], "pos"], ["act", ["group", ["and", x[0], x[1]]], "pos"], ["first", ["cond", x[0], "no"], x[1]],
        ["or", x[0], ["and", x[1], ["cond", x[2], "notfirst"]]], ["all", x[0], x[1]], ["and", ["not", x[0]], x[1]], ["and", ["ahead", x[0]], ["act", x[1], "pos"]], ["skip", x[0], True], ["name", ["act", ["and", x[0], x[1]], "wrap"], "x"],
        ["act", ["act", ["oom", x[0]], "wrap"], "pos"], ["fwd", ["act", x[0], "pos"]], ["comb", ["and", x[0], x[1]]], ["cond", ["zom", x[0]], "one"], ["act", ["cond", ["oom", x[0]], "notfirst"], "count"],
    ]


def tasks(tier):
    for spec in SK(*S):
        yield dict(harness="h_debug", params=dict(specs=[spec], n=2, alphabet="a ", white=" "))
    some = SK(["word", "ab"], L("a"), L("b"))
    for spec in some:
        yield dict(harness="h_debug", params=dict(specs=[spec], n=deep(tier, 4, 5), alphabet="ab ", white=" "))
        yield dict(harness="h_debug", params=dict(specs=[spec], n=2, alphabet="ab ", white=" ", silent=False))
        yield dict(harness="h_debug", params=dict(specs=[spec], n=3, alphabet="ab ", white=" ", nested=True))
        yield dict(harness="h_debug", params=dict(specs=[spec], n=3, alphabet="ab ", white=" ", scan=True))
    more = [["zom", ["first", ["group", x], ["any"]]] for x in some]
    for i in range(0, len(more), 4):
        for silent in (True, False):
            yield dict(harness="h_debug", params=dict(specs=more[i:i + 4], n=1, alphabet="ab ", white=" ", silent=silent, before="ab a\nb" * 12, after="\nab"))
    stop = ["sub", L("a"), L("b")]
    stops = [
        stop, ["first", stop, ["word", "ab"]], ["or", stop, ["word", "ab"]], ["and", ["opt", stop], ["zom", ["any"]]], ["zom", ["first", ["group", stop], ["any"]]], ["all", stop, ["opt", L("c")]], ["first", ["and", ["ahead", stop], ["any"]], ["any"]],
        ["and", ["skip", stop], ["any"]], ["act", ["first", ["fwd", stop], ["comb", ["and", L("a"), ["any"]]]], "pos"], ["first", ["sub", L("a"), ["cond", ["any"], "notfirst"], L("b")], ["any"]],
    ]
    for spec in stops:
        for silent in (True, False):
            yield dict(harness="h_debug", params=dict(specs=[spec], n=deep(tier, 3, 4), alphabet="abc ", white=" ", silent=silent))
        yield dict(harness="h_debug", params=dict(specs=[["first", ["and", L("c"), spec], ["any"]]], n=3, alphabet="abc ", white=" ", nested=True))
    # (what starts behind the place it was tried at)
    late = [["and", L("b"), ["act", ["ws", " ", [op, L("a")]], "pos"]] for op in ("zom", "oom")] + [["and", L("b"), ["act", ["group", ["ws", " ", ["many", ["char", "ab"], 1, 2]]], "pos"], ["zom", ["any"]]], ["and", L("b"), ["act", ["act", ["ws", " ", ["oom", L("a")]], "wrap"], "pos"]]]
    for silent in (True, False):
        yield dict(harness="h_debug", params=dict(specs=late, n=deep(tier, 4, 5), alphabet="ab ", white="", silent=silent))
    for i in range(0, len(stops), 4):
        yield dict(harness="h_calls", params=dict(specs=[["first", ["say", spec, 1, True], ["onfail", ["any"], 2]] for spec in stops[i:i + 4]] + [["first", ["onfail", spec, 1], ["any"]] for spec in stops[i:i + 4]], n=3, alphabet="abc", white=""))
    g = CallGen(31, [["word", "ab"], L("a"), L("b"), ["char", "ab"], ["any"]], ["and", "and", "first", "or", "all", "zom", "oom", "opt", "group", "comb", "not", "ahead", "skip", "supp"])
    specs = [e for e in (g.gen(3, g.r.choice(["and", "first", "or", "zom", "group", "skip", "opt"])) for _ in range(deep(tier, 400, 2500))) if has(e, "say", "judge", "onfail")]
    for i in range(0, len(specs), 15):
        yield dict(harness="h_calls", params=dict(specs=specs[i:i + 15], n=2 + i // 15 % 2, alphabet="ab ", white=[" ", ""][i // 15 % 2], silent=i // 15 % 3 > 0))
    for how in ("parse", "action", "after"):
        for depth in (1, 2, 3):
            yield dict(harness="h_leave", params=dict(how=how, depth=depth))
    specs = family(30, deep(tier, 240, 2400), ["and", "first", "or", "act", "cond", "name", "zom", "oom", "opt", "all", "comb", "skip", "fwd", "group"], 3)
    for i in range(0, len(specs), 12):
        yield dict(harness="h_debug", params=dict(specs=specs[i:i + 12], n=3, alphabet=["ab ", None][(i // 12) % 2], white=[ref.WS, " ", ""][(i // 12) % 3]))
    for spec in (L("a"), ["word", "a"], ["oom", L("a")], ["group", L("a")], ["opt", L("a")]):
        for kind in ("parse", "value"):
            yield dict(harness="h_raise", params=dict(spec=spec, n=4, alphabet="ab ", kind=kind))
