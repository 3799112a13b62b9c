"""parse actions and conditions"""
from props.common import *
from mo_parsing.exceptions import ParseException
from mo_parsing.results import ParseResults

REACH = ("ok", "fail", "called", "rejected")
BOUNDS = (
    "actions of every signature (0..3 arguments, any number, methods, callable objects, classes) and effect (None, list, tuple, text, falsy values, results, empty, failure), constants, "
    "conditions of truthy and falsy answers, up to three in a row, on hand-written skeletons over arbitrary sub-parsers and on generated grammars (depth 3); results that end anywhere within the text; fatal conditions and actions that raise below |, ^, optional and repeated parts; input: every string of up to 3 characters"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["how often actions run inside Or, MatchAll and lookaround is not compared, what they give is"]


class Method(object):
    def __init__(self, f):
        self.f = f

    def three(self, toks, i, s):
        return self.f(toks, i, s)

    def one(self, toks):
        return self.f(toks)

    def __call__(self, toks, i, s):
        return self.f(toks, i, s)


class Callable1(Method):
    def __call__(self, toks):
        return self.f(toks)


SIGNATURES = {
    "0": (0, lambda f: lambda: f()),
    "1": (1, lambda f: lambda toks: f(toks)),
    "2": (2, lambda f: lambda toks, i: f(toks, i)),
    "3": (3, lambda f: lambda toks, i, s: f(toks, i, s)),
    "*": (3, lambda f: lambda *args: f(*args)),
    "kw": (1, lambda f: lambda toks, **kw: f(toks)),
    "method3": (3, lambda f: Method(f).three),
    "method1": (1, lambda f: Method(f).one),
    "object3": (3, lambda f: Method(f)),
    "object1": (1, lambda f: Callable1(f)),
    "static": (2, lambda f: staticmethod(lambda toks, i: f(toks, i))),
}


def rebuilt(toks):
    return ParseResults(toks.type, toks.start, toks.end, list(toks) + ["R"], [])


def reject(toks):
    raise ParseException(toks.type, toks.start, "")


# what the function gives, and what then are the tokens (None: as they were)
EFFECTS = {
    "none": (lambda toks: None, lambda items: None),
    "list": (lambda toks: ["p", "q"], lambda items: ["p", "q"]),
    "tuple": (lambda toks: ("p", "q"), lambda items: ["p", "q"]),
    "text": (lambda toks: "t", lambda items: ["t"]),
    "zero": (lambda toks: 0, lambda items: [0]),
    "false": (lambda toks: False, lambda items: [False]),
    "empty text": (lambda toks: "", lambda items: [""]),
    "empty": (lambda toks: [], lambda items: []),
    "same": (lambda toks: toks, lambda items: None),
    "more": (rebuilt, lambda items: list(items) + ["R"]),
    "reject": (reject, lambda items: "reject"),
}
# effects that can do without the tokens
BLIND = ("none", "list", "tuple", "text", "zero", "false", "empty text", "empty")
ANSWERS = {
    "True": True, "False": False, "1": 1, "0": 0, "text": "x", "no text": "", "list": ["x"], "no list": [], "None": None, "tuple": (0,), "no tuple": (),
}


class Log(object):
    def __init__(self):
        self.calls = []


def seen(x):
    return gram.view(x)["items"] if isinstance(x, ParseResults) else ref.view(x)["items"]


def make_do(env, e, tag, sig, effect):
    args, wrap = SIGNATURES[sig]
    log = env["log"]

    def f(*a):
        log.calls.append([tag, len(a)] + ([seen(a[0])] if a else []) + list(a[1:2]) + [a[2] if len(a) > 2 else ""])
        return EFFECTS[effect][0](a[0] if a else None)

    e = gram.build(e, env)
    return e / wrap(f) if env.get("slash") else e.add_parse_action(wrap(f))


def make_ask(env, e, tag, sig, answer):
    args, wrap = SIGNATURES[sig]
    log = env["log"]

    def f(*a):
        log.calls.append([tag, len(a)] + ([seen(a[0])] if a else []) + list(a[1:2]) + [a[2] if len(a) > 2 else ""])
        return ANSWERS[answer]

    return gram.build(e, env).add_condition(wrap(f))


def make_const(env, e, value):
    return gram.build(e, env) / value


gram.BUILD["do"] = make_do
gram.BUILD["ask"] = make_ask
gram.BUILD["put"] = make_const


class ActRef(ref.Ref):
    def __init__(self, *a):
        ref.Ref.__init__(self, *a)
        self.log = []

    def call(self, tag, sig, r):
        n = SIGNATURES[sig][0]
        self.log.append([tag, n] + ([ref.view(r)["items"]] if n else []) + ([r.start] if n > 1 else []) + [self.s if n > 2 else ""])

    def r_do(self, env, i, spec, tag, sig, effect):
        r = self.annotated(spec, i, env)
        if r is None or not self.do:
            return r
        self.call(tag, sig, r)
        out = EFFECTS[effect][1](list(ref.flat(r)))
        if out == "reject":
            return None
        if out is None:
            return r
        return ref.N(r.kind, r.start, r.end, out, r.name, r.optional)

    def r_ask(self, env, i, spec, tag, sig, answer):
        r = self.annotated(spec, i, env)
        if r is None or not self.do:
            return r
        self.call(tag, sig, r)
        return r if ANSWERS[answer] else None

    def r_put(self, env, i, spec, value):
        r = self.annotated(spec, i, env)
        if r is None or not self.do:
            return r
        return ref.N(r.kind, r.start, r.end, [value], r.name, r.optional)


def run(ctx, spec, s, white, table, calls=True, slash=False):
    log = Log()
    with Whitespace(white):
        got = gram.attempt(gram.Group(gram.build(spec, {"table": table, "log": log, "slash": slash})), s)
    r = ActRef(s, white, table)
    x = r.run(["group", spec], r.skip(0))
    want = ["ok", ref.view(x)] if x else ["fail"]
    ctx.reach(want[0])
    ctx.reach("called" if r.log else "none called")
    if x is None and r.log:
        ctx.reach("rejected")
    ctx.observe("got", got)
    ctx.equal(got, want, "result")
    if calls:
        ctx.equal(log.calls, r.log, "calls")


def h_signature(ctx, n, alphabet):
    """arguments by signature"""
    s = ctx.string("s", 0, n, alphabet)
    sig = ctx.choice("signature", sorted(SIGNATURES))
    effect = ctx.choice("effect", sorted(EFFECTS if sig != "0" else BLIND))
    e = ctx.choice("element", [["word", "ab"], ["group", ["any"]], ["zom", L("a")], ["and", L("a"), ["opt", L("b")]], ["name", ["any"], "x"], ["supp", L("a")]])
    run(ctx, ["and", ["opt", L("b")], ["do", e, "A", sig, effect]], s, " ", None, True, ctx.flag("slash"))


def h_answers(ctx, n, alphabet):
    """conditions: true or false as Python has it"""
    s = ctx.string("s", 0, n, alphabet)
    sig = ctx.choice("signature", sorted(SIGNATURES))
    a, b = ctx.choice("a", sorted(ANSWERS)), ctx.choice("b", ["True", "None", "same"])
    e = ctx.choice("element", [["word", "ab"], ["opt", ["any"]], ["group", L("a")]])
    spec = ["ask", e, "A", sig, a]
    if b != "same":
        spec = ["ask", spec, "B", "1", b]
    run(ctx, ["and", ["opt", L("b")], ["first", spec, L("a")]], s, " ", None)


def h_row(ctx, n, alphabet):
    """in the order given, each sees what the one before left"""
    s = ctx.string("s", 0, n, alphabet)
    spec = ctx.choice("element", [["word", "ab"], ["and", L("a"), ["group", ["opt", L("b")]]], ["oom", ["any"]]])
    for k in range(3):
        what = ctx.choice("what%d" % k, ["none", "list", "more", "empty", "reject", "yes", "no", "K", "group", "name"])
        if what in ("yes", "no"):
            spec = ["ask", spec, "C%d" % k, "3", {"yes": "1", "no": "0"}[what]]
        elif what == "K":
            spec = ["put", spec, "K%d" % k]
        elif what == "group":
            spec = ["group", spec]
        elif what == "name":
            spec = ["name", spec, "x"]
        else:
            spec = ["do", spec, "A%d" % k, "3", what]
    run(ctx, spec, s, "", None)


def h_many(ctx, n):
    """one call given several functions is as several calls; constants of every kind"""
    s = ctx.string("s", 0, n, "ab")
    log = []
    with Whitespace(""):
        e = gram.Word("ab")
        kind = ctx.choice("kind", ["actions", "conditions", "constants", "clear", "message", "fatal", "refuse", "break"])
        if kind == "actions":
            p = e.add_parse_action(lambda toks: ["1"] + list(toks), lambda toks: ["2"] + list(toks))
            want = ["2", "1", s]
        elif kind == "conditions":
            no = ctx.choice("no", 3)
            p = e.add_condition(lambda: no != 1, lambda: no != 2)
            want = [s] if no == 0 else None
        elif kind == "constants":
            c = ctx.choice("constant", ["K", "", 0, 1.5, True, False, ("a", "b"), {"a": 1}])
            p = e / c
            want = [c]
        elif kind == "clear":
            p = (e / (lambda: "K")).add_condition(lambda: False).clear_parse_action()
            want = [s]
        elif kind in ("fatal", "refuse", "break"):
            # what is fatal, or is broken, is not taken for "no match"
            def act(tokens, start, string):
                if len(tokens[0]) > 1:
                    if kind == "break":
                        raise ValueError("broken")
                    raise ParseException(e, start, string)

            if kind == "fatal":
                one = e.add_condition(lambda t: len(t[0]) < 2, message="not that one", fatal=True)
            else:
                one = e.add_parse_action(act)
            other = gram.Word("ab") / "other"
            form = ctx.choice("form", ["first", "or", "optional", "many"])
            p = {
                "first": lambda: one | other,
                "or": lambda: one ^ other,
                "optional": lambda: gram.Optional(one) + gram.Optional(other),
                "many": lambda: gram.ZeroOrMore(one) + gram.Optional(other),
            }[form]()
            want = ["other"] if kind == "refuse" else "stop"
            if len(s) < 2:
                want = [s]
            try:
                got = list(p.parse(s, parse_all=True))
            except ParseException:
                got = None
            except Exception as cause:
                if type(cause).__module__.startswith("symex"):
                    raise
                got = "stop"
            ctx.reach("stop" if got == "stop" else "fail" if got is None else "ok")
            if len(s) == 0:
                want = None if form in ("first", "or") else []
            ctx.equal(got, want, "result")
            return
        else:
            p = e.add_condition(lambda: False, message="not that one")
            want = None
        try:
            got = p.parse(s, parse_all=True)
            got = list(got)
        except ParseException as cause:
            got = None
            if kind == "message" and s:
                ctx.check("not that one" in cause.message, "message")
        ctx.reach("fail" if got is None else "ok")
        ctx.equal(got, want if s else None, "result")


def h_same(ctx, n, depth, form):
    """what returns what it was given, or part of it, is of no matter, however deep"""
    s = "(" * depth + ctx.string("s", 1, n, "ab()") + ")" * depth

    def make(action):
        f = gram.Forward()
        group = (lambda x: x) if form == "plain" else gram.Group
        e = gram.Literal("(") + f + ")" if form == "plain" else gram.Literal("(").suppress() + f + gram.Literal(")").suppress()
        e = group(e) | gram.Word("ab")
        f << (e / action if action else e)
        return f

    def outcome(p):
        try:
            r = p.parse(s)
        except ParseException:
            return "fail", 0
        return ["ok", r.as_list()], len(r.failures)

    action = (lambda t: t) if ctx.flag("whole") or form == "plain" else lambda t: t[0] if isinstance(t[0], ParseResults) else t
    with Whitespace(""):
        want, few = outcome(make(None))
        got, many = outcome(make(action))
    ctx.reach("ok" if want != "fail" else "fail")
    ctx.equal(got, want, "result")
    # (one more at each level would not matter, twice as many would)
    ctx.check(many <= 2 * few + 4 * depth, "failures kept", without=few, kept=many)


def h_end(ctx, n, form):
    """an action can not take more of the text than was matched, nor give any of it back"""
    s = ctx.string("s", 1, n, "ab01")
    k = ctx.choice("length", n + 1)
    toks = ctx.choice("tokens", [[], ["t"]])

    def act(t, i, string):
        return ParseResults(t.type, t.start, t.start + k, list(toks), [])

    with Whitespace(""):
        e = gram.Word("ab") / act
        e = {"and": lambda: e, "group": lambda: gram.Group(e), "forward": lambda: gram.Forward(e), "optional": lambda: gram.Optional(e), "name": lambda: e("x"), "first": lambda: e | gram.Literal("a") | gram.Literal("b"), "or": lambda: e ^ gram.Literal("0")}[form]()
        p = e + gram.ZeroOrMore(gram.AnyChar())
        try:
            got = p.parse(s).as_list()
        except ParseException:
            got = None
        except Exception as cause:
            if type(cause).__module__.startswith("symex"):
                raise
            got = "stop"
    size = 0
    while size < len(s) and s[size] in "ab":
        size += 1
    ctx.assume(k <= len(s))
    if not size:
        want = list(s) if form in ("optional",) else None
        if form == "or" and s[0] == "0":
            want = list(s)
    elif k != size:
        want = "stop"
    else:
        ctx.reach("called")
        want = ([list(toks)] if form == "group" else list(toks)) + list(s[k:])
    ctx.reach("stop" if want == "stop" else "fail" if want is None else "ok")
    ctx.equal(got, want, "result")


def h_builtin(ctx, n):
    """builtin functions take the tokens"""
    s = ctx.string("s", 1, n, "12")
    name, f = ctx.choice("function", [("len", len), ("sum", sum), ("min", min), ("max", max), ("list", list), ("sorted", sorted), ("any", any), ("all", all), ("tuple", tuple)])
    with Whitespace(""):
        digit = gram.Char("12") / (lambda toks: {"1": 1, "2": 2}[toks[0]])
        p = gram.Literal("x") + (gram.OneOrMore(digit) / f if ctx.flag("slash") else gram.OneOrMore(digit).add_parse_action(f))
        got = p.parse("x" + s).as_list()
    want = f([{"1": 1, "2": 2}[c] for c in s])
    ctx.equal(got, ["x"] + (list(want) if isinstance(want, (list, tuple)) else [want]), "result")


def h_try(ctx, n):
    """lookahead does not run what it looks at, unless told to"""
    s = ctx.string("s", 0, n, "ab")
    during = ctx.flag("during")
    how = ctx.choice("how", ["not", "skip"])
    kind = ctx.choice("kind", ["action", "condition", "both"])
    calls = []
    answer = ctx.flag("answer")
    with Whitespace(""):
        e = gram.Literal("a")
        if kind in ("action", "both"):
            e = e.add_parse_action(lambda: calls.append(1), callDuringTry=during)
        if kind in ("condition", "both"):
            e = e.add_condition(lambda: answer, callDuringTry=during and kind == "condition")
        p = gram.NotAny(e) + gram.AnyChar() if how == "not" else gram.SkipTo(e) + gram.AnyChar()
        got = gram.attempt(p, s)
    stops = [c == "a" and (not during or answer or kind == "action") for c in s]
    tried = sum(1 for c in s if c == "a")
    if how == "not":
        ctx.check((got[0] == "ok") == bool(s and not stops[0]), "not")
        if kind != "condition":
            ctx.equal(len(calls), int(bool(during and s and s[0] == "a")), "calls")
    else:
        first = stops.index(True) if True in stops else None
        ctx.check((got[0] == "ok") == (first is not None), "skip")
        if first is not None:
            ctx.equal(got[1]["list"], ([s[:first]] if first else []) + ["a"], "skipped")


def h_tries(ctx, n, steps):
    """once any of the actions is to be called during tries, all of them are"""
    s = ctx.string("s", 0, n, "ab")
    calls, want = [], []
    always, during = True, False
    row = []
    with Whitespace(""):
        e = gram.Literal("a")
        for k in range(steps):
            how = ctx.choice("how%d" % k, ["action", "slash", "condition", "name"])
            if how == "name":
                e = e("x")
                continue
            now = how != "slash" and ctx.flag("during%d" % k)
            during = during or now
            if how == "condition":
                yes = ctx.flag("answer%d" % k)
                e = e.add_condition(answering(calls, k, yes), callDuringTry=now)
                row.append((k, yes))
            else:
                f = answering(calls, k, None)
                e = e / f if how == "slash" else e.add_parse_action(f, callDuringTry=now)
                row.append((k, True))
        p = gram.NotAny(e) + gram.AnyChar() if ctx.flag("not") else gram.SkipTo(e) + gram.Literal("a")
        got = gram.attempt(p, s)
    matches = [c == "a" for c in s]
    if during:
        matches = [m and all(yes for _, yes in row) for m in matches]
    tries = list(s) if isinstance(p.exprs[0], gram.SkipTo) else list(s[:1])
    for c, m in zip(tries, matches):
        if during and c == "a":
            for k, yes in row:
                want.append(k)
                if not yes:
                    break
        if m:
            break
    if isinstance(p.exprs[0], gram.SkipTo):
        ctx.check((got[0] == "ok") == (True in matches), "skip")
    else:
        ctx.check((got[0] == "ok") == bool(s and not matches[0]), "not")
    ctx.reach("called" if want else "none called")
    ctx.equal(calls, want, "calls")


def answering(calls, k, answer):
    def f(toks, i, s):
        calls.append(k)
        return answer

    return f


def h_generated(ctx, specs, n, alphabet, white, calls, before="", after=""):
    spec = ctx.choice("grammar", specs)
    run(ctx, spec, before + ctx.string("s", 0, n, alphabet) + after, white, None, calls)


def h_stub(ctx, spec, n, alphabet=None):
    run(ctx, spec, ctx.string("s", 0, n, alphabet), " ", gram.Table(ctx))


def SK(p, q, r):
    a, b, c = ["do", p, "A", "3", "more"], ["do", q, "B", "3", "list"], ["do", r, "C", "3", "reject"]
    d, e = ["ask", p, "D", "3", "True"], ["ask", q, "E", "3", "False"]
    return [
        ["and", a, b], ["first", c, a], ["first", ["and", a, c], ["and", a, b]], ["zom", a], ["zom", c], ["do", ["zom", a], "Z", "3", "more"], ["opt", e], ["opt", b], ["group", a], ["do", ["group", a], "G", "3", "more"],
        ["and", d, ["opt", e], b], ["first", e, d, a], ["do", ["first", a, b], "F", "3", "more"], ["comb", a], ["supp", a], ["do", ["supp", a], "S", "3", "list"], ["name", a, "x"], ["do", ["name", p, "x"], "N", "3", "more"],
        ["fwd", a], ["do", ["fwd", a], "W", "3", "more"], ["many", a, 1, 2], ["many", d, 0, 2], ["do", ["opt", a], "O", "3", "more"], ["ask", ["zom", a], "Q", "3", "True"], ["put", ["and", a, b], "K"], ["and", ["put", a, "K"], b],
        ["put", ["do", ["fwd", p], "W", "3", "more"], "K"], ["ask", ["do", ["fwd", a], "W", "3", "more"], "Q", "3", "True"], ["name", ["do", ["fwd", p], "W", "3", "more"], "x"], ["do", ["ask", ["do", ["fwd", p], "W", "3", "more"], "Q", "3", "True"], "V", "3", "list"],
        ["name", ["ask", ["do", ["fwd", ["group", p]], "W", "3", "none"], "Q", "3", "True"], "x"], ["and", ["put", ["fwd", a], "K"], ["do", ["fwd", ["fwd", b]], "W", "3", "more"]],
    ]


def tasks(tier):
    yield dict(harness="h_signature", params=dict(n=deep(tier, 2, 3), alphabet="ab "))
    yield dict(harness="h_answers", params=dict(n=deep(tier, 2, 3), alphabet="ab"))
    yield dict(harness="h_row", params=dict(n=2, alphabet="ab"))
    yield dict(harness="h_many", params=dict(n=2))
    yield dict(harness="h_builtin", params=dict(n=3))
    for form in ("and", "group", "forward", "optional", "name", "first", "or"):
        yield dict(harness="h_end", params=dict(n=3, form=form))
    for form in ("plain", "group"):
        for depth in (4, 8, 12):
            yield dict(harness="h_same", params=dict(n=2, depth=depth, form=form))
    yield dict(harness="h_try", params=dict(n=3))
    yield dict(harness="h_tries", params=dict(n=2, steps=deep(tier, 3, 4)))
    # many in a row, many times
    kinds = ["none", "more", "list", "same", "K", "yes", "more", "tuple", "more", "none", "more", "yes"]
    row = ["and", ["word", "ab"], ["opt", L("c")]]
    for k, kind in enumerate(kinds):
        row = ["ask", row, "C%d" % k, "3", "True"] if kind == "yes" else ["put", row, "K"] if kind == "K" else ["do", row, "A%d" % k, "0123"[max(1, k % 4)], kind]
    yield dict(harness="h_generated", params=dict(specs=[row, ["ask", row, "N", "1", "False"], ["first", ["ask", row, "N", "2", "0"], row]], n=3, alphabet="abc ", white=" ", calls=True))
    for k in (20, 70, 130):
        reps = [
            ["zom", ["do", L("a"), "A", "3", "more"]], ["do", ["zom", ["do", ["char", "ab"], "A", "2", "none"]], "Z", "3", "more"], ["zom", ["first", ["ask", ["word", "ab"], "Q", "3", "True"], ["any"]]],
            ["do", ["many", ["any"], k, None], "M", "3", "list"], ["zom", ["group", ["do", ["and", L("a"), ["opt", L("b")]], "G", "1", "more"]]],
        ]
        yield dict(harness="h_generated", params=dict(specs=reps, n=2, alphabet="abc ", white=" ", calls=True, before="ab a " * (k // 5), after="ab"))
    for spec in SK(*S[:3]):
        yield dict(harness="h_stub", params=dict(spec=spec, n=2, alphabet="a "))
    mixed = []
    for x in (["oom", ["any"]], ["zom", L("a")], ["many", ["char", "ab"], 1, 2], ["opt", ["any"]], ["and", ["opt", L("b")], L("a")], ["first", ["word", "ab"], ["any"]], ["comb", ["oom", L("a")]], ["fwd", ["oom", L("a")]]):
        for w in (" ", "b"):
            mixed += [["and", ["opt", L("a")], ["do", ["ws", w, x], "A", "3", "more"]], ["and", ["opt", L("a")], ["ws", w, ["do", x, "A", "2", "none"]], ["ws", "", ["do", ["zom", ["any"]], "B", "3", "none"]]]]
    for i in range(0, len(mixed), 8):
        for white in ("", "a"):
            yield dict(harness="h_generated", params=dict(specs=mixed[i:i + 8], n=3, alphabet="ab ", white=white, calls=True))
    ops = ["and", "and", "first", "zom", "opt", "group", "do", "do", "ask", "put", "fwd", "comb", "supp"]
    # Or, MatchAll and lookaround try more than once
    for seed, top, sub, calls in ((16, ["do", "ask", "and", "first", "zom"], ops, True), (18, ["do", "and", "and", "ask"], ops + ["ws", "plus", "oom", "many"], True), (17, ["or", "all", "not", "ahead", "skip", "do"], ops + ["or", "all", "not", "skip"], False)):
        specs = generated(seed, deep(tier, 150, 1500), top, sub)
        for i in range(0, len(specs), 15):
            yield dict(harness="h_generated", params=dict(specs=specs[i:i + 15], n=3, alphabet=["ab ", None][i // 15 % 2], white=[" ", ""][i // 15 % 2], calls=calls))


class ActGen(Gen):
    def gen(self, d, op=None):
        r = self.r
        if op is None:
            if d == 0 or r.random() < 0.15:
                return self.leaf()
            op = r.choice([o for o in self.ops if o != "ws"])
        if op in ("do", "ask"):
            e = self.such(d - 1, lambda e: e[0] not in ("name", "act", "cond"))
            self.k += 1
            return [op, e, "%s%d" % (op, self.k), r.choice(["0", "1", "2", "3"]), r.choice(["list", "text", "none", "empty"] if op == "do" else ["True", "True", "False", "None"])]
        if op == "put":
            return [op, self.such(d - 1, lambda e: e[0] not in ("name", "act", "cond")), "K"]
        return Gen.gen(self, d, op)


def generated(seed, count, top, sub):
    leaves = [["lit", "a"], ["lit", "b"], ["char", "ab"], ["word", "ab"], ["any"], ["lit", "ab"]]
    g = ActGen(seed, leaves, sub)
    g.k = 0
    out = []
    while len(out) < count:
        e = g.gen(3, g.r.choice(top))
        if has(e, "do", "ask", "put"):
            out.append(e)
    return out
