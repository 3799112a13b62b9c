"""elements do not change when others are made of them"""
from mo_parsing import helpers, infix
from mo_parsing.core import ParserElement
from mo_parsing.exceptions import ParseException
from props.common import *

REACH = ("ok", "fail", "parsed between")
BOUNDS = (
    "programs of two steps (all of them, over two elements) and of four or five (a fixed generated family), each making a new element out of the ones there are: name, action, condition, group, suppression, copy, "
    "clear, repetition, lookahead, sequence, choice, Forward; with and without parsing, finalizing or streamlining in between; afterwards every element made is parsed, on every string of up to 2 or 3 characters; every helper that takes an element, given one that is used elsewhere too; grammars with names for messages on all parts, and without"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["set_parser_name, set_config, stop_on, and add_parse_action of Forward change the element by definition, and are not steps"]
ONE = ["name", "act", "cond", "group", "supm", "supp", "copy", "opt", "zom", "oom", "times", "not", "ahead", "comb", "fwd", "clear", "rename"]
TWO = ["+", "|", "^", "and", "first", "or", "all", "append"]


def plain(spec):
    while spec[0] in ("name", "act", "cond", "supm"):
        spec = spec[1]
    return spec


def allowed(op, a, b=None):
    if forward_of_named_group(SPEC(op, a, b)):
        return False
    if op in ("oom", "times"):
        return not nullable(a)
    if op in ("zom", "opt"):
        return not has(a, "behind")
    if op == "name":
        return a[0] != "name" and not (a[0] in LOOP and has(a, "name"))
    if op == "rename":
        return not (a[0] in LOOP and has(a, "name")) and not (a[0] in ("act", "cond") and a[1][0] in ("fwd", "act", "cond", "name"))
    if op == "act":
        return a[0] != "name"
    if op == "comb":
        return not has(a, "pos", "count", "group")
    if op in ("ahead", "not"):
        return not has(a, "group")
    if op == "clear":
        # (Suppress is a parse action)
        return a[0] != "fwd" and plain(a)[0] != "supp"
    if op == "|" and a is b:
        # (e | e) is e
        return not has(a, "name", "act", "cond", "supm", "supp", "group")
    if op in ("all", "append"):
        return not has(a, "times", "append") and not has(b, "times", "append")
    return True


def strip_actions(spec):
    # what clear_parse_action() leaves: the element's own actions are gone, its name stays
    if spec[0] in ("act", "cond", "supm"):
        return strip_actions(spec[1])
    if spec[0] == "name":
        return ["name", strip_actions(spec[1]), spec[2]]
    return spec


def rename(spec, name):
    if spec[0] == "name":
        return ["name", spec[1], name]
    return ["name", spec, name]


def step(op, a, sa, b=None, sb=None):
    """(new element, its spec)"""
    if op == "name":
        return a("x"), ["name", sa, "x"]
    if op == "rename":
        return a.set_token_name("y"), rename(sa, "y")
    if op == "act":
        return a / gram.ACTIONS["wrap"], ["act", sa, "wrap"]
    if op == "cond":
        return a.add_condition(gram.CONDITIONS["one"]), ["cond", sa, "one"]
    if op == "group":
        return gram.Group(a), ["group", sa]
    if op == "supm":
        return a.suppress(), ["supm", sa]
    if op == "supp":
        return gram.Suppress(a), ["supp", sa]
    if op == "copy":
        return a.copy(), sa
    if op == "clear":
        return a.clear_parse_action(), strip_actions(sa)
    if op == "opt":
        return gram.Optional(a), ["opt", sa]
    if op == "zom":
        return gram.ZeroOrMore(a), ["zom", sa]
    if op == "oom":
        return gram.OneOrMore(a), ["oom", sa]
    if op == "times":
        return a * 2, ["times", sa, 2]
    if op == "not":
        return ~a, ["not", sa]
    if op == "ahead":
        return gram.LookAhead(a), ["ahead", sa]
    if op == "comb":
        return gram.Combine(a), ["comb", sa]
    if op == "fwd":
        return gram.Forward(a), ["fwd", sa]
    if op == "+":
        return a + b, ["and", sa, sb]
    if op == "|":
        return a | b, ["first", sa, sb]
    if op == "^":
        return a ^ b, ["or", sa, sb]
    if op == "and":
        return gram.And([a, b], whitespaces.CURRENT), ["and", sa, sb]
    if op == "first":
        return gram.MatchFirst([a, b]), ["first", sa, sb]
    if op == "or":
        return gram.Or([a, b]), ["or", sa, sb]
    return gram.MatchAll([a, b]), ["all", sa, sb]


def run(ctx, base, program, s, white, table, between, late=False):
    with Whitespace(white):
        pool = [(gram.build(e, {"table": table}), e) for e in base]
        if late:
            # defined after it is used
            what = pool[0][0]
            pool[0] = (gram.Forward(), ["fwd", base[0]])
        for k, (op, i, j) in enumerate(program):
            a, sa = pool[i]
            b, sb = pool[j] if j is not None else (None, None)
            pool.append(step(op, a, sa, b, sb))
            if between:
                ctx.reach("parsed between")
                if between == "parse":
                    gram.attempt(pool[(k * 7) % len(pool)][0], s)
                elif between == "all":
                    for e, _ in pool:
                        gram.attempt(e, s)
                elif between == "finalize":
                    pool[-1][0].finalize()
                else:
                    pool[-1][0].streamline()
        if late:
            pool[0][0] << what
        for e, spec in pool:
            got = gram.attempt(gram.Group(e), s)
            want = ref.attempt(["group", spec], s, white, table)
            ctx.reach(want[0])
            ctx.equal(got, want, "element", spec=str(spec))


def h_two(ctx, base, n, alphabet, first, white, betweens, late=False):
    """every program of two steps"""
    between = ctx.choice("between", betweens)
    table = gram.Table(ctx, max_take=1) if has(base, "stub") else None
    specs = [["fwd", base[0]]] + base[1:] if late else list(base)
    program = []
    # the specs alone are enough to know what is allowed
    for k in range(2):
        op = first if k == 0 else ctx.choice("op%d" % k, ONE + TWO)
        i = ctx.choice("i%d" % k, len(specs))
        j = None if op in ONE else ctx.choice("j%d" % k, len(specs))
        if op == "append" or not allowed(op, specs[i], specs[j] if j is not None else None):
            ctx.assume(False)
        program.append((op, i, j))
        specs.append(SPEC(op, specs[i], specs[j] if j is not None else None))
    s = ctx.string("s", 0, n, alphabet)
    run(ctx, base, program, s, white, table, between, late)


def SPEC(op, sa, sb):
    return {
        "name": lambda: ["name", sa, "x"], "rename": lambda: rename(sa, "y"), "act": lambda: ["act", sa, "wrap"], "cond": lambda: ["cond", sa, "one"], "copy": lambda: sa,
        "clear": lambda: strip_actions(sa), "times": lambda: ["times", sa, 2], "+": lambda: ["and", sa, sb], "|": lambda: ["first", sa, sb], "^": lambda: ["or", sa, sb],
    }.get(op, lambda: [op, sa] if sb is None else [op, sa, sb])()


def h_programs(ctx, base, programs, n, alphabet, white):
    program = ctx.choice("program", programs)
    between = ctx.choice("between", [None, "parse", "streamline", "all"])
    s = ctx.string("s", 0, n, alphabet)
    run(ctx, base, program, s, white, None, between)


HELPERS = {
    "counted": lambda e, o: helpers.counted_array(e),
    "count by": lambda e, o: helpers.counted_array(e, int_expr=o),
    "delimited": lambda e, o: infix.delimited_list(e),
    "separated": lambda e, o: infix.delimited_list(e, separator=o, combine=True),
    "infix": lambda e, o: infix.infix_notation(e, [(o, 2, infix.LEFT_ASSOC)]),
    "prefix": lambda e, o: infix.infix_notation(e, [(o, 1, infix.RIGHT_ASSOC, lambda t: ["1"])], lpar=gram.Literal("["), rpar=gram.Literal("]")),
    "nested": lambda e, o: helpers.nested_expr("(", ")", content=e),
    "nested ignore": lambda e, o: helpers.nested_expr("(", ")", content=e, ignore_expr=o),
    "nested in": lambda e, o: helpers.nested_expr(e, o, content=gram.Char("ab")),
    "dict of": lambda e, o: helpers.dict_of(e, o),
    "dict": lambda e, o: gram.Dict(gram.Group(e + o)),
    "original": lambda e, o: helpers.originalTextFor(e),
    "located": lambda e, o: helpers.located_expr(e),
    "ungroup": lambda e, o: helpers.ungroup(e),
    "indented": lambda e, o: helpers.indented_block(e, indent=False),
    "tags": lambda e, o: helpers.makeHTMLTags(e)[0],
    "skip": lambda e, o: gram.SkipTo(e, include=True, fail_on=o, ignore=o),
    "until": lambda e, o: gram.ZeroOrMore(e, stop_on=o),
    "behind": lambda e, o: gram.PrecededBy(e) + o,
    "column": lambda e, o: e / helpers.matchOnlyAtCol(1),
    "default": lambda e, o: gram.Optional(e, default="D"),
    "error stop": lambda e, o: e - o,
    "times": lambda e, o: e[1, 2] + o * 2,
    "pending": lambda e, o: e + ... + o,
    "ignore": lambda e, o: ignoring(e, o),
    "replace": lambda e, o: e.sub("K"),
    "find": lambda e, o: list(e.scan_string("ab")) and o,
}


def ignoring(e, o):
    with Whitespace(" ") as w:
        w.add_ignore(o)
        return e + e


def h_helpers(ctx, n, names, specs):
    """what a helper is given stays as it was"""
    s = ctx.string("s", 0, n, "ab1 ")
    form = ctx.choice("helper", names)
    spec = ctx.choice("spec", specs)
    other = ["do", ["char", "1"], "C", "1", "list"]
    with Whitespace(" "):
        def make():
            made = [gram.build(spec, {"table": None}), gram.Char("1") / (lambda t: int(t[0]))]
            for name, e in zip("EO", made):
                e.set_parser_name(name)
            return made

        def look(made):
            return [[gram.attempt(gram.Group(e), s), str(e), e.parser_name, e.token_name, len(e.parse_action)] for e in made]

        want = look(make())
        made = make()
        try:
            p = HELPERS[form](*made)
        except Exception as cause:
            if type(cause).__module__.startswith("symex"):
                raise
            # not every element is good for every helper
            ctx.reach("refused")
            ctx.equal(look(made), want, "as they were")
            return
        ctx.equal(look(made), want, "as they were")
        try:
            p.parse(s)
            ctx.reach("ok")
        except ParseException:
            ctx.reach("fail")
        except Exception as cause:
            if type(cause).__module__.startswith("symex"):
                raise
            ctx.reach("refused")
        ctx.equal(look(made), want, "as they were before the parse")


def h_messages(ctx, specs, n, white, when):
    """a name for messages does not change what is matched"""
    spec = ctx.choice("spec", specs)
    s = ctx.string("s", 0, n, "ab ")
    made = {}
    with Whitespace(white):
        p = gram.build(spec, {"table": None, "made": made})
        if when == "parsed":
            gram.attempt(gram.Group(p), s)
        elif when == "used":
            gram.attempt(gram.Group(gram.build(["and", ["opt", spec], ["zom", ["any"]]], {"table": None, "made": made})), s)
        elif when == "streamlined":
            p = p.streamline()
        for k, e in enumerate(list(made.values())):
            if isinstance(e, ParserElement):
                e.set_parser_name("n%d" % k)
        p.set_parser_name("p")
        got = [gram.attempt(gram.Group(p), s), gram.attempt(gram.Group(p + gram.Optional("b")), s), gram.attempt(gram.Group(gram.Literal("a") | p | gram.Literal("b")), s)]
    want = [ref.attempt(["group", x], s, white, None) for x in (spec, ["and", spec, ["opt", L("b")]], ["first", L("a"), spec, L("b")])]
    ctx.reach(want[0][0])
    ctx.equal(got, want, "with names")


def make_programs(seed, count, base, steps):
    r = random.Random(seed)
    out = []
    while len(out) < count:
        specs = list(base)
        program = []
        while len(program) < steps:
            op = r.choice(ONE + TWO[:-1])
            i = r.choice([r.randrange(len(specs)), len(specs) - 1])
            j = None if op in ONE else r.randrange(len(specs))
            if allowed(op, specs[i], specs[j] if j is not None else None):
                program.append([op, i, j])
                specs.append(SPEC(op, specs[i], specs[j] if j is not None else None))
        if len(json.dumps(specs[-1])) < 400:
            out.append(program)
    return out


def tasks(tier):
    given = [["char", "ab"], ["name", ["char", "ab"], "x"], ["act", ["word", "ab"], "wrap"], ["and", L("a"), ["opt", L("b")]], ["group", ["lit", "a"]], ["zom", ["lit", "a"]], ["first", ["lit", "ab"], ["lit", "a"]], ["fwd", ["char", "ab"]]]
    names = sorted(HELPERS)
    for i in range(0, len(names), 4):
        yield dict(harness="h_helpers", params=dict(n=2, names=names[i:i + 4], specs=given))
    specs = [e for e in family(173, deep(tier, 160, 1600), ["and", "first", "or", "zom", "opt", "all", "comb", "name", "not", "skip"], 3) if not forward_of_named_group(e)]
    for i in range(0, len(specs), 10):
        yield dict(harness="h_messages", params=dict(specs=specs[i:i + 10], n=2, white=["", " "][i // 10 % 2], when=[None, "parsed", "used", "streamlined"][i // 20 % 4]))
    base = [["word", "ab"], L("a")]
    for first in ONE + TWO[:-1]:
        yield dict(harness="h_two", params=dict(base=base, n=2, alphabet="ab", first=first, white="", betweens=deep(tier, [None, "all"], [None, "parse", "finalize", "streamline", "all"])))
        yield dict(harness="h_two", params=dict(base=[["act", ["act", ["char", "ab"], "wrap"], "none"], ["cond", ["name", L("a"), "x"], "one"]], n=1, alphabet="ab", first=first, white="", betweens=["streamline"]))
        yield dict(harness="h_two", params=dict(base=[["group", L("b")], L("a")], n=2, alphabet="ab", first=first, white="", betweens=[None], late=True))
        if tier == "thorough":
            yield dict(harness="h_two", params=dict(base=S[:2], n=1, alphabet="ab", first=first, white="", betweens=deep(tier, [None, "parse"], [None, "parse", "finalize", "streamline"])))
    bases = [[L("a"), ["word", "ab"], ["any"]], [["name", ["char", "ab"], "x"], ["act", L("b"), "count"]], [["re", "ab?"], ["kw", "a"], ["clit", "b"]], [["first", L("a"), L("ab")], ["and", L("b"), ["opt", L("a")]]]]
    for k, base in enumerate(bases):
        programs = make_programs(170 + k, deep(tier, 40, 600), base, deep(tier, 4, 5))
        for i in range(0, len(programs), 10):
            yield dict(harness="h_programs", params=dict(base=base, programs=programs[i:i + 10], n=3, alphabet="ab ", white=["", " "][i // 10 % 2]))
        programs = make_programs(270 + k, deep(tier, 10, 100), base, deep(tier, 9, 12))
        for i in range(0, len(programs), 5):
            yield dict(harness="h_programs", params=dict(base=base, programs=programs[i:i + 5], n=2, alphabet="ab ", white=["", " "][i // 5 % 2]))
