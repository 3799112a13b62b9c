"""Python operators on elements and text"""
import io
import operator

from props.common import *

REACH = ("ok", "fail", "raised", "accepted", "matches", "file", "replaced", "not replaced", "skip ok", "skip fail")
BOUNDS = (
    "every Python expression of two operators (+ | ^ & ~ * [] with whole numbers, ranges and ...), generated ones of up to four, the text operand on either side, augmented assignment, - in eight forms; over arbitrary sub-parsers and tokens; every string of up to 3 characters; "
    "all multipliers from -2 to 3 and what is no multiplier; replace_with of up to 4 symbolic characters"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["... has a target to its right, and is not repeated without one between"]

BIN = {"+": operator.add, "|": operator.or_, "^": operator.xor, "&": operator.and_}
IBIN = {"+": operator.iadd, "|": operator.ior, "^": operator.ixor, "&": operator.iand}
MEANS = {"+": "and", "|": "first", "^": "or", "&": "all"}
LITERALS = {"lit": gram.Literal, "kw": gram.Keyword, "supp": gram.Suppress}


def mult(key):
    """what Python gets for the key"""
    kind = key[0]
    if kind == "n":
        return key[1]
    if kind == "tuple":
        return tuple(Ellipsis if k == "..." else k for k in key[1:])
    if kind == "slice":
        return slice(key[1], key[2])
    return Ellipsis


def bounds(key):
    """[least, most]"""
    kind = key[0]
    if kind == "n":
        return [key[1], key[1]]
    if kind == "...":
        return [0, None]
    lo, hi = (list(key[1:]) + [None, None])[:2]
    return [0 if lo in (None, "...") else lo, None if hi in (None, "...") else hi]


def construct(e, table, made, lit="lit"):
    """the element (or text) the Python expression gives, all those on the way are put in made"""
    op = e[0]
    if op == "text":
        return e[1]
    if op in ("bin", "ibin"):
        a = construct(e[2], table, made, lit)
        b = construct(e[3], table, made, lit)
        out = (BIN if op == "bin" else IBIN)[e[1]](a, b)
    elif op == "~":
        out = ~construct(e[1], table, made, lit)
    elif op == "*":
        out = construct(e[1], table, made, lit) * mult(e[2])
    elif op == "r*":
        out = mult(e[2]) * construct(e[1], table, made, lit)
    elif op == "[]":
        out = construct(e[1], table, made, lit)[mult(e[2])]
    elif op == "skip":
        # a + ... + b
        a = construct(e[1], table, made, lit) + ...
        out = a + construct(e[2], table, made, lit)
    elif op == "rskip":
        out = ... + construct(e[1], table, made, lit)
    elif op == "askip":
        parts = [... if x == "..." else construct(x, table, made, lit) for x in e[1:]]
        keep = list(parts)
        out = gram.And(parts, whitespaces.CURRENT)
        if len(keep) != len(parts) or any(x is not y for x, y in zip(keep, parts)):
            raise AssertionError("the list given was changed")
    elif op == "name":
        out = construct(e[1], table, made, lit)(e[2])
    else:
        out = gram.build(e, {"table": table})
    made.append((out, meaning(e, lit)))
    return out


def target(x):
    return ["name", ["skip", x], "_skipped"]


def meaning(e, lit="lit"):
    op = e[0]
    if op == "text":
        return ["supp", ["lit", e[1]]] if lit == "supp" else [lit, e[1]]
    if op in ("bin", "ibin"):
        return [MEANS[e[1]], meaning(e[2], lit), meaning(e[3], lit)]
    if op == "~":
        return ["not", meaning(e[1], lit)]
    if op in ("*", "[]", "r*"):
        return ["times", meaning(e[1], lit), bounds(e[2])]
    if op == "skip":
        b = meaning(e[2], lit)
        return ["and", meaning(e[1], lit), target(b), b]
    if op == "rskip":
        b = meaning(e[1], lit)
        return ["and", target(b), b]
    if op == "askip":
        out = ["and"]
        for x, y in zip(e[1:], list(e[2:]) + [None]):
            out.append(target(meaning(y, lit)) if x == "..." else meaning(x, lit))
        return out
    if op == "name":
        return ["name", meaning(e[1], lit), e[2]] if e[2] else meaning(e[1], lit)
    return e


def h_ops(ctx, exprs, n, alphabet=None, white=" ", lit="lit", before="", after=""):
    e = ctx.choice("expression", exprs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx, max_take=1, zero=False) if has(e, "stub") else None
    made = []
    with Whitespace(white) as w:
        w.set_literal(LITERALS[lit])
        construct(e, table, made, lit)
        for element, spec in made[::-1]:
            got = gram.attempt(gram.Group(element), s)
            want = ref.attempt(["group", spec], s, white, table)
            ctx.reach(want[0])
            if has(e, "skip", "rskip", "askip"):
                ctx.reach("skip " + want[0])
            ctx.equal(got, want, "element", spec=str(spec))


def h_multiplier(ctx, n):
    """the multipliers that are refused, and the rest"""
    form = ctx.choice("form", ["n", "rn", "pair", "slice", "one", "junk"])
    kind = None
    e = gram.Literal("a")
    values = [-2, -1, 0, 1, 2, 3, None, ...]
    if form in ("n", "rn"):
        lo = hi = ctx.choice("times", [-2, -1, 0, 1, 2, 3])
        key = lo
    elif form == "junk":
        key = ctx.choice("junk", ["x", 1.5, [1], (1, "x"), ("x", 1), (1.5, 2)])
        lo = hi = None
        kind = TypeError
    elif form == "one":
        lo = ctx.choice("least", [-1, 0, 1, 2])
        key, hi = (lo,), None
    else:
        lo = ctx.choice("least", values)
        hi = ctx.choice("most", values)
        key = (lo, hi) if form == "pair" else slice(lo, hi)
    if kind is None:
        low = 0 if lo is None or lo is Ellipsis else lo
        high = None if hi is None or hi is Ellipsis else hi
        if low < 0:
            kind = ValueError
        elif high is not None and high < low:
            kind = TypeError
    try:
        p = key * e if form == "rn" else e[key] if form == "slice" or ctx.flag("subscript") else e * key
    except Exception as cause:
        ctx.reach("raised")
        ctx.check(kind is not None and type(cause) is kind, "refused", key=str(key), cause=type(cause).__name__)
        return
    ctx.reach("accepted")
    ctx.check(kind is None, "accepted", key=str(key))
    s = ctx.string("s", 0, n, "ab")
    run = 0
    while run < len(s) and s[run] == "a" and (high is None or run < high):
        run += 1
    try:
        got = p.parse(s).as_list() if low != 1 or high != 1 else [p.parse(s).as_list()]
    except gram.ParseException:
        got = None
    ctx.equal(None if got is None else len(got) if isinstance(got, list) else 1, run if run >= low else None, "times", key=str(key))


class File(object):
    def __init__(self, content):
        self.content = content

    def read(self):
        return self.content


def h_matches(ctx, specs, n, alphabet, white):
    """matches() and parse_file() are parse()"""
    spec = ctx.choice("grammar", specs)
    s = ctx.string("s", 0, n, alphabet)
    with Whitespace(white):
        p = gram.build(spec)
        want = ref.attempt(["group", spec], s, white, None, False)
        whole = ref.attempt(["group", spec], s, white, None, True)
        ctx.reach("matches")
        ctx.equal(p.matches(s), whole[0] == "ok", "matches")
        ctx.equal(p.matches(s, parse_all=False), want[0] == "ok", "matches a part")
        for parse_all, w in ((False, want), (True, whole)):
            try:
                got = ["ok", gram.view(gram.Group(p).parse_file(File(s), parse_all))]
            except gram.ParseException:
                got = ["fail"]
            ctx.reach("file")
            ctx.equal(got, w, "parse_file")


def h_minus(ctx, n, lit):
    """a - b is a, an error stop, b: with text on either side"""
    s = ctx.string("s", 0, n, "abc ")
    form = ctx.choice("form", ["e-e", "e-t", "t-e", "e-=t", "t-e-t", "e-t+e", "t+e-t", "e-e|t"])
    after = ctx.choice("after", [None, "first", "opt", "zom"])

    def outcome(p):
        if after == "first":
            p = p | gram.Word("abc")
        elif after == "opt":
            p = gram.Optional(p) + gram.ZeroOrMore(gram.AnyChar())
        elif after == "zom":
            p = gram.ZeroOrMore(gram.Group(p)) + gram.Optional(gram.Word("abc"))
        try:
            return ["ok", gram.view(gram.Group(p).parse(s))]
        except gram.ParseException as cause:
            return [type(cause).__name__, cause.loc]

    with Whitespace(" ") as w:
        w.set_literal(LITERALS[lit])
        guard = gram.And.SyntaxErrorGuard
        a, b, c = gram.Char("ab")("x"), gram.Char("bc"), LITERALS[lit]
        if form == "e-e":
            got, parts = a - b, [a, guard(), b]
        elif form == "e-t":
            got, parts = a - "b", [a, guard(), c("b")]
        elif form == "t-e":
            got, parts = "a" - b, [c("a"), guard(), b]
        elif form == "e-=t":
            got, parts = a, [a, guard(), c("b")]
            got -= "b"
        elif form == "t-e-t":
            got, parts = "a" - b - "c", [c("a"), guard(), b, guard(), c("c")]
        elif form == "e-t+e":
            got, parts = a - "b" + b, [a, guard(), c("b"), b]
        elif form == "t+e-t":
            got, parts = "a" + b - "c", [c("a"), b, guard(), c("c")]
        else:
            got, parts = (a - b) | "c", None
        want = gram.And(parts, whitespaces.CURRENT) if parts else gram.MatchFirst([gram.And([a, guard(), b], whitespaces.CURRENT), c("c")])
        got, want = outcome(got), outcome(want)
    ctx.reach("ok" if want[0] == "ok" else "fail")
    ctx.equal(got, want, "error stop")


def h_replace(ctx, n, scan):
    """replace_with(): text with the names of the result in it"""
    r = ctx.string("replacement", 0, n, "x\\g<1>")
    s = ctx.string("s", 0, 3, "ab ")
    e = gram.Word("a")("x") + gram.Optional(gram.Word("b")("1"))
    p = e.replace_with(r)
    with Whitespace(" "):
        if scan:
            got = p.transform_string(s)
        else:
            try:
                got = p.parse(s).as_list()
            except gram.ParseException:
                got = None
    m = read(s, 0)
    if scan:
        out, i, last = "", 0, 0
        while i <= len(s):
            j = i
            while j < len(s) and s[j] == " ":
                j += 1
            m = read(s, j)
            if m is None:
                i = j + 1
                continue
            out += s[last:j] + fill(r, m)
            last = i = m[2]
        want = out + s[last:]
        ctx.reach("replaced" if last else "not replaced")
        ctx.equal(got, want, "transform_string", replacement=r)
        return
    i = 0
    while i < len(s) and s[i] == " ":
        i += 1
    m = read(s, i)
    ctx.reach("replaced" if m else "not replaced")
    ctx.equal(got, None if m is None else [fill(r, m)], "parse", replacement=r)


def read(s, i):
    """("x", "1", end) at i"""
    j = i
    while j < len(s) and s[j] == "a":
        j += 1
    if j == i:
        return None
    k = j
    while k < len(s) and s[k] == " ":
        k += 1
    end = k
    while end < len(s) and s[end] == "b":
        end += 1
    if end == k:
        return s[i:j], "", j
    return s[i:j], s[k:end], end


def fill(r, m):
    out, i = "", 0
    while i < len(r):
        if r[i] == "\\" and i + 1 < len(r):
            if r[i + 1] == "g" and i + 2 < len(r) and r[i + 2] == "<":
                j = i + 3
                while j < len(r) and r[j] in "xg1":
                    j += 1
                if j > i + 3 and j < len(r) and r[j] == ">":
                    out += value(r[i + 3:j], m)
                    i = j + 1
                    continue
            if r[i + 1] in "xg1":
                out += value(r[i + 1], m)
                i += 2
                continue
        out += r[i]
        i += 1
    return out


def value(name, m):
    return m[0] if name == "x" else m[1] if name == "1" else ""


KEYS = [["n", 1], ["n", 2], ["tuple", 1, 2], ["tuple", None, 2], ["tuple", 2, None], ["tuple", 1], ["tuple", "...", 2], ["tuple", 1, "..."], ["tuple", 0, "..."]]
SUBS = KEYS + [["...", ], ["slice", 1, 2], ["slice", None, 2], ["slice", 1, None]]


def ok(e, parent=None):
    """what the reference, or the library, does not say anything of"""
    if e[0] in ("*", "[]", "r*"):
        m = meaning(e[1])
        return not nullable(m) and ok(e[1]) and parent != "&" and not (m[0] in ("and",) and False)
    if e[0] in ("bin", "ibin"):
        return ok(e[2], e[1]) and ok(e[3], e[1]) and (e[1] != "&" or not (nullable(meaning(e[2])) or nullable(meaning(e[3])) or has(meaning(e), "not")))
    if e[0] in ("skip", "askip"):
        return all(x == "..." or ok(x) for x in e[1:])
    if e[0] in ("~", "rskip"):
        return ok(e[1])
    if e[0] == "name":
        return ok(e[1]) and e[1][0] not in ("*", "[]", "r*")
    return True


def two(p, q, r, t):
    """every expression of two operators"""
    one = []
    for op in BIN:
        one += [["bin", op, p, q], ["bin", op, p, t], ["bin", op, t, p], ["ibin", op, p, q], ["ibin", op, p, t]]
    one += [["~", p], ["name", p, "x"], ["name", p, ""], ["rskip", p], ["skip", p, q], ["skip", p, t], ["askip", p, "...", q], ["askip", "...", t], ["askip", t, "...", t, "...", p]]
    one += [["*", p, k] for k in KEYS] + [["r*", p, k] for k in KEYS] + [["[]", p, k] for k in SUBS]
    out = list(one)
    for a in one:
        for op in BIN:
            out += [["bin", op, a, r], ["bin", op, r, a], ["ibin", op, a, r], ["bin", op, t, a], ["bin", op, a, t]]
        out += [["~", a], ["name", a, "y"], ["rskip", a], ["skip", a, r], ["skip", r, a], ["[]", a, ["tuple", 1, 2]], ["*", a, ["n", 2]], ["[]", a, ["...", ]]]
    return [e for e in out if ok(e) and not (e[0] == "name" and e[1][0] == "name")]


def random_expr(r, d, leaves):
    def sub(text=True):
        if d == 1 or r.random() < 0.25:
            return ["text", r.choice(["a", "b"])] if text and r.random() < 0.3 else r.choice(leaves)
        return random_expr(r, d - 1, leaves)

    op = r.choice(["bin", "bin", "bin", "ibin", "~", "*", "[]", "skip", "rskip", "askip", "name", "r*"])
    if op in ("bin", "ibin"):
        k = r.choice("++||^&")
        a = sub(op == "bin")
        return [op, k, a, sub(a[0] != "text")]
    if op in ("*", "r*"):
        return [op, sub(False), r.choice(KEYS)]
    if op == "[]":
        return [op, sub(False), r.choice(SUBS)]
    if op == "skip":
        return [op, sub(False), sub()]
    if op == "askip":
        return r.choice([["askip", sub(), "...", sub()], ["askip", "...", sub()], ["askip", sub(), "...", sub(), "...", sub()]])
    if op == "name":
        e = sub(False)
        return e if e[0] == "name" else ["name", e, "x"]
    return [op, sub(False)]


def tasks(tier):
    for lit in sorted(LITERALS):
        yield dict(harness="h_minus", params=dict(n=deep(tier, 3, 4), lit=lit))
    exprs = two(L("a"), ["word", "ab"], L("b"), ["text", "a"])
    for k, i in enumerate(range(0, len(exprs), 24)):
        yield dict(harness="h_ops", params=dict(exprs=exprs[i:i + 24], n=3, alphabet="ab ", white=[" ", ""][k % 2], lit=["lit", "lit", "kw", "supp"][k % 4]))
    # alternatives that are not each other's: the order decides
    exprs = [e for e in two(["word", "ab"], L("ab"), L("a"), ["text", "b"]) + two(L("ab"), ["word", "ab"], ["word", "ab", None, 1, 1], ["text", "a"]) if has(e, "text")]
    for k, i in enumerate(range(0, len(exprs), 24)):
        yield dict(harness="h_ops", params=dict(exprs=exprs[i:i + 24], n=3, alphabet="ab ", white=[" ", ""][k % 2], lit=["lit", "supp", "lit", "kw"][k % 4]))
    few = [e for e in two(S[0], S[1], S[2], ["text", "a"]) if not has(e, "askip", "text", "ibin", "r*")]
    r = random.Random(33)
    r.shuffle(few)
    few = few[:deep(tier, 100, 400)]
    for i in range(0, len(few), 10):
        yield dict(harness="h_ops", params=dict(exprs=few[i:i + 10], n=2, alphabet="a ", white=" "))
    big, leaves = [], [L("a"), L("b"), ["word", "ab"], L("ab"), ["char", "ab"], ["any"], ["kw", "a"]]
    while len(big) < deep(tier, 400, 4000):
        e = random_expr(r, 4, leaves)
        if ok(e) and e[0] != "text" and len(str(e)) < 300:
            big.append(e)
    for k, i in enumerate(range(0, len(big), 20)):
        yield dict(harness="h_ops", params=dict(exprs=big[i:i + 20], n=3, alphabet="ab ", white=[" ", ""][k % 2], lit=["lit", "lit", "kw", "supp"][k % 4]))
    yield dict(harness="h_multiplier", params=dict(n=4))
    # many operands, and large multipliers
    words = ["a", "b", "ab", "ba", "aab", "c", "abc", "bb", "cab", "acb", "ca", "bab"]
    for lit in ("lit", "kw"):
        rows = []
        for op in ("|", "^", "+"):
            for k in (5, 8, 12):
                e = L(words[0]) if lit == "lit" else ["kw", words[0]]
                for i, w in enumerate(words[1:k]):
                    t = ["text", w] if i % 2 else L(w)
                    e = ["bin" if i % 3 else "ibin", op, e, t] if i % 5 or t[0] == "text" else ["bin", op, t, e]
                rows.append(e)
        yield dict(harness="h_ops", params=dict(exprs=rows[:6], n=4, alphabet="abc", white="", lit=lit))
        for k, e in zip((5, 8, 12), rows[6:]):
            yield dict(harness="h_ops", params=dict(exprs=[e], n=1, alphabet="abc ", white=" ", lit=lit))
    e = ["text", "a"]
    for w in words[:8]:
        e = ["bin", "&", e if e[0] != "text" else L("a"), L(chr(ord("d") + words.index(w)))]
    yield dict(harness="h_ops", params=dict(exprs=[e], n=2, alphabet="adek", white=" ", before="kjihgf"))
    for k in (9, 10, 33, 70):
        for spec in (L("a"), ["char", "ab"]):
            many = [["*", spec, ["n", k]], ["r*", spec, ["n", k]], ["[]", spec, ["tuple", k, "..."]], ["[]", spec, ["tuple", 1, k]], ["[]", spec, ["slice", k - 1, k + 1]], ["bin", "+", ["[]", spec, ["slice", None, k]], L("b")]]
            yield dict(harness="h_ops", params=dict(exprs=many, n=2, alphabet="ab ", white=" ", before="a" * (k - 2), after="a"))
    far = [["skip", L("a"), L("b")], ["rskip", L("b")], ["askip", L("a"), "...", L("b"), "...", L("c")], ["skip", ["skip", L("a"), L("b")], ["text", "c"]]]
    for k in (30, 130):
        yield dict(harness="h_ops", params=dict(exprs=far, n=2, alphabet="abc ", white=" ", before="a" + " x" * (k // 2), after=" bxc"))
    specs = family(331, deep(tier, 60, 600), ["and", "first", "opt", "zom", "or", "name", "group", "word"][:-1], 2, PLAIN)
    for i in range(0, len(specs), 15):
        yield dict(harness="h_matches", params=dict(specs=specs[i:i + 15], n=3, alphabet="ab ", white=[" ", ""][(i // 15) % 2]))
    yield dict(harness="h_replace", params=dict(n=deep(tier, 4, 5), scan=False))
    yield dict(harness="h_replace", params=dict(n=deep(tier, 4, 5), scan=True))
