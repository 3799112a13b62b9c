"""the Regex element"""
import random
import re

from props.common import *
from mo_parsing.results import ParseResults

REACH = ("ok", "fail", "captured", "sub")
BOUNDS = (
    "patterns: a list covering each construct the element takes, and a fixed family of generated ones (depth 3: classes, groups, alternatives, greedy and lazy repetition, lookaround, anchors); "
    "input: every string of up to 3 characters over Unicode, or 4..5 over an alphabet"
)
PATTERNS = [
    "a", "ab", "a?", "a??", "a*", "a+", "a+?b", "ab?", "ab*", "ab+", "abb{2}", "a{2}", "a{2,}", "a{,2}", "a{1,2}", "a{1,2}?b", "a|b", "ab|a", "a|ab", "(a)b", "(a|b)+", "(?:ab)+", "(?:a|b)?a",
    "(?P<x>a)b", "[ab]", "[^ab]", "[a-c]+", "[a\\-]", "[\\w]", "[^\\s]", "\\d", "\\D", "\\w+", "\\W", "\\s*a", "\\S", ".", "a.b", "a$", "^a", "$", "a\\b", "\\bab?", "\\.", "\\\\", "\\n", "\\x61", "a(?=b)",
    "a(?!b)", "(?<=a)b", "b(?<=b)", "(?i)a", " a", "a b", "é", "[é-ë]", "(a)\\1", "(?P<n>a|b)(?P=n)", "((a)|b)*", "(a*)(b*)", "a-b", "[+-]?\\d+", "[^\\]]", "\\(a\\)",
]
CAPTURES = [
    "(a)", "(a)(b)", "(a)(b)?", "(a)|(b)", "(?P<x>a)b", "(?P<x>a)(?P<y>b)?", "((a)b)", "((a)(b))", "(a|b)*", "(a*)(b*)", "a(b)", "(a)b(a)", "(?:(a)|b)(b)", "(?P<x>(?P<y>a)b)(a)",
    "(a)(?=b)", "(?=(a))a", "(?<=a)(b)", "(a)(?!b)", "(?:(a)|(b))(?=(a?))", "(a)(b)?(a)?(b)?()()()()()(a|b)?",
]
SUBS = [
    ("a", "b"), ("(a)(b)", "\\2\\1"), ("(a+)(b*)", "<\\1|\\2>"), ("(?P<x>a)b?", "\\g<x>\\g<x>"), ("[ab]+", "x"), ("a(b)", "\\g<1>"), ("a|b", ""), ("a(?=b)", "x"), ("a(?!b)", "x"), ("(a?)(?=b)", "x"),
]


class Patterns(object):
    def __init__(self, seed):
        self.r = random.Random(seed)

    def gen(self, d):
        r = self.r
        if d == 0 or r.random() < 0.1:
            return r.choice(["a", "b", "a", "b", "[ab]", "[^a]", ".", "\\d", "\\w", "\\s", "[a-c]", "1", "ab", "\\S"])
        op = r.choice(["seq", "seq", "alt", "rep", "rep", "rep", "group", "named", "look", "anchor"])
        if op == "seq":
            return self.unit(d - 1) + self.unit(d - 1)
        if op == "alt":
            return "(?:%s)" % "|".join(self.gen(d - 1) for _ in range(r.randint(2, 3)))
        if op == "rep":
            return "(?:%s)%s" % (self.gen(d - 1), r.choice(["?", "*", "+", "{2}", "{1,2}", "{0,1}", "{2,}", "??", "*?", "+?"]))
        if op == "group":
            return "(%s)" % self.gen(d - 1)
        if op == "named":
            return "(?:%s)" % self.gen(d - 1)
        if op == "look":
            return self.gen(d - 1) + r.choice(["(?=%s)", "(?!%s)"]) % self.gen(d - 1)
        return r.choice(["%s\\b", "%s$", "(?<=a)%s"]) % self.unit(d - 1)

    def unit(self, d):
        return "(?:%s)" % self.gen(d)


def expected(pattern, s, i):
    m = re.compile(pattern, re.DOTALL).match(s, i)
    return m and m.end()


def h_match(ctx, patterns, n, alphabet=None):
    """alone, at an offset, and where alternatives are looked up"""
    pattern = ctx.choice("pattern", patterns)
    s = ctx.string("s", 0, n, alphabet)
    how = ctx.choice("how", ["alone", "offset", "first", "last", "or", "opt", "comb"])
    p = ["re", pattern]
    spec = {
        "alone": p,
        "offset": ["and", ["any"], ["name", p, "x"], ["opt", ["any"]]],
        "first": ["first", p, L("b"), ["kw", "ab"], L("1"), L("a")],
        "last": ["first", L("#"), L("!"), ["kw", "ab"], p, ["any"]],
        "or": ["or", L("a"), p, L("b")],
        "opt": ["and", ["opt", p], ["supp", ["opt", ["any"]]]],
        "comb": ["comb", ["and", p, ["opt", p]]],
    }[how]
    with Whitespace(""):
        got = gram.attempt(gram.Group(gram.build(spec, {})), s)
    want = ref.attempt(["group", spec], s, "")
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "regex")


def h_capture(ctx, n, alphabet, patterns=CAPTURES, before="", after=""):
    """groups are the tokens, and have their number and name"""
    pattern = ctx.choice("pattern", patterns)
    s = before + ctx.string("s", 0, n, alphabet) + after
    at = ctx.choice("at", 2)
    with Whitespace(""):
        r = gram.Regex(pattern).capture_groups()
        p = gram.Group(gram.And([gram.AnyChar()] * at + [r("whole")], whitespaces.CURRENT))
    m = re.compile(pattern, re.DOTALL).match(s, at) if len(s) >= at else None
    try:
        result = p.parse(s)
    except gram.ParseException:
        ctx.check(m is None, "capture fails")
        ctx.reach("fail")
        return
    ctx.check(m is not None, "capture matches")
    ctx.reach("captured")
    result = list(result)[-1]
    ctx.equal(result.end, m.end(), "end")
    end = 0
    outer = []
    names = {}
    where = {v: k for k, v in m.re.groupindex.items()}
    for i in range(1, m.re.groups + 1):
        a, b = m.span(i)
        if a == -1:
            ctx.check(str(i) not in result, "unmatched group")
            continue
        if a >= end:
            outer.append(m.group(i))
        end = max(b, end)
        ctx.equal(result[str(i)], m.group(i), "group number")
        if i in where:
            ctx.equal(result[where[i]], m.group(i), "group name")
    ctx.equal(list(result), outer, "tokens")


def h_many_groups(ctx, n, alphabet):
    """more than nine groups"""
    h_capture(ctx, n, alphabet, ["(a)(b)" * 6, "(" * 12 + "a" + ")" * 12 + "((b)a)*", "".join("(?P<n%d>[ab])" % i for i in range(12)) + "(a)?"], "ab" * 5, "ab")


def h_sub(ctx, n, alphabet):
    """replacement of what is matched"""
    s = ctx.string("s", 0, n, alphabet)
    pattern, replacement = SUBS[ctx.choice("sub", len(SUBS))]
    by_function = ctx.flag("function")
    m = re.compile(pattern, re.DOTALL).match(s)
    with Whitespace(""):
        r = gram.Regex(pattern)
        p = r.sub((lambda m: "<" + m.group(0) + ">") if by_function else replacement)
        got = gram.attempt(gram.Group(p), s)
        untouched = gram.attempt(gram.Group(r), s)
    if m is None:
        ctx.reach("fail")
        ctx.equal(got, ["fail"], "sub")
        return
    ctx.reach("sub")
    text = m.group(0)
    if "(?" in pattern and "P<" not in pattern:
        ctx.assume(by_function)  # re.sub OF WHAT IS MATCHED, WITHOUT WHAT IS AROUND IT
    want = "<" + text + ">" if by_function else re.compile(pattern, re.DOTALL).sub(replacement, text)
    if not want:
        ctx.assume(False)
    ctx.equal(got[1]["items"], [want], "sub")
    ctx.equal(untouched[1]["items"], [text], "original untouched")


def h_behind(ctx, n, alphabet):
    """looking behind for a pattern"""
    pattern = ctx.choice("pattern", ["a", "ab?", "a+", "[ab]{2}", "a|bb", "\\d"])
    s = ctx.string("s", 0, n, alphabet)
    at = ctx.choice("at", n)
    spec = ["and"] + [["any"]] * at + [["behind", ["re", pattern]], ["any"]]
    with Whitespace(""):
        got = gram.attempt(gram.Group(gram.build(spec, {})), s)
    want = ref.attempt(["group", spec], s, "")
    ctx.reach(want[0])
    ctx.equal(got, want, "behind")


PARTS = ["", " ", "x", "  ", "-"]
REFERENCES = ["\\1", "\\g<1>", "\\g<x>", "\\2", "\\g<2>"]


def h_template(ctx, n, alphabet, pieces, first):
    """replace_with(), over what was captured"""
    s = ctx.string("s", 0, n, alphabet)
    k = 1 + ctx.choice("references", pieces)
    template, parts = "", []
    for i in range(k):
        t = PARTS[ctx.choice("text%d" % i, 3 if i else len(PARTS))]
        r = REFERENCES[ctx.choice("ref%d" % i, len(REFERENCES)) if i else first]
        template += t + r
        parts += [t, r]
    last = PARTS[k]
    template += last
    pattern = "(?P<x>a)(b| )?"
    with Whitespace(""):
        p = gram.Group(gram.Regex(pattern).capture_groups().replace_with(template))
        q = gram.ZeroOrMore(gram.MatchFirst([gram.Regex(pattern).sub(template), gram.AnyChar()]))
        try:
            got = list(p.parse(s))
        except gram.ParseException:
            got = None
        all_ = list(q.parse(s))

    def fill(m):
        out = ""
        for t, r in zip(parts[::2], parts[1::2]):
            name = r.strip("\\g<>")
            out += t + (m.group(name if name == "x" else int(name)) or "")
        return out + last

    m = re.compile(pattern).match(s)
    ctx.reach("fail" if m is None else "sub")
    ctx.observe("got", got)
    ctx.check((m is None) == (got is None), "matches")
    if m is not None:
        ctx.equal("".join("".join(x) if isinstance(x, ParseResults) else x for x in got), fill(m), "replace_with", template=template)
    want, i = "", 0
    while i < len(s):
        m = re.compile(pattern).match(s, i)
        want += fill(m) if m else s[i]
        i = m.end() if m else i + 1
    ctx.equal("".join(all_), want, "sub", template=template)


def h_values(ctx, n, alphabet):
    """values that are not text, nor true, are put there too"""
    s = ctx.string("s", 0, n, alphabet)
    value, shown = ctx.choice("value", [[0, "0"], [7, "7"], [False, "False"], ["", ""], ["t", "t"], [1.5, "1.5"]])
    t = PARTS[ctx.choice("text", 3)]
    with Whitespace(""):
        e = (gram.Literal("a") / (lambda: [value]))("x") + gram.Optional(gram.Literal("b")("y"))
        p = e.replace_with(t + "\\g<x>" + t + "\\g<y>" + t)
        try:
            got = list(p.parse(s))
        except gram.ParseException:
            got = None
    ok = len(s) > 0 and s[0] == "a"
    b = ok and len(s) > 1 and s[1] == "b"
    ctx.reach("sub" if ok else "fail")
    ctx.equal(got, [t + shown + t + ("b" if b else "") + t] if ok else None, "replace_with", value=value)


def tasks(tier):
    for first in range(len(REFERENCES)):
        yield dict(harness="h_template", params=dict(n=deep(tier, 2, 3), alphabet="ab ", pieces=2, first=first))
    yield dict(harness="h_values", params=dict(n=3, alphabet="ab"))
    size = 5
    for i in range(0, len(PATTERNS), size):
        yield dict(harness="h_match", params=dict(patterns=PATTERNS[i:i + size], n=deep(tier, 2, 3)))
        yield dict(harness="h_match", params=dict(patterns=PATTERNS[i:i + size], n=deep(tier, 3, 5), alphabet="ab1 "))
    g = Patterns(12)
    made = []
    while len(made) < deep(tier, 120, 800):
        p = g.gen(3)
        try:
            re.compile(p)
        except re.error:
            continue
        if len(p) < 60:
            made.append(p)
    for i in range(0, len(made), 8):
        yield dict(harness="h_match", params=dict(patterns=made[i:i + 8], n=deep(tier, 3, 4), alphabet="ab1"))
    yield dict(harness="h_capture", params=dict(n=deep(tier, 4, 6), alphabet="ab"))
    yield dict(harness="h_sub", params=dict(n=deep(tier, 4, 5), alphabet="ab1"))
    yield dict(harness="h_behind", params=dict(n=deep(tier, 4, 5), alphabet="ab1"))
    # far, long, with many groups
    for pattern in ("a+", "(?:ab)+", "[ab]*b", "(?:a|b)+?c", "\\S+", "a{3,}", "(?:a|ab)*"):
        yield one(["and", ["zom", ["re", pattern]] if pattern[-1] not in "*" else ["re", pattern], ["zom", ["any"]]], 2, alphabet="abc ", white="", before="ab" * 40, after="a")
        yield one(["and", ["zom", L("-")], ["re", pattern], ["zom", ["any"]]], 3, alphabet="abc ", white="", before="-" * 80, after="ab")
    yield dict(harness="h_many_groups", params=dict(n=2, alphabet="ab"))
