"""encoding self-test: the engine's strings and regular expressions against CPython"""
import re

PATTERNS = [
    r"a*b", r"(a|ab)(c|bcd)?", r"(a*)*b?", r"(?:a|b)*?c", r"[^ab]+", r"\s*\w+", r"^a|b$", r"(a)(?=b)", r"(?!a).", r"(?<=a)b",
    r"(?<!a)b", r"(a+)\1", r"a{2,3}", r"a{0,2}?b", r"\ba", r"\Bb", r"(a?)*", r"(?:a?b?)+c", r"[a-c0-9_]+x?", r".*\n", r"(?m)^b", r"(?m)a$",
    r"(?s).b", r"(?i)aB", r"(?i)[a-k]+", r"(?P<x>a)(?P<y>b)?", r"(a)|b", r"(?:(a)|b)*", r"a++b", r"(?>a*)a", r"(x)?(?(1)a|b)",
    r"\d+\.?\d*", r"\$", r"[\]\-a]", r"[\w.]+", r"(?:)", r"", r"(a*?)(b)", r"(?:a*){2}b", r"(a|b|)*c", r"(?:(?:a)|(b))+", "[\t\n\r ]*",
    r"(|a)+", r"(?:a|(?:b|c)*)*", r"(?a)\w", r"\W\S",
]


def h_re(ctx, p, n, alphabet):
    s = ctx.string("s", 0, n, alphabet)
    r = re.compile(p, re.DOTALL if "\n" in p else 0)
    for name in ("match", "search", "fullmatch"):
        for pos in (0, 1):
            m = getattr(r, name)(s, pos)
            ctx.observe(name, [list(m.span(i)) for i in range(r.groups + 1)] + [m.lastindex, m.group(0)] if m else None)
    ctx.observe("findall", [list(x) if isinstance(x, tuple) else x for x in r.findall(s)])
    ctx.observe("sub", r.sub("<\\g<0>>", s))
    ctx.observe("split", r.split(s))


def h_str(ctx, n, alphabet, arg):
    s = ctx.string("s", 0, n, alphabet)
    ctx.observe("find", [s.find(arg), s.rfind(arg), s.find(arg, 1), s.rfind(arg, 0, 2), s.count(arg), s.count(arg, 0, 2)])
    ctx.observe("sw", [s.startswith(arg), s.startswith(arg, 1), s.endswith(arg), arg in s, s in arg, s == arg, s < arg, s >= arg])
    ctx.observe("split", [s.split(), s.split(arg) if arg else 0, s.split(arg, 1) if arg else 0, s.splitlines(), s.splitlines(True), s.rsplit(arg, 1) if arg else 0])
    ctx.observe("strip", [s.strip(), s.lstrip(arg), s.rstrip(arg)])
    ctx.observe("repl", [s.replace(arg, "XY"), s.replace(arg, "", 1), arg.join(s), s.join(["1", "2", "3"]), "-".join([s, arg, s])])
    ctx.observe("case", [s.lower(), s.upper(), s.isspace(), s.isalpha(), s.isdigit(), s.isalnum()])
    ctx.observe("fmt", [f"<{s}>", "%s|" % s, "{}".format(s), s + arg, arg + s, s[::-1], s[1:], s[-1:]])
    ctx.observe("set", [len(set(s)), "".join(sorted(set(s))), [c for c in s], list(zip(s, arg))])
    ctx.observe("in", [c in "ab" for c in s])
    d = {"a": 1, "b": 2, "ab": 3}
    ctx.observe("dict", [d.get(s), s in d, d.get(s, 5), [d[c] for c in s if c in d]])
    try:
        ctx.observe("int", int(s))
    except ValueError:
        ctx.observe("int", None)
    try:
        ctx.observe("float", float(s))
    except ValueError:
        ctx.observe("float", None)


def h_symre(ctx, n):
    """patterns that hold symbolic characters"""
    p = ctx.string("p", 1, 2, "ab.]-^\\")
    s = ctx.string("s", 1, n, "ab.]-^\\")
    r = re.compile(re.escape(p))
    m = r.match(s)
    ctx.observe("esc", m and list(m.span()))
    r = re.compile("[" + re.escape(p) + "]+")
    m = r.match(s)
    ctx.observe("cls", m and list(m.span()))
    q = ctx.string("q", 2, 2, "abc")
    try:
        r = re.compile("[" + q[0] + "-" + q[1] + "]")
        m = r.search(s)
        ctx.observe("rng", m and list(m.span()))
    except re.error:
        ctx.observe("rng", "error")


def h_int(ctx):
    a = ctx.int("a", -3, 5)
    b = ctx.int("b", 0, 4)
    ctx.observe("ops", [a + b, a - b, 3 - a, a * 2, a // 2, a % 3, -a, a < b, a == b, bool(a), max(a, b), min(a, b), [1, 2, 3, 4, 5][b], "abcdef"[b:], a in [1, 2], str(a)])


def tasks(tier):
    for p in PATTERNS:
        yield dict(harness="h_re", params=dict(p=p, n=4, alphabet="ab"), samples=10**6)
        yield dict(harness="h_re", params=dict(p=p, n=3, alphabet="abc\n "), samples=10**6)
        yield dict(harness="h_re", params=dict(p=p, n=3, alphabet=None), samples=40)
    for arg in ("", "a", "ab", "\n", "aa", "bc"):
        yield dict(harness="h_str", params=dict(n=3, alphabet="ab \n", arg=arg), samples=10**6)
        yield dict(harness="h_str", params=dict(n=2, alphabet=None, arg=arg), samples=100)
        yield dict(harness="h_str", params=dict(n=3, alphabet="1a_.-e", arg=arg), samples=200)
    yield dict(harness="h_symre", params=dict(n=2), samples=10**6)
    yield dict(harness="h_int", params=dict(), samples=10**6)
