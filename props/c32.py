"""indented blocks"""
from props.common import *

REACH = ("ok", "fail", "tree", "bad")
BOUNDS = (
    "indented_block of words, of statements that have blocks themselves, of arbitrary sub-parsers, alone, repeated, in sequences, choices, options, lookahead and with names, indented or not; "
    "every string of up to 6 to 7 characters over letters, colon, blank and newline; with newlines as whitespace or not; documents of up to 5 lines at any columns"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["no parse inside of an action of a block"]


def h_lines(ctx, lines, width, blank):
    """documents line by line: those whose indentation is in order are read as their tree"""
    n = ctx.choice("lines", lines) + 1
    text, doc = "", []
    for k in range(n):
        c = ctx.choice("column%d" % k, width) if k else 0
        head = ctx.choice("head%d" % k, 2)
        text += (" " * c) + "ab"[k % 2] + (":" if head else "") + "\n" * (1 + (blank and ctx.choice("blank%d" % k, 2)))
        doc.append((c, head, "ab"[k % 2]))
    want, ok = tree(doc)
    w = gram.Word("ab")
    stmt = gram.Forward()
    stmt << (gram.Group(w + ":" + gram.indented_block(stmt)) | w)
    p = gram.indented_block(stmt, False)
    try:
        got = p.parse(text, parse_all=True).as_list()
    except gram.ParseException:
        got = None
    ctx.observe("got", got)
    ctx.reach("tree" if ok else "bad")
    if ok:
        ctx.equal(got, [want], "tree")
    else:
        ctx.equal(got, None, "not in order")


def tree(doc):
    """(nested lists, is it in order)"""
    pos = [0]

    def block(col):
        out = []
        while pos[0] < len(doc) and doc[pos[0]][0] == col:
            c, head, name = doc[pos[0]]
            pos[0] += 1
            if head:
                if pos[0] >= len(doc) or doc[pos[0]][0] <= col:
                    return None
                sub = block(doc[pos[0]][0])
                if sub is None:
                    return None
                item = [name, ":", sub]
            else:
                item = name
            out.append([item])
        if pos[0] < len(doc) and doc[pos[0]][0] > col:
            return None
        return out

    out = block(0)
    return out, out is not None and pos[0] == len(doc)


W = ["word", "ab"]
R = ["ref", "r"]
NESTED = ["rec", "r", ["first", ["group", ["and", W, L(":"), ["block", R]]], W]]


def grammars_of(d):
    yield ["oom", NESTED], "a: \n", 6 + d
    yield ["block", NESTED, False], "a: \n", 6 + d
    yield ["block", W], "a \n", 6 + 2 * d
    yield ["block", W, False], "a \n", 6 + 2 * d
    yield ["oom", ["and", L(":"), ["block", W]]], "a: \n", 6 + d
    yield ["and", L(":"), ["opt", ["block", W]], ["zom", W]], "a: \n", 6 + d
    yield ["oom", ["first", ["and", W, L(":"), ["block", W]], ["and", W, L(":")], W]], "a: \n", 6 + d
    yield ["rec", "r", ["and", L(":"), ["block", ["or", W, R]]]], "a: \n", 6 + d
    yield ["rec", "r", ["and", L(":"), ["block", ["first", R, W]]]], "a: \n", 6 + d
    yield ["oom", ["and", W, ["opt", ["and", L(":"), ["block", ["and", W, ["opt", ["and", L(":"), ["block", W]]]]]]]]], "a: \n", 6 + d
    yield ["and", L(":"), ["not", ["block", ["and", W, W]]], ["block", W]], "a: \n", 6 + d
    yield ["and", ["name", ["block", ["name", W, "w"], False], "x"], ["opt", W]], "a: \n", 6 + d
    yield ["zom", ["and", L(":"), ["block", ["block", W, False], True]]], "a: \n", 6 + d
    yield ["zom", ["and", L(":"), ["block", ["oom", ["and", W, L(":"), ["block", W]]]]]], "a: \n", 6 + d


def stubs():
    p, q = S[:2]
    yield ["block", p, False]
    yield ["and", p, ["block", q]]
    yield ["zom", ["first", ["block", p], q]]
    yield ["block", ["and", p, ["opt", ["block", q]]], False]


def h_comments(ctx, specs, comments, n, alphabet, white):
    """comments are ignored in blocks as elsewhere"""
    spec = ctx.choice("grammar", specs)
    s = ctx.string("s", 0, n, alphabet)
    with Whitespace(white) as w:
        for c in comments:
            with whitespaces.NO_WHITESPACE:
                w.add_ignore(gram.build(c, {}))
        got = gram.attempt(gram.Group(gram.build(spec, {})), s)
    want = ref.attempt(["group", spec], s, white, None, False, comments)
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "comments")


def tasks(tier):
    d = deep(tier, 0, 1)
    for spec, alphabet, n in grammars_of(d):
        for white in (ref.WS, " "):
            yield dict(harness="h_grammar", module="common", params=dict(spec=spec, n=n, alphabet=alphabet, white=white))
    for spec in stubs():
        yield dict(harness="h_grammar", module="common", params=dict(spec=spec, n=4 + d, alphabet="a \n", white=ref.WS))
    yield dict(harness="h_lines", params=dict(lines=deep(tier, 4, 5), width=4, blank=False))
    yield dict(harness="h_lines", params=dict(lines=3, width=3, blank=True))
    some = [spec for spec, alphabet, n in grammars_of(0) if not has(spec, "not")]
    for white in (ref.WS, " "):
        for comments, alphabet in (([L("#"), L("%")], "a:\n #%"), ([["re", "#[a:]*"], L("%")], "a:\n #%"), ([["and", L("#"), ["opt", L("a")]], L("b"), L("%")], "a: #b%\n")):
            for i in range(0, len(some), 3):
                yield dict(harness="h_comments", params=dict(specs=some[i:i + 3], comments=comments, n=4 + d, alphabet=alphabet, white=white))
    # long and deep documents
    stmt = ["rec", "r", ["first", ["group", ["and", ["word", "ab"], L(":"), ["block", ["ref", "r"]]]], ["word", "ab"]]]
    doc = ["block", stmt, False]
    deepest = "".join(" " * (2 * k) + "a:\n" for k in range(5))
    for before, after in (("a\n" * 40, "a\nb"), ("a:\n  b\n" * 12, "a\n"), (deepest + " " * 8, "a\n"), (deepest + " " * 10 + "b\n", "  a\nb\n"), ("a:\n" + "    b\n" * 20, "    b\na"), ("a:\n" + "\n" * 40 + "  b\n", "  a\nb"), ("a:\n" + " " * 70 + "b\n" + " " * 68, "a")):
        for white in (ref.WS, " "):
            yield dict(harness="h_grammar", module="common", params=dict(spec=doc, n=3, alphabet="ab: \n", white=white, before=before, after=after))
