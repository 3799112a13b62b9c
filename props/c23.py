"""one_of, delimited_list and counted_array"""
from props.common import *
from mo_parsing.infix import one_of, delimited_list
from mo_parsing.helpers import counted_array

REACH = ("ok", "fail", "longer", "listed twice", "none", "many", "counted")
BOUNDS = (
    "one_of: every list of two or three words of a vocabulary with prefixes, repeats, letters of both cases and characters special to regular expressions, given as list, tuple, generator or text, every string of up to 3 characters (also over all of Unicode); "
    "delimited_list and counted_array over tokens, groups and arbitrary sub-parsers, every string of up to 4 to 6 characters"
)
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["words given to one_of are not empty"]
PLAIN = ["a", "b", "ab", "aB", "ba", "aab", "abb"]
ODD = ["a", "]", "^", "-", "a-", "\\", "[", "a]", ".", "*", "|a", "a|", " a", "^a", "$", "(", "\n"]


def same(a, b, caseless):
    return ref.same_letter(a, b) if caseless else a == b


def longest(r, words, i, caseless, keyword):
    """of the words that are at i, the longest; as it was listed first"""
    best = None
    for w in words:
        spec = [{(0, 0): "lit", (1, 0): "clit", (0, 1): "kw", (1, 1): "ckw"}[caseless, keyword], w]
        x = r.run(spec, i)
        if x is not None and (best is None or len(w) > best.end - i):
            best = ref.N("leaf", i, x.end, [w])
    return best


def h_one_of(ctx, vocabulary, m, n, alphabet, white, caseless, keyword, first=None, given="list", more=(), lo=0):
    words = [first] if first else []
    words += [ctx.choice("w%d" % i, vocabulary) for i in range(m)]
    words += more
    s = ctx.string("s", lo, n, alphabet)
    given = {"list": list, "tuple": tuple, "text": " ".join}[given]
    with Whitespace(white):
        p = one_of(given(words), caseless=bool(caseless), as_keyword=bool(keyword))
        got = gram.attempt(gram.Group(p), s)
        again = gram.attempt(gram.Group(gram.And([p, p], whitespaces.CURRENT)), s) if n < 3 else None
    r = ref.Ref(s, white)
    i = r.skip(0)
    x = longest(r, words, i, caseless, keyword)
    if len(set(words)) < len(words):
        ctx.reach("listed twice")
    if x is not None and any(w != x.toks[0] and x.toks[0].startswith(w) for w in words):
        ctx.reach("longer")
    want = ["fail"] if x is None else ["ok", ref.view(ref.N("group", x.start, x.end, [x]))]
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "one_of")
    if again is not None:
        y = x and longest(r, words, r.skip(x.end), caseless, keyword)
        ctx.equal(again, ["ok", ref.view(ref.N("group", x.start, y.end, [x, y]))] if y else ["fail"], "twice")


def h_none(ctx, n):
    s = ctx.string("s", 0, n)
    for words in ("", [], (), "  "):
        ctx.reach("none")
        ctx.equal(gram.attempt(one_of(words), s), ["fail"], "no words")


def h_delimited(ctx, specs, n, alphabet, white, before="", after=""):
    e, sep, combine = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx) if has(e, "stub") or has(sep, "stub") else None
    with Whitespace(white):
        build = lambda x: x if isinstance(x, str) else gram.build(x, {"table": table})
        more = {"combine": True} if combine else {}
        if sep != "," or ctx.flag("given"):
            more["separator"] = build(sep)
        p = delimited_list(build(e), **more)
        got = gram.attempt(gram.Group(p), s)
    spec = ["lit", sep] if isinstance(sep, str) else sep
    if combine:
        spec = ["comb", ["and", e, ["zom", ["and", spec, e]]]]
    else:
        spec = ["and", e, ["zom", ["and", ["supp", spec], e]]]
    want = ref.attempt(["group", spec], s, white, table)
    ctx.reach(want[0])
    if want[0] == "ok" and len(want[1]["items"]) > 1:
        ctx.reach("many")
    ctx.observe("got", got)
    ctx.equal(got, want, "delimited_list")


class Counting(ref.Ref):
    def r_counted(self, env, i, e, kind):
        x = self.run(["word", "01" if kind == "binary" else "0123456789"], i, env)
        if x is None:
            return None
        text = str(self.s[i:x.end]) if isinstance(self.s, str) else self.s[i:x.end]
        count = int(text, 2) if kind == "binary" else int(text)
        at = self.skip(x.end)
        end = at
        acc = []
        while len(acc) < count:
            y = self.run(e, at, env)
            if y is None or y.end == y.start:
                return None
            acc.append(y)
            end = y.end
            at = self.skip(end)
        y = ref.N("group", acc[0].start if acc else end, end, acc)
        return ref.N("and", i, end, [y])


def h_counted(ctx, spec, n, alphabet, white, kind, around, before="", after="", elsewhere=None):
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx, zero=False) if has(spec, "stub") else None
    with Whitespace(white):
        e = gram.build(spec, {"table": table})
        if kind == "binary":
            p = counted_array(e, int_expr=gram.Word("01") / (lambda t: int(t[0], 2)))
        else:
            p = counted_array(e)
        outer = ["counted", spec, kind]
        if around == "zom":
            p, outer = gram.ZeroOrMore(p), ["zom", outer]
        elif around == "first":
            p = gram.MatchFirst([gram.And([p, gram.Literal("!")], whitespaces.CURRENT), p])
            outer = ["first", ["and", outer, ["lit", "!"]], outer]
        p = gram.Group(p)
    # what is in effect while parsing is of no matter
    with Whitespace(white if elsewhere is None else elsewhere):
        got = gram.attempt(p, s)
        again = gram.attempt(p, s)
    r = Counting(s, white, table)
    x = r.run(["group", outer], r.skip(0))
    want = ["fail"] if x is None else ["ok", ref.view(x)]
    if want[0] == "ok":
        ctx.reach("counted")
    ctx.observe("got", got)
    ctx.equal(got, want, "counted_array")
    ctx.equal(again, want, "again")


def tasks(tier):
    for caseless in (0, 1):
        for keyword in (0, 1):
            white = ["", " "][caseless ^ keyword]
            for w in PLAIN:
                given = ["list", "text", "tuple"][(len(w) + caseless + keyword) % 3]
                yield dict(harness="h_one_of", params=dict(vocabulary=PLAIN, m=2 if not keyword else 1, n=3, alphabet="abAB ", white=white, caseless=caseless, keyword=keyword, first=w, given=given))
    for w in ODD:
        yield dict(harness="h_one_of", params=dict(vocabulary=ODD, m=1, n=2, alphabet=None, white="", caseless=0, keyword=0, first=w))
    yield dict(harness="h_one_of", params=dict(vocabulary=["a-", "z", "\\", "]", "^"], m=2, n=2, alphabet=None, white="", caseless=0, keyword=0, first="a"))
    for w in ("a", "\xdf", "ss", "\u0130", "k", "K", "\u212a"):
        yield dict(harness="h_one_of", params=dict(vocabulary=["a", "A", "\xdf", "ss", "\u0130", "i", "\u212a", "k"], m=1, n=2, alphabet=None, white="", caseless=1, keyword=0, first=w))
    yield dict(harness="h_one_of", params=dict(vocabulary=["<", "<=", "<<", "<<=", "=", "=="], m=3, n=3, alphabet="<=", white="", caseless=0, keyword=0))
    yield dict(harness="h_none", params=dict(n=2))
    a, w = L("a"), ["word", "ab"]
    specs = [
        [a, ",", False], [a, ",", True], [w, ",", False], [w, ":", True], [["group", w], ";", False], [["name", w, "x"], ",", False], [["opt", a], ",", False], [["and", a, L("b")], ",", False],
        [a, ["char", ",;"], False], [a, ["first", L(","), L(";;")], True], [["first", ["and", a, a], a], L("b"), False], [["act", w, "wrap"], ",", False], [w, ["kw", "b"], False], [a, "::", False],
    ]
    for k, x in enumerate(specs):
        alphabet = "ab,: ;" if k in (3, 4, 8, 9, 13) else "ab, "
        yield dict(harness="h_delimited", params=dict(specs=[x], n=deep(tier, 5, 7), alphabet=alphabet, white=" "))
        yield dict(harness="h_delimited", params=dict(specs=[x], n=deep(tier, 4, 6), alphabet=alphabet, white=""))
    yield dict(harness="h_delimited", params=dict(specs=[[a, ",", False], [w, ",", True]], n=3, alphabet=None, white=ref.WS))
    for x in ([S[0], ",", False], [S[0], S[1], False], [S[0], S[1], True], [["group", S[0]], ",", False]):
        yield dict(harness="h_delimited", params=dict(specs=[x], n=deep(tier, 2, 3), alphabet="a, ", white=" "))
    for k, (spec, kind, around, n, alphabet) in enumerate([
        (a, "decimal", None, 5, "a012"), (a, "decimal", "zom", 5, "a012"), (["char", "ab"], "decimal", "first", 5, "ab12!"), (["word", "ab"], "decimal", None, 5, "ab123 "), (a, "binary", None, 5, "a01"), (["and", a, L("b")], "decimal", None, 6, "ab12"),
        (["group", ["and", a, ["opt", L("b")]]], "decimal", "zom", 5, "ab02"), (["name", a, "x"], "decimal", None, 4, "a12"), (S[0], "decimal", None, 3, "12a "), (["char", "ab12"], "decimal", "zom", 5, "a12"),
        (["first", ["and", a, a], a], "decimal", "first", 5, "a12!"),
    ]):
        yield dict(harness="h_counted", params=dict(spec=spec, n=n + deep(tier, 0, 1), alphabet=alphabet, white=["", " "][" " in alphabet], kind=kind, around=around))
    for spec in (["char", "ab"], ["word", "ab"], ["and", a, ["opt", L("b")]], ["group", ["word", "ab"]]):
        for white, elsewhere in (("-", " "), ("- ", ""), ("-", "b"), ("", "-")):
            yield dict(harness="h_counted", params=dict(spec=spec, n=deep(tier, 5, 6), alphabet="ab12- ", white=white, kind="decimal", around=None, elsewhere=elsewhere))
    # many words, long lists
    many = ["a", "b", "ab", "aB", "ba", "bb", "aab", "abb", "aabb", "bab", "baa", "aba", "abab", "bba", "Bb", "AA", "c", "ca", "cab", "bc", "Cb", "ac", "abc", "a.c"]
    for caseless in (0, 1):
        for keyword in (0, 1):
            for k in (8, 12, 20, 24):
                words = many[:k] if keyword ^ caseless else many[:k][::-1]
                yield dict(harness="h_one_of", params=dict(vocabulary=["b", "abbb", "aB"], m=1, n=4, lo=1, alphabet="abBc", white="", caseless=caseless, keyword=keyword, more=words, given=["list", "text", "tuple"][k % 3]))
    long = "ab" * 40
    for caseless in (0, 1):
        yield dict(harness="h_one_of", params=dict(vocabulary=["a", long], m=1, n=3, alphabet="ab", white="", caseless=caseless, keyword=0, more=[long + "a", long]))
    for k, x in enumerate(specs):
        sep = x[1] if isinstance(x[1], str) else {"char": ",", "first": ",", "lit": "b", "kw": " b "}[x[1][0]]
        item = "ab" if k == 7 else "a"
        alphabet = "ab,: ;" if k in (3, 4, 8, 9, 13) else "ab, "
        for size in (9, 20, 40, 80):
            yield dict(harness="h_delimited", params=dict(specs=[x], n=2, alphabet=alphabet, white=["", " "][k % 2], before=(item + sep) * size, after=item + sep + item))
    yield dict(harness="h_delimited", params=dict(specs=[[w, ",", False]], n=2, alphabet="a, ", white=" ", before="ab" * 40 + " " * 40 + "," + " " * 70, after="b"))
    for spec, unit in ((a, "a"), (["group", ["and", a, ["opt", L("b")]]], "ab"), (["name", a, "x"], "a")):
        for count in (9, 10, 12, 20, 100):
            for around in (None, "zom", "first"):
                yield dict(harness="h_counted", params=dict(spec=spec, n=2, alphabet="ab1", white="", kind="decimal", around=around, before=str(count) + unit * (count - 1), after="a!"))
        yield dict(harness="h_counted", params=dict(spec=spec, n=2, alphabet="ab01", white=" ", kind="binary", around=None, before="10" + "1 ", after=unit * 12))
        yield dict(harness="h_counted", params=dict(spec=spec, n=2, alphabet="ab012", white=" ", kind="decimal", around="zom", before="", after=" " + unit * 22))
