"""long inputs and wide grammars: a few symbolic characters somewhere in a long
text, or many alternatives, items, names and nestings around them"""
import random

from props.common import *

LONG = (
    "; and long texts (60 to 200 fixed characters around 1..3 symbolic ones, each generated grammar of depth 2 repeated over them) "
    "and wide grammars (up to 24 alternatives, 14 items, 30 nestings)"
)
WIDE = (
    [L(w) for w in ("a", "b", "c", "ab", "ba", "bc", "cab", "abc", "aab", "bbc", "abca", "cc", "acb", "bca")]
    + [["kw", w] for w in ("a", "bc", "abc", "cab", "b")]
    + [["ckw", w] for w in ("ab", "c", "bca")]
    + [["clit", w] for w in ("aB", "bC", "c", "cA")]
    + [["group", L("ca")], ["name", L("cb"), "x"], ["act", ["lit", "bb"], "const"], ["word", "ab", "c"], ["and", L("a"), L("c")], ["char", "bc"], ["re", "ab+"], ["re", "ca|cb"], ["supp", L("ac")], ["comb", ["and", L("b"), L("a")]]]
)


def wide(seed, op, k):
    """op of k different alternatives"""
    r = random.Random(seed)
    return [op] + r.sample(WIDE, k)


def text(seed, size, alphabet="ab "):
    r = random.Random(seed)
    return "".join(r.choice(alphabet) for _ in range(size))


def repeated(tier, seed, ops, count=(40, 400), sub_ops=OPS, leaves=LEAVES, alphabet="ab ", whites=(ref.WS, " ", "")):
    """generated grammars all over a long text"""
    g = Gen(seed, leaves, sub_ops)
    for k in range(deep(tier, *count)):
        e = g.such(2, lambda e: e[0] in ops and (e[0] == "all" or not nullable(e)))
        if nullable(e):
            e = ["and", L("a"), e]
        top = ["zom", ["first", ["group", e], ["any"]]]
        size = (60, 100, 150)[k % 3]
        yield one(top, 1 + k % 2, alphabet="abc", white=whites[k % len(whites)], before=text(seed + k, size, alphabet), after=text(seed - k, 20, alphabet))


def put(e, wrap):
    return e if wrap == "_" else [put(e, x) for x in wrap] if isinstance(wrap, list) else wrap


def nested(e, wrap, k):
    for _ in range(k):
        e = put(e, wrap)
    return e


def choices(tier, seed, op):
    for i, k in enumerate((5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 24)):
        for j in range(deep(tier, 2, 6)):
            e = wide(seed + 10 * i + j, op, k)
            yield one(e, 4, lo=1, alphabet="abcA", white="" if (i + j) % 2 else " ")
            yield one(["and", ["opt", L("-")], e, ["opt", ["char", "ab"]]], 3, lo=2, alphabet="abc ")
            if j == 0:
                yield one(["zom", ["group", e]], 2, alphabet="abc", before=text(seed + k, 40, "abc "), after=" ab")
    words = ["w%d" % i for i in range(30)]
    yield one([op] + [L(w) for w in words], 3, lo=2, alphabet="w0129")
    yield one([op] + [["kw", w] for w in words], 3, lo=2, alphabet="w0129")
    yield one([op] + [L(w) for w in words[:12]] + [["word", "w0"]] + [L(w) for w in words[12:]], 3, lo=2, alphabet="w0129")
    yield one([op] + [["group", L(w)] for w in words], 3, lo=2, alphabet="w0129")
    yield one([op] + [["name", ["act", L(w), "wrap"], "x"] for w in words], 3, lo=2, alphabet="w0129")
    yield one(nested(L("a"), [op, "_", L("b")], 20), 2, alphabet="abc")
    yield one(nested(L("a"), [op, L("b"), "_"], 20), 2, alphabet="abc")
    yield one(nested(L("a"), ["and", [op, L("b"), "_"], L("c")], 8), 2, alphabet="abc", before="acccccc")


def sequences(tier):
    for op in ("and", "plus"):
        for k in (6, 8, 9, 10, 12, 17, 33):
            yield one([op] + [L("ab"[i % 2]) for i in range(k)], 2, alphabet="ab ", before=("ab" * k)[:k - 2])
            yield one([op] + [["opt", L("ab"[i % 2])] for i in range(min(k, 12))], 3, alphabet="ab ", before="ab " * 2)
            items = [L("a"), ["name", L("a"), "x"], ["group", L("a")], ["opt", L("b")], ["supp", L("a")], ["zom", L("b")], ["name", ["word", "a", None, 1, 1], "y"]]
            yield one([op] + [items[i % len(items)] for i in range(k)], 2, alphabet="ab ", before="a" * (k - 1 - 2 * (k // 7)))
        yield one(nested(L("a"), [op, "_", L("b")], 30), 2, alphabet="ab ", before="a" + "b" * 28)
        yield one(nested(L("a"), [op, L("b"), "_"], 30), 2, alphabet="ab ", before="b" * 29)
        yield one(nested(L("a"), [op, L("b"), ["group", "_"]], 12), 2, alphabet="ab ", before="b" * 11)
        yield one(nested(L("a"), [op, L("b"), ["name", ["group", "_"], "x"]], 6), 2, alphabet="ab ", before="b" * 5)
        yield one(nested(L("a"), ["group", [op, L("b"), ["opt", "_"]]], 12), 2, alphabet="ab ", before="b" * 8)
        yield one(nested(L("a"), [op, ["supp", L("b")], ["fwd", "_"]], 12), 2, alphabet="ab ", before="b" * 11)
        for k in (40, 90, 150, 300):
            yield one([op, L("a"), L("b"), ["opt", L("a")]], 2, alphabet="ab ", before="a" + " " * k)
            yield one([op, ["word", "ab"], ["group", [op, L("="), ["word", "ab"]]], ["send"]], 2, alphabet="ab =", before="ab" * k + " = " + "b" * k)


def collections(tier):
    r = random.Random(55)
    names = "abcdefgh"
    for k in (4, 5, 6, 7, 8):
        items = [["lit", c] for c in names[:k]]
        for j in range(deep(tier, 4, 12)):
            kinds = [r.choice(["lit", "opt", "name", "group", "zom", "lit"]) for _ in range(k)]
            es = [x if kind == "lit" else [kind, x, "n%d" % i] if kind == "name" else [kind, x] for i, (kind, x) in enumerate(zip(kinds, items))]
            order = r.sample(names[:k], k)
            cut = r.randint(1, k - 1)
            yield one(["all"] + es, 2, alphabet=names[:k], before=" ".join(order[:cut - 1 or 1]) + " ", after=" ".join(order[cut + 1:]))


def lookaround(tier):
    for e, unit in ((L("a"), "a"), (["word", "ab"], "ab"), (["kw", "ab"], " "), (["char", "ab"], "b"), (["re", "a|b"], "a"), (L("ab"), "ab")):
        for k in (12, 70, 140):
            yield one(["and", ["zom", ["char", "ab "]], ["behind", e], ["opt", ["any"]]], 2, alphabet="abc ", white="", before=unit * k)
            yield one(["and", ["not", ["and", ["many", ["any"], k, k], e]], ["zom", ["any"]]], 2, alphabet="abc", white="", before="c" * (k - 1))
            yield one(["and", ["ahead", ["and", ["many", ["any"], k, k], e]], ["zom", ["any"]]], 2, alphabet="abc", white="", before="c" * (k - 1))
            yield one(["zom", ["and", ["not", L("c")], ["any"]]], 2, alphabet="abc", before=unit * k, after="ca")
            yield one(["zom", ["and", ["ahead", ["char", "ab "]], ["any"]]], 2, alphabet="abc", white="", before=unit * k, after="ca")


def skips(tier):
    targets = [L("b"), ["kw", "b"], ["and", L("a"), L("b")], ["first", L("c"), L("b")], ["send"], ["lend"], ["char", "bc"], ["group", L("b")], ["word", "b", None, 2]]
    for t in targets:
        for k in (20, 70, 130, 260):
            for inc in (False, True):
                yield one(["and", ["skip", t, inc], ["opt", ["any"]]], 2, alphabet="abc ", white=" " if k % 4 else "", before="a" * k, after="ab")
        yield one(["and", ["skip", t, True, None, L("(")], ["opt", ["any"]]], 2, alphabet="abc(", before="a(" * 40, after="ab")
        yield one(["skip", t, False, L("!")], 2, alphabet="abc!", before="a c " * 30, after="ab")
    yield one(["zom", ["group", ["skip", L(";"), True]]], 2, alphabet="a; ", before="ab; a ;" * 15, after=";a;")


def tokens(tier):
    for kind in ("lit", "clit", "kw", "ckw"):
        for k in (16, 33, 65, 70, 130, 257):
            w = text(k, k, "abAB")
            i = k // 2
            for at in (0, i, k - 2):
                # a window of the text itself is symbolic
                yield one([kind, w], 2, lo=2, alphabet="abAB", white="", before=w[:at], after=w[at + 2:])
            yield one([kind, w], 1, alphabet="abA_ ", white="", before=w, after="")
        yield one(["and", ["zom", ["char", "-"]], [kind, "ab"], ["opt", ["any"]]], 3, alphabet="abB_ ", white="", before="-" * 100)


def classes(tier):
    for k in (9, 33, 65, 70, 130, 257):
        for e in (["word", "ab"], ["word", "a", "ab"], ["word", "ab", None, k, None], ["word", "ab", None, 1, k], ["word", "ab", None, k + 1, k + 1], ["word", "ab", None, 2, k + 1], ["cni", "c"], ["cni", "c", k, k + 1], ["cni", "c", 1, k], ["close", "ab" * (k // 2), 3]):
            yield one(["and", e, ["opt", ["any"]]], 2, alphabet="abc", white="", before=("ab" * k)[:k - 1], after="ab")
        for e in (["white", " "], ["white", " ", k, k + 1], ["white", " ", 1, k]):
            yield one(["and", e, ["opt", ["any"]]], 2, alphabet="a ", white="", before=" " * (k - 1), after=" a")
    many = [chr(i) for i in range(0x100, 0x100 + 2 * 120, 2)]
    for chars in ("".join(many), "".join(many) + "-", "".join(many[:60]) + "]^"):
        for e in (["char", chars], ["char", "", chars], ["word", chars], ["cni", chars]):
            yield one(e, 2, lo=1)


def positions(tier):
    for tok in (["lstart"], ["lend"], ["sstart"], ["send"], ["wstart", "ab"], ["wend", "ab"]):
        for unit, k in (("a\n", 40), ("ab a\n", 25), ("a" * 70 + "\n", 2), ("\n", 70), (" ", 130), ("ab ", 45)):
            for white in ("", " "):
                yield one(["and", ["zom", ["first", ["and", ["not", L("#")], ["re", "[\\s\\S]"]]]], L("#"), tok, ["opt", ["any"]]], 2, alphabet="a\n b", white=white, before=unit * k + "#")
                yield one(["zom", ["first", ["group", ["and", tok, ["re", "[\\s\\S]"]]], ["re", "[\\s\\S]"]]], 2, alphabet="a\n b", white=white, before=unit * k, after="a\n")


def results(tier):
    """many tokens and many names"""
    for k in (9, 17, 33, 70, 130):
        for e in (
            ["zom", ["name", ["word", "ab"], "x"]], ["zom", ["group", ["name", ["word", "ab"], "x"]]], ["name", ["zom", ["group", ["word", "ab"]]], "x"],
            ["zom", ["and", ["name", L("a"), "x"], ["opt", ["name", L("b"), "y"]]]], ["group", ["zom", ["first", ["name", L("a"), "x"], ["name", L("b"), "y"]]]],
            ["name", ["and", ["zom", ["name", L("a"), "y"]], ["zom", ["any"]]], "x"], ["comb", ["zom", ["char", "ab "]], "-"],
        ):
            yield one(e, 2, alphabet="abc ", before="a b " * (k // 2), after="ab")
    chars = [chr(c) for c in range(ord("a"), ord("a") + 24)]
    for k in (8, 12, 20, 24):
        yield one(["and"] + [["opt", ["name", L(c), "n" + c]] for c in chars[:k]], 2, alphabet="".join(chars[:1] + chars[k - 3:k]), before="".join(chars[:k - 3]))
        yield one(["zom", ["first"] + [["name", L(c), "n" + c] for c in chars[:k]]], 2, alphabet="".join(chars[:1] + chars[k - 3:k]), before="".join(chars[:k]))
    for k in (6, 12, 25):
        yield one(nested(["name", L("b"), "x"], ["group", ["and", ["name", L("a"), "y"], "_"]], k), 2, alphabet="ab", before="a" * (k - 1))
        if k < 10:
            # what a caller sees doubles with each level
            yield one(nested(["name", L("b"), "x"], ["name", ["group", ["and", L("a"), "_"]], "z"], k), 2, alphabet="ab", before="a" * (k - 1))
        yield one(nested(["name", L("b"), "x"], ["and", ["name", L("a"), "x"], "_"], k), 2, alphabet="ab", before="a" * (k - 1))
        yield one(nested(L("b"), ["supp", ["and", L("a"), "_"]], k), 2, alphabet="ab", before="a" * (k - 1))
        yield one(nested(L("b"), ["act", ["and", L("a"), "_"], "wrap"], min(k, 12)), 2, alphabet="ab", before="a" * (min(k, 12) - 1))


def recursion(tier):
    nest = ["rec", "r", ["first", L("a"), ["group", ["and", L("("), ["ref", "r"], L(")")]]]]
    lists = ["rec", "r", ["first", ["word", "ab"], ["group", ["and", ["supp", L("(")], ["zom", ["ref", "r"]], ["supp", L(")")]]]]]
    right = ["rec", "r", ["and", L("a"), ["opt", ["ref", "r"]]]]
    pairs = ["let", [["e", ["and", L("("), ["opt", ["ref", "f"]], L(")")]], ["f", ["first", ["ref", "e"], ["and", L("["), ["ref", "e"], L("]")]]]], ["ref", "f"]]
    for k in (5, 10, 14):
        yield one(nest, 2, alphabet="a()", before="(" * k, after=")" * k)
        yield one(nest, 2, alphabet="a()", before="(" * k + "a" + ")" * (k - 2), after=")")
        yield one(lists, 2, alphabet="a() ", before="(a " * k, after=")" * (k - 1))
        yield one(lists, 2, alphabet="a() ", before="(a " + "(b) a " * k, after=")")
        yield one(right, 2, alphabet="ab", before="a" * k, after="a")
        yield one(["group", right], 2, alphabet="ab", before="a " * k, after="a")
        yield one(pairs, 2, alphabet="()[]", before="([" * (k // 2) + "(", after=")" + "])" * (k // 2))
