"""sets of Unicode characters"""
from props.common import *
from mo_parsing.utils import parsing_unicode, unicode_set

REACH = ("in", "out")
BOUNDS = (
    "the 17 sets of the library, under each of their names, and sets made of up to two ranges each, alone, with a base, or with two bases that overlap; the four properties of each, "
    "asked for in any order; every character of Unicode (and pairs of characters, where they are used in a Word)"
)
ASSUMPTIONS = ["what a letter, a digit or a space is, is what str.isalpha, isdigit and isspace say"]
# as documented
RANGES = {
    "Latin1": [(0x0020, 0x007E), (0x00A0, 0x00FF)],
    "LatinA": [(0x0100, 0x017F)],
    "LatinB": [(0x0180, 0x024F)],
    "Greek": [(0x0370, 0x03FF), (0x1F00, 0x1F15), (0x1F18, 0x1F1D), (0x1F20, 0x1F45), (0x1F48, 0x1F4D), (0x1F50, 0x1F57), (0x1F59, 0x1F59), (0x1F5B, 0x1F5B), (0x1F5D, 0x1F5D), (0x1F5F, 0x1F7D), (0x1F80, 0x1FB4), (0x1FB6, 0x1FC4), (0x1FC6, 0x1FD3), (0x1FD6, 0x1FDB), (0x1FDD, 0x1FEF), (0x1FF2, 0x1FF4), (0x1FF6, 0x1FFE)],
    "Cyrillic": [(0x0400, 0x04FF)],
    "Chinese": [(0x4E00, 0x9FFF), (0x3000, 0x303F)],
    "Korean": [(0xAC00, 0xD7AF), (0x1100, 0x11FF), (0x3130, 0x318F), (0xA960, 0xA97F), (0xD7B0, 0xD7FF), (0x3000, 0x303F)],
    "Thai": [(0x0E01, 0x0E3A), (0x0E3F, 0x0E5B)],
    "Arabic": [(0x0600, 0x061B), (0x061E, 0x06FF), (0x0700, 0x077F)],
    "Hebrew": [(0x0590, 0x05FF)],
    "Devanagari": [(0x0900, 0x097F), (0xA8E0, 0xA8FF)],
    "Japanese.Kanji": [(0x4E00, 0x9FBF), (0x3000, 0x303F)],
    "Japanese.Hiragana": [(0x3040, 0x309F)],
    "Japanese.Katakana": [(0x30A0, 0x30FF)],
}
RANGES["Japanese"] = RANGES["Japanese.Kanji"] + RANGES["Japanese.Hiragana"] + RANGES["Japanese.Katakana"]
RANGES["CJK"] = RANGES["Chinese"] + RANGES["Japanese"] + RANGES["Korean"]
OTHER = {
    "\u0627\u0644\u0639\u0631\u0628\u064a\u0629": "Arabic", "\u4e2d\u6587": "Chinese", "\u043a\u0438\u0440\u0438\u043b\u043b\u0438\u0446\u0430": "Cyrillic",
    "\u0395\u03bb\u03bb\u03b7\u03bd\u03b9\u03ba\u03ac": "Greek", "\u05e2\u05b4\u05d1\u05e8\u05b4\u05d9\u05ea": "Hebrew", "\u65e5\u672c\u8a9e": "Japanese",
    "Japanese.\u6f22\u5b57": "Japanese.Kanji", "Japanese.\u30ab\u30bf\u30ab\u30ca": "Japanese.Katakana", "Japanese.\u3072\u3089\u304c\u306a": "Japanese.Hiragana",
    "\ud55c\uad6d\uc5b4": "Korean", "\u0e44\u0e17\u0e22": "Thai", "\u0926\u0947\u0935\u0928\u093e\u0917\u0930\u0940": "Devanagari",
}
KINDS = ("alphas", "nums", "alphanums", "printables")


def wanted(c, kind, ranges):
    if not any(lo <= ord(c) <= hi for lo, hi in ranges):
        return False
    if kind == "alphas":
        return c.isalpha()
    if kind == "nums":
        return c.isdigit()
    if kind == "alphanums":
        return c.isalpha() or c.isdigit()
    return not c.isspace()


def verify(ctx, chars, kind, ranges, word=False, match=True, name="s"):
    ctx.check(type(chars) is str, "is text")
    if kind != "alphanums" and match:
        ctx.check(all(a < b for a, b in zip(chars, chars[1:])), "in order, each once")
    s = ctx.string(name, 1, 1)
    want = True if wanted(s, kind, ranges) else False
    ctx.reach("in" if want else "out")
    ctx.equal(True if s in chars else False, want, "is in the set")
    if chars and match:
        with Whitespace(""):
            p = gram.Word(chars) if word else gram.Char(chars)
            got = gram.attempt(p, s)
        ctx.equal(got[0] == "ok", want, "matches")


def h_set(ctx, names, word=False, kinds=KINDS):
    name = ctx.choice("set", names)
    kind = ctx.choice("kind", kinds)
    at = parsing_unicode
    for n in name.split(".") if name else []:
        at = getattr(at, n)
    verify(ctx, getattr(at, kind), kind, RANGES[OTHER.get(name, name)], word, bool(name))


POOL = [[(0x30, 0x39)], [(0x41, 0x46), (0x61, 0x63)], [(0x09, 0x20)], [(0x38, 0x42)], [(0x660,)], [(0x3B1, 0x3B3), (0x3B2, 0x3B5)], [(0x10400, 0x10402)], []]


def h_own(ctx, shape):
    """sets that users make"""
    kind = ctx.choice("kind", KINDS)
    before = ctx.choice("before", ("", "alphas", "printables"))
    k = ctx.choice("a", len(POOL))
    a = POOL[k]
    b = POOL[(k + 1 + 2 * ctx.choice("b", 3)) % len(POOL)] if shape > 1 else []
    A = type("A", (unicode_set,), {"_ranges": a, "__doc__": "made by a user"})
    B = type("B", (unicode_set,), {"_ranges": b})
    if shape == 1:
        X, all_of = A, a
    elif shape == 2:
        X, all_of = type("X", (A,), {"_ranges": b}), a + b
    elif shape == 3:
        X, all_of = type("X", (A, B), {}), a + b
    else:
        C = type("C", (B,), {"_ranges": [(0x7A, 0x7A)]})
        X, all_of = type("X", (A, C), {"_ranges": []}), a + b + [(0x7A, 0x7A)]
    if before:
        # whatever was asked of it, or of the ones it is made of
        for x in (A, B, X):
            getattr(x, before)
    if ctx.flag("base"):
        X, all_of = A, a
    verify(ctx, getattr(X, kind), kind, [(r[0], r[-1]) for r in all_of])


def tasks(tier):
    for name in sorted(set(RANGES) - {"CJK", "Chinese", "Japanese", "Japanese.Kanji", "Korean"}):
        yield dict(harness="h_set", params=dict(names=[name]))
        yield dict(harness="h_set", params=dict(names=[name], word=True))
    for name in ("CJK", "Chinese", "Japanese", "Japanese.Kanji", "Korean"):
        yield dict(harness="h_set", params=dict(names=[name]))
    for name in sorted(OTHER):
        yield dict(harness="h_set", params=dict(names=[name]))
    for shape in (1, 2, 3, 4):
        yield dict(harness="h_own", params=dict(shape=shape))
