"""the ready made expressions of helpers"""
from props.common import *
from mo_parsing import helpers as H

REACH = ("ok", "fail", "number", "address", "date", "comment", "backtrack")
BOUNDS = (
    "numbers and identifiers: every string of up to 5 characters over digits, signs, point, exponent and letters; addresses, UUIDs and dates: texts of their full length with every window of two or three characters replaced by any character that matters; "
    "comments: every string of up to 6 (thorough: 8) characters over the characters that matter, up to 3 over Unicode"
)
ASSUMPTIONS = ["digits are those of ASCII", "fractions with a zero denominator are not exercised"]
D = "0123456789"
HEX = "0123456789abcdefABCDEF"
LETTER = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


class Scan(object):
    """recognizers, by hand; each gives the end of the match or None"""

    def __init__(self, s):
        self.s = s

    def at(self, i, chars):
        return i < len(self.s) and self.s[i] in chars

    def lit(self, i, text):
        return i + len(text) if self.s[i:i + len(text)] == text else None

    def run(self, i, chars, hi=None):
        j = i
        while self.at(j, chars) and (hi is None or j - i < hi):
            j += 1
        return j

    def exactly(self, i, chars, n):
        return i + n if self.run(i, chars, n) == i + n else None

    def sign(self, i):
        return i + 1 if self.at(i, "+-") else i

    def integer(self, i):
        j = self.run(i, D)
        return j if j > i else None

    def hex_integer(self, i):
        j = self.run(i, HEX)
        return j if j > i else None

    def signed_integer(self, i):
        return self.integer(self.sign(i))

    def real(self, i):
        i = self.sign(i)
        j = self.run(i, D)
        if not self.at(j, "."):
            return None
        k = self.run(j + 1, D)
        return k if j > i or k > j + 1 else None

    def exponent(self, i):
        if self.at(i, "eE"):
            return self.signed_integer(i + 1)

    def sci_real(self, i):
        j = self.real(i)
        if j is not None:
            return self.exponent(j) or j
        j = self.signed_integer(i)
        return j and self.exponent(j)

    def fnumber(self, i):
        j = self.signed_integer(i)
        if j is None:
            return None
        if self.at(j, "."):
            j = self.run(j + 1, D)
        return self.exponent(j) or j

    def identifier(self, i):
        if self.at(i, LETTER + "_"):
            return self.run(i, LETTER + "_" + D)

    def octets(self, i):
        """ends of the numbers 0 to 255 at i, the preferred one first"""
        out = []
        if self.at(i, D):
            j = self.run(i, D, 3)
            if j == i + 3 and (self.s[i] == "1" or self.s[i] == "2" and (self.s[i + 1] in "01234" or self.s[i + 1] == "5" and self.s[i + 2] in "012345")):
                out.append(i + 3)
            if j >= i + 2:
                out.append(i + 2)
            out.append(i + 1)
        return out

    def ipv4_address(self, i, n=4):
        for j in self.octets(i):
            if n == 1:
                return j
            if self.at(j, "."):
                k = self.ipv4_address(j + 1, n - 1)
                if k is not None:
                    return k

    def mac_address(self, i):
        i = self.exactly(i, HEX, 2)
        if i is None or not self.at(i, ":.-"):
            return None
        c = self.s[i]
        for _ in range(5):
            if i >= len(self.s) or self.s[i] != c:
                return None
            i = self.exactly(i + 1, HEX, 2)
            if i is None:
                return None
        return i

    def uuid(self, i):
        for k, n in enumerate((8, 4, 4, 4, 12)):
            if k:
                if not self.at(i, "-"):
                    return None
                i += 1
            i = self.exactly(i, HEX, n)
            if i is None:
                return None
        return i

    def parts(self, i, lo, hi):
        """up to hi hex numbers with colons between: (end, how many)"""
        n, end = 0, i
        while n < hi:
            j = i if n == 0 else end + 1 if self.at(end, ":") else None
            if j is None or not self.at(j, HEX):
                break
            end = self.run(j, HEX, 4)
            n += 1
        return (end, n) if n >= lo else (None, 0)

    def ipv6_address(self, i):
        j, n = self.parts(i, 8, 8)
        if n == 8:
            return j
        j = self.lit(i, "::ffff:")
        if j is not None:
            k = self.ipv4_address(j)
            if k is not None:
                return k
        j, n = self.parts(i, 0, 7)
        if self.lit(j, "::") is None:
            return None
        k, m = self.parts(j + 2, 0, 7)
        return k if n + m < 8 else None

    def c_comment(self, i):
        if self.lit(i, "/*") is None:
            return None
        for j in range(i + 2, len(self.s) - 1):
            if self.s[j] == "*" and self.s[j + 1] == "/":
                return j + 2

    def html_comment(self, i):
        if self.lit(i, "<!--") is None:
            return None
        for j in range(i + 4, len(self.s) - 2):
            if self.s[j:j + 3] == "-->":
                return j + 3

    def rest_of_line(self, i):
        while i < len(self.s) and self.s[i] != "\n":
            i += 1
        return i

    def dbl_slash(self, i):
        if self.lit(i, "//") is None:
            return None
        i += 2
        while i < len(self.s):
            if self.s[i] == "\\" and self.at(i + 1, "\n"):
                i += 2
            elif self.s[i] == "\n":
                break
            else:
                i += 1
        return i

    def cpp_comment(self, i):
        return self.c_comment(i) or self.dbl_slash(i)

    def python_comment(self, i):
        if self.at(i, "#"):
            return self.rest_of_line(i)


def text_of(s, i, j):
    return s[i:j]


# name: (recognizer, value of the text)
KINDS = {
    "integer": ("integer", int), "hex_integer": ("hex_integer", lambda t: int(t, 16)), "signed_integer": ("signed_integer", int), "real": ("real", float), "sci_real": ("sci_real", float), "fnumber": ("fnumber", float), "identifier": ("identifier", None),
    "ipv4_address": ("ipv4_address", None), "ipv6_address": ("ipv6_address", None), "mac_address": ("mac_address", None), "uuid": ("uuid", None),
    "cStyleComment": ("c_comment", None), "html_comment": ("html_comment", None), "restOfLine": ("rest_of_line", None), "dblSlashComment": ("dbl_slash", None), "cppStyleComment": ("cpp_comment", None), "pythonStyleComment": ("python_comment", None),
}


def compare(ctx, p, s, start, end, toks):
    got = None
    try:
        r = p.parse(s)
        got = [list(r), r.start, r.end]
    except gram.ParseException:
        pass
    ctx.reach("ok" if end is not None else "fail")
    ctx.observe("got", got)
    if end is None or got is None:
        ctx.check(got is None and end is None, "matches", got=got, end=end)
        return False
    ctx.equal(got[1:], [start, end], "extent")
    ctx.equal(len(got[0]), len(toks), "number of tokens")
    for a, b in zip(got[0], toks):
        ctx.check(isinstance(a, str) == isinstance(b, str), "type")
        ctx.check(a == b, "value", got=got, want=toks)
    return True


def h_kind(ctx, kind, n, alphabet, lo=0, before="", after=""):
    s = before + ctx.string("s", lo, n, alphabet) + after
    name, value = KINDS[kind]
    start = ref.Ref(s).skip(0) if kind == "cStyleComment" else 0
    end = getattr(Scan(s), name)(start)
    toks = [] if end is None else [value(s[start:end]) if value else s[start:end]]
    if name in ("integer", "real", "sci_real") and end is not None:
        ctx.reach("number")
    if "comment" in name and end is not None:
        ctx.reach("comment")
    with Whitespace(""):
        compare(ctx, getattr(H, kind), s, start, end, toks)


def h_number(ctx, n, alphabet):
    s = ctx.string("s", 0, n, alphabet)
    x = Scan(s)
    end = x.sci_real(0)
    if end is not None:
        toks = [float(s[0:end])]
    else:
        end = x.signed_integer(0)
        toks = [] if end is None else [int(s[0:end])]
        if end is not None and x.at(end, "eE"):
            ctx.reach("backtrack")
    with Whitespace(""):
        compare(ctx, H.number, s, 0, end, toks)


def h_fraction(ctx, n, alphabet):
    """1/2, and 3-1/2"""
    s = ctx.string("s", 0, n, alphabet)
    x = Scan(s)

    def fraction(i):
        j = x.signed_integer(i)
        if j is None or not x.at(j, "/"):
            return None
        k = x.signed_integer(j + 1)
        if k is None:
            return None
        below = int(s[j + 1:k])
        ctx.assume(below != 0)
        return k, float(s[i:j]) / float(s[j + 1:k])

    found = fraction(0)
    mixed = found
    if mixed is None:
        j = x.signed_integer(0)
        if j is not None:
            more = fraction(j + 1 if x.at(j, "-") else j)
            whole = int(s[0:j])
            mixed = (j, whole) if more is None else (more[0], whole + more[1])
    with Whitespace(""):
        compare(ctx, H.fraction, s, 0, found and found[0], [found and found[1]])
        compare(ctx, H.mixed_integer, s, 0, mixed and mixed[0], [mixed and mixed[1]])


def h_window(ctx, kind, text, at, n, alphabet):
    """text, with any n characters from at on"""
    s = text[:at] + ctx.string("s", n, n, alphabet) + text[at + n:]
    name = KINDS[kind][0]
    end = getattr(Scan(s), name)(0)
    if end is not None:
        ctx.reach("address")
    with Whitespace(""):
        compare(ctx, getattr(H, kind), s, 0, end, [s[0:end]] if end is not None else [])


def h_date(ctx, kind, text, at, n, alphabet):
    s = text[:at] + ctx.string("s", n, n, alphabet) + text[at + n:]
    x = Scan(s)
    names = []

    def field(name, i, n, before=""):
        if before:
            if not x.at(i, before):
                return None
            i += 1
        j = x.exactly(i, D, n)
        if j is not None:
            names.append((name, i, j))
        return j

    end = field("year", 0, 4)
    if kind == "iso8601_date":
        j = end and field("month", end, 2, "-")
        k = j and field("day", j, 2, "-")
        end = k or j or end
    else:
        for name, before in (("month", "-"), ("day", "-"), ("hour", "T "), ("minute", ":")):
            end = end and field(name, end, 2, before)
        if end:
            j = field("second", end, 2, ":")
            if j:
                if x.at(j, "."):
                    j = x.run(j + 1, D)
                    names[-1] = ("second", names[-1][1], j)
                end = j
            elif x.at(end, ":"):
                end += 1  # 12:30: is allowed, with nothing in it
            if x.at(end, "Z"):
                names.append(("tz", end, end + 1))
                end += 1
            elif x.at(end, "+-"):
                j = x.exactly(end + 1, D, 2)
                if j is not None:
                    if x.at(j, ":") and x.exactly(j + 1, D, 2) is not None:
                        j += 1
                    k = x.exactly(j, D, 2)
                    if k is not None:
                        names.append(("tz", end, k))
                        end = k
    got = None
    with Whitespace(""):
        try:
            r = getattr(H, kind).parse(s)
            got = [r.start, r.end] + [r[k] for k in ("year", "month", "day", "hour", "minute", "second", "tz")]
        except gram.ParseException:
            pass
    if end is None:
        ctx.reach("fail")
        ctx.check(got is None, "matches")
        return
    ctx.reach("date")
    values = {name: s[i:j] for name, i, j in names}
    ctx.check(got is not None, "matches")
    ctx.equal(got[:2], [0, end], "extent")
    for k, v in zip(("year", "month", "day", "hour", "minute", "second", "tz"), got[2:]):
        if k in values:
            ctx.check(v == values[k], k, got=v, want=values[k])
        else:
            ctx.check(not v, k, got=v)


def tasks(tier):
    for kind, alphabet in (("integer", "019-a"), ("hex_integer", "09aFgx"), ("signed_integer", "09+-."), ("real", "09+-.e"), ("sci_real", "09+-.eE"), ("fnumber", "09+-.eE"), ("identifier", "aZ_0-")):
        yield dict(harness="h_kind", params=dict(kind=kind, n=deep(tier, 5, 6), alphabet=alphabet))
        yield dict(harness="h_kind", params=dict(kind=kind, n=2, alphabet="".join(chr(c) for c in range(127))))
    yield dict(harness="h_number", params=dict(n=deep(tier, 5, 6), alphabet="09+-.eE"))
    yield dict(harness="h_fraction", params=dict(n=deep(tier, 5, 6), alphabet="012/-"))
    for kind, text, w, alphabet in (
        ("ipv4_address", "192.168.10.255", 3, "0123456789.a"), ("ipv4_address", "8.0.25.1", 3, "0123456789.-"), ("mac_address", "01:ab:23:cd:45:EF", 3, "0aFg:.-"), ("mac_address", "01-ab-23-cd-45-EF", 2, "0aFg:.-"), ("uuid", "01234567-89ab-cdef-0123-456789ABCDEF", 2, "0aFg-"),
        ("ipv6_address", "1:22:333:4444:5:6:7:8", 3, "1aFg:."), ("ipv6_address", "1:22::4444:5:7", 3, "1aFg:."), ("ipv6_address", "::ffff:10.1.2.25", 3, "12f:."), ("ipv6_address", "1:2:3:4:5:6::8", 3, "1f:"), ("ipv6_address", "1:2::3:4:5:6:7:8", 3, "1f:"),
        ("ipv6_address", "::1", 3, "1f:g"), ("ipv6_address", "::2:3:4:5:6:7:8", 3, "1:"), ("ipv6_address", "1:2:3:4:5:6:7::", 3, "1:"),
    ):
        step = deep(tier, 2 if kind == "uuid" else 1, 1)
        for at in range(0, len(text) - w + 1, step):
            yield dict(harness="h_window", params=dict(kind=kind, text=text, at=at, n=w, alphabet=alphabet))
    for kind, text, w in (
        ("iso8601_date", "2001-12-31", 3), ("iso8601_date", "2001-1", 2), ("iso8601_datetime", "2001-12-31T23:59:58.123+01:30", 3), ("iso8601_datetime", "2001-12-31 23:59Z", 3), ("iso8601_datetime", "2001-12-31T23:59-0130", 3), ("iso8601_datetime", "2001-12-31T23:59:58.Z", 3),
    ):
        for at in range(0, len(text) - w + 1):
            yield dict(harness="h_date", params=dict(kind=kind, text=text, at=at, n=w, alphabet="09-:T .Z+"))
    for kind, alphabet, before, after in (
        ("cStyleComment", "/*a\n", "", ""), ("cStyleComment", "/*a", "/*", ""), ("html_comment", "<!->a", "<!--", ""), ("html_comment", "<!-", "", "-->"), ("restOfLine", "a \n\r", "", ""), ("dblSlashComment", "/\\\na", "", ""), ("dblSlashComment", "/\\\na", "//", ""),
        ("cppStyleComment", "/*\na", "", ""), ("cppStyleComment", "/*\\\n", "/", ""), ("pythonStyleComment", "#a\n", "", ""),
    ):
        yield dict(harness="h_kind", params=dict(kind=kind, n=deep(tier, 6, 8), alphabet=alphabet, before=before, after=after))
        yield dict(harness="h_kind", params=dict(kind=kind, n=deep(tier, 3, 4), alphabet=None, before=before, after=after))
    # long ones
    for kind, unit, alphabet in (
        ("integer", "1", "09a"), ("hex_integer", "a", "0Fg"), ("signed_integer", "-1", "09-"), ("real", "1", "0.e"), ("real", "-1.1", "0.e"), ("sci_real", "1.", "0e-."), ("sci_real", "1", "0e."), ("fnumber", "1", "0e."), ("identifier", "a", "aZ_0-"), ("identifier", "_0", "a-"),
    ):
        for size in (12, 66, 130):
            yield dict(harness="h_kind", params=dict(kind=kind, n=2, alphabet=alphabet, before=unit + unit[-1] * size, after=unit[-1]))
    for kind, before, after in (
        ("cStyleComment", "/*" + "a*" * 60, "*/"), ("cStyleComment", "/*" + "\n/" * 60, " */"), ("html_comment", "<!--" + "->" * 60, "-->"), ("html_comment", "<!--" + "\n" * 60, "->-->"), ("restOfLine", "a " * 70, "\n"), ("dblSlashComment", "//" + "\\\n" * 40, "\n"),
        ("dblSlashComment", "//" + "a/" * 70, ""), ("cppStyleComment", "//" + "a*" * 70, "\\\n"), ("cppStyleComment", "/*" + "*" * 90, "*/"), ("pythonStyleComment", "#" + " a" * 70, "#\n"),
    ):
        yield dict(harness="h_kind", params=dict(kind=kind, n=3, alphabet="/*-<>\\\na", before=before, after=after))
