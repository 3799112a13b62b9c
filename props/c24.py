"""quoted strings"""
from props.common import *
from mo_parsing.helpers import QuotedString, dblQuotedString, sglQuotedString, quoted_string, unicode_string
from mo_parsing.utils import printables

REACH = ("ok", "fail", "escaped", "whitespace", "doubled", "unterminated")
BOUNDS = (
    "QuotedString with every combination of a list of quotes (one to three characters, same or different at the end), escape character, escaped quote, multiline, unquote_results and convert_whitespace_escape; every string of up to 4 to 6 characters "
    "over the characters that matter, and up to 3 characters over all of Unicode between the quotes; the ready made quoted strings likewise"
)
ASSUMPTIONS = ["the escape character is not a character of the quotes or of the escaped quote", "a text that is unterminated when read from the left is not a match"]
WHITE_ESCAPES = {"t": "\t", "n": "\n", "f": "\f", "r": "\r"}


def scan(ctx, s, i, o):
    """end of the quoted string at i, and what it stands for"""
    def at(text, j):
        return text and j + len(text) <= len(s) and s[j:j + len(text)] == text

    quote, end = o["quote"], o["end"] or o["quote"]
    if not at(quote, i):
        return None
    j = i + len(quote)
    value = []
    while j < len(s):
        if at(o["esc_quote"], j):
            ctx.reach("doubled")
            value.append(end)
            j += len(o["esc_quote"])
            continue
        if o["esc"] and s[j] == o["esc"] and j + 1 < len(s) and s[j + 1] in printables:
            ctx.reach("escaped")
            c = s[j + 1]
            if o["convert"] and o["esc"] == "\\" and c in "tnfr":
                ctx.reach("whitespace")
                c = "\t" if c == "t" else "\n" if c == "n" else "\f" if c == "f" else "\r"
            value.append(c)
            j += 2
            continue
        if at(end, j):
            return j + len(end), value
        if not o["multiline"] and s[j] in "\r\n":
            return None
        if o["esc"] and s[j] == o["esc"] and j + 1 < len(s) and s[j + 1] != "\n" and not at(end, j + 1) and (o["multiline"] or s[j + 1] != "\r"):
            # escaping what need not be
            value.append(s[j + 1])
            j += 2
            continue
        if o["convert"] and o["esc"] != "\\" and s[j] == "\\" and j + 1 < len(s) and s[j + 1] in "tnfr":
            ctx.reach("whitespace")
            c = s[j + 1]
            value.append("\t" if c == "t" else "\n" if c == "n" else "\f" if c == "f" else "\r")
            j += 2
            continue
        value.append(s[j])
        j += 1
    ctx.reach("unterminated")
    return None


def h_quoted(ctx, options, n, alphabet, white, lo=0, inside=False, before="", after=""):
    o = dict(dict(end="", esc=None, esc_quote=None, multiline=False, unquote=True, convert=True), **ctx.choice("options", options))
    s = before + ctx.string("s", lo, n, alphabet) + after
    if inside:
        s = o["quote"] + s + (o["end"] or o["quote"])
    with Whitespace(white):
        p = QuotedString(o["quote"], esc_char=o["esc"], esc_quote=o["esc_quote"], multiline=o["multiline"], unquote_results=o["unquote"], end_quote_char=o["end"], convert_whitespace_escape=o["convert"])
        p = gram.Group(p)
        if white:
            # whitespace before it is skipped as in any sequence
            s = "," + s
            p = gram.And([gram.Suppress(","), p], whitespaces.CURRENT)
        got = gram.attempt(p, s)
    i = ref.Ref(s, white).skip(1) if white else 0
    x = scan(ctx, s, i, o)
    if x is None:
        want = ["fail"]
    else:
        x = ref.N("group", i, x[0], ["".join(x[1]) if o["unquote"] else s[i:x[0]]])
        want = ["ok", ref.view(ref.N("and", 0, x.end, [x]) if white else x)]
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "QuotedString")


def ready(s, i, quote):
    """a string in quotes; \\ takes the next character along, a doubled quote does not end it"""
    if i >= len(s) or s[i] != quote:
        return None
    j = i + 1
    while j < len(s):
        c = s[j]
        if c == quote:
            if j + 1 < len(s) and s[j + 1] == quote:
                j += 2
                continue
            return j + 1
        if c == "\\":
            if j + 1 < len(s) and s[j + 1] == "x":
                k = j + 2
                while k < len(s) and s[k] in "0123456789abcdefABCDEF":
                    k += 1
                if k == j + 2:
                    return None
                j = k
                continue
            j += 2
            continue
        if c == "\n" or c == "\r":
            return None
        j += 1
    return None


def h_ready(ctx, which, n, alphabet, lo=0, around=None, before="", after=""):
    s = before + ctx.string("s", lo, n, alphabet) + after
    if around:
        s = around + s + around
    p = {"dbl": dblQuotedString, "sgl": sglQuotedString, "both": quoted_string, "unicode": unicode_string}[which]
    try:
        r = p.parse(s)
        got = [list(r), r.start, r.end]
    except gram.ParseException:
        got = None
    i = ref.Ref(s, ref.WS).skip(0)
    start = i
    if which == "unicode":
        if i < len(s) and s[i] == "u":
            i = ref.Ref(s, ref.WS).skip(i + 1)
        else:
            i = len(s)
    end = None
    for q in {"dbl": '"', "sgl": "'", "both": "\"'", "unicode": "\"'"}[which]:
        end = end or ready(s, i, q)
    want = None if end is None else [["u" * (which == "unicode") + s[i:end]], start, end]
    ctx.reach("ok" if want else "fail")
    ctx.observe("got", got)
    ctx.equal(got, want, "quoted_string")


OPTIONS = [
    (dict(quote='"'), '"a\\t\n '),
    (dict(quote='"', esc="\\"), '"\\nt\n '),
    (dict(quote='"', esc="\\", convert=False), '"\\nt\n'),
    (dict(quote='"', esc="\\", multiline=True), '"\\n\n\r'),
    (dict(quote='"', convert=False), '"a\\t\r'),
    (dict(quote="'", esc_quote="''"), "'a\\n "),
    (dict(quote="'", esc_quote="''", esc="\\"), "'a\\n"),
    (dict(quote="'", esc_quote="\\'"), "'a\\n"),
    (dict(quote="'", esc_quote="^'", convert=False), "'a^"),
    (dict(quote="^", esc="%"), "^%a\\t"),
    (dict(quote="<", end=">"), "<>a\n"),
    (dict(quote="<", end=">", esc="\\", unquote=False), "<>a\\"),
    (dict(quote="<<", end=">>", multiline=True), "<>\n"),
    (dict(quote="<<", end=">>", esc="\\"), "<>\\"),
    (dict(quote="::"), ":a\n"),
    (dict(quote="::", esc="\\", esc_quote="::::"), ":a\\"),
    (dict(quote="==", end="--", esc_quote="-+"), "=-+"),
    (dict(quote="[", end="]", esc="^"), "[]^"),
    (dict(quote=".", end="*", esc="$"), ".*$a"),
    (dict(quote="(*", end="*)", multiline=True), "(*)\n"),
    (dict(quote='"', esc_quote='""', unquote=False), '"a '),
    (dict(quote='|', esc_quote='||', multiline=True), '|\n\\t'),
    (dict(quote="[", end="]]"), "[]a "),
    (dict(quote="[[", end="]", esc="^"), "[]^"),
    (dict(quote="(", end="*)", multiline=True), "(*)\n"),
    (dict(quote="<!-", end=">", esc="\\"), "<!->\\"),
    (dict(quote="e", end="end", esc_quote="ed"), "end"),
    (dict(quote="<<", end=">", unquote=False), "<>a"),
]


def tasks(tier):
    for o, alphabet in OPTIONS:
        n = len(o["quote"]) + len(o.get("end") or o["quote"])
        yield dict(harness="h_quoted", params=dict(options=[o], n=n + deep(tier, 3, 5) - (len(alphabet) > 4), alphabet=alphabet, white=" " if " " in alphabet else ""))
        yield dict(harness="h_quoted", params=dict(options=[o], n=deep(tier, 4, 6) - (len(alphabet) > 4), alphabet=alphabet, white="", inside=True))
        yield dict(harness="h_quoted", params=dict(options=[o], n=deep(tier, 2, 3), alphabet=None, white="", inside=True))
    for which in ("dbl", "sgl", "both", "unicode"):
        q = "'" if which == "sgl" else '"'
        alphabet = q + "\\x1\n" + ("u" if which == "unicode" else "'" if which == "both" else "a")
        yield dict(harness="h_ready", params=dict(which=which, n=deep(tier, 5, 6) - (which == "both"), alphabet=alphabet))
        yield dict(harness="h_ready", params=dict(which=which, n=2, alphabet=None))
        if which != "unicode":
            yield dict(harness="h_ready", params=dict(which=which, n=deep(tier, 2, 3), alphabet=None, around=q))
            yield dict(harness="h_ready", params=dict(which=which, n=deep(tier, 4, 5), alphabet=q + "\\xF\n", around=q))
    # long ones
    for o, alphabet in OPTIONS:
        for size in (20, 70, 140):
            body = "b " * size
            yield dict(harness="h_quoted", params=dict(options=[o], n=2, alphabet=alphabet, white="", inside=True, before=body))
            yield dict(harness="h_quoted", params=dict(options=[o], n=2, alphabet=alphabet, white="", inside=True, after=body))
        for part in (o.get("esc_quote"), (o["esc"] + o["quote"]) if o.get("esc") else None, "\\t" if o.get("convert", True) else None):
            if part:
                for size in (5, 40):
                    yield dict(harness="h_quoted", params=dict(options=[o], n=2, alphabet=alphabet, white="", inside=True, before=part * size, after=part))
    for which in ("dbl", "sgl", "both"):
        q = "'" if which == "sgl" else '"'
        for before in ("a " * 60, (q + q) * 20, ("\\" + q) * 20, "\\x1F" * 15, "\\n" * 30):
            yield dict(harness="h_ready", params=dict(which=which, n=2, alphabet=q + "\\x1\na", around=q, before=before))
            yield dict(harness="h_ready", params=dict(which=which, n=2, alphabet=q + "\\x1\na", around=q, after=before))
