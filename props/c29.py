"""tags with attributes, lists with commas, and actions that go with them"""
from props.common import *
from mo_parsing import helpers as H
from mo_parsing.utils import printables

REACH = ("ok", "fail", "attribute", "no value", "quoted", "empty", "repeated", "close", "item", "tags", "entity", "verified")
BOUNDS = (
    "makeHTMLTags, with_attribute, with_class: texts of tags of up to two attributes with every window of up to four characters replaced by any that matter (and by any of Unicode for one); "
    "comma_separated_list, stripHTMLTags, replaceHTMLEntity, remove_quotes, upcase_tokens, downcase_tokens, token_map: every string of up to 5 or 6 characters over the characters that matter"
)
ASSUMPTIONS = ["no backslashes in quoted values"]
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGIT = "0123456789"
IDENT = ALPHA + DIGIT + "_$"
ANY = object()


class Scan(object):
    def __init__(self, ctx, s):
        self.ctx = ctx
        self.s = s
        self.n = len(s)

    def at(self, i, chars):
        return i < self.n and self.s[i] in chars

    def skip(self, i):
        while self.at(i, ref.WS):
            i += 1
        return i

    def run(self, i, chars):
        while self.at(i, chars):
            i += 1
        return i

    def quoted(self, i):
        """end of the string in quotes at i"""
        s = self.s
        if not self.at(i, "\"'"):
            return None
        q = s[i]
        j = i + 1
        while j < self.n:
            if s[j] == "\\":
                self.ctx.assume(False)
            if s[j] == q:
                if j + 1 < self.n and s[j + 1] == q:
                    j += 2
                    continue
                return j + 1
            if s[j] in "\n\r":
                return None
            j += 1
        return None

    def tag(self, i, name):
        """the tag word; any word when there is no name"""
        if name is None:
            if not self.at(i, ALPHA):
                return None
            return self.run(i + 1, ALPHA + DIGIT + "_:")
        j = i + len(name)
        if j > self.n or not all(ref.same_letter(a, b) for a, b in zip(self.s[i:j], name)):
            return None
        return None if self.at(j, IDENT) else j

    def open(self, i, name):
        """(end, tag, [(attribute, value or None)], empty)"""
        s = self.s
        if not self.at(i, "<"):
            return None
        i = self.skip(i + 1)
        j = self.tag(i, name)
        if j is None:
            return None
        tag = name or s[i:j]
        attrs = []
        while True:
            i = self.skip(j)
            if not self.at(i, ALPHA):
                break
            j = self.run(i, ALPHA + DIGIT + "_-:")
            word = s[i:j].lower()
            value = None
            k = self.skip(j)
            if self.at(k, "="):
                k = self.skip(k + 1)
                e = self.quoted(k)
                if e is not None:
                    self.ctx.reach("quoted")
                    value, j = s[k + 1:e - 1], e
                else:
                    e = k
                    while e < self.n and s[e] in printables and s[e] != ">":
                        e += 1
                    if e > k:
                        value, j = s[k:e], e
            if value is None:
                self.ctx.reach("no value")
            if any(word == w for w, _ in attrs):
                self.ctx.reach("repeated")
            attrs.append((word, value))
        i = self.skip(j)
        empty = self.at(i, "/")
        if empty:
            self.ctx.reach("empty")
            i = self.skip(i + 1)
        if not self.at(i, ">"):
            return None
        if attrs:
            self.ctx.reach("attribute")
        return i + 1, tag, attrs, bool(empty)

    def close(self, i, name):
        if not (self.at(i, "<") and self.at(i + 1, "/")):
            return None
        i = self.skip(i + 2)
        j = self.tag(i, name)
        if j is None:
            return None
        tag = name or self.s[i:j]
        j = self.skip(j)
        if self.at(j, ">"):
            self.ctx.reach("close")
            return j + 1, "</" + tag + ">"


def values(v):
    if isinstance(v, gram.ParseResults):
        return list(v)
    return [v]


def text(ctx, template, at, n, alphabet):
    """the template with any n characters from at on"""
    return template[:at] + ctx.string("s", n, n, alphabet) + template[at + n:]


def title_of(name):
    """words are capitalized, and the colon of a namespace is left out"""
    return "".join(w[:1].upper() + w[1:].lower() for w in name.split(":"))


def h_open(ctx, name, template, at, n, alphabet):
    s = text(ctx, template, at, n, alphabet)
    x = Scan(ctx, s)
    found = x.open(x.skip(0), name)
    p, title = (H.anyOpenTag, "startAnyTag") if name is None else (H.makeHTMLTags(name)[0], "start" + title_of(name))
    try:
        r = p.parse(s)
    except gram.ParseException:
        r = None
    ctx.reach("fail" if found is None else "ok")
    ctx.observe("got", r and r.as_list())
    ctx.check((r is None) == (found is None), "matches")
    if r is None:
        return
    end, tag, attrs, empty = found
    ctx.equal([r.start, r.end], [x.skip(0), end], "extent")
    ctx.equal(list(r.keys()), [title], "name")
    t = r[title]
    ctx.equal(t["tag"], tag, "tag")
    ctx.check(t["empty"] is empty, "empty", got=t["empty"], want=empty)
    names = []
    for w, _ in attrs:
        if not any(w == v for v in names):
            names.append(w)
    for k in names:
        want = [v for w, v in attrs if w == k and v is not None]
        if k == "tag" or k == "empty":
            ctx.assume(False)
        ctx.equal(values(t[k]), want, "attribute")
    ctx.equal(sorted_texts(t.keys()), sorted_texts(["tag"] + names + ["empty"]), "keys")
    ctx.equal([list(g) if isinstance(g, gram.ParseResults) else g for g in t], [tag] + [[w] if v is None else [w, v] for w, v in attrs] + [empty], "tokens")


def sorted_texts(words):
    return sorted(str(w) if isinstance(w, str) else w for w in words)


def h_close(ctx, name, template, at, n, alphabet):
    s = text(ctx, template, at, n, alphabet)
    x = Scan(ctx, s)
    found = x.close(x.skip(0), name)
    p, title = (H.anyCloseTag, "endAnyTag") if name is None else (H.makeHTMLTags(name)[1], "end" + title_of(name))
    try:
        r = p.parse(s)
    except gram.ParseException:
        r = None
    ctx.reach("fail" if found is None else "ok")
    ctx.check((r is None) == (found is None), "matches")
    if r is None:
        return
    ctx.equal([r.start, r.end], [x.skip(0), found[0]], "extent")
    ctx.equal(values(r[title]), [found[1]], "token")


def h_verify(ctx, how, template, at, n, alphabet):
    """with_attribute, with_class"""
    s = text(ctx, template, at, n, alphabet)
    need, action = {
        "value": (dict(b="c"), lambda: H.with_attribute(b="c")),
        "any": (dict(b=ANY), lambda: H.with_attribute(b=H.with_attribute.ANY_VALUE)),
        "two": (dict(b="c", d=ANY), lambda: H.with_attribute(b="c", d=H.with_attribute.ANY_VALUE)),
        "class": ({"class": "c"}, lambda: H.with_class("c")),
        "space": ({"b:class": "c"}, lambda: H.with_class("c", namespace="b")),
    }[how]
    x = Scan(ctx, s)
    found = x.open(x.skip(0), "a")
    want = found is not None
    if want:
        for k, v in need.items():
            got = [u for w, u in found[2] if w == k]
            ctx.assume(len(got) < 2)
            if not got or (v is not ANY and (got[0] is None or got[0] != v)):
                want = False
    p = H.makeHTMLTags("a")[0] / action()
    try:
        r = p.parse(s)
    except gram.ParseException:
        r = None
    if want:
        ctx.reach("verified")
    ctx.check((r is not None) == want, "verified", want=want)


def h_list(ctx, n, alphabet, old, before="", after=""):
    """items between commas"""
    s = before + ctx.string("s", 0, n, alphabet) + after
    x = Scan(ctx, s)
    items = []
    i = x.skip(0)
    start = end = i
    while True:
        e = x.quoted(i)
        if e is not None:
            items.append(s[i:e])
            end = e
        else:
            j = x.run(i, "".join(c for c in printables if c != ",") + " \t")
            if j > i:
                ctx.reach("item")
                a = j
                while s[a - 1] in " \t":
                    a -= 1
                items.append(s[i:a])
                end = j
            else:
                items.append("")
                end = i if len(items) == 1 or i > end else end
        j = x.skip(end)
        if not x.at(j, ","):
            break
        end = j + 1
        i = x.skip(end)
    p = H.commaSeparatedList if old else H.comma_separated_list
    r = p.parse(s)
    ctx.reach("ok")
    ctx.observe("got", list(r))
    ctx.equal(list(r), items, "items")


def h_strip(ctx, template, at, n, alphabet):
    s = text(ctx, template, at, n, alphabet)
    x = Scan(ctx, s)
    out, i = [], 0
    while i < len(s):
        found = x.open(i, None) or x.close(i, None)
        if found:
            ctx.reach("tags")
            i = found[0]
        else:
            out.append(s[i])
            i += 1
    with Whitespace(""):
        p = gram.Regex(r"[\s\S]*") / H.stripHTMLTags
        r = p.parse(s)
    ctx.observe("got", list(r))
    ctx.equal(list(r), ["".join(out)] if s else list(r), "stripped")


def h_entity(ctx, template, at, n, alphabet):
    s = text(ctx, template, at, n, alphabet)
    out, i = [], 0
    while i < len(s):
        for k, c in (("gt", ">"), ("lt", "<"), ("amp", "&"), ("nbsp", " "), ("quot", '"'), ("apos", "'")):
            k = "&" + k + ";"
            if s[i:i + len(k)] == k:
                ctx.reach("entity")
                out.append(c)
                i += len(k)
                break
        else:
            out.append(s[i])
            i += 1
    with Whitespace(""):
        got = (H.commonHTMLEntity / H.replaceHTMLEntity).transform_string(s)
    ctx.equal(got, "".join(out), "entities")


def h_tokens(ctx, kind, n, alphabet):
    """actions over tokens"""
    s = ctx.string("s", 1, n, alphabet)
    e, action, f = {
        "up": (["oom", ["word", "abXY"]], lambda: H.upcase_tokens, lambda t: t.upper()),
        "down": (["oom", ["word", "abXY"]], lambda: H.downcase_tokens, lambda t: t.lower()),
        "int": (["oom", ["word", "01"]], lambda: H.token_map(int, 2), lambda t: int(t, 2)),
        "len": (["zom", ["char", "ab "]], lambda: H.token_map(len), lambda t: 1),
        "quotes": (["re", "\"[^\"]*\""], lambda: H.remove_quotes, lambda t: t[1:-1]),
    }[kind]
    k = ref.Ref(s)
    x = k.run(e, k.skip(0))
    p = gram.build(e) / action()
    try:
        r = list(p.parse(s))
    except gram.ParseException:
        r = None
    want = None if x is None else [f(t) for t in ref.flat(ref.N("and", 0, 0, [x]))]
    ctx.equal(r, want, kind)


def windows(template, w, step=1, start=0):
    return range(start, len(template) - w + 1, step)


def tasks(tier):
    w = deep(tier, 4, 5)
    for name, template in (("a", '<a b="c d" e=f/>'), ("a", "<A b = 'c' d>"), ("a", "<a b b=c />"), ("a", "< a  >"), ("ab", "<ab c-d:e=1>"), ("a:b", "<a:B c=d>"), ("xY:zW", "<xy:zw/>"), (None, "<ab:c d=''>"), (None, "<b x/>")):
        for at in windows(template, w):
            yield dict(harness="h_open", params=dict(name=name, template=template, at=at, n=w, alphabet="<a/> =\"'" if at % 2 else ">A= \"b/-"))
    for at in windows("<a b=c>", 1):
        yield dict(harness="h_open", params=dict(name="a", template="<a b=c>", at=at, n=1, alphabet=None))
    for name, template in (("a", "</a>"), ("a", " </ A >"), ("ab", "</ab >"), ("a:b", "</a:B>"), (None, "</b1:c>")):
        for at in windows(template, w):
            yield dict(harness="h_close", params=dict(name=name, template=template, at=at, n=w, alphabet="</aA> b"))
    for how, template in (("value", "<a b=c>"), ("value", "<a b='c' >"), ("any", "<a b=''>"), ("any", "<a b>"), ("two", "<a b=c d>"), ("two", "<a d='x' b=c>"), ("class", "<a class=c>"), ("space", "<a b:class=c>")):
        for at in windows(template, 3):
            yield dict(harness="h_verify", params=dict(how=how, template=template, at=at, n=3, alphabet="abcd='> "))
    for old in (False, True):
        yield dict(harness="h_list", params=dict(n=deep(tier, 5, 6), alphabet="a, '", old=old))
        yield dict(harness="h_list", params=dict(n=deep(tier, 5, 6), alphabet="a,\"\n\t", old=old))
    for template in ("a<b>c</b>", "x <b c='>'/>", "<<b></b >", "a<b\n>d"):
        for at in windows(template, 2):
            yield dict(harness="h_strip", params=dict(template=template, at=at, n=2, alphabet="<b/> a'="))
    for template in ("a&lt;b", "&&gt; &amp;lt;", "&nbsp;&quot;", "&apos; ;"):
        for at in windows(template, 2):
            yield dict(harness="h_entity", params=dict(template=template, at=at, n=2, alphabet="&;ltgampqu "))
    for kind, alphabet in (("up", "aX bY"), ("down", "aX bY"), ("int", "01 "), ("len", "ab "), ("quotes", '"a ')):
        yield dict(harness="h_tokens", params=dict(kind=kind, n=5, alphabet=alphabet))
    # long ones
    for old in (False, True):
        for before, after in (("a," * 30, ",a"), ("a b" * 40, " , a"), ("'" + "a," * 40 + "',", ""), (",,," * 12, "a,"), ("a" + " " * 70, ",a"), ('"a""b",' * 12, '"')):
            yield dict(harness="h_list", params=dict(n=3, alphabet="a, '\"", old=old, before=before, after=after))
    many = " ".join("a%s='%s'" % (x, x * 3) for x in "cdfghijklmno")
    for name, template, at in (
        ("a", "<a " + many + " b='c' >", 3 + len(many)), ("a", "<a b='c' " + many + ">", 3), ("a", "<a b='" + "x y" * 30 + "' d=1>", 95), (None, "<" + "ab" * 40 + " b=c>", 80), ("a", "<a" + " " * 70 + "b=c/>", 71), ("a", "<a b=" + "c" * 70 + ">", 73),
    ):
        yield dict(harness="h_open", params=dict(name=name, template=template, at=at, n=3, alphabet="<a/> =\"'b"))
    for template, at in (("a&lt;" * 20 + "b&gt;", 99), ("x" * 90 + "&amp;&quot;", 90), ("&nbsp;" * 12, 60)):
        for k in range(4):
            yield dict(harness="h_entity", params=dict(template=template, at=at + k, n=2, alphabet="&;ltgampqu "))
    for template, at in (("a<b>c</b>" * 12, 100), ("x" * 90 + "<b c='>'/>", 90)):
        for k in range(4):
            yield dict(harness="h_strip", params=dict(template=template, at=at + k, n=2, alphabet="<b/> a'="))
