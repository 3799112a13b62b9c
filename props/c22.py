"""infix_notation builds the tree that precedence and associativity call for"""
from props.common import *
from mo_parsing.infix import infix_notation, LEFT_ASSOC, RIGHT_ASSOC

REACH = ("ok", "fail", "binary", "unary", "ternary", "parentheses")
BOUNDS = (
    "operator tables of up to four levels (unary, binary, ternary, left and right associative, shared, suppressed, empty and overlapping operators, actions on a level); input: every string of up to 5 to 7 characters over the "
    "operators, parentheses and an operand, some with blanks; extents of terms compared too"
)
ASSUMPTIONS = ["operator tables are a fixed list of hand-written ones and a generated family"]
LEFT, RIGHT = "left", "right"
ASSOC = {LEFT: LEFT_ASSOC, RIGHT: RIGHT_ASSOC}


def text_of(op):
    return op[1] if isinstance(op, list) else op


class Infix(object):
    """reads terms and operators, then climbs the precedence levels"""

    def __init__(self, s, white, base, table, lpar, rpar):
        self.r = ref.Ref(s, white)
        self.s = s
        self.base = base
        self.table = table
        self.lpar, self.rpar = lpar, rpar
        self.prefix = [k for k, (op, n, a, _) in enumerate(table) if n == 1 and a == RIGHT]
        self.suffix = [k for k, (op, n, a, _) in enumerate(table) if n == 1 and a == LEFT]
        # what can come between terms: (level, part), the longest
        self.between = [(k, p) for k, (op, n, a, _) in enumerate(table) if n > 1 for p in range(n - 1)]
        self.ctx = None

    def sym(self, level, part=0):
        op, n = self.table[level][:2]
        return text_of(op[part] if n == 3 else op)

    def at(self, text, i):
        return text == "" or self.r.r_lit(None, i, text) is not None

    def step(self, i, end):
        return self.r.skip(end) if end > i else i

    def decorated(self, i):
        out = []
        while True:
            k = next((k for k in self.prefix if self.at(self.sym(k), i)), None)
            if k is None:
                break
            out.append(("prefix", k, i, i + len(self.sym(k))))
            i = self.r.skip(i + len(self.sym(k)))
        atom = self.atom(i)
        if atom is None:
            return None
        out.append(("term", atom))
        end = atom.end
        while True:
            i = self.r.skip(end)
            k = next((k for k in self.suffix if self.at(self.sym(k), i)), None)
            if k is None:
                break
            end = i + len(self.sym(k))
            out.append(("suffix", k, i, end))
        return out, end

    def atom(self, i):
        x = self.r.run(self.base, i)
        if x is not None:
            return x
        if not self.at(self.lpar, i):
            return None
        x = self.flat(self.r.skip(i + len(self.lpar)))
        if x is None:
            return None
        j = self.r.skip(x.end)
        if not self.at(self.rpar, j):
            return None
        self.ctx.reach("parentheses")
        return ref.N("and", i, j + len(self.rpar), [x])

    def flat(self, i):
        first = self.decorated(i)
        if first is None:
            return None
        items, end = first
        while True:
            i = self.r.skip(end)
            best = None
            for k, p in self.between:
                text = self.sym(k, p)
                if self.at(text, i) and (best is None or len(text) > len(self.sym(*best))):
                    best = k, p
            if best is None:
                break
            j = i + len(self.sym(*best))
            more = self.decorated(self.r.skip(j))
            if more is None:
                break
            items.append(("between",) + best + (i, j))
            items.extend(more[0])
            end = more[1]
        self.items = items
        x, rest = self.climb(items, 0, len(self.table))
        if x is None or rest < len(items):
            return None
        if x.kind in ref.GROUPS:
            return ref.N("infix", x.start, end, [x])
        return ref.N(x.kind, x.start, end, x.toks, x.name)

    def node(self, level, start, end, toks):
        kind = self.table[level][3]
        x = ref.N("group", start, end, toks)
        if kind:
            items = list(ref.flat(x))
            x.toks = {"wrap": ["<"] + items + [">"], "pos": [start], "count": [len(items)]}[kind]
        return x

    def op(self, level, item, part=0):
        op, n = self.table[level][:2]
        if n == 3:
            op = op[part]
        a, b = item[-2:]
        return [] if op == "" or isinstance(op, list) else [ref.N("leaf", a, b, [self.s[a:b]])]

    def climb(self, items, i, level):
        """the term at i, made of operators no looser than level"""
        item = items[i]
        if item[0] == "prefix":
            self.ctx.reach("unary")
            x, i = self.climb(items, i + 1, item[1])
            if x is None:
                return None, i
            o = self.op(item[1], item)
            x = self.node(item[1], item[2] if o else x.start, x.end, o + [x])
        else:
            x = item[1]
            i += 1
        while i < len(items):
            item = items[i]
            k = item[1]
            if k > level:
                break
            if item[0] == "suffix":
                self.ctx.reach("unary")
                o = self.op(k, item)
                x = self.node(k, x.start, item[3] if o else x.end, [x] + o)
                i += 1
            elif self.table[k][1] == 2:
                self.ctx.reach("binary")
                if k == level and self.tie(level):
                    break
                y, j = self.climb(items, i + 1, self.inside(k))
                if y is None:
                    return None, j
                x = self.node(k, x.start, y.end, [x] + self.op(k, item) + [y])
                i = j
            else:
                if item[2] == 1 or k == level and self.tie(level):
                    break
                self.ctx.reach("ternary")
                y, j = self.climb(items, i + 1, len(self.table))
                if y is None or j >= len(items) or items[j][1:3] != (k, 1):
                    return None, j
                z, m = self.climb(items, j + 1, self.inside(k))
                if z is None:
                    return None, m
                x = self.node(k, x.start, z.end, [x] + self.op(k, item, 0) + [y] + self.op(k, items[j], 1) + [z])
                i = m
        return x, i

    def tie(self, level):
        return False

    def inside(self, k):
        # to the right of an operator: the same again only if it is right associative
        return k if self.table[k][2] == RIGHT else k - 0.5


def operator(op):
    if op == "":
        return None
    if isinstance(op, list):
        return gram.Suppress(gram.Literal(op[1]))
    return op


def parser_of(table, base, lpar, rpar):
    spec = []
    for op, n, assoc, kind in table:
        row = (tuple(operator(x) for x in op) if n == 3 else operator(op), n, ASSOC[assoc])
        spec.append(row + (gram.ACTIONS[kind],) if kind else row)
    return infix_notation(gram.build(base, {}), spec, gram.Suppress(gram.Literal(lpar)), gram.Suppress(gram.Literal(rpar)))


def extents(v, keep):
    if keep or not isinstance(v, dict):
        return v
    return {"items": [extents(x, keep) for x in v["items"]], "list": v["list"]}


def h_infix(ctx, tables, n, alphabet, white, base=("char", "ab1"), lpar="(", rpar=")", keep=True, parse_all=True, lo=0, before="", after=""):
    table = ctx.choice("table", tables)
    base = list(base)
    s = before + ctx.string("s", lo, n, alphabet) + after
    with Whitespace(white):
        p = gram.Group(parser_of(table, base, lpar, rpar))
        got = gram.attempt(p, s, parse_all)
    r = Infix(s, white, base, table, lpar, rpar)
    r.ctx = ctx
    x = r.flat(r.r.skip(0))
    if x is None or parse_all and r.r.run(["send"], r.r.skip(x.end)) is None:
        want = ["fail"]
    else:
        want = ["ok", ref.view(ref.N("group", x.start, x.end, [x]))]
    if got[0] == "ok":
        got = ["ok", extents(got[1], keep)]
    if want[0] == "ok":
        want = ["ok", extents(want[1], keep)]
    ctx.reach(got[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "tree")


def T(*rows):
    return [list(r) + [None] * (4 - len(r)) for r in rows]


PLAIN_TABLES = [
    (T(["*", 2, LEFT], ["+", 2, LEFT]), "1*+("),
    (T(["^", 2, RIGHT], ["+", 2, LEFT]), "1^+("),
    (T(["^", 2, RIGHT], ["-", 1, RIGHT], ["*", 2, LEFT]), "1^-*"),
    (T(["-", 1, RIGHT], ["*", 2, LEFT], ["-", 2, LEFT]), "1-*"),
    (T(["*", 2, LEFT], ["-", 1, RIGHT], ["-", 2, RIGHT]), "1-*"),
    (T(["!", 1, LEFT], ["-", 1, RIGHT], ["+", 2, LEFT]), "1!-+"),
    (T(["-", 1, RIGHT], ["!", 1, LEFT], ["+", 2, RIGHT]), "1!-+"),
    (T(["+", 2, LEFT], ["!", 1, LEFT], ["-", 1, RIGHT]), "1!-+"),
    (T(["*", 2, LEFT], ["+", 2, LEFT], ["-", 1, RIGHT]), "1*+-"),
    (T(["*", 2, RIGHT], ["+", 2, LEFT], ["!", 1, LEFT]), "1*+!"),
    (T([["?", ":"], 3, RIGHT], ["+", 2, LEFT]), "1?:+"),
    (T(["+", 2, LEFT], [["?", ":"], 3, RIGHT]), "1?:+"),
    (T(["+", 2, LEFT], [["?", ":"], 3, LEFT]), "1?:+"),
    (T(["-", 1, RIGHT], [["?", ":"], 3, LEFT]), "1?:-"),
    (T(["*", 2, LEFT], ["**", 2, RIGHT], ["+", 2, LEFT]), "1*+"),
    (T(["**", 2, RIGHT], ["-", 1, RIGHT], ["*", 2, LEFT]), "1*-"),
    (T(["", 2, LEFT], ["+", 2, LEFT]), "1+("),
    (T(["+", 2, LEFT], ["", 2, LEFT]), "1+("),
    (T([["supp", "*"], 2, LEFT], ["+", 2, RIGHT]), "1*+("),
    (T(["*", 2, LEFT, "wrap"], ["+", 2, LEFT, "pos"]), "1*+("),
    (T(["-", 1, RIGHT, "wrap"], ["!", 1, LEFT, "count"], ["+", 2, RIGHT, "pos"]), "1!-+"),
    (T(["+", 2, LEFT], ["+", 2, RIGHT]), "1+("),
    (T(["-", 1, RIGHT], ["~", 1, RIGHT], ["*", 2, LEFT]), "1-~*"),
    (T(["*", 2, LEFT], ["-", 1, RIGHT], ["~", 1, RIGHT]), "1-~*"),
    # parts that are suppressed, and a symbol that is kept at one level and not at another
    (T([[["supp", "?"], ":"], 3, RIGHT], ["+", 2, LEFT]), "1?:+"),
    (T(["+", 2, LEFT], [["?", ["supp", ":"]], 3, RIGHT]), "1?:+"),
    (T([[["supp", "?"], ["supp", ":"]], 3, LEFT], ["+", 2, LEFT]), "1?:+"),
    (T([["supp", "-"], 1, RIGHT], ["-", 2, LEFT]), "1-("),
    (T(["-", 1, RIGHT], [["supp", "-"], 2, LEFT]), "1-("),
    (T(["*", 2, LEFT], [["supp", "-"], 1, RIGHT], ["-", 2, RIGHT]), "1-*"),
    (T([["supp", "!"], 1, LEFT], ["!", 2, LEFT], ["+", 2, LEFT]), "1!+"),
    (T([["supp", "!"], 1, LEFT], ["!", 1, RIGHT], ["+", 2, LEFT]), "1!+"),
    (T([["supp", "!"], 1, LEFT, "pos"], ["-", 1, RIGHT], ["+", 2, LEFT, "wrap"]), "1!+-"),
    (T(["+", 2, LEFT], [["supp", "!"], 1, LEFT]), "1!+("),
    (T([["supp", "-"], 1, RIGHT, "wrap"], ["-", 2, LEFT, "count"]), "1-("),
]


def generated(seed, count):
    import random
    r = random.Random(seed)
    out = []
    while len(out) < count:
        symbols = ["+", "-", "*", "!"]
        r.shuffle(symbols)
        rows = []
        for op in symbols[:r.choice([3, 3, 4])]:
            n = r.choice([1, 2, 2])
            rows.append([op, n, r.choice([LEFT, RIGHT])])
        if r.random() < 0.3:
            rows.insert(r.randint(0, len(rows)), [["?", ":"], 3, r.choice([LEFT, RIGHT])])
        t = T(*rows)
        if any(x[1] > 1 for x in t):
            out.append(t)
    return out


def tasks(tier):
    for table, alphabet in PLAIN_TABLES:
        # WHAT A SUPPRESSED SUFFIX ADDS TO THE EXTENT OF ITS TERM IS NOT CLAIMED
        keep = not any(isinstance(x[0], list) and x[0][0] == "supp" and x[1:3] == [1, LEFT] for x in table)
        yield dict(harness="h_infix", params=dict(tables=[table], n=deep(tier, 6, 8), alphabet=alphabet + (")" if "(" in alphabet else ""), white="", keep=keep))
    for k in (0, 2, 5, 10, 16):
        table, alphabet = PLAIN_TABLES[k]
        yield dict(harness="h_infix", params=dict(tables=[table], n=deep(tier, 5, 6), alphabet=alphabet + ") ", white=" ", parse_all=k % 2 == 0))
        yield dict(harness="h_infix", params=dict(tables=[table], n=deep(tier, 4, 5), alphabet=None, white=ref.WS))
        yield dict(harness="h_infix", params=dict(tables=[table], n=deep(tier, 5, 6), alphabet=alphabet, white="", parse_all=False))
    tables = generated(22, deep(tier, 40, 300))
    for i in range(0, len(tables), 4):
        yield dict(harness="h_infix", params=dict(tables=tables[i:i + 4], n=deep(tier, 6, 7), alphabet="1+-*!?:", white=""))
    # long expressions, and operators of many levels
    eight = T(["^", 2, RIGHT], ["-", 1, RIGHT], ["*", 2, LEFT], ["+", 2, LEFT], ["<", 2, LEFT], ["!", 1, RIGHT], ["&", 2, LEFT], ["|", 2, LEFT, "pos"])
    for before, after in (("1+", "+1*1"), ("1^-1*", "+1<1|1"), ("!1<1&!", "&1"), ("1|1&1<1+1*-", "1"), ("1", "|1&1<1+1*1^1")):
        yield dict(harness="h_infix", params=dict(tables=[eight], n=deep(tier, 3, 4), alphabet="1^-*+<!&|", white="", before=before, after=after))
    for k in (0, 1, 2, 3, 5, 7, 10, 13, 16, 19, 22):
        table, alphabet = PLAIN_TABLES[k]
        between = [(text_of(x[0]), x[1]) for x in table if x[1] == 2]
        unit = "1" + (between[0][0] if between else "?1:")
        for size in (12, 24):
            yield dict(harness="h_infix", params=dict(tables=[table], n=2, alphabet=alphabet, white="", before=unit * size, after="1"))
        if "(" in alphabet:
            for deepness in (4, 8):
                yield dict(harness="h_infix", params=dict(tables=[table], n=3, alphabet=alphabet + ")", white="", before="1" + between[0][0] + "(" * deepness + "1", after=")" * deepness))
                yield dict(harness="h_infix", params=dict(tables=[table], n=2, alphabet=alphabet + ")", white=" ", before="( " * deepness + "1", after=" )" * deepness + " "))
        yield dict(harness="h_infix", params=dict(tables=[table], n=2, alphabet=alphabet + " ", white=" ", before=" " * 40 + unit + " " * 70 + unit, after=" 1"))
        yield dict(harness="h_infix", params=dict(tables=[table], n=2, alphabet="ab1", white="", before=unit + "ab1" * 30, after="b", base=["word", "ab1"]))
