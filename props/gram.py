"""
Grammar specs (nested lists) to mo_parsing parsers, and what a caller can see
of a parse.
"""
import json

from mo_parsing import *
from mo_parsing import whitespaces
from mo_parsing.core import ParserElement
from mo_parsing.exceptions import ParseException, ParseSyntaxException
from mo_parsing.helpers import indented_block
from mo_parsing.results import ParseResults, Annotation
from mo_parsing.utils import MAX_INT, alphas, nums, alphanums
from mo_parsing.whitespaces import Whitespace, NO_WHITESPACE


class Table(object):
    """outcomes of arbitrary sub-parsers: for each (stub, position), failure or
    a number of characters; picked (by the solver) when first asked"""

    def __init__(self, ctx, max_take=2, fail=True, zero=True):
        self.ctx = ctx
        self.known = {}
        self.max_take = max_take
        self.options = ([None] if fail else []) + ([0] if zero else []) + list(range(1, max_take + 1))

    def get(self, name, string, pos):
        key = (name, pos)
        if key not in self.known:
            room = len(string) - pos
            options = [o for o in self.options if o is None or o <= room]
            self.known[key] = self.ctx.choice("stub.%s@%d" % (name, pos), options) if options else None
        return self.known[key]


class Stub(ParserElement):
    """an arbitrary sub-parser"""

    def __init__(self, name, table):
        ParserElement.__init__(self)
        self.parser_name = "stub_" + name
        self.key = name
        self.table = table
        self.streamlined = True

    def copy(self):
        output = ParserElement.copy(self)
        output.key = self.key
        output.table = self.table
        return output

    def parse_impl(self, string, start, do_actions=True):
        take = self.table.get(self.key, string, start)
        if take is None:
            raise ParseException(self, start, string)
        return ParseResults(self, start, start + take, [string[start:start + take]] if take else [], [])

    def __regex__(self):
        raise NotImplementedError()


def build(spec, env=None):
    env = {} if env is None else env
    op, args = spec[0], spec[1:]
    made = env.get("made")
    if made is None:
        return BUILD[op](env, *args)
    # equal parts are one and the same object
    key = json.dumps([spec, sorted(whitespaces.CURRENT.white_chars)])
    if "\"ref\"" in key:
        return BUILD[op](env, *args)
    if key not in made:
        made[key] = BUILD[op](env, *args)
    return made[key]


def _b(f):
    return lambda env, e, *a: f(build(e, env), *a)


def _bs(f):
    return lambda env, *es: f([build(e, env) for e in es])


def _many(env, e, lo, hi=None, stop=None):
    return Many(
        build(e, env), min_match=lo, max_match=MAX_INT if hi is None else hi,
        stop_on=None if stop is None else build(stop, env),
    )


def _skip(env, e, include=False, fail=None, ignore=None):
    return SkipTo(
        build(e, env), include=include, fail_on=None if fail is None else build(fail, env),
        ignore=None if ignore is None else build(ignore, env),
    )


def _plus(env, *es):
    out = build(es[0], env)
    for e in es[1:]:
        out = out + build(e, env)
    return out


def _sub(env, *es):
    out = build(es[0], env)
    for e in es[1:]:
        out = out - build(e, env)
    return out


def _bar(env, *es):
    out = build(es[0], env)
    for e in es[1:]:
        out = out | build(e, env)
    return out


def _xor(env, *es):
    out = build(es[0], env)
    for e in es[1:]:
        out = out ^ build(e, env)
    return out


def _rec(env, name, e):
    f = Forward()
    env = dict(env)
    env["rec " + name] = f
    f << build(e, env)
    return f


def _let(env, defs, e):
    env = dict(env)
    for name, _ in defs:
        env["rec " + name] = Forward()
    for name, d in defs:
        env["rec " + name] << build(d, env)
    return build(e, env)


def _ws(env, white, e):
    with Whitespace(white):
        return build(e, env)


def _word(env, init, body=None, lo=1, hi=None, exclude=""):
    return Word(init, body, min=lo, max=hi, exclude=exclude)


def _act(env, e, kind):
    return build(e, env) / ACTIONS[kind]


def _cond(env, e, kind):
    return build(e, env).add_condition(CONDITIONS[kind])


def _upper(toks):
    return [("<", t, ">") for t in toks]


ACTIONS = {
    "wrap": lambda toks, i, s: ["<"] + list(toks) + [">"],
    "none": lambda toks, i, s: None,
    "pos": lambda toks, i, s: [i],
    "count": lambda toks: [len(list(toks))],
    "const": lambda: "K",
}
CONDITIONS = {
    "yes": lambda toks, i, s: True,
    "no": lambda toks, i, s: False,
    "one": lambda toks, i, s: len(list(toks)) == 1,
    "notfirst": lambda toks, i, s: i > 0,
}

BUILD = {
    "stub": lambda env, name: Stub(name, env["table"]),
    "lit": lambda env, s: Literal(s),
    "clit": lambda env, s: CaselessLiteral(s),
    "kw": lambda env, s, ident=None: Keyword(s, ident_chars=ident),
    "ckw": lambda env, s, ident=None: CaselessKeyword(s, ident_chars=ident),
    "char": lambda env, s, exclude="": Char(s, exclude=exclude),
    "word": _word,
    "cni": lambda env, s, lo=1, hi=0: CharsNotIn(s, min=lo, max=hi),
    "white": lambda env, s, lo=1, hi=0: White(s, min=lo, max=hi),
    "any": lambda env: AnyChar(),
    "empty": lambda env: Empty(),
    "nomatch": lambda env: NoMatch(),
    "lstart": lambda env: LineStart(),
    "lend": lambda env: LineEnd(),
    "sstart": lambda env: StringStart(),
    "send": lambda env: StringEnd(),
    "wstart": lambda env, c: WordStart(c),
    "wend": lambda env, c: WordEnd(c),
    "re": lambda env, p: Regex(p),
    "close": lambda env, s, n: CloseMatch(s, n),
    "and": lambda env, *es: And([build(e, env) for e in es], whitespaces.CURRENT),
    "plus": _plus,
    "sub": _sub,
    "first": _bs(MatchFirst),
    "bar": _bar,
    "or": _bs(Or),
    "xor": _xor,
    "all": _bs(MatchAll),
    "many": _many,
    "times": lambda env, e, n: build(e, env) * (tuple(n) if isinstance(n, list) else n),
    "zom": lambda env, e, stop=None: ZeroOrMore(build(e, env), stop_on=None if stop is None else build(stop, env)),
    "oom": lambda env, e, stop=None: OneOrMore(build(e, env), stop_on=None if stop is None else build(stop, env)),
    "opt": lambda env, e, default=None: Optional(build(e, env), default=default),
    "group": _b(Group),
    "supp": _b(Suppress),
    "supm": lambda env, e: build(e, env).suppress(),
    "comb": lambda env, e, sep="": Combine(build(e, env), separator=sep),
    "not": _b(NotAny),
    "ahead": _b(LookAhead),
    "behind": _b(LookBehind),
    "skip": _skip,
    "name": lambda env, e, n: build(e, env)(n),
    "pname": lambda env, e, n: build(e, env).set_parser_name(n),
    "act": _act,
    "cond": _cond,
    "rec": _rec,
    "let": _let,
    "block": lambda env, e, indent=True: indented_block(build(e, env), indent),
    "ref": lambda env, name: env["rec " + name],
    "ws": _ws,
    "fwd": lambda env, e: Forward(build(e, env)),
}


def view(r):
    """what a caller sees of a result: items, names, extent"""
    if not isinstance(r, ParseResults):
        return r
    names = {}
    for k in list(r.keys()):
        v = r[k]
        if isinstance(v, ParseResults) and not isinstance(v.type, Group):
            names[k] = [view(x) for x in v]
        else:
            names[k] = [view(v)]
    return {
        "start": r.start,
        "end": r.end,
        "items": [view(x) for x in r],
        "list": r.as_list(),
        "names": names,
    }


def attempt(parser, s, parse_all=False):
    """('ok', view) or ('fail',); anything else the parser raises goes through"""
    try:
        r = parser.parse(s, parse_all=parse_all)
    except ParseException:
        return ["fail"]
    return ["ok", view(r)]
