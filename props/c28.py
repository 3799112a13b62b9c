"""Dict, OpenDict and dict_of"""
from props.common import *
from mo_parsing import helpers as H

REACH = ("ok", "fail", "repeated key", "two keys", "no value", "no key", "nested")
BOUNDS = "Dict, OpenDict and dict_of over pairs of tokens, groups, options, repetitions, actions and arbitrary sub-parsers, alone, named, grouped, nested and next to other names; every string of up to 5 to 7 characters over the characters that matter"
ASSUMPTIONS = GRAMMAR_ASSUMPTIONS + ["every pair is a group; one with nothing in it is no pair"]


class Pairs(ref.Ref):
    def r_dict(self, env, i, spec, kind="dict"):
        x = self.run(spec, i, env)
        if x is None:
            return None
        toks = [x]
        seen = []
        for g in ref.flat(ref.N("and", x.start, x.end, [x])):
            items = list(ref.flat(g))
            if not items:
                self.ctx.reach("no key")
                continue
            key = items[0]
            if any(k == key for k in seen):
                self.ctx.reach("repeated key")
            elif seen:
                self.ctx.reach("two keys")
            seen.append(key)
            if len(items) == 1:
                self.ctx.reach("no value")
            if any(isinstance(v, ref.N) for v in items):
                self.ctx.reach("nested")
            toks.append(ref.N("ann", g.start, g.end, items[1:], key))
        return ref.N("group" if kind == "dict" else "open", x.start, x.end, toks)


def build(spec, env):
    op = spec[0]
    if op == "dict":
        e = build(spec[1], env)
        return gram.Dict(e) if len(spec) < 3 or spec[2] == "dict" else H.OpenDict(e)
    if op == "dict_of":
        return H.dict_of(build(spec[1], env), build(spec[2], env))
    if not has(spec, "dict", "dict_of"):
        return gram.build(spec, env)
    sub = [x if not isinstance(x, list) else build(x, env) for x in spec[1:]]
    if op == "and":
        return gram.And(sub, whitespaces.CURRENT)
    if op == "name":
        return sub[0](sub[1])
    if op == "rec":
        return gram.Forward(sub[1])
    if op == "first":
        return gram.MatchFirst(sub)
    return {"oom": gram.OneOrMore, "zom": gram.ZeroOrMore, "group": gram.Group, "opt": gram.Optional, "supp": gram.Suppress, "fwd": gram.Forward}[op](*sub)


def plain(spec):
    """dict_of in terms of the others"""
    if not isinstance(spec, list):
        return spec
    spec = [plain(x) for x in spec]
    if spec[0] == "dict_of":
        return ["dict", ["oom", ["group", ["and", spec[1], spec[2]]]]]
    return spec


def by_key(r, key, depth=0):
    """what the result has for a key"""
    v = r[key]
    if isinstance(v, gram.ParseResults):
        if isinstance(v.type, gram.Group):
            return [gram.view(v)]
        return [gram.view(x) for x in v]
    return [v]


def h_dict(ctx, specs, n, alphabet, white, before="", after=""):
    spec = ctx.choice("grammar", specs)
    s = before + ctx.string("s", 0, n, alphabet) + after
    table = gram.Table(ctx, zero=False) if has(spec, "stub") else None
    with Whitespace(white):
        p = gram.Group(build(spec, {"table": table}))
        got = gram.attempt(p, s)
        again = gram.attempt(p, s)
    k = Pairs(s, white, table)
    k.ctx = ctx
    x = k.run(["group", plain(spec)], k.skip(0))
    want = ["fail"] if x is None else ["ok", ref.view(x)]
    ctx.reach(want[0])
    ctx.observe("got", got)
    ctx.equal(got, want, "dict")
    ctx.equal(again, want, "again")


def tasks(tier):
    d = deep(tier, 0, 1)
    K, V, C = ["word", "ab"], ["word", "01"], ["supp", L(":")]
    pair = ["group", ["and", K, C, V]]
    flag = ["group", ["and", K, ["opt", ["and", C, V]]]]
    specs = [
        ["dict", ["oom", pair]], ["dict", pair], ["dict", ["zom", pair]], ["dict", ["opt", pair]], ["dict", ["and", pair, pair]], ["dict", ["zom", pair], "open"], ["dict", pair, "open"], ["dict", ["and", pair, ["opt", pair]], "open"],
        ["dict_of", K, ["and", C, V]], ["dict_of", K, C], ["dict_of", ["and", K, C], ["opt", V]], ["dict_of", K, ["and", C, ["group", V]]], ["dict_of", K, ["and", C, ["oom", ["char", "01"]]]],
        ["name", ["dict", ["oom", pair]], "x"], ["and", ["name", ["lit", "!"], "x"], ["dict", ["oom", pair], "open"]], ["and", ["dict", ["oom", flag], "open"], ["name", ["lit", "!"], "x"]], ["and", ["dict", ["oom", pair]], ["dict", ["oom", ["group", ["and", K, ["supp", L("!")], V]]]]],
        ["group", ["dict", ["oom", pair], "open"]], ["oom", ["and", ["dict", ["oom", pair]], ["supp", L("!")]]], ["dict", ["oom", flag]], ["dict", ["oom", ["group", ["and", ["name", K, "k"], C, ["name", V, "v"]]]]], ["dict", ["fwd", ["oom", pair]]], ["dict", ["fwd", pair]],
        ["dict", ["oom", ["group", ["and", K, C, ["first", V, ["and", ["supp", L("!")], ["dict", ["zom", pair]], ["supp", L("!")]]]]]]], ["dict", ["zom", ["group", ["and", K, C, ["act", V, "wrap"]]]]], ["fwd", ["dict", ["oom", pair]]], ["dict", ["oom", ["first", pair, ["group", L("!")]]]],
        ["dict", ["and", ["oom", pair], ["supp", L("!")]]], ["dict", ["zom", ["group", ["and", ["comb", ["and", K, ["opt", V]]], C, V]]]],
    ]
    maybe = ["group", ["and", ["opt", K], C, ["opt", V]]]
    specs += [
        ["dict", ["oom", maybe]], ["dict", ["zom", ["group", ["and", ["opt", ["and", K, V]], C]]], "open"], ["dict", ["zom", ["first", ["group", ["supp", L("!")]], pair]]], ["dict", ["and", ["opt", ["group", C]], ["zom", pair]]],
        ["dict", ["zom", ["first", ["supp", L("!")], pair]], "open"], ["dict", ["fwd", ["oom", maybe]]], ["dict_of", ["opt", K], C], ["group", ["dict", ["oom", maybe], "open"]],
    ]
    for spec in specs:
        bang = has(spec, "!")
        yield dict(harness="h_dict", params=dict(specs=[spec], n=6 + d, alphabet="ab:0!" if bang else "ab:0", white=""))
        yield dict(harness="h_dict", params=dict(specs=[spec], n=5 + d, alphabet="ab:0 !" if bang else "ab:01 ", white=" "))
    for x in (["dict", ["zom", ["group", ["and", S[0], S[1]]]]], ["dict", ["oom", ["group", ["and", S[0], ["opt", S[1]]]]], "open"], ["dict_of", S[0], S[1]]):
        yield dict(harness="h_dict", params=dict(specs=[x], n=3 + d, alphabet="a", white=""))
    # many pairs
    keys = [x + y for x in "ab" for y in ("", "a", "b", "ab", "ba", "bb", "aab", "bab", "baa")]
    for spec in specs[:2] + specs[2:3] + specs[5:6] + specs[8:10] + specs[13:14] + specs[19:20] + [["dict", ["fwd", ["oom", pair]]]]:
        for size in (5, 9, 17):
            for before in ("".join("%s:%d" % (k, i % 2) for i, k in enumerate(keys[:size])), "a:1b:0" * size, "".join("%s:%s" % (k, "01" * 9) for k in keys[:size])):
                yield dict(harness="h_dict", params=dict(specs=[spec], n=2, alphabet="ab:01", white="", before=before, after="a:0"))
