"""
Imports the current source of /repo/mo_parsing (and the harness modules) with
every operation that may meet a symbolic value routed through the engine:
calls, `in`, subscripts, formatting.  Nothing else of the source is changed.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import inspect
import json
import operator
import os
import sys
import types

from symex import charset as cs
from symex import engine as E
from symex import symre
from symex import trace
from symex.symstr import (
    SymStr, SymInt, SymBool, SymFloat, SYMS, elems_of, make, lift, strlike,
    str_join, sym_any, concretise, mkint, elem_matches, DECIMAL,
)
import z3

REPO = os.environ.get("SX_REPO", "/repo")
SKIP_NAMES = {
    "super", "locals", "globals", "vars", "dir", "eval", "exec", "expect", "export",
    "delay_import", "set_parser_names", "__import__", "namedtuple",
}
encoded = {}  # filename -> set of function names executed is tracked by calls


class Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_NAMES:
            return node
        if isinstance(f, ast.Attribute) and f.attr in ("_getframe",):
            return node
        return ast.copy_location(
            ast.Call(
                func=ast.Name(id="__sx_call__", ctx=ast.Load()),
                args=[f] + node.args,
                keywords=node.keywords,
            ),
            node,
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) > 1:
            return node
        call = ast.Call(
            func=ast.Name(id="__sx_in__", ctx=ast.Load()),
            args=[node.left, node.comparators[0]],
            keywords=[],
        )
        if isinstance(node.ops[0], ast.NotIn):
            call = ast.UnaryOp(op=ast.Not(), operand=call)
        return ast.copy_location(call, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return ast.copy_location(
                ast.Call(
                    func=ast.Name(id="__sx_get__", ctx=ast.Load()),
                    args=[node.value, node.slice],
                    keywords=[],
                ),
                node,
            )
        return node

    def visit_AnnAssign(self, node):
        # leave annotations alone
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        node.body = [self.visit(s) for s in node.body]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Assign(self, node):
        if (
            len(node.targets) == 1
            and isinstance(node.targets[0], ast.Subscript)
            and not isinstance(node.targets[0].slice, ast.Slice)
        ):
            t = node.targets[0]
            return ast.copy_location(
                ast.Expr(
                    value=ast.Call(
                        func=ast.Name(id="__sx_set__", ctx=ast.Load()),
                        args=[self.visit(node.value), self.visit(t.value), self.visit(t.slice)],
                        keywords=[],
                    )
                ),
                node,
            )
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
                if v.format_spec is None and v.conversion in (-1, 115):
                    v.value = ast.Call(func=ast.Name(id="__sx_fval__", ctx=ast.Load()), args=[v.value], keywords=[])
                if v.format_spec is not None:
                    for s in v.format_spec.values:
                        if isinstance(s, ast.FormattedValue):
                            s.value = self.visit(s.value)
        return ast.copy_location(
            ast.Call(func=ast.Name(id="__sx_lift__", ctx=ast.Load()), args=[node], keywords=[]),
            node,
        )

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(
                    func=ast.Name(id="__sx_mod__", ctx=ast.Load()),
                    args=[node.left, node.right],
                    keywords=[],
                ),
                node,
            )
        return node


def rewrite(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


# ---------------------------------------------------------------------- hooks
BUILTIN = type(len)
METHOD_DESC = type(str.join)
WRAPPER = type("".__eq__)
SLOT = type(str.__eq__)
STR_METHODS = {n for n in dir(SymStr) if hasattr(str, n) and not n.startswith("__")}
MAX_STEPS = 400000


def sx_call(f, *args, **kwargs):
    en = E.ENGINE
    if en is None or not en.active:
        return f(*args, **kwargs)
    en.steps += 1
    if en.steps > MAX_STEPS:
        en.hung = True
        en.dead = E.PathHang
    if en.dead is not None:
        raise en.dead()
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        m = MODELS.get(f) if t is types.FunctionType else None
        if m is not None:
            return m(*args, **kwargs)
        return f(*args, **kwargs)
    if t is BUILTIN:
        recv = f.__self__
        tr = type(recv)
        if tr is str:
            if en.leaked or sym_any(args) or (args and not simple(args)):
                return str_method(recv, f.__name__, args, kwargs)
            return f(*args, **kwargs)
        if tr is types.ModuleType:
            m = MODELS.get(f)
            if m is not None:
                return m(*args, **kwargs)
            if f in REFLECTIVE:
                return f(*args, **kwargs)
        elif isinstance(recv, dict):
            m = DICT_METHODS.get(f.__name__)
            if m is not None and (sym_any(args) or id(recv) in en.symdicts):
                return m(recv, f, *args, **kwargs)
            return f(*args, **kwargs)
        elif tr is list or tr is set or tr is frozenset:
            if tr is not list and sym_any(args):
                return set_method(recv, f, args)
            return f(*args, **kwargs)
        elif recv is None or isinstance(recv, type):
            m = MODELS.get(f)
            if m is not None:
                return m(*args, **kwargs)
        if sym_any(args):
            return fallback(f, args, kwargs)
        return f(*args, **kwargs)
    if t is type:
        m = TYPE_MODELS.get(f)
        if m is not None:
            return m(*args, **kwargs)
        return f(*args, **kwargs)
    if t is METHOD_DESC:
        if f.__objclass__ is str and args:
            return str_method(args[0], f.__name__, args[1:], kwargs)
        if f.__objclass__ is dict and f.__name__ in DICT_METHODS and args:
            return sx_call(getattr(args[0], f.__name__), *args[1:], **kwargs)
        return f(*args, **kwargs)
    if t is WRAPPER or t is SLOT:
        if sym_any(args):
            if t is SLOT and f.__objclass__ is object:
                return f(*args, **kwargs)
            if t is WRAPPER and type(f.__self__) is str and f.__name__ == "__contains__":
                return sx_in(args[0], f.__self__)
        return f(*args, **kwargs)
    m = MODELS_ID.get(id(f))
    if m is not None:
        return m(*args, **kwargs)
    return f(*args, **kwargs)


def simple(args):
    """no argument of a str method can hide a symbolic string"""
    for a in args:
        ta = type(a)
        if ta is str or ta is int or a is None:
            continue
        return False
    return True


def fallback(f, args, kwargs):
    """C function without a model: concretise its symbolic arguments"""
    where = getattr(f, "__qualname__", repr(f))
    E.ENGINE.realised.add("argument of " + where)
    return f(*[concretise(a, where) for a in args], **{k: concretise(v, where) for k, v in kwargs.items()})


def str_method(recv, name, args, kwargs):
    recv = lift(recv)
    if type(recv) is str:
        if name == "join":
            items = list(args[0])
            if any(type(lift(x)) is SymStr for x in items):
                return str_join(recv, [lift(x) for x in items])
            return recv.join(items)
        if name == "format":
            return lift(recv.format(*args, **kwargs))
        if not sym_any(args) and not any(type(a) is tuple and sym_any(a) for a in args):
            args = tuple(lift(a) if type(a) is str else a for a in args)
            if not sym_any(args):
                return getattr(recv, name)(*args, **kwargs)
        if name in STR_METHODS:
            return getattr(SymStr(tuple(map(ord, recv))), name)(*args, **kwargs)
        return fallback(getattr(recv, name), args, kwargs)
    if type(recv) is SymStr:
        if name in ("join",):
            return str_join(recv, [lift(x) for x in args[0]])
        args = tuple(lift(a) if type(a) is str else a for a in args)
        return getattr(recv, name)(*args, **kwargs)
    return getattr(str, name)(recv, *args, **kwargs)


def find_key(d, key):
    """the key of d that equals key (forks), or None"""
    if type(key) is str or type(key) is SymStr:
        key = lift(key)
        if type(key) is str and id(d) not in E.ENGINE.symdicts:
            return (key,) if key in d else None
        for k in list(dict.keys(d)):
            if strlike(k) and len(k) == len(key) and k == key:
                return (k,)
        return None
    return (key,) if key in d else None


def d_get(d, f, key, default=None):
    k = find_key(d, key)
    return dict.__getitem__(d, k[0]) if k else default


def d_setdefault(d, f, key, default=None):
    k = find_key(d, key)
    if k:
        return dict.__getitem__(d, k[0])
    sx_set(default, d, key)
    return default


def d_pop(d, f, key, *default):
    k = find_key(d, key)
    if k:
        return raw_pop(d, k[0])
    if default:
        return default[0]
    raise KeyError(key)


def raw_pop(d, k):
    for kk in list(dict.keys(d)):
        if kk is k:
            return dict.pop(d, kk)
    return dict.pop(d, k)


DICT_METHODS = {"get": d_get, "setdefault": d_setdefault, "pop": d_pop, "__getitem__": lambda d, f, k: sx_get(d, k), "__contains__": lambda d, f, k: find_key(d, k) is not None}


class RawKey(object):
    """dictionary key wrapper is never visible to the code: see sx_set"""


def set_method(recv, f, args):
    name = f.__name__
    if name == "add":
        x = args[0]
        for y in recv:
            if strlike(y) and y == x:
                return None
        recv.add(x)  # hashes: concretises
        return None
    if name in ("__contains__",):
        return sx_in(args[0], recv)
    return f(*args)


def sx_in(x, c):
    en = E.ENGINE
    if en is None or not en.active:
        return x in c
    tc = type(c)
    tx = type(x)
    if tc is str or tc is SymStr:
        if tx is SymStr or (en.leaked and tx is str) or tc is SymStr:
            x = lift(x)
            c = lift(c)
            if type(x) is str and type(c) is str:
                return x in c
            if type(c) is str:
                if not strlike(x):
                    return x in c
                if len(x) == 1:
                    if c.isascii() or not en.leaked:
                        return en.in_set(x.elems[0], cs.of_chars(c))
                return SymStr(tuple(map(ord, c))).find(x) >= 0
            return x in c
        return x in c
    if (tx is SymStr or (en.symdicts and tx is str)) and isinstance(c, dict):
        return find_key(c, x) is not None
    if tx is SymStr:
        kind = type(c).__name__
        if tc is set or tc is frozenset or kind in ("dict_keys", "odict_keys"):
            if c and all(type(y) is str and len(y) == 1 for y in c) and len(x) == 1:
                return en.in_set(x.elems[0], cs.of_chars("".join(c)))
            return any(strlike(y) and x == y for y in c)
    return x in c


def sx_get(o, k):
    en = E.ENGINE
    if en is not None and en.active:
        if (type(k) is SymStr or (en.symdicts and type(k) is str)) and isinstance(o, dict):
            found = find_key(o, k)
            if found is None:
                if hasattr(type(o), "__missing__"):
                    return o[concretise(k, "missing key of a symbolic lookup")]
                raise KeyError(k)
            return raw_get(o, found[0])
        if type(o) is str and en.leaked:
            o = lift(o)
    return o[k]


def raw_get(o, k):
    if type(k) is str:
        return dict.__getitem__(o, k)
    for kk, v in dict.items(o):
        if kk is k:
            return v
    raise KeyError(k)


def sx_set(value, o, k):
    en = E.ENGINE
    if en is not None and en.active and type(k) is SymStr and isinstance(o, dict):
        found = find_key(o, k)
        if found is not None and type(found[0]) is str:
            o[found[0]] = value
            return
        k = k.concrete("symbolic key stored in a dict")
    o[k] = value


def sx_mod(a, b):
    en = E.ENGINE
    if en is not None and en.active and (type(a) is str or type(a) is SymStr):
        a = a if type(a) is str else a._content()
        return lift(a % b)
    return a % b


def sx_lift(s):
    return lift(s)


def sx_fval(x):
    """value of an f-string, objects by their own (perhaps symbolic) __str__"""
    t = type(x)
    if t not in SYMS and t.__format__ is object.__format__ and type(t.__str__) is types.FunctionType:
        return m_str(x)
    return x


# ---------------------------------------------------------------------- models
def m_str(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if type(x) is SymStr:
            return x
        s = type(x).__str__
        if type(s) is types.FunctionType:
            out = s(x)
            return lift(out) if type(out) is str else out
        return lift(str(x))
    return str(*args, **kw)


def m_type(*args):
    if len(args) == 1:
        x = args[0]
        if type(x) in SYMS or type(x) in (symre.SxPattern, symre.SxMatch):
            return x.__class__
        return type(x)
    return type(*args)


def m_ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c))
        return mkint(E.ENGINE.zexpr(c.elems[0]))
    return ord(c)


def m_chr(i):
    if type(i) is SymInt:
        # chr(ord(c) + k)
        en = E.ENGINE
        z = i.z
        vs = E.zvars_of(z)
        if len(vs) == 1:
            name = next(iter(vs))
            if name in en.domains:
                off = z3.simplify(z - en.zvar(name))
                if z3.is_int_value(off):
                    off = off.as_long()
                    e = en.ct(name, off)
                    ok = en.in_set(e, cs.FULL)
                    if not ok:
                        raise ValueError("chr() arg not in range(0x110000)")
                    return make((e,))
        return chr(int(i))
    return chr(i)


_runs = None


def digit_runs():
    global _runs
    if _runs is None:
        import unicodedata
        _runs = []
        for lo, hi in DECIMAL:
            c = lo
            while c <= hi:
                _runs.append((c - unicodedata.decimal(chr(c)), 10))
                c += 10
        _runs.sort()
    return _runs


def m_int(*args, **kw):
    if len(args) == 1 and not kw:
        x = args[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return mkint(z3.If(x.z, 1, 0))
        if type(x) is SymFloat:
            return int(x.concrete())
        if type(x) is SymStr:
            return sym_atoi(x)
        return int(x)
    if args and type(args[0]) is SymStr:
        return int(args[0].concrete("int() with a base"), *args[1:], **kw)
    return int(*args, **kw)


def sym_atoi(x):
    en = E.ENGINE
    s = x.num_strip()
    elems = elems_of(s)
    bad = ValueError("invalid literal for int() with base 10")
    if not elems:
        raise bad
    sign = 1
    if en.in_set(elems[0], cs.of_chars("+-")):
        if en.in_set(elems[0], cs.single(45)):
            sign = -1
        elems = elems[1:]
    if not elems:
        raise bad
    total = z3.IntVal(0)
    prev_us = True
    for e in elems:
        if en.in_set(e, cs.single(95)):
            if prev_us:
                raise bad
            prev_us = True
            continue
        prev_us = False
        if en.in_set(e, ((48, 57),)):
            total = total * 10 + (en.zexpr(e) - 48)
            continue
        if not en.in_set(e, DECIMAL):
            raise bad
        for zero, n in digit_runs():
            if en.in_set(e, ((zero, zero + 9),)):
                total = total * 10 + (en.zexpr(e) - zero)
                break
    if prev_us:
        raise bad
    return mkint(sign * total)


FLOAT = None


def m_float(*args):
    global FLOAT
    if len(args) == 1:
        x = args[0]
        if type(x) is SymFloat:
            return x
        if type(x) is SymInt:
            return float(int(x))
        if type(x) is SymStr:
            if FLOAT is None:
                FLOAT = symre.compile(
                    r"[+-]?(?:(?:\d+(?:_\d+)*)?\.(?:\d+(?:_\d+)*)|\d+(?:_\d+)*\.?)(?:[eE][+-]?\d+(?:_\d+)*)?|[+-]?(?:[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN])"
                )
            s = x.num_strip()
            if not FLOAT.fullmatch(s):
                raise ValueError("could not convert string to float")
            return SymFloat(s)
    return float(*args)


def m_bool(*args):
    return bool(*args)


def uniq(items):
    out = []
    for x in items:
        x = lift(x)
        if strlike(x):
            for y in out:
                if strlike(y) and x == y:
                    break
            else:
                out.append(x)
        else:
            out.append(x)
    return out


class SymSet(object):
    """set that holds symbolic strings; only what code does with small sets of characters"""

    def __init__(self, items):
        self.items = uniq(items)

    @property
    def __class__(self):
        return set

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __contains__(self, x):
        return any(strlike(y) and strlike(x) and x == y for y in self.items)

    def __sub__(self, other):
        return SymSet([x for x in self.items if not sx_in(x, other)])

    def __and__(self, other):
        return SymSet([x for x in self.items if sx_in(x, other)])

    def __or__(self, other):
        return SymSet(list(self.items) + list(other))

    __ror__ = __or__

    def __rsub__(self, other):
        return SymSet([x for x in other if not sx_in(x, self)])

    def __eq__(self, other):
        return len(self) == len(other) and all(sx_in(x, other) for x in self.items)

    def add(self, x):
        self.items = uniq(self.items + [x])

    def update(self, *others):
        for o in others:
            self.items = uniq(self.items + list(o))

    def discard(self, x):
        self.items = [y for y in self.items if not (y == x)]

    union = __or__
    difference = __sub__
    intersection = __and__

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")


def m_set(*args):
    if len(args) == 1:
        if type(args[0]) is SymSet:
            return SymSet(args[0].items)
        items = list(args[0])
        if sym_any(items):
            return SymSet(items)
        return set(items)
    return set(*args)


def m_frozenset(*args):
    if len(args) == 1:
        items = list(args[0])
        if sym_any(items):
            return SymSet(items)
        return frozenset(items)
    return frozenset(*args)


def m_map(f, *its):
    if type(f) is types.FunctionType and f not in MODELS:
        return map(f, *its)
    return (sx_call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    if f is None:
        return filter(None, it)
    return (x for x in it if sx_call(f, x))


def m_isinstance(x, t):
    return isinstance(x, t)


def m_hash(x):
    return hash(x)


def m_repr(x):
    return lift(repr(x))


def m_len(x):
    return len(x)


def m_getattr(o, name, *default):
    return getattr(o, concretise(name, "attribute name"), *default)


ASCII_SAFE = cs.diff(((32, 126),), cs.of_chars('"\\'))


def m_json_dumps(x, *args, **kw):
    if type(x) is SymStr and not args and not kw:
        en = E.ENGINE
        out = [34]
        for e in x.elems:
            if en.in_set(e, ASCII_SAFE):
                out.append(e)
            else:
                c = en.concrete_char(e, "json.dumps of a non-printable or non-ASCII character")
                out.extend(map(ord, json.dumps(chr(c))[1:-1]))
        out.append(34)
        return make(tuple(out))
    return lift(json.dumps(x, *args, **kw))


def m_minmax(f):
    def g(*args, **kw):
        if kw or len(args) == 1:
            return f(*args, **kw)
        best = args[0]
        for x in args[1:]:
            if (x < best) if f is min else (x > best):
                best = x
        return best

    return g


def m_print(*a, **k):
    return None


def m_stack(context=1):
    """inspect.stack() without the frames of this engine"""
    f = sys._getframe(1)
    out = []
    while f is not None:
        if "/symex/" not in f.f_code.co_filename:
            out.append(f)
        f = f.f_back
    return out


TYPE_MODELS = {
    str: m_str, type: m_type, int: m_int, float: m_float, set: m_set,
    frozenset: m_frozenset, map: m_map, filter: m_filter,
}
MODELS = {
    ord: m_ord, chr: m_chr, repr: m_repr, json.dumps: m_json_dumps,
    getattr: m_getattr, min: m_minmax(min), max: m_minmax(max), print: m_print, inspect.stack: m_stack,
}
MODELS_ID = {}
REFLECTIVE = {
    len, isinstance, issubclass, hash, id, iter, next, callable, hasattr, setattr,
    any, all, sum, sorted, abs, repr, delattr, getattr,
}


# ---------------------------------------------------------------------- import
HOOKS = {
    "__sx_call__": sx_call,
    "__sx_in__": sx_in,
    "__sx_get__": sx_get,
    "__sx_set__": sx_set,
    "__sx_mod__": sx_mod,
    "__sx_lift__": sx_lift,
    "__sx_fval__": sx_fval,
}
for _k, _v in HOOKS.items():
    setattr(builtins, _k, _v)

SHIM = symre.shim()
_real_import = builtins.__import__


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if name == "re" and level == 0:
        return SHIM
    return _real_import(name, globals, locals, fromlist, level)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            source = f.read()
        code = rewrite(source, self.path)
        b = dict(vars(builtins))
        b["__import__"] = _import
        module.__dict__["__builtins__"] = b
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """prefix -> directory"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        head = fullname.split(".")[0]
        root = self.roots.get(head)
        if root is None:
            return None
        base = os.path.join(root, *fullname.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                spec = importlib.util.spec_from_file_location(
                    fullname, p, loader=Loader(p),
                    submodule_search_locations=[base] if pkg else None,
                )
                return spec
        return None


def install(verif):
    sys.dont_write_bytecode = True
    trace.install()
    sys.meta_path.insert(0, Finder({"mo_parsing": REPO, "props": verif}))
