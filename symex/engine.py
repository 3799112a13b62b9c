"""
Path-exploring symbolic execution of Python code.

One path = one run of the harness.  Every condition on a symbolic value that
the executed code asks for becomes a decision; decisions with two feasible
outcomes are explored depth-first by re-execution.  Feasibility is decided over
the path condition: by interval reasoning when the condition constrains one
character only, by z3 otherwise.  At the end of a path z3 is asked for
(path condition AND NOT assertion) for every assertion the harness made, and for
a model of the path condition (the path's witness).
"""
import signal
import time

import z3

from symex import charset as cs


class Infeasible(BaseException):
    """the harness assumed something false on this path"""


class PathHang(BaseException):
    """the path did not finish in its time budget"""


class EngineError(Exception):
    """the engine can not represent what the code does; never a verdict"""


class Incomplete(Exception):
    pass


PLACE0 = 0xF0000  # placeholder code points for symbolic characters


class CT(object):
    """symbolic character: variable + constant offset, or casefn(variable)"""

    __slots__ = ["var", "off", "fn", "place"]

    def __init__(self, var, off, fn, place):
        self.var = var
        self.off = off
        self.fn = fn
        self.place = place

    def __repr__(self):
        if self.fn:
            return f"<{self.fn}({self.var})>"
        return f"<{self.var}{'%+d' % self.off if self.off else ''}>"


class Decision(object):
    __slots__ = ["sig", "options", "index"]

    def __init__(self, sig, options):
        self.sig = sig
        self.options = options
        self.index = 0


class Engine(object):
    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.z3_stack = []
        self.stats = dict(
            paths=0,
            decisions=0,
            forks=0,
            interval_decisions=0,
            z3_branch_queries=0,
            z3_leaf_queries=0,
            z3_assert_queries=0,
            z3_unknown=0,
            solver_s=0.0,
            assertions=0,
        )
        self.zvars = {}
        self.zcache = {}
        self.realised = set()
        self.poison = None
        self._reset_path()
        self.stack = []
        self.active = False

    # ------------------------------------------------------------------ path
    def _reset_path(self):
        self.pc = []  # [(key, z3 expr)]
        self.domains = {}
        self.relational = set()
        self.rel_pairs = []
        self.pos = 0
        self.places = []
        self.place_index = {}
        self.variables = []
        self.steps = 0
        self.leaked = False
        self.symdicts = ()
        self.dead = None
        self.hung = False
        self.known = {}

    # ------------------------------------------------------------------ terms
    def zvar(self, name):
        v = self.zvars.get(name)
        if v is None:
            v = self.zvars[name] = z3.Int(name)
        return v

    def new_char(self, name, domain=cs.FULL):
        if name in self.domains:
            raise EngineError("duplicate variable " + name)
        self.domains[name] = domain
        self.variables.append(name)
        self.add_in(name, domain)
        return self.ct(name, 0)

    def new_int(self, name, lo, hi):
        self.variables.append(name)
        v = self.zvar(name)
        key = ("int", name, lo, hi)
        expr = self.zcache.get(key)
        if expr is None:
            expr = self.zcache[key] = z3.And(v >= lo, v <= hi)
        self.pc.append((key, expr))
        return v

    def ct(self, var, off, fn=None):
        key = (var, off, fn)
        found = self.place_index.get(key)
        if found is None:
            found = CT(var, off, fn, PLACE0 + len(self.places))
            self.places.append(found)
            self.place_index[key] = found
        return found

    def at_place(self, code):
        """element for a code point: CT if it is a placeholder, else the code"""
        i = code - PLACE0
        if 0 <= i < len(self.places):
            return self.places[i]
        return code

    def value(self, e):
        """concrete code of element e if it has only one, else None"""
        if type(e) is int:
            return e
        d = self.domains[e.var]
        if len(d) == 1 and d[0][0] == d[0][1]:
            if e.fn:
                return ord(getattr(str, e.fn)(chr(d[0][0])))
            return d[0][0] + e.off
        return None

    def plain(self, e):
        """element as variable + offset (forks over the groups of a case function)"""
        if type(e) is int or not e.fn:
            return e
        v = self.value(e)
        if v is not None:
            return v
        groups, _ = cs.case_table(e.fn)
        for off, S in groups:
            D = self.domains[e.var]
            if cs.inter(D, S) and self.in_set(self.ct(e.var, 0), S):
                return self.ct(e.var, off)
        return self.ct(e.var, 0)

    def case(self, e, fn):
        """elements (tuple) of str.<fn>() of one character"""
        if type(e) is int:
            return tuple(map(ord, getattr(str, fn)(chr(e))))
        e = self.plain(e)
        v = self.value(e)
        if v is not None:
            return tuple(map(ord, getattr(str, fn)(chr(v))))
        groups, multi = cs.case_table(fn)
        M = cs.multi_set(fn)
        if self.in_set(e, M):
            v = self.concrete_char(e, "str." + fn + " of a character with a long case mapping")
            return tuple(map(ord, getattr(str, fn)(chr(v))))
        D = cs.shift(self.domains[e.var], e.off)
        touched = cs.inter(D, cs.moved_set(fn))
        if not touched:
            return (e,)
        for off, S in groups:
            if touched == D and cs.inter(D, S) == D:
                return (self.ct(e.var, e.off + off),)
        if e.off:
            for off, S in groups:
                if cs.inter(D, S) and self.in_set(e, S):
                    return (self.ct(e.var, e.off + off),)
            return (e,)
        return (self.ct(e.var, 0, fn),)

    def zexpr(self, e):
        e = self.plain(e)
        if type(e) is int:
            return z3.IntVal(e)
        v = self.zvar(e.var)
        return v + e.off if e.off else v

    def _zin(self, name, S):
        key = ("in", name, S)
        expr = self.zcache.get(key)
        if expr is None:
            v = self.zvar(name)
            parts = [
                (v == lo) if lo == hi else z3.And(v >= lo, v <= hi) for lo, hi in S
            ]
            expr = z3.Or(*parts) if len(parts) != 1 else parts[0]
            self.zcache[key] = expr
        return key, expr

    def add_in(self, name, S):
        self.pc.append(self._zin(name, S))

    def add_z3(self, expr):
        self.pc.append((("z", expr.get_id()), expr))

    # ------------------------------------------------------------------ solver
    def _sync(self):
        i = 0
        st = self.z3_stack
        pc = self.pc
        n = min(len(st), len(pc))
        while i < n and st[i][0] == pc[i][0]:
            i += 1
        if len(st) > i:
            self.solver.pop(len(st) - i)
            del st[i:]
        for k in range(i, len(pc)):
            self.solver.push()
            self.solver.add(pc[k][1])
            st.append(pc[k])

    def _check(self, kind, *extra):
        t = time.perf_counter()
        self._sync()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats[kind] += 1
        if r == z3.unknown:
            self.stats["z3_unknown"] += 1
            self.poison = self.poison or "solver answered unknown"
        return r, m

    # ------------------------------------------------------------------ deciding
    def _decide(self, sig, options):
        """DFS decision among the feasible options"""
        self.stats["decisions"] += 1
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            if d.sig != sig:
                self.poison = f"nondeterministic execution: {d.sig} then {sig}"
            self.pos += 1
            return d.options[d.index]
        d = Decision(sig, options)
        if len(options) > 1:
            self.stats["forks"] += 1
        self.stack.append(d)
        self.pos += 1
        return options[0]

    def in_set(self, e, S):
        """is symbolic element e in S; forks"""
        if type(e) is int:
            return cs.contains(S, e)
        if e.off:
            S = cs.shift(S, -e.off)
        elif e.fn:
            S = cs.preimage(S, e.fn)
        var = e.var
        D = self.domains[var]
        I = cs.inter(D, S)
        if not I:
            self.stats["interval_decisions"] += 1
            return False
        if I == D:
            self.stats["interval_decisions"] += 1
            return True
        sig = ("in", var, S)
        if self.pos < len(self.stack):
            r = self._decide(sig, None)
        elif var in self.relational:
            zin = self._zin(var, I)[1]
            opts = []
            r, _ = self._check("z3_branch_queries", zin)
            if r != z3.unsat:
                opts.append(True)
            r, _ = self._check("z3_branch_queries", z3.Not(zin))
            if r != z3.unsat:
                opts.append(False)
            if not opts:
                self.poison = "infeasible path reached"
                opts = [False]
            r = self._decide(sig, opts)
        else:
            self.stats["interval_decisions"] += 1
            r = self._decide(sig, [True, False])
        if not r:
            I = cs.diff(D, S)
        self.domains[var] = I
        self.add_in(var, I)
        return r

    def eq(self, a, b):
        """equality of two elements; forks"""
        if a is b:
            return True
        va, vb = self.value(a), self.value(b)
        if va is not None:
            if vb is not None:
                return va == vb
            return self.in_set(b, cs.single(va))
        if vb is not None:
            return self.in_set(a, cs.single(vb))
        a, b = self.plain(a), self.plain(b)
        if type(a) is int or type(b) is int:
            return self.eq(a, b)
        if a.var == b.var:
            return a.off == b.off
        if not cs.inter(
            cs.shift(self.domains[a.var], a.off), cs.shift(self.domains[b.var], b.off)
        ):
            self.stats["interval_decisions"] += 1
            return False
        return self.branch(self.zexpr(a) == self.zexpr(b), (a.var, b.var))

    def less(self, a, b):
        """a < b on elements; forks"""
        va, vb = self.value(a), self.value(b)
        if va is not None:
            if vb is not None:
                return va < vb
            return self.in_set(b, ((va + 1, cs.MAXCP),) if va < cs.MAXCP else ())
        if vb is not None:
            return self.in_set(a, ((0, vb - 1),) if vb > 0 else ())
        a, b = self.plain(a), self.plain(b)
        if type(a) is int or type(b) is int:
            return self.less(a, b)
        if a.var == b.var:
            return a.off < b.off
        return self.branch(self.zexpr(a) < self.zexpr(b), (a.var, b.var))

    def branch(self, expr, vars=()):
        """decide a z3 boolean; forks"""
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        eid = expr.get_id()
        known = self.known.get(eid)
        if known is not None:
            return known[0]
        sig = ("z", expr.sexpr())
        if self.pos < len(self.stack):
            r = self._decide(sig, None)
        else:
            opts = []
            c, _ = self._check("z3_branch_queries", expr)
            if c != z3.unsat:
                opts.append(True)
            c, _ = self._check("z3_branch_queries", z3.Not(expr))
            if c != z3.unsat:
                opts.append(False)
            if not opts:
                self.poison = "infeasible path reached"
                opts = [False]
            r = self._decide(sig, opts)
        self.known[eid] = (r, expr)
        self.add_z3(expr if r else z3.Not(expr))
        for v in vars or zvars_of(expr):
            self.relational.add(v)
        return r

    def choose(self, name, n):
        """harness-level choice in range(n): a bounded symbolic integer, enumerated by forking"""
        v = self.zvar(name)
        self.variables.append(name)
        sig = ("choose", name, n)
        r = self._decide(sig, list(range(n)) if self.pos >= len(self.stack) else None)
        self.pc.append((("c", name, r), v == r))
        return r

    def values_of(self, expr, limit=2000):
        """concretise a z3 integer: fork over every feasible value"""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        sig = ("val", expr.sexpr())
        if self.pos < len(self.stack):
            r = self._decide(sig, None)
        else:
            opts = []
            block = []
            while True:
                c, m = self._check("z3_branch_queries", *block)
                if c != z3.sat:
                    break
                val = m.eval(expr, model_completion=True).as_long()
                opts.append(val)
                block.append(expr != val)
                if len(opts) > limit:
                    self.realised.add("integer with more than %d values" % limit)
                    break
            opts.sort()
            if not opts:
                self.poison = "infeasible path reached"
                opts = [0]
            r = self._decide(sig, opts)
        self.add_z3(expr == r)
        for v in zvars_of(expr):
            self.relational.add(v)
        return r

    def concrete_char(self, e, where):
        """
        concretise a character by forking over its values; when there are too
        many only representatives are explored and the cut is recorded
        """
        e = self.plain(e)
        v = self.value(e)
        if v is not None:
            return v
        D = cs.shift(self.domains[e.var], e.off)
        if cs.size(D) <= 160:
            for p in cs.members(D):
                if self.in_set(e, cs.single(p)):
                    return p
            self.infeasible()
        self.realised.add(where)
        picks = []
        for lo, hi in D[:4]:
            picks.append(lo)
            picks.append(hi)
        for c in "aA0 _\n\"":
            if cs.contains(D, ord(c)):
                picks.append(ord(c))
        for p in sorted(set(picks)):
            if self.in_set(e, cs.single(p)):
                return p
        self.infeasible()

    def infeasible(self):
        self.dead = Infeasible
        raise Infeasible()

    def assume(self, cond):
        if not cond:
            self.infeasible()

    # ------------------------------------------------------------------ models
    def leaf_model(self):
        return self._check("z3_leaf_queries")

    def refute(self, expr):
        """(verdict, model) of path condition AND NOT expr"""
        return self._check("z3_assert_queries", z3.Not(expr))

    def witness(self, m, salt=0):
        """{variable: value} satisfying the path condition"""
        out = {}
        for name in self.variables:
            if name in self.domains and name not in self.relational:
                out[name] = pick(self.domains[name], salt + len(out))
            else:
                v = m.eval(self.zvar(name), model_completion=True)
                out[name] = v.as_long()
        return out


NICE = tuple(ord(c) for c in "abcxyz019 _-.,(+*\"'\n\tAZ") + (0xE9, 0x3B1, 0x4E2D, 0x1F600)


def pick(D, salt):
    """a member of interval set D; different ones for different salts"""
    nice = [c for c in NICE if cs.contains(D, c)]
    if salt % 3 == 2 or not nice:
        lo, hi = D[salt % len(D)]
        return lo if salt % 2 else hi
    return nice[salt % len(nice)]


def zvars_of(expr):
    out = set()
    todo = [expr]
    seen = set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        todo.extend(e.children())
    return out


ENGINE = None


def current():
    return ENGINE


def set_current(e):
    global ENGINE
    ENGINE = e
