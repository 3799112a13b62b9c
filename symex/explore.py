"""Exhaustive exploration of one harness: every path within the task's bounds."""
import importlib
import signal
import sys
import time
import traceback

import z3

from symex import charset as cs
from symex import engine as E
from symex.engine import CT
from symex.symstr import (
    SymStr, SymInt, SymBool, SymFloat, make, lift, strlike, mkint, elems_of, mkbool,
)


class Violation(BaseException):
    pass


class Ctx(object):
    """what a harness sees; props/api.py has the concrete twin"""

    symbolic = True

    def __init__(self, en):
        self.en = en
        self.observed = []
        self.labels = []
        self.checks = 0
        self.failed = None

    # -- inputs
    def string(self, name, lo, hi=None, domain=None):
        n = lo if hi is None else lo + self.choice(name + ".len", hi - lo + 1)
        return self._string(name, n, domain)

    def _string(self, name, n, domain):
        D = as_set(domain)
        return make(tuple(self.en.new_char(f"{name}[{i}]", D) for i in range(n)))

    def char(self, name, domain=None):
        return make((self.en.new_char(name, as_set(domain)),))

    def int(self, name, lo, hi):
        return mkint(self.en.new_int(name, lo, hi))

    def choice(self, name, n):
        if isinstance(n, int):
            return self.en.choose(name, n) if n > 1 else 0
        return n[self.en.choose(name, len(n))] if len(n) > 1 else n[0]

    def flag(self, name):
        return bool(self.en.choose(name, 2))

    # -- obligations
    def assume(self, cond):
        self.en.assume(bool(cond))

    def reach(self, label):
        self.labels.append(label)

    def observe(self, label, value):
        self.observed.append((label, freeze(value)))

    def check(self, cond, label, **info):
        self.checks += 1
        self.en.stats["assertions"] += 1
        if type(cond) is SymBool:
            r, m = self.en.refute(cond.z)
            if r == z3.sat:
                self.failed = (label, {k: freeze(v) for k, v in info.items()}, m)
                self.en.dead = Violation
                raise Violation()
            self.en.add_z3(cond.z)
            return
        if not cond:
            self.failed = (label, {k: freeze(v) for k, v in info.items()}, None)
            self.en.dead = Violation
            raise Violation()

    def equal(self, got, want, label, **info):
        self.check(deep_eq(self.en, got, want), label, got=got, want=want, **info)


def deep_eq(en, a, b):
    """structural equality; True/False or a SymBool, without forking on characters"""
    parts = []
    if not _deq(en, a, b, parts):
        return False
    if not parts:
        return True
    return mkbool(z3.And(*parts)) if len(parts) > 1 else mkbool(parts[0])


def _deq(en, a, b, parts):
    a, b = lift(a), lift(b)
    if a is b:
        return True
    if strlike(a) and strlike(b):
        if len(a) != len(b):
            return False
        for x, y in zip(elems_of(a), elems_of(b)):
            if x is y:
                continue
            vx, vy = en.value(x), en.value(y)
            if vx is not None and vy is not None:
                if vx != vy:
                    return False
                continue
            if vx is not None or vy is not None:
                e, v = (y, vx) if vx is not None else (x, vy)
                e = en.plain(e)
                if type(e) is int:
                    if e != v:
                        return False
                    continue
                if not cs.contains(en.domains[e.var], v - e.off):
                    return False
                parts.append(en.zexpr(e) == v)
                continue
            parts.append(en.zexpr(x) == en.zexpr(y))
        return True
    if type(a) is SymInt or type(b) is SymInt:
        if isinstance(a, int) and isinstance(b, int):
            r = (a == b) if type(a) is SymInt else (b == a)
            if type(r) is SymBool:
                parts.append(r.z)
                return True
            return bool(r)
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_deq(en, x, y, parts) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a.keys()) == list(b.keys()) and all(_deq(en, a[k], b[k], parts) for k in a)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return bool(a == b)


def as_set(domain):
    if domain is None:
        return cs.FULL
    if isinstance(domain, str):
        return cs.of_chars(domain)
    return cs.norm(domain)


def freeze(v):
    v = lift(v)
    t = type(v)
    if t is SymStr:
        return ("s", v.elems)
    if t is SymInt:
        return ("z", v.z)
    if t is SymBool:
        return ("zb", v.z)
    if t is SymFloat:
        return ("f", freeze(v.text))
    if isinstance(v, (list, tuple)):
        return [freeze(x) for x in v]
    if isinstance(v, dict):
        return {str(k): freeze(x) for k, x in v.items()}
    if v is None or isinstance(v, (int, str, bool, float)):
        return v
    return "<%s>" % type(v).__name__


def thaw(v, env, m):
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ("s", "z", "zb", "f"):
        k, x = v
        if k == "s":
            return "".join(chr(code_of(e, env)) for e in x)
        if k == "f":
            return float(thaw(x, env, m))
        names = E.zvars_of(x)
        x = z3.simplify(z3.substitute(x, *[(z3.Int(n), z3.IntVal(env[n])) for n in names]))
        return x.as_long() if k == "z" else z3.is_true(x)
    if isinstance(v, list):
        return [thaw(x, env, m) for x in v]
    if isinstance(v, dict):
        return {k: thaw(x, env, m) for k, x in v.items()}
    return v


def code_of(e, env):
    if type(e) is int:
        return e
    c = env[e.var]
    if e.fn:
        return ord(getattr(str, e.fn)(chr(c)))
    return c + e.off


def model_env(en, m):
    """assignment for every input variable taken from the solver's model"""
    return {name: m.eval(en.zvar(name), model_completion=True).as_long() for name in en.variables}


def _alarm(signum, frame):
    en = E.ENGINE
    if en is not None and en.active:
        en.hung = True
        en.dead = E.PathHang
        raise E.PathHang("time")


def explore(fn, params, reset, deadline=None, max_paths=10**9, samples=3, path_seconds=25, stop_after=1):
    """
    run every path; returns a dictionary (picklable)
    """
    en = E.Engine()
    E.set_current(en)
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    out = dict(
        violations=[], witnesses=[], labels={}, statuses={}, complete=True, note="", checks=0,
    )
    keep = []
    while True:
        en._reset_path()
        reset()
        ctx = Ctx(en)
        status = "ok"
        error = None
        en.active = True
        signal.setitimer(signal.ITIMER_REAL, path_seconds, 0.5)
        try:
            try:
                fn(ctx, **params)
            finally:
                en.active = False
                signal.setitimer(signal.ITIMER_REAL, 0)
        except E.Infeasible:
            status = "infeasible"
        except E.PathHang:
            status = "hang"
        except Violation:
            status = "violation"
        except RecursionError as cause:
            status = "exception"
            error = cause
        except Exception as cause:
            status = "exception"
            error = cause
        if en.hung:
            status = "hang"
        elif en.dead is E.Infeasible:
            status = "infeasible"
        elif ctx.failed:
            status = "violation"
        en.stats["paths"] += 1
        if en.poison and status != "infeasible":
            out["note"] = out["note"] or en.poison
        out["checks"] += ctx.checks
        out["statuses"][status] = out["statuses"].get(status, 0) + 1
        if status != "infeasible":
            if ctx.failed and ctx.failed[2] is not None:
                m = ctx.failed[2]
                r = z3.sat
                env = model_env(en, m)
            else:
                r, m = en.leaf_model()
                env = en.witness(m, en.stats["paths"]) if r == z3.sat else None
            if r == z3.sat:
                for l in ctx.labels:
                    out["labels"][l] = out["labels"].get(l, 0) + 1
                record = dict(env=env, status=status)
                if status == "ok":
                    n = en.stats["paths"]
                    if len(out["witnesses"]) < samples or (n & (n - 1)) == 0:
                        record["observed"] = [(l, thaw(v, env, m)) for l, v in ctx.observed]
                        if len(out["witnesses"]) < samples * 3:
                            out["witnesses"].append(record)
                else:
                    if status == "violation":
                        record["label"] = ctx.failed[0]
                        record["info"] = {k: thaw(v, env, m) for k, v in ctx.failed[1].items()}
                    elif status == "exception":
                        record["label"] = "unexpected %s" % type(error).__name__
                        try:
                            record["info"] = {"error": str(error)[:300], "trace": traceback.format_exception(type(error), error, error.__traceback__)[-4:]}
                        except Exception:
                            record["info"] = {}
                    else:
                        record["label"] = "does not terminate"
                        record["info"] = {}
                    out["violations"].append(record)
            elif r == z3.unknown:
                out["complete"] = False
                out["note"] = "solver answered unknown"
        # next path
        st = en.stack
        while st and st[-1].index + 1 >= len(st[-1].options):
            st.pop()
        if not st:
            break
        st[-1].index += 1
        del st[en_pos(st):]
        if len(out["violations"]) >= stop_after:
            out["complete"] = False
            out["note"] = out["note"] or "stopped at a violation"
            break
        if en.stats["paths"] >= max_paths:
            out["complete"] = False
            out["note"] = "path budget"
            break
        if deadline is not None and time.time() > deadline:
            out["complete"] = False
            out["note"] = "time budget"
            break
    out["stats"] = en.stats
    out["realised"] = sorted(en.realised)
    out["seconds"] = time.time() - t0
    return out


def en_pos(st):
    return len(st)
