"""Facts, path decisions and the z3 back end for integer obligations."""
import time
import z3
from poly import Poly, P, Size, Var, IApp, Unsupported, ZERO, ONE

z3.set_param("smt.random_seed", 1)


class C:
    """integer constraint: kind in ge (p>=0), eq (p==0), ne (p!=0)"""

    __slots__ = ("k", "p", "_h")

    def __init__(self, k, p):
        if k in ("eq", "ne") and p.t:
            # canonical sign
            m = min(p.t, key=lambda m: tuple(a.key for a in m))
            if p.t[m] < 0:
                p = -p
        self.k = k
        self.p = p
        self._h = hash((k, p))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.k == o.k and self.p == o.p

    def neg(self):
        if self.k == "ge":
            return C("ge", -self.p - 1)
        return C("ne" if self.k == "eq" else "eq", self.p)

    def subst(self, s):
        p = self.p.subst(s)
        return self if p is self.p else C(self.k, p)

    def eval(self, env):
        v = self.p.eval(env)
        return v >= 0 if self.k == "ge" else (v == 0) == (self.k == "eq")

    def skey(self):
        return self.k + ":" + self.p.skey()

    def __repr__(self):
        return f"{self.p}{ {'ge': '>=0', 'eq': '==0', 'ne': '!=0'}[self.k] }"


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0


STATS = Stats()


class Ctx:
    def __init__(self):
        self.facts = []  # list of C
        self.flags = []  # boolean inputs (every value is possible): (name, value on this path)
        self.opaque = []  # (description, truth) of data dependent conditions assumed on this path
        self.cache = {}
        self.sizes = []
        self.defs = {}  # size -> defining polynomial
        self.base = set()  # the sizes of the inputs
        self.timeout = 3000

    # ---- z3 translation
    def _z(self, a, zs, defs):
        if a in zs:
            return zs[a]
        v = z3.Int("a%d" % len(zs))
        zs[a] = v
        if isinstance(a, Size):
            defs.append(v >= a.lo)
        else:
            if isinstance(a, IApp):
                for x in a.args:
                    self._zp(x, zs, defs)
            defs.append(v >= 0)
            defs.append(v < self._zp(a.size, zs, defs))
        return v

    def _zp(self, p, zs, defs):
        out = []
        for m, c in p.t.items():
            e = z3.IntVal(c)
            first = True
            for a in m:
                z = self._z(a, zs, defs)
                if first and c == 1:
                    e = z
                else:
                    e = e * z
                first = False
            out.append(e)
        if not out:
            return z3.IntVal(0)
        return z3.Sum(out) if len(out) > 1 else out[0]

    def _zc(self, c, zs, defs):
        e = self._zp(c.p, zs, defs)
        return e >= 0 if c.k == "ge" else (e == 0 if c.k == "eq" else e != 0)

    def check(self, cons, facts=True):
        """sat status of the conjunction of cons with the facts: 'unsat' | 'sat' | 'unknown' """
        cons = list(cons)
        key = (frozenset(cons), frozenset(self.facts) if facts else None)
        if key in self.cache:
            return self.cache[key]
        zs, defs = {}, []
        es = [self._zc(c, zs, defs) for c in cons]
        if facts:
            es += [self._zc(c, zs, defs) for c in self.facts]
        # congruence of integer applications
        apps = [a for a in zs if isinstance(a, IApp)]
        for i in range(len(apps)):
            for j in range(i):
                a, b = apps[i], apps[j]
                if a.name == b.name and len(a.args) == len(b.args):
                    eqs = [self._zp(x, zs, defs) == self._zp(y, zs, defs) for x, y in zip(a.args, b.args)]
                    defs.append(z3.Implies(z3.And(eqs), zs[a] == zs[b]))
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(defs)
        s.add(es)
        t = time.time()
        r = str(s.check())
        STATS.time += time.time() - t
        STATS.queries += 1
        if r == "unknown":
            STATS.unknown += 1
        self.cache[key] = r
        return r

    def model(self, cons=(), maxval=None, extra=()):
        """small satisfying assignment of the sizes: dict Size -> int, or None"""
        zs, defs = {}, []
        es = [self._zc(c, zs, defs) for c in list(cons) + self.facts]
        for a in extra:
            self._z(a, zs, defs)
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(defs)
        s.add(es)
        for bound in ([maxval] if maxval else [2, 3, 5, 9, 20, 70, 300, None]):
            s.push()
            if bound:
                for a, v in zs.items():
                    if isinstance(a, Size):
                        s.add(v <= max(bound, a.lo))
            if str(s.check()) == "sat":
                m = s.model()
                return {a: m.eval(v, model_completion=True).as_long() for a, v in zs.items() if isinstance(a, (Size, Var))}
            s.pop()
        return None

    def solution(self):
        """the sizes that the facts determine in terms of the others: dict Size -> Poly"""
        key = ("sol", tuple(self.facts))
        if key in self.cache:
            return self.cache[key]
        s = {}
        for c in self.facts:
            if c.k != "eq":
                continue
            p = c.p.subst(s) if s else c.p
            for a in sorted(p.atoms(), key=lambda a: a.key):
                if isinstance(a, Size) and p.t.get((a,)) in (1, -1) and sum(1 for m in p.t if a in m) == 1:
                    k = p.t[(a,)]
                    v = Poly.atom(a) - p if k == 1 else Poly.atom(a) + p
                    s = {b: q.subst({a: v}) for b, q in s.items()}
                    s[a] = v
                    break
        self.cache[key] = s
        return s

    def implies(self, c, hyps=()):
        """facts and hyps imply c (proved)"""
        p = c.p
        if p.is_const():
            v = p.cval()
            return v >= 0 if c.k == "ge" else (v == 0) == (c.k == "eq")
        if c.k == "ge" and not hyps:
            # cheap: all coefficients nonnegative and all atoms nonnegative
            if all(k >= 0 for k in p.t.values()):
                return True
        if c in self.facts or c in hyps:
            return True
        if self.defs:
            q = p
            for _ in range(4):
                q2 = q.subst(self.defs)
                if q2 == q:
                    break
                q = q2
            if q.is_const():
                v = q.cval()
                return v >= 0 if c.k == "ge" else (v == 0) == (c.k == "eq")
        return self.check([c.neg()] + list(hyps)) == "unsat"


_FACTORS = {}


def factors(p):
    """the non constant factors of a polynomial of degree at least two in several sizes"""
    if max(len(m) for m in p.t) < 2 or len(p.t) < 3:
        return [p]
    k = p.skey()
    if k in _FACTORS:
        return _FACTORS[k]
    import sympy

    ats = sorted(p.atoms(), key=lambda a: a.key)
    sy = [sympy.Symbol("x%d" % i) for i in range(len(ats))]
    e = sympy.Integer(0)
    for m, c in p.t.items():
        t = sympy.Integer(c)
        for a in m:
            t *= sy[ats.index(a)]
        e += t
    out = []
    for f, _ in sympy.factor_list(e, *sy)[1]:
        q = Poly.const(0)
        for mon, c in sympy.Poly(f, *sy).terms():
            t = Poly.const(int(c))
            for a, n in zip(ats, mon):
                for _ in range(n):
                    t = t * Poly.atom(a)
            q = q + t
        out.append(q)
    _FACTORS[k] = out if len(out) > 1 else [p]
    return _FACTORS[k]


class PathEnd(Exception):
    pass


class Explorer:
    """re-execution based path exploration"""

    def __init__(self, max_paths=64):
        self.max_paths = max_paths
        self.prefix = []
        self.trace = []
        self.queue = []
        self.ctx = None
        self.base_facts = []
        self.presub = {}  # name of an input size -> Poly: the case of the input space explored
        self.seen = set()

    def restart(self, p):
        """p == 0 determines an input size: explore that case from the start, with the size replaced.  True if queued"""
        base = self.ctx.base
        at = p.atoms()
        if not all(isinstance(a, Size) and a in base for a in at):
            return False
        for a in sorted(at, key=lambda a: a.key, reverse=True):
            if p.t.get((a,)) in (1, -1) and sum(1 for m in p.t if a in m) == 1:
                v = Poly.atom(a) - p if p.t[(a,)] == 1 else Poly.atom(a) + p
                if not (v.is_const() or (len(v.t) == 1 and next(iter(v.t.values())) == 1 and len(next(iter(v.t))) == 1)):
                    continue
                sub = {n: q.subst({a: v}) for n, q in self.presub.items()}
                sub[a.name] = v
                key = tuple(sorted((n, q.skey()) for n, q in sub.items()))
                if key not in self.seen:
                    self.seen.add(key)
                    self.queue.append(([], sub))
                return True
        return False

    def run(self, fn, base_facts=(), base_sizes=()):
        """fn(ctx) -> result; yields (ctx, result) for every feasible path"""
        global CUR
        self.queue = [([], {})]
        self.seen = set()
        n = 0
        while self.queue:
            self.prefix, self.presub = self.queue.pop()
            self.trace = []
            self.ctx = Ctx()
            self.ctx.facts = list(base_facts)
            self.ctx.sizes = list(base_sizes)
            CUR = self
            n += 1
            if n > self.max_paths:
                raise Unsupported("too many paths")
            try:
                res = fn(self.ctx)
            except PathEnd:
                continue
            yield self.ctx, res

    def decide(self, cond, opaque=None):
        """cond: C or None (opaque)."""
        ctx = self.ctx
        if cond is not None:
            if cond.p.is_const():
                return ctx.implies(cond)
            if ctx.implies(cond):
                return True
            if ctx.implies(cond.neg()):
                return False
        else:
            for desc, tv in ctx.opaque + ctx.flags:
                if desc == opaque:
                    return tv
        if cond is not None and any(not isinstance(a, Size) for a in cond.p.atoms()):
            raise Unsupported("branch on an index value: %r" % cond)
        if cond is not None and cond.k == "ge" and all(isinstance(a, Size) for a in cond.p.atoms()) and ctx.implies(C("ge", -cond.p)):
            return self.decide(C("eq", cond.p))
        if cond is not None and cond.k in ("eq", "ne"):
            sol = ctx.solution()
            fs = factors(cond.p.subst(sol) if sol else cond.p)
            if len(fs) > 1:
                # a product is zero iff a factor is
                for f in fs:
                    if self.decide(C("eq", f)):
                        return cond.k == "eq"
                return cond.k == "ne"
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d, again = True, False
            if cond is not None and cond.k in ("eq", "ne"):
                sol = ctx.solution()
                again = self.restart(cond.p.subst(sol) if sol else cond.p)
            if again:
                d = cond.k == "ne"
            else:
                self.queue.append((self.trace + [False], self.presub))
        self.trace.append(d)
        if cond is not None:
            ctx.facts.append(cond if d else cond.neg())
        else:
            (ctx.flags if opaque.startswith("flag ") else ctx.opaque).append((opaque, d))
        return d


CUR = Explorer()
CUR.ctx = Ctx()


def cur():
    return CUR


def ctx():
    return CUR.ctx


def decide(cond, opaque=None):
    return CUR.decide(cond, opaque)


def flag(name):
    """a boolean input of the code under verification: both values are explored"""
    return CUR.decide(None, "flag " + name)


def implies(c, hyps=()):
    return CUR.ctx.implies(c, hyps)


def eqp(a, b):
    """are two size polynomials provably equal (may not fork)"""
    d = P(a) - P(b)
    if not d.t:
        return True
    if d.is_const():
        return False
    if not CUR.ctx.facts:
        return False
    return CUR.ctx.implies(C("eq", d))


def ctx_sizes():
    return CUR.ctx.sizes
