"""Real valued element expressions: finite sums of products with bound index variables and guards.

  SP   = sum of Terms
  Term = coef * prod(factors) * [integer guards]   summed over bound variables (each over [0,size))
"""
import math
from fractions import Fraction
from poly import Poly, P, Size, Var, IApp, Atom, Unsupported, ZERO, ONE
from ctx import C, implies


class F:
    __slots__ = ("k", "name", "idx", "args", "_key", "_h")

    def __init__(self, k, name, idx=(), args=()):
        self.k = k  # T tensor entry | N function | G real guard [arg>0] or [arg==0] | I integer polynomial
        self.name = name
        self.idx = tuple(idx)
        self.args = tuple(args)
        self._key = None
        self._h = None

    def key(self):
        if self._key is None:
            self._key = fkey(self, None)
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return self is o or (hash(self) == hash(o) and self.key() == o.key())

    def subst(self, s):
        if self.k in ("T", "I"):
            ni = tuple(p.subst(s) for p in self.idx)
            if all(a is b for a, b in zip(ni, self.idx)):
                return self
            return F(self.k, self.name, ni)
        na = tuple(a.subst(s) for a in self.args)
        if all(a is b for a, b in zip(na, self.args)):
            return self
        return F(self.k, self.name, (), na)

    def atoms(self):
        r = set()
        for p in self.idx:
            r |= p.atoms()
        for a in self.args:
            r |= a.atoms()
        return r

    def __repr__(self):
        if self.k == "T":
            return f"{self.name}[{','.join(map(str, self.idx))}]" if self.idx else self.name
        if self.k == "I":
            return f"int({self.idx[0]})"
        if self.k == "G":
            return f"[{self.args[0]}{ {'gt': '>0', 'eq': '==0'}[self.name] }]"
        return f"{self.name}({', '.join(map(str, self.args))})"


def pkey(p, names):
    if names is None:
        return p.skey()
    out = []
    for m, c in p.t.items():
        out.append(str(c) + "*" + "*".join(sorted(akey(a, names) for a in m)))
    return "+".join(sorted(out))


def akey(a, names):
    if isinstance(a, IApp):
        return "2" + a.name + "(" + ",".join(pkey(x, names) for x in a.args) + ")"
    n = names.get(a)
    if n is not None:
        return n
    return a.key[0] + a.key[1]


def fkey(f, names):
    if f.k in ("T", "I"):
        return f.k + f.name + "[" + ",".join(pkey(p, names) for p in f.idx) + "]"
    return f.k + f.name + "(" + ";".join(a.ckey(names) for a in f.args) + ")"


class Term:
    __slots__ = ("c", "f", "g", "b")

    def __init__(self, c, f=(), g=frozenset(), b=()):
        self.c = c
        self.f = tuple(f)
        self.g = frozenset(g)
        self.b = tuple(b)

    def atoms(self):
        r = set()
        for x in self.f:
            r |= x.atoms()
        for x in self.g:
            r |= x.p.atoms()
        return r

    def subst(self, s):
        # capture avoidance: bound vars have unique ids; rename if they occur in values
        if self.b:
            vals = None
            for v in s.values():
                at = v.atoms()
                if any(b in at for b in self.b):
                    vals = True
                    break
            if vals:
                return self.fresh().subst(s)
        b = self.b
        # sizes of bound vars may mention substituted atoms
        if b and any(v.size.atoms() & s.keys() for v in b):
            m = {}
            nb = []
            for v in b:
                nv = Var(v.name, v.size.subst(s))
                m[v] = Poly.atom(nv)
                nb.append(nv)
            s = dict(s)
            s.update(m)
            b = tuple(nb)
        return Term(self.c, [x.subst(s) for x in self.f], [x.subst(s) for x in self.g], b)

    def fresh(self):
        if not self.b:
            return self
        m = {}
        nb = []
        for v in self.b:
            nv = Var(v.name, v.size)
            m[v] = Poly.atom(nv)
            nb.append(nv)
        t = Term(self.c, [x.subst(m) for x in self.f], [x.subst(m) for x in self.g], ())
        return Term(t.c, t.f, t.g, nb)

    def ckey(self, names=None):
        """canonical key up to renaming of bound variables (coefficient excluded)"""
        names = dict(names) if names else {}
        if self.b:
            col = {v: "c" + v.size.skey() for v in self.b}
            for _ in range(3):
                nm = dict(names)
                nm.update(col)
                occ = {v: [] for v in self.b}
                for x in self.f:
                    at = x.atoms()
                    for v in self.b:
                        if v in at:
                            nm2 = dict(nm)
                            nm2[v] = "@"
                            occ[v].append(fkey(x, nm2))
                for x in self.g:
                    at = x.p.atoms()
                    for v in self.b:
                        if v in at:
                            nm2 = dict(nm)
                            nm2[v] = "@"
                            occ[v].append(x.k + pkey(x.p, nm2))
                col = {v: "c" + str(abs(hash((col[v], tuple(sorted(occ[v])))))) for v in self.b}
            order = sorted(self.b, key=lambda v: col[v])
            depth = sum(1 for n in names.values() if n.startswith("%"))
            for i, v in enumerate(order):
                names[v] = "%" + str(depth + i)
            bk = ",".join(names[v] + "<" + pkey(v.size, names) for v in order)
        else:
            bk = ""
        nm = names or None
        return (
            "*".join(sorted(fkey(x, nm) for x in self.f))
            + "|"
            + "&".join(sorted(x.k + pkey(x.p, nm) for x in self.g))
            + "|"
            + bk
        )

    def __repr__(self):
        s = str(self.c) if self.c != 1 or not self.f else ""
        if self.f:
            s += ("*" if s else "") + "*".join(map(str, self.f))
        if self.g:
            s += "".join(f"[{x}]" for x in self.g)
        if self.b:
            s = "SUM{" + ",".join(f"{v}<{v.size}" for v in self.b) + "} " + s
        return s


class SP:
    __slots__ = ("t", "_k", "_at", "_aa")

    def __init__(self, t=()):
        self.t = tuple(t)
        self._k = None
        self._at = None
        self._aa = None

    def atoms(self):
        if self._at is None:
            r = set()
            for t in self.t:
                r |= t.atoms() - set(t.b)
            self._at = r
        return self._at

    def subst(self, s):
        if not self.t or not s:
            return self
        if not (self.allatoms() & s.keys()):
            return self
        return SP([x.subst(s) for x in self.t])

    def allatoms(self):
        """every atom, those in the ranges of bound variables and inside functions included"""
        if self._aa is None:
            r = set()
            for t in self.t:
                for x in t.f:
                    for p in x.idx:
                        r |= p.atoms()
                    for a in x.args:
                        r |= a.allatoms()
                for c in t.g:
                    r |= c.p.atoms()
                for v in t.b:
                    r.discard(v)
                    r |= v.size.atoms()
            self._aa = r
        return self._aa

    def ckey(self, names=None):
        if names is None and self._k is not None:
            return self._k
        k = "+".join(sorted(str(t.c) + "." + t.ckey(names) for t in self.t))
        if names is None:
            self._k = k
        return k

    def __add__(self, o):
        o = S(o)
        if not self.t:
            return o
        if not o.t:
            return self
        return merge(self.t + o.t)

    __radd__ = __add__

    def __neg__(self):
        return SP([Term(-t.c, t.f, t.g, t.b) for t in self.t])

    def __sub__(self, o):
        return self + (-S(o))

    def __rsub__(self, o):
        return S(o) - self

    def __mul__(self, o):
        o = S(o)
        out = []
        for a in self.t:
            for b in o.t:
                b2 = b.fresh() if (a.b and b.b and set(a.b) & set(b.b)) else b
                f = a.f + b2.f
                out.append(Term(a.c * b2.c, f, a.g | b2.g, a.b + b2.b))
                if len(out) > 4000:
                    raise Unsupported("expression too large")
        return merge(out)

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and not self.t[0].f and not self.t[0].g and not self.t[0].b)

    def cval(self):
        return self.t[0].c if self.t else Fraction(0)

    def guard(self, cs):
        cs = [c for c in cs if not (c.p.is_const() and implies(c))]
        if not cs:
            return self
        for c in cs:
            if c.p.is_const():
                return SP()
        return SP([Term(t.c, t.f, t.g | set(cs), t.b) for t in self.t])

    def sum(self, vs):
        vs = tuple(vs)
        if not vs:
            return self
        return SP([Term(t.c, t.f, t.g, t.b + vs) for t in self.t])

    def __repr__(self):
        return " + ".join(map(str, self.t)) if self.t else "0"


def merge(ts):
    d = {}
    out = []
    for t in ts:
        if t.c == 0:
            continue
        if t.b:
            out.append(t)
            continue
        k = (tuple(sorted(x.key() for x in t.f)), t.g)
        if k in d:
            d[k] = Term(d[k].c + t.c, t.f, t.g, ())
        else:
            d[k] = t
    return SP([t for t in d.values() if t.c != 0] + out)


def S(x):
    if isinstance(x, SP):
        return x
    if isinstance(x, (int, Fraction)):
        return SP([Term(Fraction(x))]) if x else SP()
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non finite constant")
        return SP([Term(Fraction(x))]) if x else SP()
    p = getattr(x, "poly", None)
    if isinstance(p, Poly):
        return ipoly(p)
    if isinstance(x, Poly):
        return ipoly(x)
    if hasattr(x, "spval"):
        return x.spval
    raise Unsupported(f"not a real expression: {type(x).__name__}")


def ipoly(p):
    if p.is_const():
        return S(p.cval())
    return SP([Term(Fraction(1), (F("I", "", (p,)),))])


def tens(name, idx):
    return SP([Term(Fraction(1), (F("T", name, idx),))])


def one_guard(cs):
    return S(1).guard(cs)


def fac(f):
    return SP([Term(Fraction(1), (f,))])


def gt0(a):
    """[a > 0]"""
    a = S(a)
    if a.is_const():
        return S(1 if a.cval() > 0 else 0)
    if len(a.t) == 1 and not a.t[0].b:
        t = a.t[0]
        # [c * G * rest > 0] = G * [c*rest > 0]
        gs = tuple(x for x in t.f if x.k == "G")
        rest = [x for x in t.f if x.k != "G"]
        pos = [x for x in rest if x.k == "N" and x.name in ("exp", "sigmoid")]
        rest = [x for x in rest if x not in pos]
        # even powers are kept simple: no reduction
        base = SP([Term(Fraction(1 if t.c > 0 else -1), tuple(rest))])
        if base.is_const():
            r = S(1 if base.cval() > 0 else 0)
        elif len(rest) == 1 and rest[0].k == "N" and rest[0].name in ("inv",) and t.c > 0:
            r = gt0(rest[0].args[0])
        else:
            r = fac(F("G", "gt", (), (base,)))
        return SP([Term(x.c, _dedupe(x.f + gs), x.g | t.g, x.b) for x in r.t])
    return fac(F("G", "gt", (), (a,)))


def eq0(a):
    a = S(a)
    if a.is_const():
        return S(1 if a.cval() == 0 else 0)
    return fac(F("G", "eq", (), (a,)))


def _dedupe(fs):
    seen = set()
    out = []
    for x in fs:
        if x.k == "G":
            if x in seen:
                continue
            seen.add(x)
        out.append(x)
    return tuple(out)


def fn(name, *args):
    args = [S(a) for a in args]
    a = args[0]
    if name == "inv":
        if a.is_const():
            if a.cval() == 0:
                raise ZeroDivisionError
            return S(1 / a.cval())
        if len(a.t) == 1 and not a.t[0].b and not a.t[0].g and not any(x.k == "G" for x in a.t[0].f):
            t = a.t[0]
            r = S(1 / t.c)
            for x in t.f:
                if x.k == "N" and x.name == "inv":
                    r = r * x.args[0]
                elif x.k == "N" and x.name == "exp":
                    r = r * fn("exp", -x.args[0])
                else:
                    r = r * fac(F("N", "inv", (), (fac(x),)))
            return r
    elif name == "exp":
        if a.is_const() and a.cval() == 0:
            return S(1)
        # exp(u + n log(X)) = X^n exp(u)   (log(X) is defined for X > 0 only)
        logs = [t for t in a.t if not t.b and not t.g and len(t.f) == 1 and t.f[0].k == "N" and t.f[0].name == "log" and t.c.denominator == 1]
        if logs:
            r = fn("exp", SP([t for t in a.t if t not in logs]))
            for t in logs:
                x = t.f[0].args[0]
                r = r * ipow(x if t.c > 0 else fn("inv", x), abs(int(t.c)))
            return r
    elif name in ("sin", "tanh", "norm", "sqrt", "abs"):
        if a.is_const() and a.cval() == 0:
            return S(0)
        if name in ("norm", "sqrt") and a.is_const() and a.cval() == 1:
            return S(1)
    elif name == "cos":
        if a.is_const() and a.cval() == 0:
            return S(1)
    elif name == "sigmoid":
        if a.is_const() and a.cval() == 0:
            return S(Fraction(1, 2))
    elif name == "log":
        if a.is_const() and a.cval() == 1:
            return S(0)
        if len(a.t) == 1 and a.t[0].c == 1 and not a.t[0].b and not a.t[0].g and len(a.t[0].f) == 1:
            x = a.t[0].f[0]
            if x.k == "N" and x.name == "exp":
                return x.args[0]
    elif name == "round32":
        if a.is_const() and a.cval() == Fraction(float_to32(float(a.cval()))):
            return a
    return fac(F("N", name, (), args))


def float_to32(x):
    import struct

    return struct.unpack("f", struct.pack("f", x))[0]


def ipow(a, n):
    r = S(1)
    for _ in range(n):
        r = r * a
    return r


# ---------------------------------------------------------------- differentiation
def dfn(f, du):
    """derivative of function factor given derivatives of its args (list of SP)"""
    a = f.args[0]
    me = fac(f)
    n = f.name
    if n == "exp":
        return me * du[0]
    if n == "sin":
        return fn("cos", a) * du[0]
    if n == "cos":
        return -(fn("sin", a) * du[0])
    if n == "tanh":
        return (S(1) - me * me) * du[0]
    if n == "sigmoid":
        return (me - me * me) * du[0]
    if n == "log":
        return fn("inv", a) * du[0]
    if n == "inv":
        return -(me * me * du[0])
    if n == "sqrt":
        return fn("inv", me) * du[0] * Fraction(1, 2)
    if n == "norm":
        return gt0(me) * fn("inv", me) * du[0] * Fraction(1, 2)
    if n == "abs":
        return (gt0(a) - gt0(-a)) * du[0]
    if n == "round32":
        return du[0]
    if n == "cust":
        # args: value, derivative, argument
        return f.args[1] * du[2]
    raise Unsupported(f"derivative of {n}")


def diff(sp, name, j):
    """d sp / d name[j], j tuple of Poly"""
    out = SP()
    for t in sp.t:
        for i, x in enumerate(t.f):
            rest = Term(t.c, t.f[:i] + t.f[i + 1 :], t.g, ())
            if x.k == "T":
                if x.name != name:
                    continue
                if len(x.idx) != len(j):
                    raise Unsupported("rank mismatch in derivative")
                d = one_guard([C("eq", a - b) for a, b in zip(x.idx, j)])
            elif x.k == "N":
                if not any(mentions(a, name) for a in x.args):
                    continue
                if x.name == "cust":
                    du = [None, None, diff(x.args[2], name, j)]
                else:
                    du = [diff(a, name, j) for a in x.args]
                d = dfn(x, du)
            else:
                continue
            p = SP([rest]) * d
            out = out + p.sum(t.b)
    return out


def mentions(sp, name):
    for t in sp.t:
        for x in t.f:
            if x.k == "T" and x.name == name:
                return True
            if x.k in ("N", "G") and any(mentions(a, name) for a in x.args):
                return True
    return False


def strip_cust(sp):
    def has(sp):
        return any(x.k in ("N", "G") and (x.name == "cust" or any(has(a) for a in x.args)) for t in sp.t for x in t.f)

    if not has(sp):
        return sp
    out = SP()
    for t in sp.t:
        r = SP([Term(t.c, (), t.g, ())])
        for x in t.f:
            if x.k == "N" and x.name == "cust":
                r = r * strip_cust(x.args[0])
            elif x.k == "N":
                r = r * fn(x.name, *[strip_cust(a) for a in x.args])
            elif x.k == "G":
                r = r * (gt0 if x.name == "gt" else eq0)(strip_cust(x.args[0]))
            else:
                r = r * fac(x)
        out = out + r.sum(t.b)
    return out


def norms(sp):
    """sqrt and norm have the same values (they differ in the derivative at zero only)"""

    def has(sp):
        return any(x.k in ("N", "G") and (x.name == "sqrt" or any(has(a) for a in x.args)) for t in sp.t for x in t.f)

    if not has(sp):
        return sp
    out = SP()
    for t in sp.t:
        r = SP([Term(t.c, (), t.g, ())])
        for x in t.f:
            if x.k == "N":
                r = r * fn("norm" if x.name == "sqrt" else x.name, *[norms(a) for a in x.args])
            elif x.k == "G":
                r = r * (gt0 if x.name == "gt" else eq0)(norms(x.args[0]))
            else:
                r = r * fac(x)
        out = out + r.sum(t.b)
    return out


# ---------------------------------------------------------------- numeric evaluation
HP = [False]  # evaluate with 60 digits: rounding must not look like a disagreement


class high_precision:
    def __enter__(self):
        import mpmath

        self.ctx = mpmath.workdps(60)
        self.ctx.__enter__()
        HP[0] = True

    def __exit__(self, *a):
        HP[0] = False
        return self.ctx.__exit__(*a)


def hfn(name, a):
    import mpmath as m

    if abs(a) > 10**7 and name in ("exp", "sigmoid", "tanh", "sin", "cos"):
        raise OverflowError
    if name in ("exp", "sin", "cos", "tanh"):
        return getattr(m, name)(a)
    if name == "sigmoid":
        return 1 / (1 + m.exp(-a))
    if name == "log":
        return m.log(a) if a > 0 else m.nan
    if name == "inv":
        return 1 / a if a != 0 else m.nan
    if name in ("sqrt", "norm"):
        return m.sqrt(a) if a >= 0 else m.nan
    return None


def num(v):
    if HP[0]:
        import mpmath

        return mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpmath.mpf(v)
    return float(v)


def nfn(name, v):
    a = v[0]
    if HP[0]:
        r = hfn(name, a)
        if r is not None:
            return r
    if name == "exp":
        return math.exp(min(a, 700.0))
    if name == "sin":
        return math.sin(a)
    if name == "cos":
        return math.cos(a)
    if name == "tanh":
        return math.tanh(a)
    if name == "sigmoid":
        return 1 / (1 + math.exp(-a)) if a > -700 else 0.0
    if name == "log":
        return math.log(a) if a > 0 else float("nan")
    if name == "inv":
        return 1 / a if a != 0 else float("nan")
    if name in ("sqrt", "norm"):
        return math.sqrt(a) if a >= 0 else float("nan")
    if name == "abs":
        return abs(a)
    if name == "round32":
        return float_to32(a) + 1e-3 * (1 + abs(a))  # deliberately visible
    if name == "cust":
        return a
    raise Unsupported(f"numeric {name}")


class Budget(Exception):
    pass


def evsp(sp, env, budget=None):
    """env: dict Atom->int, 'T': f(name, idx)->float, 'iapp'"""
    s = num(0)
    for t in sp.t:
        s += evterm(t, env, budget)
    return s


def evfac(x, env, budget):
    if x.k == "T":
        return num(env["T"](x.name, tuple(p.eval(env) for p in x.idx)))
    if x.k == "I":
        return num(x.idx[0].eval(env))
    if x.k == "G":
        v = evsp(x.args[0], env, budget)
        if v != v:
            return float("nan")
        return (1.0 if v > 0 else 0.0) if x.name == "gt" else (1.0 if v == 0 else 0.0)
    if x.name == "cust":
        return evsp(x.args[0], env, budget)
    return nfn(x.name, [evsp(a, env, budget) for a in x.args])


def evterm(t, env, budget=None):
    def inner(env):
        if budget is not None:
            budget[0] -= 1
            if budget[0] < 0:
                raise Budget()
        v = num(t.c)
        # guards first
        for c in t.g:
            if not c.eval(env):
                return 0.0
        for x in t.f:
            v *= evfac(x, env, budget)
            if v == 0.0:
                return 0.0
        return v

    if not t.b:
        return inner(env)
    env = dict(env)
    # eliminate by eq guards on the fly: order vars, check guards as soon as determined
    bs = list(t.b)
    gl = [(c, c.p.atoms() & set(bs)) for c in t.g]

    def rec(i, fixed):
        if i == len(bs):
            return inner(env)
        v = bs[i]
        n = v.size.eval(env)
        s = num(0)
        f2 = fixed | {v}
        ready = [c for c, a in gl if v in a and a <= f2]
        for k in range(n):
            if budget is not None:
                budget[0] -= 1
                if budget[0] < 0:
                    raise Budget()
            env[v] = k
            if all(c.eval(env) for c in ready):
                s += rec(i + 1, f2)
        return s

    return rec(0, frozenset())
