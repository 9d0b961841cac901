"""Integer index expressions: polynomials with integer coefficients over atoms.

Atoms are sizes (symbolic positive integers), index variables (range [0,size)) and applications of
uninterpreted integer functions (max-pool argmax digits and the like, range [0,size)).
"""
import itertools

_uid = itertools.count()


class Unsupported(Exception):
    """The engine cannot express this; never an alarm: the obligation is 'undecided'."""


class Atom:
    __slots__ = ("key", "_h")

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Atom) and self._h == o._h and self.key == o.key)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.key < o.key

    def __repr__(self):
        return str(self)


class Size(Atom):
    __slots__ = ("name", "lo")

    def __init__(self, name, lo=1):
        self.name = name
        self.lo = lo
        self.key = ("0", name)
        self._h = hash(self.key)

    def __str__(self):
        return self.name


class Var(Atom):
    __slots__ = ("name", "uid", "size")

    def __init__(self, name, size):
        self.name = name
        self.uid = next(_uid)
        self.size = size if isinstance(size, Poly) else Poly.const(size)
        self.key = ("1", "%09d" % self.uid)
        self._h = hash(self.key)

    def __str__(self):
        return f"{self.name}#{self.uid}"


class IApp(Atom):
    __slots__ = ("name", "args", "size")

    def __init__(self, name, args, size):
        self.name = name
        self.args = tuple(args)
        self.size = size
        self.key = ("2", name + "(" + ",".join(a.skey() for a in self.args) + ")")
        self._h = hash(self.key)

    def __str__(self):
        return f"{self.name}({', '.join(map(str, self.args))})"


class Poly:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    @staticmethod
    def const(c):
        return Poly({(): int(c)}) if c else ZERO

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def skey(self):
        if self._k is None:
            self._k = "+".join(
                str(c) + "".join("*" + a.key[0] + a.key[1] for a in m) for m, c in sorted(self.t.items(), key=_mk)
            )
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        t = {}
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                mm = tuple(sorted(m + m2)) if m and m2 else (m or m2)
                n = t.get(mm, 0) + c * c2
                if n:
                    t[mm] = n
                else:
                    t.pop(mm, None)
        return Poly(t)

    __rmul__ = __mul__

    def atoms(self, deep=True):
        s = set()
        for m in self.t:
            for a in m:
                s.add(a)
                if deep and isinstance(a, IApp):
                    for x in a.args:
                        s |= x.atoms()
                    s |= a.size.atoms()
        return s

    def subst(self, sub):
        """sub: dict Atom -> Poly"""
        hit = False
        for m in self.t:
            for a in m:
                if a in sub or isinstance(a, IApp):
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return self
        r = ZERO
        for m, c in self.t.items():
            p = Poly.const(c)
            for a in m:
                if a in sub:
                    p = p * sub[a]
                elif isinstance(a, IApp):
                    na = IApp(a.name, [x.subst(sub) for x in a.args], a.size.subst(sub))
                    p = p * (sub[na] if na in sub else Poly.atom(na))
                else:
                    p = p * Poly.atom(a)
            r = r + p
        return r

    def divexact(self, o):
        """exact polynomial division by a monomial or constant or equal polynomial; None if not exact"""
        o = P(o)
        if not o.t:
            return None
        if self == o:
            return ONE
        if len(o.t) == 1:
            (m, c), = o.t.items()
            t = {}
            for mm, cc in self.t.items():
                if cc % c:
                    return None
                l = list(mm)
                for a in m:
                    if a in l:
                        l.remove(a)
                    else:
                        return None
                t[tuple(l)] = cc // c
            return Poly(t)
        # general: try long division on leading monomials
        r, q = self, ZERO
        lm, lc = max(o.t.items(), key=_mk2)
        for _ in range(50):
            if not r.t:
                return q
            rm, rc = max(r.t.items(), key=_mk2)
            l = list(rm)
            for a in lm:
                if a in l:
                    l.remove(a)
                else:
                    return None
            if rc % lc:
                return None
            s = Poly({tuple(l): rc // lc})
            q = q + s
            r = r - s * o
        return None

    def eval(self, env):
        s = 0
        for m, c in self.t.items():
            v = c
            for a in m:
                v *= evatom(a, env)
            s += v
        return s

    def __str__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=_mk):
            b = "*".join(str(a) for a in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(b)
            else:
                out.append(f"{c}*{b}")
        return "+".join(out).replace("+-", "-")

    __repr__ = __str__


def _mk(i):
    return tuple(a.key for a in i[0])


def _mk2(i):
    return (len(i[0]), tuple(a.key for a in i[0]))


def evatom(a, env):
    if a in env:
        return env[a]
    if isinstance(a, IApp):
        args = tuple(x.eval(env) for x in a.args)
        n = a.size.eval(env)
        f = env.get("iapp")
        return f(a.name, args, n)
    raise KeyError(str(a))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly.atom(x)
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, int):
        return Poly.const(x)
    p = getattr(x, "poly", None)
    if isinstance(p, Poly):
        return p
    raise Unsupported(f"not an integer expression: {type(x).__name__}")


ZERO = Poly({})
ONE = Poly({(): 1})
