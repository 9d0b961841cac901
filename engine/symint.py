"""Symbolic python integers / booleans / floats seen by the code under verification."""
from fractions import Fraction
from poly import Poly, P, Size, Var, IApp, Unsupported, ZERO, ONE
from ctx import C, decide, implies, eqp
import ctx as _ctx
from sp import S, SP, ipoly, gt0, eq0


def mkint(p, facs=None):
    p = P(p)
    if p.is_const():
        return p.cval()
    return SymInt(p, facs)


class SymBool:
    def __init__(self, c=None, opaque=None):
        self.c = c
        self.opaque = opaque

    def __bool__(self):
        return decide(self.c, self.opaque)

    def __invert__(self):
        return not bool(self)

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)


class SymInt:
    __slots__ = ("poly", "facs")

    def __init__(self, p, facs=None):
        self.poly = p
        self.facs = facs

    def _hf(self):
        return list(self.facs) if self.facs else [self]

    def __add__(self, o):
        if isinstance(o, float):
            return SymFloat.of(self) + o
        if not _isint(o):
            return NotImplemented
        return mkint(self.poly + P(o))

    __radd__ = __add__

    def __sub__(self, o):
        if not _isint(o):
            return NotImplemented if not isinstance(o, float) else SymFloat.of(self) - o
        return mkint(self.poly - P(o))

    def __rsub__(self, o):
        if not _isint(o):
            return NotImplemented
        return mkint(P(o) - self.poly)

    def __mul__(self, o):
        if isinstance(o, float):
            return SymFloat.of(self) * o
        if not _isint(o):
            return NotImplemented
        if isinstance(o, int) and o == 1:
            return self
        of = o._hf() if isinstance(o, SymInt) else [o]
        return mkint(self.poly * P(o), self._hf() + of)

    def __rmul__(self, o):
        if not _isint(o):
            return NotImplemented
        if isinstance(o, int) and o == 1:
            return self
        return mkint(self.poly * P(o), [o] + self._hf())

    def __neg__(self):
        return mkint(-self.poly)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, int) and n >= 0:
            r = 1
            for _ in range(n):
                r = r * self
            return r
        raise Unsupported("power of size")

    def __floordiv__(self, o):
        if isinstance(o, float):
            raise Unsupported("float floordiv")
        return idiv(self, o)

    def __rfloordiv__(self, o):
        return idiv(o, self)

    def __mod__(self, o):
        return imod(self, o)

    def __rmod__(self, o):
        return imod(o, self)

    def __divmod__(self, o):
        return idiv(self, o), imod(self, o)

    def __truediv__(self, o):
        return SymFloat.of(self) / o

    def __rtruediv__(self, o):
        return SymFloat.of(o) / self

    def _cmp(self, o, k):
        if isinstance(o, float):
            if o == int(o):
                o = int(o)
            else:
                raise Unsupported("size compared with a fraction")
        if isinstance(o, SymFloat):
            o = o.as_int()
        if not _isint(o):
            return NotImplemented
        d = self.poly - P(o)
        if k == "eq":
            return SymBool(C("eq", d))
        if k == "ne":
            return SymBool(C("ne", d))
        if k == "ge":
            return SymBool(C("ge", d))
        if k == "gt":
            return SymBool(C("ge", d - 1))
        if k == "le":
            return SymBool(C("ge", -d))
        if k == "lt":
            return SymBool(C("ge", -d - 1))

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return r if r is NotImplemented else bool(r)

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return r if r is NotImplemented else bool(r)

    def __ge__(self, o):
        r = self._cmp(o, "ge")
        return r if r is NotImplemented else bool(r)

    def __gt__(self, o):
        r = self._cmp(o, "gt")
        return r if r is NotImplemented else bool(r)

    def __le__(self, o):
        r = self._cmp(o, "le")
        return r if r is NotImplemented else bool(r)

    def __lt__(self, o):
        r = self._cmp(o, "lt")
        return r if r is NotImplemented else bool(r)

    def __hash__(self):
        return hash(self.poly)

    def __bool__(self):
        return decide(C("ne", self.poly))

    def __index__(self):
        raise Unsupported(f"symbolic size {self.poly} used as a concrete integer")

    def __int__(self):
        raise Unsupported(f"symbolic size {self.poly} used as a concrete integer")

    def __float__(self):
        raise Unsupported(f"symbolic size {self.poly} used as a concrete float")

    def is_integer(self):
        return True

    def bit_length(self):
        raise Unsupported("bit_length of size")

    def __repr__(self):
        return str(self.poly)

    __str__ = __repr__

    def __format__(self, spec):
        return str(self.poly)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


def _isint(o):
    return isinstance(o, (int, SymInt))


def idiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    pa, pb = P(a), P(b)
    if isinstance(b, int) and b == 1:
        return a
    if not implies(C("ge", pb - 1)):
        if decide(C("eq", pb)):
            raise ZeroDivisionError("integer division or modulo by zero")
        raise Unsupported("division by a possibly negative size")
    q = pa.divexact(pb)
    if q is not None:
        facs = None
        if isinstance(a, SymInt) and a.facs:
            fl = list(a.facs)
            bf = b._hf() if isinstance(b, SymInt) else [b]
            try:
                for x in bf:
                    for i, y in enumerate(fl):
                        if P(y) == P(x):
                            fl.pop(i)
                            break
                    else:
                        raise ValueError
                facs = fl if len(fl) > 1 else None
            except ValueError:
                facs = None
        return mkint(q, facs)
    from dims import pdivmod

    try:
        q, r = pdivmod(pa, pb)
        return mkint(q)
    except Unsupported:
        pass
    # defined quotient: fresh size with facts  q*b <= a < q*b + b
    q = Size("q%d" % len(_ctx.cur().trace) + "_" + pa.skey()[:40] + "_" + pb.skey()[:20], lo=-(10**9))
    qp = Poly.atom(q)
    _ctx.ctx().facts += [C("ge", pa - qp * pb), C("ge", qp * pb + pb - 1 - pa)]
    if implies(C("ge", pa)):
        _ctx.ctx().facts.append(C("ge", qp))
    return mkint(qp)


def imod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    q = idiv(a, b)
    return mkint(P(a) - P(q) * P(b))


class SymFloat:
    """symbolic python float: a scalar real expression"""

    def __init__(self, sp, intval=None):
        self.spval = S(sp)
        self.intval = intval

    @staticmethod
    def of(x):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymInt):
            return SymFloat(ipoly(x.poly), x)
        return SymFloat(S(x))

    def as_int(self):
        if self.intval is not None:
            return self.intval
        raise Unsupported("symbolic float used as an integer")

    def __round__(self, n=None):
        if n is None:
            return self.as_int()
        raise Unsupported("round of a symbolic float")

    __floor__ = __ceil__ = __trunc__ = as_int

    def is_integer(self):
        if self.intval is not None:
            return True
        raise Unsupported("is_integer of a symbolic float")

    def _b(self, o, f):
        if isinstance(o, (int, float, Fraction, SymInt, SymFloat)):
            return SymFloat(f(self.spval, S(o)))
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        from sp import fn

        if isinstance(o, (SymInt, SymFloat, int, float)):
            # exact integer quotient keeps being an integer value
            if self.intval is not None and isinstance(o, (SymInt, int)) and not isinstance(o, bool):
                q = P(self.intval).divexact(P(o))
                if q is not None:
                    qi = idiv(self.intval, o)
                    return SymFloat(ipoly(q), qi)
            return SymFloat(self.spval * fn("inv", S(o)))
        return NotImplemented

    def __rtruediv__(self, o):
        from sp import fn

        return SymFloat(S(o) * fn("inv", self.spval))

    def __neg__(self):
        return SymFloat(-self.spval)

    def __pow__(self, n):
        from sp import ipow, fn

        if isinstance(n, int) and n >= 0:
            return SymFloat(ipow(self.spval, n))
        if isinstance(n, int):
            return SymFloat(fn("inv", ipow(self.spval, -n)))
        raise Unsupported("power of symbolic float")

    def _cmp(self, o, k):
        if self.intval is not None and isinstance(o, (int, SymInt)):
            f = {"eq": "__eq__", "ne": "__ne__", "gt": "__gt__", "ge": "__ge__", "lt": "__lt__", "le": "__le__"}[k]
            i = self.intval
            return getattr(i, f)(o)
        d = self.spval - S(o)
        if d.is_const():
            v = d.cval()
            return {"eq": v == 0, "ne": v != 0, "gt": v > 0, "ge": v >= 0, "lt": v < 0, "le": v <= 0}[k]
        return bool(SymBool(None, f"{k} {d.ckey()}"))

    def __eq__(self, o):
        if not isinstance(o, (int, float, SymInt, SymFloat)):
            return NotImplemented
        return self._cmp(o, "eq")

    def __ne__(self, o):
        if not isinstance(o, (int, float, SymInt, SymFloat)):
            return NotImplemented
        return self._cmp(o, "ne")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __hash__(self):
        return hash(self.spval.ckey())

    def __bool__(self):
        return self._cmp(0, "ne")

    def __int__(self):
        raise Unsupported("int() of a symbolic float")

    def __float__(self):
        raise Unsupported("symbolic float used as a concrete float")

    def __repr__(self):
        return str(self.spval)
