"""Structured axes.  Dim = row-major product of facs; fac = AtomFac(size) | CatFac([Dim, ...])."""
from poly import Poly, P, Size, Var, IApp, Unsupported, ZERO, ONE
from ctx import C, implies, decide, eqp
import ctx as _ctx
from sp import S, SP


class AtomFac:
    __slots__ = ("size",)

    def __init__(self, size):
        self.size = P(size)

    def key(self):
        return self.size.skey()

    def __repr__(self):
        return f"{self.size}"


class CatFac:
    __slots__ = ("parts", "size")

    def __init__(self, parts):
        self.parts = list(parts)
        s = ZERO
        for p in self.parts:
            s = s + p.size
        self.size = s

    def key(self):
        return "cat(" + ",".join(p.key() for p in self.parts) + ")"

    def __repr__(self):
        return "(" + " (+) ".join(map(str, self.parts)) + ")"


class Dim:
    __slots__ = ("facs", "size")

    def __init__(self, facs):
        fs = []
        for f in facs:
            if isinstance(f, AtomFac) and f.size == ONE:
                continue
            fs.append(f)
        self.facs = tuple(fs)
        s = ONE
        for f in self.facs:
            s = s * f.size
        self.size = s

    def key(self):
        return "x".join(f.key() for f in self.facs) or "1"

    def __eq__(self, o):
        return self is o or self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "[" + "*".join(map(str, self.facs)) + "]"


def atom_dim(size):
    return Dim([AtomFac(size)])


def dim_of(n):
    """Dim for a python size (int or SymInt with product hint)"""
    facs = getattr(n, "facs", None)
    if facs:
        out = []
        for f in facs:
            out += list(dim_of(f).facs)
        return Dim(out)
    p = P(n)
    return Dim([AtomFac(p)])


# ---- index helpers: idx of a Dim is a tuple with one entry per fac: Poly | (case, idx)
def fresh_idx(dim, name="i"):
    """all symbolic index choices of a dim: list of (idx, [Var]) one per cat case combination"""
    outs = [((), [])]
    for f in dim.facs:
        if isinstance(f, AtomFac):
            nxt = []
            for i, vs in outs:
                v = Var(name, f.size)
                nxt.append((i + (Poly.atom(v),), vs + [v]))
            outs = nxt
        else:
            nxt = []
            for k, part in enumerate(f.parts):
                for sub, svs in fresh_idx(part, name):
                    for i, vs in outs:
                        nxt.append((i + ((k, sub),), vs + svs))
            outs = nxt
        if len(outs) > 256:
            raise Unsupported("too many concatenation cases")
    return outs


def flat_of(dim, idx):
    """row-major flat position as a polynomial"""
    r = ZERO
    for f, i in zip(dim.facs, idx):
        r = r * f.size + fac_flat(f, i)
    return r


def fac_flat(f, i):
    if isinstance(f, AtomFac):
        return i
    k, sub = i
    off = ZERO
    for p in f.parts[:k]:
        off = off + p.size
    return off + flat_of(f.parts[k], sub)


def pdivmod(p, n):
    """(p // n, p % n) when provable (p>=0, n>0 sizes)"""
    n = P(n)
    if n == ONE:
        return p, ZERO
    if n.is_const() and p.is_const():
        return Poly.const(p.cval() // n.cval()), Poly.const(p.cval() % n.cval())
    # split p = n*q + r syntactically
    q, r = {}, {}
    for m, c in p.t.items():
        d = Poly({m: c}).divexact(n)
        if d is not None:
            for mm, cc in d.t.items():
                q[mm] = q.get(mm, 0) + cc
        else:
            r[m] = c
    q, r = Poly(q), Poly(r)
    if implies(C("ge", r)) and implies(C("ge", n - 1 - r)):
        return q, r
    # n polynomial with several monomials or r needs a shift by a multiple
    for k in (1, -1):
        r2 = r + n * k
        if implies(C("ge", r2)) and implies(C("ge", n - 1 - r2)):
            return q - k, r2
    raise Unsupported(f"cannot split index {p} by {n}")


def from_flat(dim, p):
    """digits of flat position p in dim"""
    p = P(p)
    if len(dim.facs) == 0:
        return ()
    if len(dim.facs) == 1:
        return (fac_from_flat(dim.facs[0], p),)
    rest = ONE
    for f in dim.facs[1:]:
        rest = rest * f.size
    q, r = pdivmod(p, rest)
    return (fac_from_flat(dim.facs[0], q),) + from_flat(Dim(dim.facs[1:]), r)


def fac_from_flat(f, p):
    if isinstance(f, AtomFac):
        return p
    off = ZERO
    for k, part in enumerate(f.parts):
        d = p - off
        if implies(C("ge", d)) and implies(C("ge", part.size - 1 - d)):
            return (k, from_flat(part, d))
        off = off + part.size
    raise Unsupported(f"cannot locate index {p} in concatenation")


# ---- unification of two dims of equal size: (D, map D->d1, map D->d2)
def ident(i):
    return i


def canon(d):
    """(D, map D->d): concatenations distributed over trailing factors and nested concatenations flattened"""
    if not any(isinstance(f, CatFac) for f in d.facs):
        return d, ident
    f = d.facs[0]
    if not isinstance(f, CatFac):
        return d, ident
    rest = d.facs[1:]
    parts, back = [], []
    for k, p in enumerate(f.parts):
        q = Dim(p.facs + rest)
        D, m = canon(q)
        n = len(p.facs)
        if len(D.facs) == 1 and isinstance(D.facs[0], CatFac):
            for j, pp in enumerate(D.facs[0].parts):
                parts.append(pp)
                back.append((k, n, lambda sub, m=m, j=j: m(((j, sub),))))
        else:
            parts.append(D)
            back.append((k, n, m))

    def mp(idx):
        (c, sub), = idx
        k, n, m = back[c]
        sub = m(sub)
        return ((k, sub[:n]),) + tuple(sub[n:])

    return Dim([CatFac(parts)]), mp


def comp(f, g):
    return f if g is ident else (g if f is ident else (lambda i: f(g(i))))


def unify(d1, d2):
    if d1 == d2:
        return d1, ident, ident
    c1, k1 = canon(d1)
    c2, k2 = canon(d2)
    D, m1, m2 = unify_c(c1, c2)
    return D, comp(k1, m1), comp(k2, m2)


def unify_c(d1, d2):
    if d1 == d2:
        return d1, ident, ident
    if len(d1.facs) == 0 and len(d2.facs) == 0:
        return d1, ident, ident
    # pair up facs in lockstep by partial products
    f1, f2 = list(d1.facs), list(d2.facs)
    segs = []  # list of (facs1, facs2)
    i = j = 0
    while i < len(f1) or j < len(f2):
        if i >= len(f1) or j >= len(f2):
            raise Unsupported(f"cannot unify axes {d1} and {d2}")
        a, b = [f1[i]], [f2[j]]
        i += 1
        j += 1
        pa, pb = a[0].size, b[0].size
        ok = False
        for _ in range(12):
            if pa == pb or eqp(pa, pb):
                ok = True
                break
            # extend the side that divides the other
            if pb.divexact(pa) is not None and i < len(f1):
                a.append(f1[i])
                pa = pa * f1[i].size
                i += 1
            elif pa.divexact(pb) is not None and j < len(f2):
                b.append(f2[j])
                pb = pb * f2[j].size
                j += 1
            else:
                break
        if not ok:
            raise Unsupported(f"cannot unify axes {d1} and {d2}")
        segs.append((a, b))
    facs = []
    maps = []
    for a, b in segs:
        facs_c, m1, m2 = unify_seg(a, b)
        maps.append((len(facs_c), m1, m2))
        facs += facs_c
    # note Dim drops unit facs: make sure none
    D = Dim(facs)
    if len(D.facs) != len(facs):
        raise Unsupported("unit factor in unification")

    def mk(which):
        def m(idx):
            out = ()
            pos = 0
            for n, m1, m2 in maps:
                seg = idx[pos : pos + n]
                pos += n
                out += (m1, m2)[which](seg)
            return out

        return m

    return D, mk(0), mk(1)


def unify_seg(a, b):
    """facs lists of equal total size -> (facs, map to a-idx, map to b-idx)"""
    if [x.key() for x in a] == [x.key() for x in b]:
        return a, ident, ident
    if len(a) == 1 and isinstance(a[0], AtomFac):
        db = Dim(b)
        return list(b), (lambda i: (flat_of(db, i),)), ident
    if len(b) == 1 and isinstance(b[0], AtomFac):
        da = Dim(a)
        return list(a), ident, (lambda i: (flat_of(da, i),))
    if len(a) == 1 and len(b) == 1 and isinstance(a[0], CatFac) and isinstance(b[0], CatFac):
        ca, cb = a[0], b[0]
        # refine partitions
        parts, tr1, tr2 = [], [], []  # translation of every common part: (part of a, map) and (part of b, map)
        i = j = 0
        na, nb = len(ca.parts), len(cb.parts)
        while i < na and j < nb:
            x, y = ca.parts[i], cb.parts[j]
            if x.size == y.size or eqp(x.size, y.size):
                D, m1, m2 = unify(x, y)
                parts.append(D)
                tr1.append((i, m1))
                tr2.append((j, m2))
                i += 1
                j += 1
                continue
            # one plain part against several parts of the other side
            for side, one, many, o, tro, trm in ((0, x, cb.parts[j:], i, tr1, tr2), (1, y, ca.parts[i:], j, tr2, tr1)):
                if len(one.facs) != 1 or not isinstance(one.facs[0], AtomFac):
                    continue
                s, n = ZERO, 0
                for p in many:
                    s, n = s + p.size, n + 1
                    if s == one.size or eqp(s, one.size):
                        break
                else:
                    continue
                off = ZERO
                base = j if side == 0 else i
                for q in range(n):
                    p = many[q]
                    parts.append(p)
                    tro.append((o, lambda idx, p=p, off=off: (off + flat_of(p, idx),)))
                    trm.append((base + q, ident))
                    off = off + p.size
                if side == 0:
                    i, j = i + 1, j + n
                else:
                    i, j = i + n, j + 1
                break
            else:
                raise Unsupported("different concatenation layouts")
        if i != na or j != nb:
            raise Unsupported("different concatenation layouts")
        cf = CatFac(parts)

        def m1(idx):
            (k, sub), = idx
            o, m = tr1[k]
            return ((o, m(sub)),)

        def m2(idx):
            (k, sub), = idx
            o, m = tr2[k]
            return ((o, m(sub)),)

        return [cf], m1, m2
    for x, y, sw in ((a, b, False), (b, a, True)):
        # [n, h, w] against a concatenation of multiples of h*w
        if len(y) == 1 and isinstance(y[0], CatFac) and all(isinstance(f, AtomFac) for f in x):
            r = ONE
            for f in x[1:]:
                r = r * f.size
            qs = [p.size.divexact(r) for p in y[0].parts]
            if any(q is None for q in qs):
                break
            offs, off = [], ZERO
            for q in qs:
                offs.append(off)
                off = off + q
            ca = CatFac([Dim([AtomFac(q)] + list(x[1:])) for q in qs])
            unit = [q == ONE for q in qs]
            D, mx, my = unify_seg([ca], y)

            def back(idx):
                (k, sub), = mx(idx)
                if unit[k]:
                    return (offs[k],) + tuple(sub)
                return (offs[k] + sub[0],) + tuple(sub[1:])

            return (D, my, back) if sw else (D, back, my)
    raise Unsupported(f"cannot unify product axes {a} {b}")


# ---- regrouping for reshape
def regroup(facs, sizes):
    """facs: flat list of facs; sizes: target polys (no -1). Returns (dims, back) where back maps a list of
    target dim idx to the list of fac indices (in order of facs)"""
    # plan: list of target dims, each a list of pieces; piece = ('f', k) whole fac k or ('s', k, part) split digit
    facs = list(facs)
    splits = {k: [facs[k]] for k in range(len(facs))}  # current digits of every fac (AtomFac pieces)
    seq = [(k, 0) for k in range(len(facs))]
    groups = []
    pos = 0
    for t in sizes:
        t = P(t)
        g = []
        prod = ONE
        while not (prod == t or eqp(prod, t)):
            if pos >= len(seq):
                raise Unsupported(f"cannot regroup to size {t}")
            k, s = seq[pos]
            f = splits[k][s]
            np_ = prod * f.size
            if np_ == t or eqp(np_, t):
                g.append((k, s))
                prod = np_
                pos += 1
                continue
            # does t still contain np_?
            if t.divexact(np_) is not None:
                g.append((k, s))
                prod = np_
                pos += 1
                continue
            # split fac: need piece of size t/prod
            need = t.divexact(prod)
            rest = f.size.divexact(need) if need is not None else None
            if need is not None and rest is not None and isinstance(f, AtomFac):
                lst = splits[k]
                lst[s : s + 1] = [AtomFac(need), AtomFac(rest)]
                seq[pos : pos + 1] = [(k, s), (k, s + 1)]
                # renumber later digits of the same fac
                seq = [(kk, ss + 1) if kk == k and idx > pos + 1 else (kk, ss) for idx, (kk, ss) in enumerate(seq)]
                g.append((k, s))
                prod = t
                pos += 1
                continue
            # maybe equality only known to the solver for a longer prefix
            if _ctx.ctx().facts and pos + 1 < len(seq):
                g.append((k, s))
                prod = np_
                pos += 1
                continue
            raise Unsupported(f"cannot regroup {facs} to {[str(x) for x in sizes]}")
        groups.append(g)
    while pos < len(seq):
        k, s = seq[pos]
        if splits[k][s].size == ONE:
            groups[-1].append((k, s)) if groups else None
            pos += 1
            continue
        raise Unsupported("reshape leaves a remainder")
    dims = []
    layout = []
    for g in groups:
        fs = [splits[k][s] for k, s in g]
        d = Dim(fs)
        keep = [(k, s) for (k, s), f in zip(g, fs) if not (isinstance(f, AtomFac) and f.size == ONE)]
        dims.append(d)
        layout.append(keep)

    def back(idxs):
        digits = {}
        for keep, idx in zip(layout, idxs):
            for (k, s), i in zip(keep, idx):
                digits[(k, s)] = i
        out = []
        for k in range(len(facs)):
            parts = splits[k]
            if len(parts) == 1:
                out.append(digits.get((k, 0), ZERO))
            else:
                r = ZERO
                for s, f in enumerate(parts):
                    r = r * f.size + digits.get((k, s), ZERO)
                out.append(r)
        return out

    return dims, back
