"""Equality prover for element expressions (sums of products), z3 for all integer side conditions."""
import itertools
import random
import time
from fractions import Fraction

import z3

from poly import Poly, P, Size, Var, IApp, Unsupported, ZERO, ONE
from ctx import C, ctx as curctx, STATS, factors
from sp import SP, Term, F, S, fac, fn, gt0, eq0, merge, evsp, high_precision, Budget, ipoly, mentions

DEADLINE = [None]


class Undecided(Exception):
    pass


def _tick():
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        raise Undecided("time budget of the obligation exhausted")


def _hint(f, v1, v2, n2):
    """does some factor contain n2*v1+v2 (times something)?"""
    for x in f:
        for p in x.idx:
            for m, c in p.t.items():
                if v2 in m:
                    l = list(m)
                    l.remove(v2)
                    q = Poly({tuple(l): c}) * n2 * Poly.atom(v1)
                    if all(p.t.get(mm) == cc for mm, cc in q.t.items()):
                        return True
        for a in x.args:
            for t in a.t:
                if _hint(t.f, v1, v2, n2):
                    return True
    return False


def radix_guess(d):
    """m*A + B == 0  ->  (A, B) for the largest radix m"""
    best = None
    for m, c in d.t.items():
        vs = [a for a in m if not isinstance(a, Size)]
        if len(vs) != 1:
            continue
        l = list(m)
        l.remove(vs[0])
        k = (len(l), abs(c), tuple(l))
        if (k[0] or k[1] != 1) and (best is None or k > best):
            best = k
    if best is None:
        return None
    _, k, l = best
    A, B = {}, {}
    for m, c in d.t.items():
        r = list(m)
        ok = c % k == 0
        for x in l:
            if ok and x in r:
                r.remove(x)
            else:
                ok = False
        if ok:
            A[tuple(r)] = c // k
        else:
            B[m] = c
    if not A or not B:
        return (Poly(A),) if A else None
    return Poly(A), Poly(B)


def assignments(bs, vs):
    """orders of vs in which the sizes are those of bs"""
    if not bs:
        yield ()
        return
    for i, v in enumerate(vs):
        if v.size == bs[0].size:
            for r in assignments(bs[1:], vs[:i] + vs[i + 1 :]):
                yield (v,) + r


class Prover:
    def __init__(self, ctx=None, hyps=()):
        self.ctx = ctx or curctx()
        self.hyps = list(hyps)

    # ------------------------------------------------------------ helpers
    def imp(self, c, extra=()):
        return self.ctx.implies(c, tuple(self.hyps) + tuple(extra))

    def unsat(self, cs):
        if not cs:
            return False
        return self.ctx.check(list(cs) + self.hyps) == "unsat"

    # ------------------------------------------------------------ normalisation
    @staticmethod
    def upper(p):
        """symbolic upper bound of p over the ranges of its index variables (None if not linear in them)"""
        u = ZERO
        for m, c in p.t.items():
            vs = [a for a in m if not isinstance(a, Size)]
            if not vs:
                u = u + Poly({m: c})
                continue
            if len(vs) > 1:
                return None
            if c < 0:
                continue  # index variables are nonnegative
            rest = list(m)
            rest.remove(vs[0])
            u = u + Poly({tuple(rest): c}) * (P(vs[0].size) - 1)
        return u

    def merge_digits(self, f, g, b):
        """sum over v1<n1, v2<n2 of a function of n2*v1+v2 only  ->  sum over one variable; sums running backwards reversed"""
        again = len(b) > 1
        while again:
            again = False
            for v1 in b:
                for v2 in b:
                    if v1 is v2:
                        continue
                    n2 = P(v2.size)
                    if not _hint(f, v1, v2, n2):
                        continue
                    sh = {v1: Poly.atom(v1) - 1, v2: Poly.atom(v2) + n2}
                    if any(v1 in w.size.atoms() or v2 in w.size.atoms() for w in b):
                        continue
                    if any(x.subst(sh) != x for x in f) or any(c.subst(sh) != c for c in g):
                        continue
                    w = Var("s", P(v1.size) * n2)
                    sub = {v1: ZERO, v2: Poly.atom(w)}
                    f[:] = [x.subst(sub) for x in f]
                    ng = {c.subst(sub) for c in g}
                    g.clear()
                    g.update(ng)
                    b.remove(v1)
                    b.remove(v2)
                    b.append(w)
                    again = True
                    break
                if again:
                    break
        for v in list(b):
            neg = pos = False
            for x in f:
                if x.k != "T":
                    continue
                for p in x.idx:
                    for m, c in p.t.items():
                        if v in m:
                            if c < 0:
                                neg = True
                            else:
                                pos = True
            if neg and not pos and not any(v in w.size.atoms() for w in b):
                sub = {v: P(v.size) - 1 - Poly.atom(v)}
                f[:] = [x.subst(sub) for x in f]
                ng = {c.subst(sub) for c in g}
                g.clear()
                g.update(ng)

    def split_radix(self, g, hyps=()):
        """[m*A + B == 0] with |B| < m  ->  [A==0],[B==0]   (mixed radix digits)"""
        p = g.p
        cands = []
        for m, c in p.t.items():
            vs = [a for a in m if not isinstance(a, Size)]
            if len(vs) != 1:
                continue
            l = list(m)
            l.remove(vs[0])
            k = (tuple(l), abs(c))
            if k != ((), 1) and k not in cands:
                cands.append(k)
        cands.sort(key=lambda k: (-len(k[0]), -k[1]))
        for l, k in cands:
            A, B = {}, {}
            for m, c in p.t.items():
                r = list(m)
                ok = c % k == 0
                for x in l:
                    if ok and x in r:
                        r.remove(x)
                    else:
                        ok = False
                if ok:
                    A[tuple(r)] = c // k
                else:
                    B[m] = c
            A, B = Poly(A), Poly(B)
            sz = Poly({tuple(l): k})
            if not B.t:
                if self.imp(C("ge", sz - 1)):
                    return [C("eq", A)]
                continue
            done = True
            for sg in (B, -B):
                u = self.upper(sg)
                if u is not None and self.imp(C("ge", sz - 1 - u)):
                    continue
                if self.imp(C("ge", sz - 1 - sg)) or (hyps and self.imp(C("ge", sz - 1 - sg), hyps)):
                    continue
                done = False
                break
            if done:
                return [C("eq", A), C("eq", B)]
        return None

    def norm_term(self, t):
        _tick()
        f, g, b = list(t.f), set(t.g), list(t.b)
        coef = t.c
        again = True
        while again:
            again = False
            for c in sorted(g, key=lambda c: c.skey()):
                if c.p.is_const():
                    v = c.p.cval()
                    ok = v >= 0 if c.k == "ge" else (v == 0) == (c.k == "eq")
                    if not ok:
                        return None
                    g.discard(c)
                    again = True
                    break
                if c.k != "eq":
                    continue
                fs = factors(c.p) if len(c.p.t) > 3 else (c.p,)
                if len(fs) > 1:
                    fs2 = [q for q in fs if not self.imp(C("ge", q - 1)) and not self.imp(C("ge", -q - 1))]
                    if not fs2:
                        return None
                    if len(fs2) == 1:
                        g.discard(c)
                        g.add(C("eq", fs2[0]))
                        again = True
                        break
                if len(c.p.t) > 2:
                    r = self.split_radix(c, [h for h in g if h is not c])
                    if r:
                        g.discard(c)
                        g |= set(r)
                        again = True
                        break
                sub = None
                cand = []
                for m, k in c.p.t.items():
                    if len(m) == 1 and isinstance(m[0], Var) and m[0] in b and k in (1, -1):
                        v = m[0]
                        rest = c.p + Poly({m: -k})
                        if v in rest.atoms():
                            continue
                        cand.append((v, rest * (-k)))
                if cand:
                    # prefer a variable eliminated by a plain variable, then the youngest
                    cand.sort(key=lambda x: (len(x[1].t), -x[0].uid))
                    v, e = cand[0]
                    sub = {v: e}
                    g.discard(c)
                    b.remove(v)
                    g |= {C("ge", e), C("ge", v.size - 1 - e)}
                    f = [x.subst(sub) for x in f]
                    g = {x.subst(sub) for x in g}
                    if any(v in w.size.atoms() for w in b):
                        raise Unsupported("dependent bound")
                    again = True
                    break
                r = self.split_radix(c)
                if r:
                    g.discard(c)
                    g |= set(r)
                    again = True
                    break
        # constant folding of integer factors, idempotent guards, zero/one sizes
        nf = []
        seen = set()
        for x in f:
            if x.k == "I" and x.idx[0].is_const():
                coef *= x.idx[0].cval()
                continue
            if x.k == "G":
                if x in seen:
                    continue
                seen.add(x)
            nf.append(x)
        f = nf
        if coef == 0:
            return None
        # cancel I(p)*inv(I(p))
        for x in list(f):
            if x.k == "I":
                inv = F("N", "inv", (), (fac(x),))
                if inv in f and self.imp(C("ne", x.idx[0])):
                    f.remove(x)
                    f.remove(inv)
        # bound vars of size one, unused bound vars
        for v in list(b):
            if v.size == ONE:
                sub = {v: ZERO}
                f = [x.subst(sub) for x in f]
                g = {x.subst(sub) for x in g}
                b.remove(v)
        g2 = set()
        for c in g:
            if c.p.is_const():
                v = c.p.cval()
                if not (v >= 0 if c.k == "ge" else (v == 0) == (c.k == "eq")):
                    return None
                continue
            g2.add(c)
        g = g2
        # drop implied inequality guards, detect contradictions
        for c in sorted(g, key=lambda c: c.skey()):
            if c.k == "eq" and c not in self.hyps:
                continue
            if self.imp(c):
                g.discard(c)
        if g and self.unsat(g):
            return None
        if b:
            self.merge_digits(f, g, b)
        # equalities implied?  (only cheap ones)
        used = set()
        for x in f:
            used |= x.atoms()
        for c in g:
            used |= c.p.atoms()
        for v in list(b):
            if v not in used and not any(v in w.size.atoms() for w in b):
                b.remove(v)
                f.append(F("I", "", (v.size,)))
        return Term(coef, f, g, b)

    def norm(self, sp):
        d = {}
        order = []
        for t in sp.t:
            n = self.norm_term(t)
            if n is None:
                continue
            k = n.ckey()
            if k in d:
                d[k] = Term(d[k].c + n.c, n.f, n.g, n.b)
            else:
                d[k] = n
        return [t for t in d.values() if t.c != 0]

    # ------------------------------------------------------------ matching two terms
    def match(self, t1, t2):
        """is sum(t1 without coef) == sum(t2 without coef)?"""
        if len(t1.b) != len(t2.b) or len(t1.f) != len(t2.f):
            return False
        sig = lambda x: (x.k, x.name, len(x.idx), len(x.args))
        if sorted(map(sig, t1.f)) != sorted(map(sig, t2.f)):
            return False
        if t1.b and set(t1.b) & set(t2.b):
            t2 = t2.fresh()
        b1, b2 = set(t1.b), set(t2.b)
        dom1 = list(t1.g)
        f1 = sorted(t1.f, key=lambda x: (x.k != "T", len(x.idx) == 0))
        budget = [4000]

        def solve(eqs, sub, pend, guess=False):
            """eqs: list of (p1,p2). returns list of possible (sub,pend)"""
            sub = dict(sub)
            pend = list(pend)
            todo = list(eqs)
            progress = True
            while todo and progress:
                progress = False
                rest = []
                for p1, p2 in todo:
                    q = p2.subst(sub)
                    d = q - p1
                    un = [a for a in d.atoms(deep=True) if a in b2]
                    if not un:
                        if d.t:
                            if d.is_const():
                                return None
                            pend.append(d)
                        progress = True
                        continue
                    done = False
                    for m, k in d.t.items():
                        if len(m) == 1 and m[0] in b2 and k in (1, -1):
                            v = m[0]
                            r = d + Poly({m: -k})
                            if v in r.atoms() or any(a in b2 for a in r.atoms()):
                                continue
                            e = r * (-k)
                            for w in list(sub):
                                sub[w] = sub[w].subst({v: e})
                            sub[v] = e
                            done = True
                            break
                    if done:
                        progress = True
                        continue
                    # align mixed radix digits (a heuristic choice: the result is verified at the end)
                    ab = radix_guess(d) if guess else None
                    if ab is not None:
                        rest += [(ZERO, x) for x in ab]
                        progress = True
                        continue
                    # match nested integer applications structurally
                    ia2 = [a for m in q.t for a in m if isinstance(a, IApp)]
                    ia1 = [a for m in p1.t for a in m if isinstance(a, IApp)]
                    if len(ia1) == 1 and len(ia2) == 1 and ia1[0].name == ia2[0].name:
                        for x, y in zip(ia1[0].args, ia2[0].args):
                            rest.append((x, y))
                        rest.append((p1, p2))
                        if len(rest) < 60 and not getattr(self, "_ia", set()).__contains__((ia1[0], ia2[0])):
                            self._ia = getattr(self, "_ia", set()) | {(ia1[0], ia2[0])}
                            progress = True
                        continue
                    rest.append((p1, p2))
                todo = rest
            self._ia = set()
            return sub, pend, todo

        def pair_eqs(x, y):
            """equations + deferred argument pairs from pairing factor x of t1 with y of t2"""
            if x.k in ("T", "I"):
                return list(zip(x.idx, y.idx)), []
            eqs, later = [], []
            for a, c in zip(x.args, y.args):
                if len(a.t) == 1 and len(c.t) == 1 and not a.t[0].b and not c.t[0].b and len(a.t[0].f) == len(c.t[0].f) == 1:
                    fa, fc = a.t[0].f[0], c.t[0].f[0]
                    if (fa.k, fa.name, len(fa.idx), len(fa.args)) != (fc.k, fc.name, len(fc.idx), len(fc.args)):
                        return None
                    if a.t[0].c != c.t[0].c:
                        return None
                    r = pair_eqs(fa, fc)
                    if r is None:
                        return None
                    eqs += r[0]
                    later += r[1]
                    if a.t[0].g or c.t[0].g:
                        later.append((a, c))
                else:
                    later.append((a, c))
            return eqs, later

        def rec(i, left, sub, pend, todo, later):
            budget[0] -= 1
            if budget[0] < 0:
                return False
            if i == len(f1):
                return finish(sub, pend, todo, later)
            x = f1[i]
            tried = set()
            for j, y in enumerate(left):
                if sig(x) != sig(y):
                    continue
                if y.key() in tried:
                    continue
                tried.add(y.key())
                r = pair_eqs(x, y)
                if r is None:
                    continue
                s = solve(r[0] + todo, sub, pend)
                if s is None:
                    continue
                # quick refutation: a pending equation without variables of either side that is false
                if rec(i + 1, left[:j] + left[j + 1 :], s[0], s[1], s[2], later + r[1]):
                    return True
            return False

        def finish(sub, pend, todo, later):
            un = [v for v in t2.b if v not in sub]
            if un and todo:
                s = solve(todo, sub, pend, True)
                if s is not None and len(s[0]) > len(sub) and finish(*s, later):
                    return True
            if un:
                # unresolved variables: try identifications with variables of t1
                usedimg = set()
                for e in sub.values():
                    usedimg |= e.atoms()
                free1 = [v for v in t1.b]
                for v1 in free1:
                    v = un[0]
                    if v1.size == v.size or self.imp(C("eq", v1.size - v.size)):
                        s = solve(todo, {**{w: e for w, e in sub.items()}, v: Poly.atom(v1)}, pend)
                        if s is None:
                            continue
                        if finish(s[0], s[1], s[2], later):
                            return True
                return False
            if todo:
                for p1, p2 in todo:
                    d = p2.subst(sub) - p1
                    if d.t:
                        pend = pend + [d]
            # injectivity: solve t1.b from images
            if t1.b:
                inv = {}
                eqs = [(v, e) for v, e in sub.items()]
                work = [(Poly.atom(v), e) for v, e in eqs]
                prog = True
                while work and prog:
                    prog = False
                    rest = []
                    for pv, e in work:
                        e2 = e.subst(inv)
                        un1 = [a for a in e2.atoms() if a in b1]
                        if not un1:
                            rest.append((pv, e))
                            continue
                        ok = False
                        for m, k in e2.t.items():
                            if len(m) == 1 and m[0] in b1 and k in (1, -1):
                                w = m[0]
                                r = e2 + Poly({m: -k})
                                if any(a in b1 for a in r.atoms()):
                                    continue
                                val = (pv - r) * k
                                for z in list(inv):
                                    inv[z] = inv[z].subst({w: val})
                                inv[w] = val
                                ok = True
                                break
                        if ok:
                            prog = True
                        else:
                            rest.append((pv, e))
                    work = rest
                if len(inv) != len(t1.b):
                    return False
                if work:
                    return False
            else:
                inv = {}
            # domain equivalence
            d2 = [c.subst(sub) for c in t2.g]
            for v in t2.b:
                e = sub[v]
                d2 += [C("ge", e), C("ge", v.size.subst(sub) - 1 - e)]
            for c in d2:
                if not self.imp(c, dom1):
                    return False
            d1 = [c.subst(inv) for c in t1.g]
            for v in t1.b:
                e = inv[v]
                d1 += [C("ge", e), C("ge", v.size.subst(inv) - 1 - e)]
            dom2 = list(t2.g)
            for c in d1:
                if not self.imp(c, dom2):
                    return False
            for d in pend:
                d = d.subst(sub)
                if d.t and not self.imp(C("eq", d), dom1):
                    return False
            for a, c in later:
                c2 = c.subst(sub)
                if a.ckey() == c2.ckey():
                    continue
                if not Prover(self.ctx, self.hyps + dom1).equal(a, c2, deep=False):
                    return False
            return True

        return rec(0, list(t2.f), {}, [], [], [])

    # ------------------------------------------------------------ equality
    def equal(self, L, R, deep=True, depth=0):
        _tick()
        ts = self.norm(L - R)
        return self.zero(ts, deep, depth)

    def zero(self, ts, deep=True, depth=0):
        _tick()
        ts = list(ts)
        # combine matching terms
        i = 0
        while i < len(ts):
            j = i + 1
            while j < len(ts):
                _tick()
                if self.match(ts[i], ts[j]):
                    c = ts[i].c + ts[j].c
                    ts[i] = Term(c, ts[i].f, ts[i].g, ts[i].b)
                    ts.pop(j)
                    if c == 0:
                        break
                    continue
                j += 1
            if ts[i].c == 0:
                ts.pop(i)
                i = 0
                continue
            i += 1
        if not ts:
            return True
        if depth > 7:
            return False
        # case split on guards that mention no bound variable
        cnt = {}
        for t in ts:
            bs = set(t.b)
            for c in t.g:
                if not (c.p.atoms() & bs):
                    cc = c if c.k != "ne" else c.neg()
                    cnt[cc] = cnt.get(cc, 0) + 1
        if cnt:
            c = max(cnt, key=lambda c: (cnt[c], c.k == "eq", c.skey()))
            for h in (c, c.neg()):
                if self.ctx.check([h] + self.hyps) == "unsat":
                    continue
                p = Prover(self.ctx, self.hyps + [h])
                sub = None
                if h.k == "eq":
                    for m, k in h.p.t.items():
                        if len(m) == 1 and isinstance(m[0], Var) and k in (1, -1):
                            r = h.p + Poly({m: -k})
                            if m[0] not in r.atoms():
                                sub = {m[0]: r * (-k)}
                                break
                if sub:
                    p.hyps = [x.subst(sub) for x in p.hyps]
                    (v, e), = sub.items()
                    p.hyps += [C("ge", e), C("ge", v.size - 1 - e)]
                    p.hyps = [x for x in p.hyps if not x.p.is_const()]
                    tt = [t.subst(sub) for t in ts]
                else:
                    tt = ts
                if not p.zero(p.norm(SP(tt)), deep, depth + 1):
                    return False
            return True
        # sums over disjoint families: split on a guard with bound variables present in some terms only
        if deep and depth < 5:
            allg = {}
            for t in ts:
                for c in t.g:
                    allg[c] = 1
            # (bounded effort) not attempted further
        if deep and not any(t.b for t in ts):
            return self.pointwise(ts)
        if deep:
            return self.peel(ts, depth)
        return False

    def peel(self, ts, depth):
        """all terms sum over variables of the same sizes around a pointwise identity: identify and use pointwise"""
        groups = {}
        for t in ts:
            groups.setdefault(tuple(sorted(v.size.skey() for v in t.b)), []).append(t)
        for k, g in groups.items():
            if not k:
                if not self.pointwise(g):
                    return False
                continue
            rest = list(g)
            while rest:
                base = rest.pop(0)
                out, other = [Term(base.c, base.f, base.g, ())], []
                for t in rest:
                    best = None
                    for perm in itertools.islice(assignments(tuple(base.b), tuple(t.b)), 200):
                        sub = {a: Poly.atom(b) for a, b in zip(perm, base.b)}
                        t2 = Term(t.c, [x.subst(sub) for x in t.f], [x.subst(sub) for x in t.g], ())
                        if t2.g == base.g:
                            sc = self.share(t2, base)
                            if best is None or sc > best[0]:
                                best = (sc, t2)
                    if best is not None and best[0] > 0:
                        out.append(best[1])
                    else:
                        other.append(t)
                rest = other
                if not self.pointwise([Term(t.c, t.f, (), ()) for t in out]):
                    return False
        return True

    @staticmethod
    def share(a, b):
        """number of common tensor factors (1 if one of the terms has none)"""
        ta, tb = [x.key() for x in a.f if x.k == "T"], [x.key() for x in b.f if x.k == "T"]
        if not ta or not tb:
            return 1
        n = 0
        for k in ta:
            if k in tb:
                tb.remove(k)
                n += 1
        return n

    # ------------------------------------------------------------ pointwise real algebra
    def pointwise(self, ts):
        if len(ts) > 60:
            return False
        ts = self.norm(SP(ts)) if any(t.b for t in ts) else ts
        guards = {}

        def collect(sp):
            for t in sp.t:
                for x in t.f:
                    if x.k == "G":
                        guards[x] = 1
                        collect(x.args[0])
                    elif x.k == "N":
                        for a in x.args:
                            collect(a)

        collect(SP(ts))
        gl = sorted(guards, key=lambda x: x.key())
        if len(gl) > 6:
            return False
        for vals in itertools.product((1, 0), repeat=len(gl)):
            asg = dict(zip(gl, vals))
            if not self.feasible(asg):
                continue
            if not self.rational(SP(ts), asg):
                return False
        return True

    def feasible(self, asg):
        if not asg:
            return True
        vs = {}

        def tr(sp):
            e = z3.RealVal(0)
            for t in sp.t:
                if t.b or t.g:
                    raise KeyError
                m = z3.RealVal(str(t.c))
                for x in t.f:
                    if x.k == "G":
                        m = m * (z3.RealVal(asg[x]) if x in asg else z3.RealVal(1))
                        continue
                    if x.key() not in vs:
                        vs[x.key()] = z3.Real("r%d" % len(vs))
                        if x.k == "N" and x.name in ("exp", "sigmoid"):
                            pos.append(vs[x.key()] > 0)
                        if x.k == "N" and x.name in ("sqrt", "norm", "abs"):
                            pos.append(vs[x.key()] >= 0)
                    m = m * vs[x.key()]
                e = e + m
            return e

        pos, cs = [], []
        for g, v in asg.items():
            try:
                e = tr(g.args[0])
            except KeyError:
                continue
            c = e > 0 if g.name == "gt" else e == 0
            cs.append(c if v else z3.Not(c))
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(cs)
        s.add(pos)
        t = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.time += time.time() - t
        return str(r) != "unsat"

    def rational(self, sp, asg):
        import sympy

        syms = {}
        zeros = []
        for g, v in asg.items():
            if not v and g.name == "gt":
                a = g.args[0]
                if len(a.t) == 1 and len(a.t[0].f) == 1 and a.t[0].f[0].k == "N" and a.t[0].f[0].name == "norm" and a.t[0].c > 0:
                    zeros.append(a.t[0].f[0].args[0])

        def is_zero_entry(x):
            # x entry of a tensor whose norm is assumed zero
            for s in zeros:
                for t in s.t:
                    if len(t.f) == 2 and t.f[0] == t.f[1] and t.f[0].k == "T" and t.f[0].name == x.name and t.c > 0 and not t.g:
                        y = t.f[0]
                        if len(y.idx) == len(x.idx) and all(
                            p == q or (len(q.t) == 1 and len(next(iter(q.t))) == 1 and next(iter(q.t))[0] in t.b)
                            for p, q in zip(x.idx, y.idx)
                        ):
                            return True
            return False

        def sym(key, **kw):
            if key not in syms:
                syms[key] = sympy.Symbol("s%d" % len(syms), **kw)
            return syms[key]

        def conv(sp):
            e = sympy.Integer(0)
            for t in sp.t:
                m = sympy.Rational(t.c.numerator, t.c.denominator)
                if t.b or t.g:
                    m = m * sym("TERM" + t.ckey())
                    e += m
                    continue
                for x in t.f:
                    m = m * cf(x)
                    if m == 0:
                        break
                e += m
            return e

        def cexp(u):
            # exp of a sympy-linear combination: split into product of base exponentials
            u = sympy.expand(u)
            r = sympy.Integer(1)
            for a in sympy.Add.make_args(u):
                c, rest = a.as_coeff_Mul()
                if rest == 1:
                    if c == 0:
                        continue
                    r *= sym(("expc", c), positive=True)
                    continue
                r *= sym(("exp", rest), positive=True) ** c
            return r

        def cf(x):
            if x.k == "T":
                if zeros and is_zero_entry(x):
                    return sympy.Integer(0)
                return sym(x.key())
            if x.k == "I":
                return sym(x.key(), positive=True)
            if x.k == "G":
                return sympy.Integer(asg[x])
            args = [conv(a) for a in x.args]
            if x.name == "inv":
                if args[0] == 0:
                    return sym("undef")
                return 1 / args[0]
            if x.name == "exp":
                return cexp(args[0])
            if x.name == "sigmoid":
                e = cexp(args[0])
                return e / (1 + e)
            if x.name == "tanh":
                e = cexp(2 * args[0])
                return (e - 1) / (e + 1)
            if x.name in ("norm", "sqrt") and args[0] == 0:
                return sympy.Integer(0)
            return sym((x.name,) + tuple(sympy.expand(a) for a in args))

        try:
            e = conv(sp)
            num = sympy.numer(sympy.together(e))
            return sympy.expand(num) == 0
        except RecursionError:
            return False


# ---------------------------------------------------------------- numeric refutation
class Data:
    """random but deterministic values of uninterpreted tensors"""

    def __init__(self, seed, scale=1.0, special=None):
        self.seed = seed
        self.scale = scale
        self.special = special or {}
        self.vals = {}
        self.iv = {}

    def T(self, name, idx):
        k = (name, idx)
        if k not in self.vals:
            r = random.Random(f"{self.seed}|{name}|{idx}")
            if name in self.special:
                self.vals[k] = self.special[name](r)
            else:
                self.vals[k] = round(r.gauss(0, 1) * self.scale, 4)
        return self.vals[k]

    def iapp(self, name, args, n):
        k = (name, args)
        if k not in self.iv:
            r = random.Random(f"{self.seed}|{name}|{args}")
            self.iv[k] = r.randrange(max(1, n))
        return self.iv[k]


def refute(L, R, ctx, hyps=(), tries=24, seed=1, special=None, budget=200000, scales=(1.0, 1.0, 3.0, 0.0, 40.0)):
    """search a numeric countermodel: returns dict(sizes, env values, lhs, rhs) or None"""
    rng = random.Random(seed)
    D = L - R
    atoms = set()
    for e in (L, R):
        atoms |= e.allatoms()
    for c in list(ctx.facts) + list(hyps):
        atoms |= c.p.atoms()
    more = True
    while more:
        more = False
        for a in list(atoms):
            if isinstance(a, (Var, IApp)):
                n = a.size.atoms() - atoms
                if n:
                    atoms |= n
                    more = True
    sizes = sorted([a for a in atoms if isinstance(a, Size)], key=lambda a: a.key)
    frees = sorted([a for a in atoms if isinstance(a, Var)], key=lambda a: a.key)
    cons = list(ctx.facts) + list(hyps)
    base = None
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > 20:
            break
        env = None
        for _ in range(60):
            e = {a: rng.choice([1, 2, 2, 3, 3]) if a.lo <= 1 else a.lo + rng.choice([0, 0, 1, 2]) for a in sizes}
            data = Data(seed * 1000 + k, scales[k % len(scales)], special)
            e["T"] = data.T
            e["iapp"] = data.iapp
            if try_frees(e, frees, rng) and all(c.eval(e) for c in cons):
                env = e
                break
        if env is None:
            if base is None:
                base = ctx.model(hyps, extra=sizes + frees) or False
            if not base:
                continue
            env = dict(base)
            for a in sizes:
                env.setdefault(a, max(1, a.lo))
            data = Data(seed * 1000 + k, scales[k % len(scales)], special)
            env["T"] = data.T
            env["iapp"] = data.iapp
            if not try_frees(env, [a for a in frees if a not in env], rng) or not all(c.eval(env) for c in cons):
                continue
        try:
            bud = [budget]
            l = evsp(L, env, bud)
            r = evsp(R, env, bud)
        except Budget:
            continue
        except (OverflowError, ZeroDivisionError):
            continue
        if l != l and r != r:
            continue
        differ = lambda: (l != l) != (r != r) or abs(l - r) > 1e-6 * (1 + abs(l) + abs(r))
        if differ():
            # confirm it with 60 digits
            try:
                with high_precision():
                    bud = [budget]
                    l = evsp(L, env, bud)
                    r = evsp(R, env, bud)
            except (Budget, OverflowError, ZeroDivisionError):
                continue
            if (l != l and r != r) or not differ():
                continue
            l, r = float(l), float(r)
            return dict(
                sizes={a.name: env[a] for a in sizes},
                index={str(a): env[a] for a in frees},
                lhs=l,
                rhs=r,
                scale=data.scale,
                data=data,
            )
    return None


def try_frees(env, frees, rng):
    for v in frees:
        try:
            n = v.size.eval(env)
        except KeyError:
            return False
        if n <= 0:
            return False
        env[v] = rng.randrange(n)
    return True
