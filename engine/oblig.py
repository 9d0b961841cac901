"""Obligations: contracts on the functions of /repo/nnj, discharged by symbolic execution of the real source."""
import itertools
import os
import sys
import time
import traceback
from fractions import Fraction

import ctx as _ctx
from ctx import C, Explorer, Ctx, implies
from poly import Poly, P, Size, Var, IApp, Unsupported, ZERO, ONE
from sp import SP, S, diff, tens, strip_cust, norms
from dims import Dim, AtomFac, CatFac, dim_of, atom_dim, fresh_idx, unify, flat_of
from symint import SymInt, SymFloat, mkint
import symtorch as st
from symtorch import Tensor, State, Storage
import symnn
from prover import Prover, refute, DEADLINE, Undecided

DEBUG = bool(os.environ.get("OBDEBUG"))


class Sym:
    """symbolic inputs of one obligation"""

    def __init__(self):
        self.names = {}

    @staticmethod
    def size(name, lo=1):
        v = _ctx.cur().presub.get(name)
        if v is not None:
            if v.is_const() and v.cval() < lo:
                raise _ctx.PathEnd()
            for b in v.atoms():
                if b.lo < lo:
                    assume(mkint(v - lo))
            return mkint(v)
        a = Size(name, lo)
        _ctx.ctx().sizes.append(a)
        _ctx.ctx().base.add(a)
        return mkint(Poly.atom(a))


def assume(e, k="ge"):
    """precondition: e >= 0 (or == 0, != 0)"""
    p = P(e)
    if p.is_const():
        if not implies(C(k, p)):
            raise _ctx.PathEnd()
        return
    c = C(k, p)
    if not implies(c):
        _ctx.ctx().facts.append(c)


def tensor(name, shape, dtype=None, origin=None):
    dims = [dim_of(s) for s in shape]
    return tensor_d(name, dims, dtype, origin)


def tensor_d(name, dims, dtype=None, origin=None):
    t = Tensor(dims, lambda idx: tens(name, st.flat_digits(idx)), dtype or State.default, Storage(origin or name))
    t.stop = False
    t.uname = name
    return t


# ------------------------------------------------------------------ specification: derivatives of the executed forward
def flatdim(dims):
    return Dim([f for d in dims for f in d.facs])


def split_digits(dims, idx):
    out, k = [], 0
    for d in dims:
        n = len(d.facs)
        out.append(tuple(idx[k : k + n]))
        k += n
    return out


def elem_diff(val, idx):
    old = State.diff
    State.diff = True
    try:
        return val.elem(idx)
    finally:
        State.diff = old


def jac_input(val, x):
    """J[b, o, i] = d val[b, o] / d x[b, i]; x must be an uninterpreted tensor"""
    O, I = flatdim(val.dims[1:]), flatdim(x.dims[1:])
    name = x.uname
    nv = len(val.dims[0].facs)

    def e(idx):
        b, o, i = idx
        v = elem_diff(val, [b] + split_digits(val.dims[1:], o))
        j = st.flat_digits([b] + split_digits(x.dims[1:], i))
        return strip_cust(diff(v, name, j))

    return Tensor([x.dims[0], O, I], e, val.dtype)


def jac_weight(val, params):
    """J[b, o, p] with p running over the parameters in order; None without parameters"""
    if not params:
        return None
    O = flatdim(val.dims[1:])
    blocks = []
    for p in params:
        D = flatdim(p.dims)

        def e(idx, p=p):
            b, o, i = idx
            v = elem_diff(val, [b] + split_digits(val.dims[1:], o))
            return strip_cust(diff(v, p.pname, st.flat_digits([i])))

        blocks.append(Tensor([val.dims[0], O, D], e, val.dtype))
    return blocks[0] if len(blocks) == 1 else st.cat(blocks, 2)


# product specifications in terms of J [B,O,N]
def sp_jvp(J, v):
    return st.einsum("boi,bi->bo", J, v)


def sp_jmp(J, m):
    return J if m is None else st.einsum("boi,bik->bok", J, m)


def sp_vjp(J, v):
    return st.einsum("bo,boi->bi", v, J)


def sp_mjp(J, m):
    return J if m is None else st.einsum("bro,boi->bri", m, J)


def sp_jTmjp(J, m, fd, td):
    if m is None:
        return st.einsum("boi,boj->bij", J, J) if not td else st.einsum("boi,boi->bi", J, J)
    if fd:
        return st.einsum("boi,bo,boj->bij", J, m, J) if not td else st.einsum("boi,bo,boi->bi", J, m, J)
    return st.einsum("boi,bop,bpj->bij", J, m, J) if not td else st.einsum("boi,bop,bpi->bi", J, m, J)


def sp_jmjTp(J, m, fd, td):
    if m is None:
        return st.einsum("boi,bpi->bop", J, J) if not td else st.einsum("boi,boi->bo", J, J)
    if fd:
        return st.einsum("boi,bi,bpi->bop", J, m, J) if not td else st.einsum("boi,bi,boi->bo", J, m, J)
    return st.einsum("boi,bij,bpj->bop", J, m, J) if not td else st.einsum("boi,bij,boj->bo", J, m, J)


# ------------------------------------------------------------------ comparison
class Fail(Exception):
    def __init__(self, why, cex=None):
        super().__init__(why)
        self.why, self.cex = why, cex
        self.gap = False


def soft(why):
    """a failure that has to be confirmed on the real code"""
    f = Fail(why)
    f.gap = True
    return f


class Open(Exception):
    """undecided"""


def compare(got, want, label, stats):
    """prove got == want (structure, shape, dtype left to C14, every element)"""
    ctx = _ctx.ctx()
    if State.broken or State.loops:
        raise Open("symbolic loop left early")
    if want is None or got is None:
        if want is None and got is None:
            stats["checked"] += 1
            return
        raise Fail(f"{label}: expected {'None' if want is None else 'a tensor'}, got {'None' if got is None else type(got).__name__}")
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            raise Fail(f"{label}: expected a list")
        if len(got) != len(want):
            raise Fail(f"{label}: list of {len(got)} instead of {len(want)} elements")
        for k, (g, w) in enumerate(zip(got, want)):
            compare(g, w, f"{label}[{k}]", stats)
        return
    if isinstance(got, (list, tuple)):
        raise Fail(f"{label}: expected a tensor, got a list")
    if not isinstance(got, Tensor):
        raise Fail(f"{label}: result is {type(got).__name__}")
    if stats.get("dtype") is not None and got.dtype is not stats["dtype"]:
        raise Fail(f"{label}: result has type {got.dtype} instead of {stats['dtype']}")
    if got.ndim != want.ndim:
        raise Fail(f"{label}: rank {got.ndim} instead of {want.ndim}")
    maps = []
    for k, (a, b) in enumerate(zip(got.dims, want.dims)):
        d = a.size - b.size
        if any(isinstance(v, (Var, IApp)) for v in d.atoms()):
            raise Open("size depends on a loop variable")
        if d.t and not implies(C("eq", d)):
            if d.is_const() or ctx.model([C("ne", d)]) is not None:
                raise Fail(f"{label}: axis {k} has size {a.size} instead of {b.size}", dict(sizes=_names(ctx.model([C('ne', d)]))))
            raise Open(f"size of axis {k}")
        maps.append(unify(a, b))
    combos = [[]]
    for D, m1, m2 in maps:
        combos = [c + [i] for c in combos for i, _ in fresh_idx(D)]
    for c in combos:
        L = got.elem([m[1](i) for m, i in zip(maps, c)])
        R = want.elem([m[2](i) for m, i in zip(maps, c)])
        if not isinstance(L, SP) or not isinstance(R, SP):
            raise Open("integer result")
        L, R = norms(strip_cust(L)), norms(strip_cust(R))
        L, R = use_facts(ctx, L, R)
        for e in (L, R):
            if any(isinstance(a, Var) and a in st.LOOPDONE for a in e.atoms()):
                raise Open("loop variable escapes")
        stats["checked"] += 1
        pr = Prover(ctx)
        ok = False
        try:
            ok = pr.equal(L, R)
        except Undecided as ex:
            pass
        if ok:
            continue
        DEADLINE[0], old = None, DEADLINE[0]
        try:
            r = refute(L, R, ctx, special=stats.get("special"))
        finally:
            DEADLINE[0] = old
        if r is not None:
            raise Fail(f"{label}: element differs: {str(L)[:600]}  !=  {str(R)[:600]}", r)
        if DEBUG:
            print("UNDECIDED", label, "\n  L=", L, "\n  R=", R, "\n norm:", *pr.norm(L - R), sep="\n   ")
        raise Open(f"{label}: equality not decided")


def use_facts(ctx, L, R):
    """replace the sizes that the path condition determines"""
    s = ctx.solution()
    if not s:
        return L, R
    m = dict(s)
    for a in (L.allatoms() | R.allatoms()):
        if isinstance(a, Var) and a.size.atoms() & s.keys():
            m[a] = Poly.atom(Var(a.name, a.size.subst(s)))
    return L.subst(m), R.subst(m)


def _names(m):
    return {str(k): v for k, v in (m or {}).items()}


# ------------------------------------------------------------------ running one obligation
class Result:
    def __init__(self, name):
        self.name = name
        self.status = "proved"
        self.paths = 0
        self.vcs = 0
        self.why = ""
        self.cex = None
        self.time = 0.0
        self.exc = []
        self.gap = False


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def default_allow(e):
    return False


def run(name, body, allow=default_allow, timeout=60, max_paths=48, need=True, full=False):
    """body(): executes the real code and yields (label, got, want); exceptions of the code under verification are
    violations unless allow(e) accepts them"""
    r = Result(name)
    t0 = time.time()
    DEADLINE[0] = t0 + timeout
    stats = dict(checked=0)
    ex = Explorer(max_paths)

    def one(ctx):
        State.reset()
        st.POOLNAMES.clear()
        symnn.UFNAMES.clear()
        stats.pop("dtype", None)
        stats.pop("special", None)
        try:
            for it in body():
                if it[0] == "special":
                    stats["special"] = it[1]
                    continue
                if it[0] == "dtype":
                    stats["dtype"] = it[1]
                    continue
                if it[0] == "assert":
                    stats["checked"] += 1
                    if not it[1]:
                        raise Fail(it[2])
                    continue
                compare(it[1], it[2], it[0], stats)
            return ("ok", None)
        except _ctx.PathEnd:
            raise
        except Fail as f:
            return ("fail", f)
        except (Open, Undecided) as o:
            return ("open", o)
        except Unsupported as u:
            if DEBUG:
                traceback.print_exc()
            return ("open", u)
        except RecursionError as e:
            return ("open", e)
        except Exception as e:
            if allow(e):
                return ("exc", e)
            if DEBUG:
                traceback.print_exc()
            if not any(f.filename.startswith(symnn.REPO) for f in traceback.extract_tb(e.__traceback__)):
                return ("open", e)  # not raised by the code under verification
            return ("raise", e)

    try:
        for ctx, res in ex.run(one):
            r.paths += 1
            k, o = res
            if k == "ok":
                continue
            if k == "exc":
                r.exc.append(type(o).__name__)
                continue
            if k == "open":
                if r.status == "proved":
                    r.status, r.why = "open", f"{type(o).__name__}: {o}"
                continue
            # fail / raise: the path must be feasible
            m = ctx.model()
            if m is None and ctx.facts and ctx.check([]) != "sat":
                if r.status == "proved":
                    r.status, r.why = "open", f"path of unknown feasibility: {o}"
                continue
            if r.status == "refuted":
                continue
            r.status = "refuted"
            r.why = o.why if k == "fail" else f"raises {type(o).__name__}: {o}"
            # a name or an argument the model of torch does not have, rather than an error of the code
            r.gap = k == "raise" and isinstance(o, (TypeError, AttributeError, NameError, KeyError)) or k == "fail" and o.gap
            r.cex = dict(path=[repr(c) for c in ctx.facts], sizes=_names(m))
            if k == "fail" and o.cex:
                r.cex.update({q: w for q, w in o.cex.items() if q != "data"})
                if "sizes" in o.cex and o.cex["sizes"]:
                    r.cex["sizes"] = o.cex["sizes"]
            for n, v in ex.presub.items():
                sz = r.cex.setdefault("sizes", {}) or {}
                try:
                    k = sum(c * _prod(sz.get(a.name, max(a.lo, 1)) for a in mm) for mm, c in v.t.items())
                except Exception:
                    continue
                sz[n] = k
                r.cex["sizes"] = sz
            if ctx.flags:
                r.cex["flags"] = [f"{d[5:]}: {v}" for d, v in ctx.flags]
            if ctx.opaque:
                r.cex["assumed"] = [f"{d[:80]} = {v}" for d, v in ctx.opaque]
                r.opaque = True
            if not full:
                break
    except Unsupported as u:
        if r.status == "proved":
            r.status, r.why = "open", str(u)
    except Undecided as u:
        if r.status == "proved":
            r.status, r.why = "open", str(u)
    finally:
        DEADLINE[0] = None
    r.vcs = stats["checked"]
    if r.status == "proved" and need and r.vcs == 0 and not r.exc:
        r.status, r.why = "open", "no obligation generated"
    r.time = time.time() - t0
    return r
