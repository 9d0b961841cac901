"""Symbolic torch: assumed contracts of the torch operations used by nnj, over structured symbolic shapes.

Every operation here is a *trusted contract* of the corresponding torch operation; run-time cross checks against the
real torch validate them (see crosscheck.py).
"""
import builtins
import math
import re
import types
from fractions import Fraction

from poly import Poly, P, Size as SizeAtom, Var, IApp, Unsupported, ZERO, ONE
from ctx import C, decide, implies, eqp
import ctx as _ctx
from sp import SP, Term, F, S, fac, fn, gt0, eq0, tens, one_guard, ipoly, ipow, strip_cust
from dims import Dim, AtomFac, CatFac, atom_dim, dim_of, fresh_idx, flat_of, from_flat, unify, regroup, pdivmod, canon
from symint import SymInt, SymBool, SymFloat, mkint, idiv

# ------------------------------------------------------------------ dtypes / devices


class dtype:
    def __init__(self, name, kind, width):
        self.name, self.kind, self.width = name, kind, width

    @property
    def is_floating_point(self):
        return self.kind == 2

    def __repr__(self):
        return "torch." + self.name


float64 = dtype("float64", 2, 64)
float32 = dtype("float32", 2, 32)
float16 = dtype("float16", 2, 16)
bfloat16 = dtype("bfloat16", 2, 16)
int64 = dtype("int64", 1, 64)
int32 = dtype("int32", 1, 32)
int16 = dtype("int16", 1, 16)
int8 = dtype("int8", 1, 8)
uint8 = dtype("uint8", 1, 8)
bool_ = dtype("bool", 0, 1)


class device:
    def __init__(self, t="cpu", index=None):
        self.type = getattr(t, "type", t)
        self.index = index

    def __eq__(self, o):
        return isinstance(o, device) and o.type == self.type

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return f"device(type='{self.type}')"


CPU = device("cpu")


class State:
    default = float32
    grad = True
    diff = False  # element expressions for differentiation
    pcount = 0
    loops = []
    writes = []  # storages written in place
    expanding = ()
    broken = False
    clock = 0  # number of in-place writes so far
    now = None  # contents are evaluated as of this time
    written = {}  # loop variable -> storages written by the body of that loop
    depth = None  # loops over the layers of a network of arbitrary depth (depth.py)

    @classmethod
    def reset(cls):
        cls.default = float32
        cls.grad = True
        cls.diff = False
        cls.pcount = 0
        cls.loops = []
        cls.writes = []
        cls.expanding = ()
        cls.broken = False
        cls.clock = 0
        cls.now = None
        cls.written = {}
        cls.depth = None
        LOOPDONE.clear()


class Storage:
    def __init__(self, origin=None):
        self.origin = origin  # None fresh, or description of the owner
        self.log = []  # times of the in-place writes


class Size(tuple):
    def numel(self):
        r = 1
        for x in self:
            r = r * x
        return r

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Size(tuple(self) + tuple(o))

    def __mul__(self, n):
        return Size(tuple(self) * n)

    def __repr__(self):
        return "torch.Size(%s)" % list(self)


def py_size(d):
    """python size of a dim, with product hint"""
    if d.size.is_const():
        return d.size.cval()
    if len(d.facs) > 1:
        return mkint(d.size, [py_size(Dim([f])) for f in d.facs])
    return mkint(d.size)


class IV:
    """integer tensor element: flat value, optionally with its digits in a known mixed radix system"""

    __slots__ = ("p", "dim", "idx")

    def __init__(self, p, dim=None, idx=None):
        self.p, self.dim, self.idx = p, dim, idx

    def subst(self, s):
        return IV(self.p.subst(s), self.dim, subst_idx(self.idx, s) if self.idx is not None else None)


def subst_idx(i, s):
    if isinstance(i, Poly):
        return i.subst(s)
    if isinstance(i, tuple):
        return tuple(subst_idx(x, s) for x in i)
    return i


def same_size(a, b, what="sizes"):
    """sizes must be equal: True, or raises RuntimeError on paths where they differ"""
    a, b = P(a), P(b)
    if a == b or eqp(a, b):
        return True
    d = a - b
    if d.is_const() or not decide(C("eq", d)):
        raise RuntimeError(f"{what} must match: {a} vs {b}")
    return True


class Tensor:
    def __init__(self, dims, elem, dt=None, store=None, view=False):
        self.dims = list(dims)
        self.dtype = dt or State.default
        self.store = store or Storage()
        # contents over time: (time, element function, is a write, storage)
        self.hist = [(State.clock if State.now is None else min(State.clock, State.now), elem, False, self.store)]
        self.stop = not State.grad
        self._rg = None
        self.tags = frozenset(l.var for l in State.loops)

    # ---------------------------------------------------------------- access
    def _set(self, e):
        self.hist[-1] = (self.hist[-1][0], e) + self.hist[-1][2:]

    def elem(self, idx):
        now = State.now
        for c, e, iswrite, store in reversed(self.hist):
            if now is None or c <= now:
                break
        else:
            raise Unsupported("tensor read before its creation")
        for t in reversed(store.log):
            if now is not None and t > now:
                continue
            if t > c:
                raise Unsupported("read through an alias of a tensor modified in place")
            break
        if State.written and State.expanding:
            for v in State.expanding:
                if store in State.written.get(v, ()):
                    raise Unsupported("loop body reads a tensor it writes")
        if LOOPDONE and self.tags:
            for w in self.tags:
                if w in LOOPDONE and w not in State.expanding:
                    raise Unsupported("value of a finished symbolic loop used outside of a collection")
        State.now = c - 1 if iswrite else c
        try:
            v = e(idx)
        finally:
            State.now = now
        if State.diff and self.stop and isinstance(v, SP):
            v = strip_cust(v)
            if not v.is_const():
                return fac(F("N", "cust", (), (v, SP(), S(0))))
        return v

    @property
    def isint(self):
        return self.dtype.kind == 1

    @property
    def shape(self):
        return Size(py_size(d) for d in self.dims)

    def size(self, dim=None):
        if dim is None:
            return self.shape
        return self.shape[dim]

    @property
    def ndim(self):
        return len(self.dims)

    def dim(self):
        return len(self.dims)

    ndimension = dim

    @property
    def device(self):
        return CPU

    @property
    def is_cuda(self):
        return False

    @property
    def grad(self):
        return None

    @property
    def T(self):
        if self.ndim != 2:
            raise Unsupported("T of non matrix")
        return self.transpose(0, 1)

    @property
    def mT(self):
        return self.transpose(-1, -2)

    @property
    def data(self):
        t = self._view(self.dims, self.elem)
        t.stop = True
        return t

    @data.setter
    def data(self, o):
        if len(o.dims) != len(self.dims):
            raise Unsupported("data of another rank")
        maps = []
        for a, b in zip(self.dims, o.dims):
            if not eqp(a.size, b.size):
                raise Unsupported("data of another shape")
            maps.append(unify(a, b))
        if State.now is not None or State.loops:
            raise Unsupported("data assigned while evaluating")
        State.clock += 1
        self.dims, self.dtype, self.store = [m[0] for m in maps], o.dtype, o.store
        self.hist.append((State.clock, lambda idx: o.elem([m[2](i) for m, i in zip(maps, idx)]), True, o.store))
        self.tags = self.tags | o.tags

    def numel(self):
        return self.shape.numel()

    nelement = numel

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic axis")

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over a tensor with symbolic length")

    def __bool__(self):
        if self.ndim == 0 or all(d.size == ONE for d in self.dims):
            v = self.elem([()] * self.ndim)
            if isinstance(v, IV):
                return decide(C("ne", v.p))
            if v.is_const():
                return bool(v.cval())
            return decide(None, "truth of " + v.ckey())
        if all(implies(C("eq", d.size - 1)) or decide(C("eq", d.size - 1)) for d in self.dims):
            raise Unsupported("truth of a tensor of symbolic shape")
        raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")

    def item(self):
        if not all(d.size == ONE for d in self.dims):
            if all(implies(C("eq", d.size - 1)) or decide(C("eq", d.size - 1)) for d in self.dims):
                raise Unsupported("item of a tensor of symbolic shape")
            raise RuntimeError("item of non-scalar")
        v = self.elem([()] * self.ndim)
        if isinstance(v, IV):
            return mkint(v.p)
        return SymFloat(v)

    def __float__(self):
        raise Unsupported("float(tensor)")

    def __int__(self):
        raise Unsupported("int(tensor)")

    def __index__(self):
        raise Unsupported("index(tensor)")

    def tolist(self):
        raise Unsupported("tolist")

    def numpy(self):
        raise Unsupported("numpy")

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self.clone()

    # ---------------------------------------------------------------- views
    def _view(self, dims, elem):
        t = Tensor(dims, elem, self.dtype, self.store)
        t.tags = t.tags | self.tags
        t.stop = self.stop or t.stop
        return t

    def _new(self, dims, elem, dt=None):
        t = Tensor(dims, elem, dt or self.dtype)
        t.tags = t.tags | self.tags
        return t

    def permute(self, *p):
        if len(p) == 1 and isinstance(p[0], (list, tuple)):
            p = tuple(p[0])
        n = self.ndim
        p = [normdim(i, n) for i in p]
        if sorted(p) != list(range(n)):
            raise RuntimeError("permute: invalid dims")
        src = self

        def e(idx):
            o = [None] * n
            for k, i in enumerate(p):
                o[i] = idx[k]
            return src.elem(o)

        return self._view([self.dims[i] for i in p], e)

    def transpose(self, a, b):
        n = self.ndim
        a, b = normdim(a, n), normdim(b, n)
        p = list(range(n))
        p[a], p[b] = p[b], p[a]
        return self.permute(*p)

    swapaxes = swapdims = transpose

    def t(self):
        if self.ndim > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions")
        return self.transpose(0, 1) if self.ndim == 2 else self

    def movedim(self, s, d):
        n = self.ndim
        s = [s] if isinstance(s, int) else list(s)
        d = [d] if isinstance(d, int) else list(d)
        if len(s) != len(d):
            raise RuntimeError("movedim: lengths differ")
        s = [normdim(i, n) for i in s]
        d = [normdim(i, n) for i in d]
        if len(set(s)) != len(s) or len(set(d)) != len(d):
            raise RuntimeError("movedim: repeated dim")
        order = [None] * n
        for a, b in zip(s, d):
            order[b] = a
        rest = [i for i in range(n) if i not in s]
        for k in range(n):
            if order[k] is None:
                order[k] = rest.pop(0)
        return self.permute(*order)

    moveaxis = movedim

    def unsqueeze(self, d):
        n = self.ndim
        d = normdim(d, n + 1)
        src = self
        dims = self.dims[:d] + [Dim([])] + self.dims[d:]
        return self._view(dims, lambda idx: src.elem(list(idx[:d]) + list(idx[d + 1 :])))

    def squeeze(self, *ds):
        n = self.ndim
        if not ds:
            drop = []
            for i, d in enumerate(self.dims):
                if d.size == ONE:
                    drop.append(i)
                elif not d.size.is_const() and not implies(C("ge", d.size - 2)):
                    if decide(C("eq", d.size - 1)):
                        drop.append(i)
        else:
            drop = []
            for d in ds if not isinstance(ds[0], (tuple, list)) else ds[0]:
                d = normdim(d, n)
                if self.dims[d].size == ONE or (
                    not self.dims[d].size.is_const() and decide(C("eq", self.dims[d].size - 1))
                ):
                    drop.append(d)
        src = self
        keep = [i for i in range(n) if i not in drop]

        def e(idx):
            o = [zero_idx(d) for d in src.dims]
            for k, i in enumerate(keep):
                o[i] = idx[k]
            return src.elem(o)

        return self._view([self.dims[i] for i in keep], e)

    def reshape(self, *shape, _copy=False):
        shape = getshape(shape)
        src = self
        facs = []
        spans = []
        for d in self.dims:
            spans.append((len(facs), len(facs) + len(d.facs)))
            facs += list(d.facs)
        total = ONE
        for f in facs:
            total = total * f.size
        neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if len(neg) > 1:
            raise RuntimeError("only one dimension can be inferred")
        if neg:
            known = ONE
            for i, s in enumerate(shape):
                if i != neg[0]:
                    known = known * P(s)
            q = total.divexact(known)
            if q is None:
                q = infer_reshape(facs, [P(s) for s in shape[: neg[0]]], [P(s) for s in shape[neg[0] + 1 :]], total)
            if q is None and total.is_const() and known.is_const():
                raise RuntimeError("reshape: invalid shape")
            if q is None:
                raise Unsupported(f"reshape cannot infer -1: {total} / {known}")
            sizes = [P(s) for s in shape]
            sizes[neg[0]] = q
        else:
            sizes = [P(s) for s in shape]
            tot2 = ONE
            for s in sizes:
                tot2 = tot2 * s
            same_size(total, tot2, "reshape: number of elements")
        for s in sizes:
            if s.is_const() and s.cval() < 0:
                raise RuntimeError("reshape: negative size")
        try:
            dims, back = regroup(facs, sizes)
        except Unsupported:
            # identical shape up to representation
            if len(sizes) == len(self.dims) and all(eqp(s, d.size) for s, d in zip(sizes, self.dims)):
                return self._view(self.dims, self._e_checked())
            return self._reshape_flat(sizes)

        def e(idx):
            fl = back(idx)
            return src.elem([tuple(fl[a:b]) for a, b in spans])

        return self._view(dims, e)

    def _e_checked(self):
        src = self
        return lambda idx: src.elem(idx)

    def _reshape_flat(self, sizes):
        """general regrouping through the flat position (needs provable divisions at access time)"""
        src = self
        whole = Dim([f for d in self.dims for f in d.facs])
        if not all(isinstance(f, AtomFac) for f in whole.facs):
            raise Unsupported("general reshape of concatenation")
        dims = [atom_dim(s) for s in sizes]
        spans = []
        k = 0
        for d in self.dims:
            spans.append((k, k + len(d.facs)))
            k += len(d.facs)

        def e(idx):
            p = ZERO
            for d, i in zip(dims, idx):
                p = p * d.size + flat_of(d, i)
            fl = from_flat(whole, p)
            return src.elem([tuple(fl[a:b]) for a, b in spans])

        return self._view(dims, e)

    view = reshape

    def view_as(self, o):
        return self.reshape(*o.shape)

    reshape_as = view_as

    def flatten(self, start_dim=0, end_dim=-1):
        n = self.ndim
        if n == 0:
            return self.reshape(1)
        a, b = normdim(start_dim, n), normdim(end_dim, n)
        d = Dim([f for x in self.dims[a : b + 1] for f in x.facs])
        src = self
        lens = [len(x.facs) for x in self.dims[a : b + 1]]

        def e(idx):
            mid, out, k = idx[a], [], 0
            for l in lens:
                out.append(tuple(mid[k : k + l]))
                k += l
            return src.elem(list(idx[:a]) + out + list(idx[a + 1 :]))

        return self._view(self.dims[:a] + [d] + self.dims[b + 1 :], e)

    def ravel(self):
        return self.flatten()

    def unflatten(self, dim, sizes):
        d = normdim(dim, self.ndim)
        sh = self.shape
        return self.reshape(*(tuple(sh[:d]) + tuple(sizes) + tuple(sh[d + 1 :])))

    def expand(self, *shape):
        shape = getshape(shape)
        n = self.ndim
        if len(shape) < n:
            raise RuntimeError("expand: fewer dims")
        lead = len(shape) - n
        src = self
        dims = []
        mode = []
        for i, s in enumerate(shape):
            if i < lead:
                if isinstance(s, int) and s < 0:
                    raise RuntimeError("expand: negative size in a leading, non-existing dimension")
                dims.append(dim_of(s))
                continue
            d = self.dims[i - lead]
            if isinstance(s, int) and s == -1:
                dims.append(d)
                mode.append(0)
            elif d.size == ONE:
                dims.append(dim_of(s))
                mode.append(1)
            elif not eqp(d.size, P(s)) and not implies(C("eq", d.size - P(s))) and not implies(C("ge", d.size - 2)) and not decide(C("eq", d.size - P(s))) and decide(C("eq", d.size - 1)):
                dims.append(dim_of(s))
                mode.append(1)
            else:
                same_size(d.size, P(s), "expand")
                dims.append(d)
                mode.append(0)

        def e(idx):
            return src.elem([() if m else i for m, i in zip(mode, idx[lead:])])

        return self._view(dims, e)

    def expand_as(self, o):
        return self.expand(*o.shape)

    broadcast_to = expand

    def repeat(self, *reps):
        reps = getshape(reps)
        n = self.ndim
        lead = len(reps) - n
        if lead < 0:
            raise RuntimeError("repeat: too few dims")
        src = self
        dims, lens = [], []
        for i, r in enumerate(reps):
            rd = dim_of(r)
            d = self.dims[i - lead] if i >= lead else Dim([])
            dims.append(Dim(rd.facs + d.facs))
            lens.append(len(rd.facs))

        def e(idx):
            return src.elem([tuple(idx[i][lens[i] :]) for i in range(lead, len(reps))])

        return self._new(dims, e)

    def tile(self, *reps):
        reps = getshape(reps)
        if len(reps) < self.ndim:
            reps = (1,) * (self.ndim - len(reps)) + tuple(reps)
        return self.repeat(*reps)

    def repeat_interleave(self, r, dim=None):
        return repeat_interleave(self, r, dim)

    def flip(self, *ds):
        ds = getshape(ds)
        n = self.ndim
        ds = [normdim(d, n) for d in ds]
        src = self
        for d in ds:
            if not all(isinstance(f, AtomFac) for f in self.dims[d].facs):
                raise Unsupported("flip of a concatenated axis")

        def e(idx):
            idx = list(idx)
            for d in ds:
                idx[d] = tuple(f.size - 1 - i for f, i in zip(src.dims[d].facs, idx[d]))
            return src.elem(idx)

        return self._new(self.dims, e)

    def diagonal(self, offset=0, dim1=0, dim2=1):
        if offset != 0:
            raise Unsupported("diagonal offset")
        n = self.ndim
        a, b = normdim(dim1, n), normdim(dim2, n)
        if a == b:
            raise RuntimeError("diagonal dims equal")
        if not (self.dims[a].size == self.dims[b].size or eqp(self.dims[a].size, self.dims[b].size)):
            raise Unsupported("diagonal of a rectangular matrix")
        D, m1, m2 = unify(self.dims[a], self.dims[b])
        rest = [i for i in range(n) if i not in (a, b)]
        src = self

        def e(idx):
            o = [None] * n
            for k, i in enumerate(rest):
                o[i] = idx[k]
            o[a], o[b] = m1(idx[-1]), m2(idx[-1])
            return src.elem(o)

        return self._view([self.dims[i] for i in rest] + [D], e)

    def diag_embed(self, offset=0, dim1=-2, dim2=-1):
        return diag_embed(self, offset, dim1, dim2)

    def diag(self, diagonal=0):
        return diag(self, diagonal)

    def select(self, dim, i):
        ix = [slice(None)] * self.ndim
        ix[normdim(dim, self.ndim)] = i
        return self[tuple(ix)]

    def narrow(self, dim, start, length):
        need(C("ge", P(length)), "narrow(): length must be non-negative")
        if implies(C("ge", P(start))) or decide(C("ge", P(start))):
            need(C("ge", P(self.shape[dim]) - P(start) - P(length)), "narrow(): start + length exceeds dimension size")
        else:
            raise Unsupported("narrow from a negative start")
        ix = [slice(None)] * self.ndim
        ix[normdim(dim, self.ndim)] = slice(start, start + length)
        return self[tuple(ix)]

    def index_select(self, dim, index):
        ix = [slice(None)] * self.ndim
        ix[normdim(dim, self.ndim)] = index
        return self[tuple(ix)]

    def split(self, sz, dim=0):
        return split(self, sz, dim)

    def chunk(self, n, dim=0):
        sz = self.shape[dim]
        if isinstance(n, int) and n == 1:
            return (self,)
        if isinstance(sz, int) and isinstance(n, int) and n > 0:
            return split(self, max(1, -(-sz // n)), dim)
        if implies(C("eq", P(sz) - P(n))):
            return split(self, 1, dim)
        c = P(sz).divexact(P(n)) if implies(C("ge", P(n) - 1)) else None
        if c is not None and isinstance(n, int):
            return split(self, [mkint(c)] * n, dim)
        raise Unsupported("chunk")

    def unbind(self, dim=0):
        n = self.shape[dim]
        if not isinstance(n, int):
            return SYMSEQ[0](n, lambda i: self.select(dim, i))
        return tuple(self.select(dim, i) for i in range(n))

    def clone(self, **k):
        src = self
        return self._new(self.dims, lambda i: src.elem(i))

    def contiguous(self, **k):
        return self._view(self.dims, self._e_checked())

    def detach(self):
        t = self._view(self.dims, self._e_checked())
        t.stop = True
        return t

    @property
    def requires_grad(self):
        if self._rg is None:
            n = self.__dict__.get("pname") or self.__dict__.get("uname")
            if n is not None:
                return _ctx.flag(f"{n} requires grad")
            return decide(None, f"derived tensor {content_key(self)} requires grad")
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        self._rg = v

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def cpu(self):
        return self

    def cuda(self, *a):
        raise Unsupported("cuda")

    def is_contiguous(self):
        return decide(None, f"contiguous {id(self.store)}")

    def is_floating_point(self):
        return self.dtype.kind == 2

    def stride(self, *a):
        raise Unsupported("stride")

    def data_ptr(self):
        raise Unsupported("data_ptr")

    # ---------------------------------------------------------------- dtype
    def to(self, *a, **k):
        kwargs_ok({x: v for x, v in k.items() if x not in ("dtype", "copy", "other")}, "to")
        dt = k.get("dtype")
        if k.get("other") is not None:
            dt = k["other"].dtype
        for x in a:
            if isinstance(x, dtype):
                dt = x
            elif isinstance(x, Tensor):
                dt = x.dtype
        if dt is None or dt is self.dtype:
            return self if not k.get("copy") else self.clone()
        return cast(self, dt)

    def equal(self, o):
        return equal(self, o)

    def allclose(self, o, *a, **k):
        return allclose(self, o, *a, **k)

    def type(self, dt=None):
        if dt is None:
            return "torch.FloatTensor"
        return self.to(dt)

    def type_as(self, o):
        return self.to(o.dtype)

    def float(self):
        return self.to(float32)

    def double(self):
        return self.to(float64)

    def half(self):
        return self.to(float16)

    def long(self):
        return self.to(int64)

    def int(self):
        return self.to(int32)

    def bool(self):
        return self.to(bool_)

    # ---------------------------------------------------------------- arithmetic
    def __add__(self, o):
        return binop(self, o, "add")

    __radd__ = __add__
    def add(self, o, alpha=1):
        return binop(self, o if alpha == 1 else o * alpha, "add")

    def __sub__(self, o):
        return binop(self, o, "sub")

    def __rsub__(self, o):
        return binop(o, self, "sub")

    def sub(self, o, alpha=1):
        return binop(self, o if alpha == 1 else o * alpha, "sub")

    def __mul__(self, o):
        return binop(self, o, "mul")

    __rmul__ = __mul__
    mul = multiply = __mul__

    def __truediv__(self, o):
        return binop(self, o, "div")

    def __rtruediv__(self, o):
        return binop(o, self, "div")

    div = divide = __truediv__

    def __floordiv__(self, o):
        return binop(self, o, "floordiv")

    def __mod__(self, o):
        return binop(self, o, "mod")

    def __neg__(self):
        return binop(self, -1, "mul")

    neg = __neg__

    def __pos__(self):
        return self

    def __pow__(self, n):
        return tpow(self, n)

    pow = __pow__

    def square(self):
        return self * self

    def __rpow__(self, o):
        raise Unsupported("rpow")

    def __matmul__(self, o):
        return matmul(self, o)

    matmul = __matmul__

    def __rmatmul__(self, o):
        return matmul(o, self)

    def mm(self, o):
        return matmul(self, o)

    def bmm(self, o):
        return bmm(self, o)

    def mv(self, o):
        return matmul(self, o)

    def dot(self, o):
        return matmul(self, o)

    def outer(self, o):
        return einsum("i,j->ij", self, o)

    def __gt__(self, o):
        return binop(self, o, "gt")

    def __ge__(self, o):
        return binop(self, o, "ge")

    def __lt__(self, o):
        return binop(self, o, "lt")

    def __le__(self, o):
        return binop(self, o, "le")

    def __eq__(self, o):
        return binop(self, o, "eq")

    def __ne__(self, o):
        return binop(self, o, "ne")

    gt, ge, lt, le, eq, ne = __gt__, __ge__, __lt__, __le__, __eq__, __ne__

    def __invert__(self):
        return logical_not(self)

    def logical_not(self):
        return logical_not(self)

    def __and__(self, o):
        if self.dtype is bool_:
            return binop(self, o, "mul")
        raise Unsupported("bitwise and")

    logical_and = __and__

    def __or__(self, o):
        if self.dtype is bool_ and o.dtype is bool_:
            r = 1 - (1 - self.to(int64).to(float32)) * (1 - o.to(int64).to(float32)) if False else None
            src, src2 = self, o
            return _nary([self, o], lambda a, b: a + b - a * b, bool_)
        raise Unsupported("bitwise or")

    logical_or = __or__

    def _un(self, f, name=None):
        return unary(self, f)

    def exp(self):
        return unary(self, lambda a: fn("exp", a))

    def log(self):
        return unary(self, lambda a: fn("log", a))

    def log1p(self):
        return unary(self, lambda a: fn("log", a + 1))

    def sin(self):
        return unary(self, lambda a: fn("sin", a))

    def cos(self):
        return unary(self, lambda a: fn("cos", a))

    def tanh(self):
        return unary(self, lambda a: fn("tanh", a))

    def cosh(self):
        return unary(self, lambda a: (fn("exp", a) + fn("exp", -a)) * Fraction(1, 2))

    def sinh(self):
        return unary(self, lambda a: (fn("exp", a) - fn("exp", -a)) * Fraction(1, 2))

    def sigmoid(self):
        return unary(self, lambda a: fn("sigmoid", a))

    def sqrt(self):
        return unary(self, lambda a: fn("sqrt", a))

    def rsqrt(self):
        return unary(self, lambda a: fn("inv", fn("sqrt", a)))

    def reciprocal(self):
        return unary(self, lambda a: fn("inv", a))

    def abs(self):
        return unary(self, lambda a: fn("abs", a))

    def sign(self):
        return unary(self, lambda a: gt0(a) - gt0(-a))

    def relu(self):
        return unary(self, lambda a: a * gt0(a))

    def clamp(self, min=None, max=None):
        return clamp(self, min, max)

    clip = clamp

    def clamp_min(self, m):
        return clamp(self, m, None)

    def clamp_max(self, m):
        return clamp(self, None, m)

    def masked_fill(self, mask, v):
        return where(mask, v, self)

    def where(self, c, o):
        return where(c, self, o)

    def sum(self, dim=None, keepdim=False, dtype=None, axis=None):
        return tsum(self, dim if axis is None else axis, keepdim, dtype=dtype)

    def mean(self, dim=None, keepdim=False, dtype=None, axis=None):
        return tmean(self, dim if axis is None else axis, keepdim, dtype=dtype)

    def norm(self, p=2, dim=None, keepdim=False, dtype=None):
        return norm(self, p, dim, keepdim, dtype=dtype)

    def logsumexp(self, dim, keepdim=False):
        return logsumexp(self, dim, keepdim)

    def softmax(self, dim, dtype=None):
        return softmax(self, dim, dtype)

    def log_softmax(self, dim, dtype=None):
        return log_softmax(self, dim, dtype)

    def any(self, *a, **k):
        if a or k:
            raise Unsupported("any over an axis")
        return OpaqueScalar("any " + content_key(self))

    def all(self, *a, **k):
        if a or k:
            raise Unsupported("all over an axis")
        return OpaqueScalar("all " + content_key(self))

    def max(self, *a, **k):
        if a or k:
            raise Unsupported("max over an axis")
        return OpaqueReal("max", self)

    def min(self, *a, **k):
        if a or k:
            raise Unsupported("min over an axis")
        return OpaqueReal("min", self)

    def new_zeros(self, *s, dtype=None, device=None, requires_grad=False):
        return zeros(*s, dtype=dtype or self.dtype)

    def new_ones(self, *s, dtype=None, device=None, requires_grad=False):
        return ones(*s, dtype=dtype or self.dtype)

    def new_full(self, s, v, dtype=None, device=None):
        return full(s, v, dtype=dtype or self.dtype)

    def new_empty(self, *s, dtype=None, device=None):
        return empty(*s, dtype=dtype or self.dtype)

    def trace(self):
        return self.diagonal().sum()

    def cumsum(self, *a, **k):
        raise Unsupported("cumsum")

    def gather(self, dim, index):
        return gather(self, dim, index)

    def scatter_add_(self, dim, index, src):
        return scatter(self, dim, index, src, True)

    def scatter_(self, dim, index, src):
        return scatter(self, dim, index, src, False)

    def scatter_add(self, dim, index, src):
        return scatter(self.clone(), dim, index, src, True)

    def scatter(self, dim, index, src):
        return scatter(self.clone(), dim, index, src, False)

    # ---------------------------------------------------------------- in place
    def _write(self, new_e):
        """replace the contents of this tensor"""
        if self.store.log and self.store.log[-1] > self.hist[-1][0]:
            raise Unsupported("write through a stale alias")
        if State.now is not None:
            raise Unsupported("in-place write while evaluating")
        if self.store.origin is not None:
            State.writes.append(self.store.origin)
        for l in State.loops:
            if l.var not in self.tags and not l.allow_write(self):
                raise Unsupported("in-place accumulation across loop iterations")
        self._content(new_e)
        return self

    def _content(self, e):
        State.clock += 1
        self.store.log.append(State.clock)
        self.hist.append((State.clock, e, True, self.store))

    def _inplace(self, r):
        if not isinstance(r, Tensor):
            raise Unsupported("in-place with non tensor")
        old_dims = self.dims
        if len(r.dims) != len(self.dims):
            raise RuntimeError("output shape mismatch in in-place operation")
        maps = []
        for a, b in zip(self.dims, r.dims):
            same_size(a.size, b.size, "in-place result shape")
            D, m1, m2 = unify(a, b)
            maps.append((D, m1, m2))
        if r.dtype.kind > self.dtype.kind:
            raise RuntimeError(f"result type {r.dtype} can't be cast to the desired output type {self.dtype}")
        r2 = cast(r, self.dtype) if r.dtype is not self.dtype else r
        frozen = r2.elem
        dims = [m[0] for m in maps]
        self.dims = dims
        self._write(lambda idx: frozen([m[2](i) for m, i in zip(maps, idx)]))
        return self

    def __abs__(self):
        return self.abs()

    def __iadd__(self, o):
        return self._inplace(self._old() + o)

    def __isub__(self, o):
        return self._inplace(self._old() - o)

    def __imul__(self, o):
        return self._inplace(self._old() * o)

    def __itruediv__(self, o):
        return self._inplace(self._old() / o)

    def _old(self):
        t = Tensor(self.dims, self.elem, self.dtype)
        t.tags = self.tags
        return t

    def add_(self, o, alpha=1):
        return self.__iadd__(o if alpha == 1 else o * alpha)

    def sub_(self, o, alpha=1):
        return self.__isub__(o if alpha == 1 else o * alpha)

    mul_ = __imul__
    div_ = __itruediv__

    def zero_(self):
        return self._write(lambda idx: S(0))

    def fill_(self, v):
        return self._write(lambda idx: S(v))

    def copy_(self, o):
        return self._inplace(bcast_to(o, self.shape))

    def neg_(self):
        return self._inplace(-self._old())

    def exp_(self):
        return self._inplace(self._old().exp())

    def clamp_(self, min=None, max=None):
        return self._inplace(clamp(self._old(), min, max))

    def relu_(self):
        return self._inplace(self._old().relu())

    def masked_fill_(self, m, v):
        return self._inplace(where(m, v, self._old()))

    def index_put_(self, indices, values, accumulate=False):
        return index_put_(self, indices, values, accumulate)

    def fill_diagonal_(self, v):
        if self.ndim != 2:
            raise Unsupported("fill_diagonal_")
        o = self._old()
        D, m1, m2 = unify(self.dims[0], self.dims[1])
        raise Unsupported("fill_diagonal_")

    # ---------------------------------------------------------------- indexing
    def __getitem__(self, ix):
        return getitem(self, ix)

    def __setitem__(self, ix, v):
        return setitem(self, ix, v)

    def register_hook(self, *a):
        raise Unsupported("register_hook")

    def backward(self, *a, **k):
        raise Unsupported("backward")

    def __repr__(self):
        return f"tensor{list(self.dims)}:{self.dtype.name}"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Tensor.{n}")


class OpaqueScalar:
    def __init__(self, key):
        self.key = key

    def __bool__(self):
        return decide(None, self.key)

    def item(self):
        return bool(self)

    def __invert__(self):
        return not bool(self)


class OpaqueReal:
    def __init__(self, op, t):
        self.key = op + " " + content_key(t)

    def _c(self, o, k):
        return decide(None, f"{self.key} {k} {getattr(o, 'key', o)}")

    def __gt__(self, o):
        return self._c(o, ">")

    def __lt__(self, o):
        return self._c(o, "<")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __le__(self, o):
        return self._c(o, "<=")

    def __eq__(self, o):
        return self._c(o, "==")

    def item(self):
        return self

    def __getattr__(self, n):
        raise Unsupported("opaque reduction " + n)


def equal(a, b):
    """whether two tensors are equal is not decided: both answers are explored"""
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not bool(x == y):
            return False
    return decide(None, "equal " + content_key(a) + content_key(b))


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    broadcast([a, b])
    return decide(None, f"allclose {rtol} {atol} " + content_key(a) + content_key(b))


def content_key(t):
    """canonical description of the contents of a tensor (shape and generic element)"""
    parts = []
    try:
        combos = [([], [])]
        for d in t.dims:
            nxt = []
            for idx, vs in combos:
                for i, v in fresh_idx(d):
                    nxt.append((idx + [i], vs + v))
            combos = nxt
        for idx, vs in combos:
            names = {v: "?%d" % k for k, v in enumerate(vs)}
            e = t.elem(idx)
            if isinstance(e, IV):
                from sp import pkey

                parts.append("i:" + pkey(e.p, names))
            else:
                from prover import Prover

                e = SP(Prover().norm(e))
                parts.append(e.ckey(names))
    except Unsupported as ex:
        raise
    return "<" + ",".join(d.key() for d in t.dims) + "|" + ";".join(parts) + ">"


def zero_idx(d):
    return tuple(ZERO if isinstance(f, AtomFac) else (0, zero_idx(f.parts[0])) for f in d.facs)


def normdim(d, n):
    if not isinstance(d, int):
        raise Unsupported("symbolic dim")
    if d < -n or d >= n:
        raise IndexError(f"Dimension out of range (expected to be in range of [{-n}, {n-1}], but got {d})")
    return d % n


def getshape(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        return tuple(s[0])
    return tuple(s)


def infer_reshape(facs, left, right, total):
    """size of the -1 axis by matching prefix and suffix"""
    fs = list(facs)
    i = 0
    for t in left:
        prod = ONE
        while not (prod == t or eqp(prod, t)):
            if i >= len(fs):
                return None
            prod = prod * fs[i].size
            i += 1
    j = len(fs)
    for t in reversed(right):
        prod = ONE
        while not (prod == t or eqp(prod, t)):
            if j <= i:
                return None
            j -= 1
            prod = prod * fs[j].size
    r = ONE
    for f in fs[i:j]:
        r = r * f.size
    return r


# ------------------------------------------------------------------ casting / promotion
def cast(t, dt):
    if dt is t.dtype:
        return t
    src = t
    if dt.kind == 2:
        if t.dtype.kind == 2 and dt.width < t.dtype.width:
            return t._new(t.dims, lambda i: fn("round32", src.elem(i)), dt)
        if t.dtype.kind == 1:
            if dt.width < 32:
                raise Unsupported("integers converted to %s" % dt.name)
            return t._new(t.dims, lambda i: ipoly(src.elem(i).p), dt)
        return t._new(t.dims, lambda i: src.elem(i), dt)
    if dt.kind == 1:
        if t.dtype.kind == 1:
            if dt.width < 32 and dt.width < t.dtype.width or dt is uint8:
                raise Unsupported("integers narrowed to %s" % dt.name)  # int64 to int32 is treated as mathematical, as sizes are
            return t._new(t.dims, lambda i: src.elem(i), dt)
        raise Unsupported("cast to integer")
    if dt is bool_:
        if t.dtype.kind == 2:
            return t._new(t.dims, lambda i: S(1) - eq0(src.elem(i)), bool_)
    raise Unsupported(f"cast {t.dtype}->{dt}")


def promote(ts):
    """result dtype of tensors (dimensioned take precedence within a category)"""
    best = None
    dimensioned = False
    for pas in (True, False):
        for t in ts:
            dimensioned = dimensioned or t.ndim > 0
            if (t.ndim > 0) != pas:
                continue
            d = t.dtype
            if best is None or d.kind > best.kind:
                best = d
            elif d.kind == best.kind and (pas or not dimensioned) and d.width > best.width:
                best = d
    return best


def asreal(t):
    """element function as reals"""
    if t.dtype.kind == 1:
        return lambda i: ipoly(t.elem(i).p)
    return t.elem


def broadcast(ts):
    """dims and per tensor index maps"""
    n = max(t.ndim for t in ts)
    dims = []
    maps = [[] for _ in ts]
    for k in range(n):
        D = None
        cur = [None] * len(ts)
        for j, t in enumerate(ts):
            p = k - (n - t.ndim)
            if p < 0:
                continue
            d = t.dims[p]
            if D is None:
                D = d
                cur[j] = lambda i: i
                continue
            if d.size == ONE and D.size != ONE:
                cur[j] = lambda i: ()
                continue
            if D.size == ONE and d.size != ONE:
                for q in range(j):
                    if cur[q] is not None:
                        cur[q] = lambda i: ()
                D = d
                cur[j] = lambda i: i
                continue
            if not (D.size == d.size or eqp(D.size, d.size)):
                # unequal symbolic sizes: torch broadcasts if one of them is 1
                if not D.size.is_const() and decide(C("eq", D.size - d.size)):
                    pass
                elif D.size.is_const() and not d.size.is_const() and decide(C("eq", D.size - d.size)):
                    pass
                elif not D.size.is_const() and decide(C("eq", D.size - 1)):
                    for q in range(j):
                        if cur[q] is not None:
                            z = zero_idx(D)
                            old = cur[q]
                            cur[q] = lambda i, old=old, z=z: old(z)
                    D = d
                    cur[j] = lambda i: i
                    continue
                elif not d.size.is_const() and decide(C("eq", d.size - 1)):
                    z = zero_idx(d)
                    cur[j] = lambda i, z=z: z
                    continue
                else:
                    raise RuntimeError(
                        f"The size of tensor a ({D.size}) must match the size of tensor b ({d.size}) at dimension {k}"
                    )
            N, m1, m2 = unify(D, d)
            for q in range(j):
                if cur[q] is not None:
                    cur[q] = lambda i, f=cur[q], m=m1: f(m(i))
            cur[j] = m2
            D = N
        dims.append(D)
        for j in range(len(ts)):
            maps[j].append(cur[j])
    out = []
    for j, t in enumerate(ts):
        ms = maps[j][n - t.ndim :]
        out.append(lambda idx, ms=ms, t=t: [m(i) for m, i in zip(ms, idx[n - t.ndim :])])
    return dims, out


def scalar(v, like=None):
    """0-d tensor from a python scalar"""
    t = Tensor([], lambda i: S(v), None)
    return t


PYSCALAR = (int, float, SymInt, SymFloat, Fraction)


def binop(a, b, op):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if not isinstance(a, Tensor) and not isinstance(a, PYSCALAR):
        return NotImplemented
    if not isinstance(b, Tensor) and not isinstance(b, PYSCALAR):
        return NotImplemented
    ts = [x for x in (a, b) if isinstance(x, Tensor)]
    dt = promote(ts)
    for x in (a, b):
        if isinstance(x, (float, SymFloat)) and dt.kind < 2:
            dt = State.default
        elif isinstance(x, (int, SymInt)) and dt.kind < 1:
            dt = int64
    # integer tensors
    if dt.kind == 1 and op in ("add", "sub", "mul", "floordiv", "mod", "eq", "ne", "gt", "ge", "lt", "le"):
        return int_binop(a, b, op, ts)
    if op == "div" and dt.kind < 2:
        dt = State.default
    rdt = bool_ if op in ("eq", "ne", "gt", "ge", "lt", "le") else dt
    dims, maps = broadcast(ts)

    def get(x, k):
        if isinstance(x, Tensor):
            e, m = asreal(x), maps[k]
            return lambda idx: e(m(idx))
        v = S(x)
        return lambda idx: v

    ga = get(a, 0)
    gb = get(b, 1 if isinstance(a, Tensor) else 0)
    f = REALOPS.get(op)
    if f is None:
        raise Unsupported(f"real {op}")
    r = Tensor(dims, lambda idx: f(ga(idx), gb(idx)), rdt)
    for t in ts:
        r.tags = r.tags | t.tags
    return r


REALOPS = {
    "add": lambda x, y: x + y,
    "sub": lambda x, y: x - y,
    "mul": lambda x, y: x * y,
    "div": lambda x, y: x * fn("inv", y),
    "gt": lambda x, y: gt0(x - y),
    "lt": lambda x, y: gt0(y - x),
    "ge": lambda x, y: S(1) - gt0(y - x),
    "le": lambda x, y: S(1) - gt0(x - y),
    "eq": lambda x, y: eq0(x - y),
    "ne": lambda x, y: S(1) - eq0(x - y),
}


def int_binop(a, b, op, ts):
    dims, maps = broadcast(ts)

    def get(x, k):
        if isinstance(x, Tensor):
            m = maps[k]
            if x.dtype is bool_:
                raise Unsupported("bool/int mix")
            return lambda idx: x.elem(m(idx)).p
        v = P(x)
        return lambda idx: v

    ga = get(a, 0)
    gb = get(b, 1 if isinstance(a, Tensor) else 0)
    if op in ("add", "sub", "mul"):
        f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[op]
        r = Tensor(dims, lambda i: IV(f(ga(i), gb(i))), int64)
    elif op in ("floordiv", "mod"):
        r = Tensor(dims, lambda i: IV(pdivmod(ga(i), gb(i))[0 if op == "floordiv" else 1]), int64)
    else:
        k = {
            "eq": lambda d: C("eq", d),
            "ne": lambda d: C("ne", d),
            "ge": lambda d: C("ge", d),
            "gt": lambda d: C("ge", d - 1),
            "le": lambda d: C("ge", -d),
            "lt": lambda d: C("ge", -d - 1),
        }[op]
        r = Tensor(dims, lambda i: one_guard([k(ga(i) - gb(i))]), bool_)
    for t in ts:
        r.tags = r.tags | t.tags
    return r


def _nary(ts, f, dt):
    dims, maps = broadcast(ts)
    es = [asreal(t) for t in ts]
    r = Tensor(dims, lambda idx: f(*[e(m(idx)) for e, m in zip(es, maps)]), dt)
    for t in ts:
        r.tags = r.tags | t.tags
    return r


def unary(t, f, dt=None):
    if not isinstance(t, Tensor):
        if isinstance(t, PYSCALAR):
            return SymFloat(f(S(t)))
        raise TypeError("argument must be Tensor")
    e = asreal(t)
    return t._new(t.dims, lambda i: f(e(i)), dt or (t.dtype if t.dtype.kind == 2 else State.default))


def tpow(t, n):
    if isinstance(n, float) and n == int(n):
        n = int(n)
    if isinstance(n, int):
        if t.isint:
            raise Unsupported("integer tensor power")
        if n >= 0:
            return unary(t, lambda a: ipow(a, n))
        return unary(t, lambda a: fn("inv", ipow(a, -n)))
    if n == 0.5:
        return t.sqrt()
    if n == -0.5:
        return t.rsqrt()
    raise Unsupported(f"power {n}")


def logical_not(t):
    return t._new(t.dims, lambda i: S(1) - t.elem(i), bool_)


def clamp(t, lo=None, hi=None, *, min=None, max=None):
    lo, hi = min if lo is None else lo, max if hi is None else hi

    def f(a):
        if lo is not None and hi is not None:
            l, h = S(lo), S(hi)
            below, above = gt0(l - a), gt0(a - h)
            return l * below + h * above + a * (S(1) - below - above)
        if lo is not None:
            l = S(lo)
            below = gt0(l - a)
            return l * below + a * (S(1) - below)
        h = S(hi)
        above = gt0(a - h)
        return h * above + a * (S(1) - above)

    if isinstance(lo, Tensor) or isinstance(hi, Tensor):
        raise Unsupported("clamp with tensor bounds")
    return unary(t, f)


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    ts = [x for x in (c, a, b) if isinstance(x, Tensor)]
    vs = [x for x in (a, b) if isinstance(x, Tensor)]
    dt = promote(vs) if vs else State.default
    for x in (a, b):
        if isinstance(x, (float, SymFloat)) and dt.kind < 2:
            dt = State.default
    if dt.kind == 1:
        raise Unsupported("where on integers")
    dims, maps = broadcast(ts)
    mp = {id(t): m for t, m in zip(ts, maps)}

    def g(x):
        if isinstance(x, Tensor):
            e, m = asreal(x), mp[id(x)]
            return lambda i: e(m(i))
        v = S(x)
        return lambda i: v

    gc, ga, gb = g(c), g(a), g(b)

    def e(i):
        k = gc(i)
        if k.is_const():
            return ga(i) if k.cval() else gb(i)
        return k * ga(i) + (S(1) - k) * gb(i)

    r = Tensor(dims, e, dt)
    for t in ts:
        r.tags = r.tags | t.tags
    return r


def maximum(a, b):
    return _nary([a, b], lambda x, y: x * gt0(x - y) + y * (S(1) - gt0(x - y)), promote([a, b]))


def minimum(a, b):
    return _nary([a, b], lambda x, y: y * gt0(x - y) + x * (S(1) - gt0(x - y)), promote([a, b]))


# ------------------------------------------------------------------ reductions
def sum_over(dims, f):
    """sum over all indices of dims of f(list of idx)"""
    combos = [([], [])]
    for d in dims:
        nxt = []
        opts = fresh_idx(d, "s")
        for idx, vs in combos:
            for k, (i, v) in enumerate(opts):
                if len(combos) > 1:
                    # fresh variables per combination
                    i, v = freshen(i, v)
                nxt.append((idx + [i], vs + v))
        combos = nxt
    r = SP()
    for idx, vs in combos:
        r = r + f(idx).sum(vs)
    return r


def freshen(i, vs):
    m = {}
    nv = []
    for v in vs:
        w = Var(v.name, v.size)
        m[v] = Poly.atom(w)
        nv.append(w)
    return subst_idx(i, m), nv


def tsum(t, dim=None, keepdim=False, dtype=None):
    if t.dtype is bool_ or t.isint:
        raise Unsupported("sum of integers")
    n = t.ndim
    if dim is None:
        ds = list(range(n))
    else:
        ds = [normdim(d, n) for d in (dim if isinstance(dim, (tuple, list)) else [dim])]
        if len(set(ds)) < len(ds):
            raise RuntimeError("dim appears multiple times in the list of dims")
    keep = [i for i in range(n) if i not in ds]
    if dtype is not None:  # the input is converted before it is reduced
        t = cast(t, dtype)
    src = t

    def e(idx):
        if keepdim:
            idx = [idx[i] for i in keep]
        base = dict(zip(keep, idx))

        def f(si):
            s = dict(zip(ds, si))
            return src.elem([base[i] if i in base else s[i] for i in range(n)])

        return sum_over([src.dims[i] for i in ds], f)

    dims = [Dim([]) if i in ds else src.dims[i] for i in range(n)] if keepdim else [src.dims[i] for i in keep]
    return t._new(dims, e)


NEUTRAL = {"device", "requires_grad", "layout", "pin_memory", "memory_format", "non_blocking"}


def kwargs_ok(k, name):
    """keyword arguments without influence on values and types; anything else has no contract here"""
    for a, v in k.items():
        if a not in NEUTRAL and not (a in ("out", "generator", "names") and v is None):
            raise Unsupported(f"{name}({a}=)")


def tmean(t, dim=None, keepdim=False, dtype=None, **k):
    kwargs_ok(k, "mean")
    if dtype is not None:
        t = cast(t, dtype)
    n = t.ndim
    ds = list(range(n)) if dim is None else [normdim(d, n) for d in (dim if isinstance(dim, (tuple, list)) else [dim])]
    cnt = ONE
    for d in ds:
        cnt = cnt * t.dims[d].size
    inv = S(1)
    for d in ds:
        for f in t.dims[d].facs:
            inv = inv * fn("inv", ipoly(f.size))
    return unary(tsum(t, dim, keepdim), lambda a: a * inv)


def norm(t, p=2, dim=None, keepdim=False, dtype=None, **k):
    kwargs_ok(k, "norm")
    if p not in (2, "fro", None, 2.0):
        raise Unsupported("norm p")
    if dtype is not None:
        t = cast(t, dtype)
    return unary(tsum(t * t, dim, keepdim), lambda a: fn("norm", a))


def logsumexp(t, dim, keepdim=False):
    return tsum(t.exp(), dim, keepdim).log()


def softmax(t, dim, dtype=None, _stacklevel=3, **k):
    kwargs_ok(k, "softmax")
    if dtype is not None:
        t = cast(t, dtype)
    e = t.exp()
    return e / tsum(e, dim, True)


def log_softmax(t, dim, dtype=None, _stacklevel=3, **k):
    kwargs_ok(k, "log_softmax")
    if dtype is not None:
        t = cast(t, dtype)
    return t - logsumexp(t, dim, True)


# ------------------------------------------------------------------ constructors
def _mk(shape, v, dtype=None):
    dt = dtype or State.default
    dims = [dim_of(s) for s in shape]
    for s in shape:
        if isinstance(s, int) and s < 0:
            raise RuntimeError("negative dimension")
    if dt.kind == 1:
        return Tensor(dims, lambda i: IV(P(v)), dt)
    return Tensor(dims, lambda i: S(v), dt)


def zeros(*s, dtype=None, device=None, requires_grad=False, size=None, out=None):
    return _mk(getshape(s if size is None else (size,)), 0, dtype)


def ones(*s, dtype=None, device=None, requires_grad=False, size=None, out=None):
    return _mk(getshape(s if size is None else (size,)), 1, dtype)


def full(s, v, dtype=None, device=None, **k):
    kwargs_ok(k, "full")
    if dtype is None:
        dtype = State.default if isinstance(v, (float, SymFloat)) else int64
    return _mk(tuple(s), v, dtype)


def empty(*s, dtype=None, device=None, **k):
    kwargs_ok(k, "empty")
    t = zeros(*s, dtype=dtype)
    nm = "uninit%d" % State.pcount
    State.pcount += 1
    t._set(lambda idx: tens(nm, flat_digits(idx)))
    return t


def _like(t, v, dtype):
    dt = dtype or t.dtype
    if dt.kind == 1:
        return Tensor(t.dims, lambda i: IV(P(v)), dt)
    return Tensor(t.dims, lambda i: S(v), dt)


def zeros_like(t, dtype=None, **k):
    kwargs_ok(k, "zeros_like")
    return _like(t, 0, dtype)


def ones_like(t, dtype=None, **k):
    kwargs_ok(k, "ones_like")
    return _like(t, 1, dtype)


def full_like(t, v, dtype=None, **k):
    kwargs_ok(k, "full_like")
    return _like(t, v, dtype)


def empty_like(t, dtype=None, **k):
    kwargs_ok(k, "empty_like")
    r = _like(t, 0, dtype)
    nm = "uninit%d" % State.pcount
    State.pcount += 1
    r._set(lambda idx: tens(nm, flat_digits(idx)))
    return r


def flat_digits(idx):
    """list of digit polys from tensor index (no cat)"""
    out = []

    def go(i):
        for x in i:
            if isinstance(x, Poly):
                out.append(x)
            elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int):
                out.append(P(x[0]))
                go(x[1])
            else:
                raise Unsupported("digits")

    for i in idx:
        go(i)
    return tuple(out)


def eq_digits(i, j):
    """constraints saying that two indices of the same Dim are equal; None if in different cat cases"""
    cs = []
    for a, b in zip(i, j):
        if isinstance(a, Poly):
            cs.append(C("eq", a - b))
        else:
            if a[0] != b[0]:
                return None
            r = eq_digits(a[1], b[1])
            if r is None:
                return None
            cs += r
    return cs


def eye(n, m=None, dtype=None, device=None, **k):
    kwargs_ok(k, "eye")
    d1 = dim_of(n)
    d2 = d1 if m is None else dim_of(m)
    if not (d1.size == d2.size or eqp(d1.size, d2.size)):
        raise Unsupported("rectangular eye")
    D, m1, m2 = unify(d1, d2)

    def e(idx):
        cs = eq_digits(idx[0], idx[1])
        return S(0) if cs is None else one_guard(cs)

    return Tensor([D, D], e, dtype or State.default)


def arange(*a, dtype=None, device=None, **k):
    kwargs_ok(k, "arange")
    if len(a) == 1:
        start, end, step = 0, a[0], 1
    elif len(a) == 2:
        start, end, step = a[0], a[1], 1
    else:
        start, end, step = a
    if step != 1:
        raise Unsupported("arange step")
    if isinstance(start, int) and start == 0:
        D = dim_of(end)
        return Tensor([D], lambda i: IV(flat_of(D, i[0]), D, i[0]), dtype or int64)
    D = dim_of(end - start)
    s = P(start)
    return Tensor([D], lambda i: IV(flat_of(D, i[0]) + s), dtype or int64)


def repeat_interleave(t, r, dim=None, output_size=None):
    if isinstance(r, Tensor):
        raise Unsupported("repeat_interleave tensor repeats")
    if dim is None:
        t = t.flatten()
        dim = 0
    d = normdim(dim, t.ndim)
    rd = dim_of(r)
    base = t.dims[d]
    n = len(base.facs)
    D = Dim(base.facs + rd.facs)
    src = t

    def e(idx):
        idx = list(idx)
        idx[d] = tuple(idx[d][:n])
        return src.elem(idx)

    return t._new(t.dims[:d] + [D] + t.dims[d + 1 :], e)


def diag_embed(t, offset=0, dim1=-2, dim2=-1):
    if offset != 0:
        raise Unsupported("diag_embed offset")
    n = t.ndim + 1
    a, b = normdim(dim1, n), normdim(dim2, n)
    if a == b:
        raise RuntimeError("diag_embed dims")
    D = t.dims[-1]
    rest = [i for i in range(n) if i not in (a, b)]
    dims = [None] * n
    for k, i in enumerate(rest):
        dims[i] = t.dims[k]
    dims[a] = dims[b] = D
    src = t

    def e(idx):
        cs = eq_digits(idx[a], idx[b])
        if cs is None:
            return S(0)
        return asreal(src)([idx[i] for i in rest] + [idx[a]]).guard(cs)

    return t._new(dims, e)


def diag(t, diagonal=0):
    if diagonal != 0:
        raise Unsupported("diag offset")
    if t.ndim == 1:
        return diag_embed(t)
    if t.ndim == 2:
        return t.diagonal()
    raise RuntimeError("diag expects 1d or 2d")


def diagonal(t, offset=0, dim1=0, dim2=1):
    return t.diagonal(offset, dim1, dim2)


def block_diag(*ts):
    if any(not isinstance(t, Tensor) or t.ndim != 2 for t in ts):
        raise Unsupported("block_diag of something else than matrices")
    rows = []
    for i, t in enumerate(ts):
        rows.append(cat([t if i == j else _mk([py_size(t.dims[0]), py_size(u.dims[1])], 0, t.dtype) for j, u in enumerate(ts)], 1))
    return cat(rows, 0)


def kron(a, b):
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("kron of something else than matrices")
    r = a.unsqueeze(1).unsqueeze(3) * b.unsqueeze(0).unsqueeze(2)
    return r.flatten(2, 3).flatten(0, 1)


def tensor(v, dtype=None, device=None, requires_grad=False):
    if isinstance(v, PYSCALAR):
        if dtype is None:
            dtype = State.default if isinstance(v, (float, SymFloat)) else int64
        if dtype.kind == 1:
            return Tensor([], lambda i: IV(P(v)), dtype)
        return Tensor([], lambda i: S(v), dtype)
    if isinstance(v, Tensor):
        return v.clone()
    if isinstance(v, (list, tuple)) and all(isinstance(x, PYSCALAR) for x in v):
        return stack([tensor(x, dtype) for x in v])
    raise Unsupported("torch.tensor of data")


def as_tensor(v, dtype=None, device=None):
    return v if isinstance(v, Tensor) else tensor(v, dtype)


def numel(t):
    return t.numel()


def bcast_to(o, shape):
    if not isinstance(o, Tensor):
        o = scalar(o)
    return o.expand(*shape)


# ------------------------------------------------------------------ cat / stack / split
def loop_elem(ts):
    """a list holding one representative element of a finished symbolic loop"""
    if len(ts) == 1 and isinstance(ts[0], Tensor):
        done = [v for v in ts[0].tags if v in LOOPDONE]
        if done:
            return done[0]
    if any(isinstance(t, Tensor) and any(v in LOOPDONE for v in t.tags) for t in ts):
        raise Unsupported("list mixes loop generated elements")
    return None


LOOPDONE = {}


def expand_loop(t, v, dim):
    """stack of the tensors t(v) for all v along a new axis dim"""
    D = Dim([AtomFac(v.size)])
    d = normdim(dim, t.ndim + 1)
    src = t

    def e(idx):
        i0 = idx[d][0] if idx[d] else ZERO
        old = State.expanding
        State.expanding = old + (v,)
        try:
            r = src.elem(list(idx[:d]) + list(idx[d + 1 :]))
        finally:
            State.expanding = old
        return r.subst({v: i0})

    r = Tensor(t.dims[:d] + [D] + t.dims[d:], e, t.dtype)
    for x in r.dims[:d] + r.dims[d + 1 :]:
        if v in x.size.atoms():
            raise Unsupported("ragged loop result")
    r.tags = t.tags - {v}
    return r


def cat(tensors, dim=0, axis=None, out=None):
    if axis is not None:
        dim = axis
    ts = list(tensors) if State.depth is None else State.depth.parts(tensors, dim)
    if not ts:
        raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    for t in ts:
        if not isinstance(t, Tensor):
            raise TypeError("cat(): expected Tensor, got " + type(t).__name__)
    lv = loop_elem(ts)
    if lv is not None:
        t = ts[0]
        d = normdim(dim, t.ndim)
        st = expand_loop(t, lv, d)
        # merge new axis with d
        a, b = st.dims[d], st.dims[d + 1]
        D = Dim(a.facs + b.facs)
        n = len(a.facs)
        return st._new(
            st.dims[:d] + [D] + st.dims[d + 2 :],
            lambda idx: st.elem(list(idx[:d]) + [tuple(idx[d][:n]), tuple(idx[d][n:])] + list(idx[d + 1 :])),
        )
    n = ts[0].ndim
    if any(t.ndim != n for t in ts):
        raise RuntimeError("Tensors must have same number of dimensions")
    d = normdim(dim, n)
    dims = []
    maps = [[] for _ in ts]
    for k in range(n):
        if k == d:
            dims.append(None)
            for m in maps:
                m.append(None)
            continue
        D = ts[0].dims[k]
        ms = [lambda i: i]
        for t in ts[1:]:
            same_size(D.size, t.dims[k].size, "Sizes of tensors in cat except in the concatenated dimension")
            N, m1, m2 = unify(D, t.dims[k])
            ms = [lambda i, f=f, m=m1: f(m(i)) for f in ms] + [m2]
            D = N
        dims.append(D)
        for m, f in zip(maps, ms):
            m.append(f)
    if len(ts) == 1:
        return ts[0].clone()
    parts = []
    where_ = []  # part number -> (tensor number, conversion of sub index)
    for q, t in enumerate(ts):
        td = t.dims[d]
        if len(td.facs) == 1 and isinstance(td.facs[0], CatFac):
            for j, p in enumerate(td.facs[0].parts):
                parts.append(p)
                where_.append((q, j))
        elif td.size.is_const() and td.size.cval() == 0:
            continue
        else:
            parts.append(td)
            where_.append((q, None))
    cf = CatFac(parts)
    dims[d] = Dim([cf])
    dt = promote(ts)
    ts2 = [cast(t, dt) if t.dtype is not dt else t for t in ts]

    def e(idx):
        k, sub = idx[d][0]
        q, j = where_[k]
        o = [None if m is None else m(i) for m, i in zip(maps[q], idx)]
        o[d] = sub if j is None else ((j, sub),)
        return ts2[q].elem(o)

    r = Tensor(dims, e, dt)
    for t in ts:
        r.tags = r.tags | t.tags
    return r


concat = concatenate = cat


def stack(tensors, dim=0):
    ts = list(tensors)
    if not ts:
        raise RuntimeError("stack expects a non-empty TensorList")
    lv = loop_elem(ts)
    if lv is not None:
        return expand_loop(ts[0], lv, dim)
    d = normdim(dim, ts[0].ndim + 1)
    for t in ts[1:]:
        if t.ndim != ts[0].ndim:
            raise RuntimeError("stack expects each tensor to be equal size")
    return cat([t.unsqueeze(d) for t in ts], d) if len(ts) > 1 else ts[0].unsqueeze(d).clone()


def hstack(ts):
    return cat(ts, 1 if ts[0].ndim > 1 else 0)


def vstack(ts):
    return cat(ts, 0)


def split(t, sz, dim=0):
    if not isinstance(sz, (list, tuple)):
        n = t.shape[dim]
        d = normdim(dim, t.ndim)
        if isinstance(sz, int) and sz == 1 and not isinstance(n, int):
            return SYMSEQ[0](n, lambda i: t[(slice(None),) * d + (slice(i, i + 1),)])
        if isinstance(sz, int) and sz > 0 and isinstance(n, int):
            sz = ([sz] * (n // sz) + ([n % sz] if n % sz else [])) or [0]
        elif implies(C("eq", P(n) - P(sz) * 2)):
            sz = [sz, sz]
        elif implies(C("ge", P(sz) - P(n))) and implies(C("ge", P(n) - 1)):
            sz = [n]
        else:
            raise Unsupported("split by chunk size")
    out, p = [], 0
    tot = 0
    for s in sz:
        need(C("ge", P(s)), "split_with_sizes expects split_sizes to be non-negative")
        ix = [slice(None)] * t.ndim
        ix[normdim(dim, t.ndim)] = slice(p, p + s)
        out.append(t[tuple(ix)])
        p = p + s
    same_size(P(p), t.dims[normdim(dim, t.ndim)].size, "split sizes")
    return tuple(out)


def need(c, msg):
    if not implies(c) and not decide(c):
        raise RuntimeError(msg)


# ------------------------------------------------------------------ indexing
def slice_dim(d, sl):
    """(new dim, map new idx -> old idx)"""
    n = d.size
    step = P(1 if sl.step is None else sl.step)
    if not implies(C("ge", step - 1)):
        if decide(C("ge", step - 1)):
            pass
        else:
            raise ValueError("slice step must be positive")
    a = sl.start
    b = sl.stop

    def norm_bound(x, default):
        if x is None:
            return default
        p = P(x)
        neg = p.cval() < 0 if p.is_const() else (not implies(C("ge", p)) and not decide(C("ge", p)))
        if neg:
            p = p + n
            if not (implies(C("ge", p)) or decide(C("ge", p))):
                p = ZERO
        if not (implies(C("ge", n - p)) or decide(C("ge", n - p))):
            p = n
        return p

    if len(d.facs) > 1 and isinstance(d.facs[0], CatFac):
        d2, mp = canon(d)
        nd, m = slice_dim(d2, sl)
        return nd, (lambda i: mp(m(i)))
    a = norm_bound(a, ZERO)
    b = norm_bound(b, n)
    if a == ZERO and step == ONE and (b == n or eqp(b, n)):
        return d, lambda i: i
    if not (implies(C("ge", b - a)) or decide(C("ge", b - a))):
        b = a
    if step != ONE:
        size = P(idiv(mkint(b - a + step - 1), mkint(step)))
        if size.is_const() and size.cval() == 1:
            return Dim([]), lambda i: from_flat(d, a)
        return Dim([AtomFac(size)]), lambda i: from_flat(d, a + i[0] * step)
    if len(d.facs) == 1 and isinstance(d.facs[0], CatFac):
        parts = d.facs[0].parts
        off = ZERO
        k0 = k1 = None
        pos = [ZERO]
        for p in parts:
            off = off + p.size
            pos.append(off)
        for k, p in enumerate(pos):
            if p == a or eqp(p, a):
                k0 = k
            if p == b or eqp(p, b):
                k1 = k
        if k0 is not None and k1 is not None and k0 <= k1:
            sub = parts[k0:k1]
            if len(sub) == 0:
                return Dim([AtomFac(0)]), lambda i: (_ for _ in ()).throw(Unsupported("empty"))
            if len(sub) == 1:
                return sub[0], (lambda i, k0=k0: ((k0, i),))
            return Dim([CatFac(sub)]), (lambda i, k0=k0: ((i[0][0] + k0, i[0][1]),))
    size = b - a
    if size.is_const() and size.cval() == 1:
        nd = Dim([])
        return nd, lambda i: from_flat(d, a)
    nd = Dim([AtomFac(size)])
    return nd, lambda i: from_flat(d, a + i[0])


def int_index(d, i):
    """old idx for an integer index"""
    p = P(i)
    n = d.size
    if p.is_const() and p.cval() < 0 or not implies(C("ge", p)) and not decide(C("ge", p)):
        p = p + n
    if not implies(C("ge", n - 1 - p)):
        if (n - 1 - p).is_const() or not decide(C("ge", n - 1 - p)):
            raise IndexError(f"index {p} is out of bounds for dimension with size {n}")
    if not implies(C("ge", p)):
        if p.is_const() or not decide(C("ge", p)):
            raise IndexError("index out of range")
    return from_flat(d, p)


def iv_index(d, iv):
    """idx into dim d from an integer tensor element"""
    if iv.dim is not None and [f.key() for f in iv.dim.facs] == [f.key() for f in d.facs]:
        return iv.idx
    p = iv.p
    if not (implies(C("ge", p)) and implies(C("ge", d.size - 1 - p))):
        raise Unsupported("index tensor not provably in range")
    return from_flat(d, p)


def norm_index(t, ix):
    if not isinstance(ix, tuple):
        ix = (ix,)
    n_used = sum(1 for x in ix if x is not None and x is not Ellipsis)
    if n_used > t.ndim:
        raise IndexError("too many indices for tensor")
    out = []
    seen = False
    for x in ix:
        if x is Ellipsis:
            out += [slice(None)] * (t.ndim - n_used)
            seen = True
        else:
            out.append(x)
    if not seen:
        out += [slice(None)] * (t.ndim - n_used)
    return out


def getitem(t, ix):
    if isinstance(ix, list):
        raise Unsupported("list index")
    if isinstance(ix, Tensor) and ix.dtype is bool_:
        raise Unsupported("boolean mask index")
    ix = norm_index(t, ix)
    if any(isinstance(x, (list,)) for x in ix):
        raise Unsupported("list index")
    if any(isinstance(x, Tensor) and not (x.ndim == 0) for x in ix):
        return adv_getitem(t, ix)
    src = t
    dims = []
    plan = []  # per source axis: ('s', outpos, map) | ('i', idx)
    ax = 0
    for x in ix:
        if x is None:
            dims.append(Dim([]))
            continue
        d = t.dims[ax]
        ax += 1
        if isinstance(x, slice):
            nd, m = slice_dim(d, x)
            plan.append(("s", len(dims), m))
            dims.append(nd)
        elif isinstance(x, (int, SymInt)) and not isinstance(x, bool):
            plan.append(("i", int_index(d, x), None))
        elif isinstance(x, Tensor):
            iv = x.elem([])
            plan.append(("i", iv_index(d, iv), None))
        elif isinstance(x, LoopIndex):
            plan.append(("i", from_flat(d, x.poly), None))
        else:
            raise Unsupported(f"index {type(x).__name__}")

    def e(idx):
        return src.elem([m(idx[p]) if k == "s" else p for k, p, m in plan])

    return t._view(dims, e)


class LoopIndex:
    pass


def adv_getitem(t, ix):
    if any(x is None for x in ix):
        raise Unsupported("None in advanced index")
    tpos = [k for k, x in enumerate(ix) if isinstance(x, Tensor)]
    ipos = [k for k, x in enumerate(ix) if isinstance(x, (int, SymInt))]
    if ipos:
        # select first
        sel = [x if isinstance(x, (int, SymInt)) else slice(None) for x in ix]
        t2 = getitem(t, tuple(sel))
        ix2 = [x for x in ix if not isinstance(x, (int, SymInt))]
        return adv_getitem(t2, ix2)
    its = [ix[k] for k in tpos]
    bd, maps = broadcast(its)
    contiguous = tpos == list(range(tpos[0], tpos[-1] + 1))
    src = t
    dims = []
    plan = {}
    nb = len(bd)
    slices = []
    at = None
    for k, x in enumerate(ix):
        if k in tpos:
            if contiguous and at is None:
                at = len(dims)
                dims += bd
            continue
        nd, m = slice_dim(t.dims[k], x)
        slices.append((k, len(dims), m))
        dims.append(nd)
    if not contiguous:
        at = 0
        dims = list(bd) + dims
        slices = [(k, p + nb, m) for k, p, m in slices]

    def e(idx):
        bidx = idx[at : at + nb]
        o = [None] * t.ndim
        for k, p, m in slices:
            o[k] = m(idx[p])
        for k, it, m in zip(tpos, its, maps):
            iv = it.elem(m(bidx))
            o[k] = iv_index(src.dims[k], iv)
        return src.elem(o)

    r = t._new(dims, e)
    return r


def gather(t, dim, index):
    d = normdim(dim, t.ndim)
    src = t
    maps = []
    for k in range(t.ndim):
        if k == d:
            maps.append(None)
            continue
        same_size(t.dims[k].size, index.dims[k].size, "gather")
        D, m1, m2 = unify(index.dims[k], t.dims[k])
        if D != index.dims[k]:
            raise Unsupported("gather layout")
        maps.append(m2)

    def e(idx):
        o = [m(i) if m else None for m, i in zip(maps, idx)]
        o[d] = iv_index(src.dims[d], index.elem(idx))
        return src.elem(o)

    return t._new(index.dims, e)


def scatter(t, dim, index, val, accumulate):
    """t[..., index[...], ...] (+)= val with matching other axes"""
    d = normdim(dim, t.ndim)
    if not isinstance(val, Tensor):
        raise Unsupported("scatter scalar")
    ixs = []
    for k in range(t.ndim):
        if k == d:
            ixs.append(index)
        else:
            sh = [1] * t.ndim
            D = index.dims[k]
            sh[k] = py_size(D)
            tt = Tensor([Dim([]) if q != k else D for q in range(t.ndim)], lambda i, k=k, D=D: IV(flat_of(D, i[k]), D, i[k]), int64)
            ixs.append(tt)
    return index_put_(t, tuple(ixs), val, accumulate)


def index_put_(t, indices, values, accumulate=False):
    its = list(indices)
    if any(not isinstance(x, Tensor) or x.dtype.kind != 1 for x in its):
        raise Unsupported("index_put_ indices")
    if not isinstance(values, Tensor):
        values = scalar(values)
        values.dtype = t.dtype
    if values.dtype is not t.dtype:
        raise RuntimeError("Index put requires the source and destination dtypes match")
    bd, maps = broadcast(its)
    k = len(its)
    rest = t.dims[k:]
    # values broadcast to bd + rest
    target = Tensor(list(bd) + list(rest), lambda i: S(0), t.dtype)
    vdims, vmaps = broadcast([target, values])
    if len(vdims) != len(bd) + len(rest):
        raise RuntimeError("shape mismatch: value tensor cannot be broadcast to indexing result")
    for a, b in zip(vdims[: len(bd)], bd):
        if a != b:
            raise Unsupported("index_put_ layout")
    for a, b in zip(vdims[len(bd) :], rest):
        if a != b:
            raise Unsupported("index_put_ layout")
    old = t._old()
    src_e = values.elem
    odims = t.dims[:k]

    def hits(idx, f):
        def g(bi):
            cs = []
            for q in range(k):
                iv = its[q].elem(maps[q](bi))
                ii = iv_index(odims[q], iv)
                c = eq_digits(ii, idx[q])
                if c is None:
                    return SP()
                cs += c
            return f(bi).guard(cs)

        return sum_over(bd, g)

    if accumulate:
        t._write(lambda idx: old.elem(idx) + hits(idx, lambda bi: src_e(vmaps[1](list(bi) + list(idx[k:])))))
        return t
    # assignment: only when the positions are provably distinct
    if not injective(its, maps, bd, odims):
        raise Unsupported("assignment through possibly repeated index positions")
    t._write(
        lambda idx: old.elem(idx) * (S(1) - hits(idx, lambda bi: S(1)))
        + hits(idx, lambda bi: src_e(vmaps[1](list(bi) + list(idx[k:]))))
    )
    return t


def injective(its, maps, bd, odims):
    o1 = [fresh_idx(d) for d in bd]
    o2 = [fresh_idx(d) for d in bd]
    if any(len(x) != 1 for x in o1):
        return False
    i1 = [x[0][0] for x in o1]
    i2 = [x[0][0] for x in o2]
    cs = []
    for it, m, od in zip(its, maps, odims):
        a, b = iv_index(od, it.elem(m(i1))), iv_index(od, it.elem(m(i2)))
        c = eq_digits(a, b)
        if c is None:
            return True
        cs += c
    for d, a, b in zip(bd, i1, i2):
        for c in eq_digits(a, b):
            if _ctx.ctx().check(cs + [c.neg()]) != "unsat":
                return False
    return True


def setitem(t, ix, v):
    if isinstance(ix, Tensor) and ix.dtype is bool_:
        r = where(ix, v, t._old())
        t._inplace(r)
        return
    ix = norm_index(t, ix)
    if any(isinstance(x, Tensor) for x in ix):
        if all(isinstance(x, Tensor) for x in ix[: sum(isinstance(x, Tensor) for x in ix)]):
            k = sum(isinstance(x, Tensor) for x in ix)
            if all(isinstance(x, slice) and x == slice(None) for x in ix[k:]):
                vv = v
                if isinstance(v, Tensor) and v.dtype is not t.dtype:
                    vv = cast(v, t.dtype)
                index_put_(t, tuple(ix[:k]), vv, False)
                return
        raise Unsupported("advanced setitem")
    if any(x is None for x in ix):
        raise Unsupported("None in setitem")
    # region: list per axis
    tgt_dims = []
    plan = []
    for d, x in zip(t.dims, ix):
        if isinstance(x, slice):
            nd, m = slice_dim(d, x)
            full_ = nd is d
            plan.append(("s", len(tgt_dims), None if full_ else x, d, nd))
            tgt_dims.append(nd)
        elif isinstance(x, (int, SymInt)):
            plan.append(("i", int_index(d, x), None, d, None))
        else:
            raise Unsupported("setitem index")
    val = v if isinstance(v, Tensor) else scalar(v)
    if val.dtype.kind == 2 and t.dtype.kind == 2 and val.dtype is not t.dtype:
        if isinstance(v, Tensor):
            val = cast(val, t.dtype)
    # torch setitem drops leading unit dims of the value
    while val.ndim > len(tgt_dims) and val.dims[0].size == ONE:
        val = val.squeeze(0)
    target = Tensor(tgt_dims, lambda i: S(0), t.dtype)
    vd, vm = broadcast([target, val])
    if len(vd) != len(tgt_dims):
        raise RuntimeError("shape mismatch in setitem")
    for a, b in zip(vd, tgt_dims):
        if a != b:
            # value has a finer layout: refine target axis when it is a whole axis
            pass
    tm = vm[0]
    old = t._old()
    src_e = asreal(val)
    new_dims = list(t.dims)
    # adopt finer layout on whole axes
    remap = {}
    for k, pl in enumerate(plan):
        if pl[0] == "s" and pl[2] is None and vd[pl[1]] != t.dims[k]:
            D, m1, m2 = unify(t.dims[k], vd[pl[1]])
            new_dims[k] = D
            remap[k] = (m1, m2)
    loops = [l for l in State.loops]

    def e(idx):
        cs = []
        tidx = [None] * len(tgt_dims)
        oidx = list(idx)
        for k, pl in enumerate(plan):
            i = idx[k]
            if k in remap:
                oidx[k] = remap[k][0](i)
                tidx[pl[1]] = remap[k][1](i)
                continue
            if pl[0] == "i":
                c = eq_digits(i, pl[1])
                if c is None:
                    return old.elem(oidx)
                cs += c
            elif pl[2] is None:
                tidx[pl[1]] = i
            else:
                a = ZERO if pl[2].start is None else P(pl[2].start)
                nd = pl[4]
                f = flat_of(pl[3], i)
                cs += [C("ge", f - a), C("ge", a + nd.size - 1 - f)]
                tidx[pl[1]] = (f - a,) if nd.facs else ()
        nv = src_e(vm[1](tidx))
        if not cs:
            return nv
        g = one_guard(cs)
        ov = old.elem(oidx)
        return nv * g + (ov - ov * g)

    lw = [l for l in loops if l.var not in t.tags]
    if lw:
        l = lw[-1]
        if len(lw) > 1:
            raise Unsupported("nested loop writes")
        # independent iterations: position indexed by the loop variable
        ok = False
        for k, pl in enumerate(plan):
            if pl[0] == "i" and len(pl[1]) == 1 and pl[1][0] == Poly.atom(l.var):
                ok = True
                axis = k
        if not ok or any(pl[0] == "s" and pl[2] is not None for pl in plan):
            raise Unsupported("loop write pattern")
        l.pending.append((t, axis, val, plan, vm, remap, new_dims))
        l.written.add(id(t.store))
        t.dims = new_dims
        v_ = l.var
        same = P(l.var.size)

        def e2(idx):
            tidx = [None] * len(tgt_dims)
            oidx = list(idx)
            cs = []
            for k, pl in enumerate(plan):
                i = idx[k]
                if k in remap:
                    oidx[k] = remap[k][0](i)
                    tidx[pl[1]] = remap[k][1](i)
                elif pl[0] == "i":
                    if k != axis:
                        c = eq_digits(i, pl[1])
                        cs += c
                else:
                    tidx[pl[1]] = i
            p = idx[axis][0] if idx[axis] else ZERO
            oldx = State.expanding
            State.expanding = oldx + (v_,)
            try:
                nv = src_e(vm[1](tidx)).subst({v_: p})
            finally:
                State.expanding = oldx
            if not (t.dims[axis].size == same or eqp(t.dims[axis].size, same)):
                cs = cs + [C("ge", same - 1 - p)]
            if not cs:
                return nv
            g = one_guard(cs)
            ov = old.elem(oidx)
            return nv * g + (ov - ov * g)

        # readers inside the loop body must not see it
        if t.store.log and t.store.log[-1] > t.hist[-1][0]:
            raise Unsupported("write through a stale alias")
        if id(t) in [id(g) for g in l.guarded] or State.now is not None:
            raise Unsupported("tensor written twice by a loop body")
        if t.store.origin is not None:
            State.writes.append(t.store.origin)
        State.written.setdefault(v_, set()).add(t.store)
        t._content(e2)
        l.guarded.append(t)
        return
    t.dims = new_dims
    t._write(e)


# ------------------------------------------------------------------ einsum / matmul
def einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    if isinstance(eq, Tensor):  # operand, sublist, operand, sublist, ..., [output sublist]
        a = (eq,) + tuple(ops)
        subs = [a[k] for k in range(1, len(a), 2)]
        out_ = [a[-1]] if len(a) % 2 else []
        subs = subs[: len(a) // 2]
        if any(not isinstance(c, int) or c > 25 for l in subs + out_ for c in l):
            raise Unsupported("einsum sublist format")
        f = lambda l: "".join(chr(97 + c) for c in l)
        eq, ops = ",".join(f(l) for l in subs) + ("->" + f(out_[0]) if out_ else ""), a[: 2 * len(subs) : 2]
    if not isinstance(eq, str):
        raise Unsupported("einsum sublist format")
    eq = eq.replace(" ", "")
    if "->" in eq:
        lhs, rhs = eq.split("->")
    else:
        lhs, rhs = eq, None
    subs = lhs.split(",")
    if len(subs) != len(ops):
        raise RuntimeError("einsum(): more operands were provided than specified in the equation")
    for o in ops:
        if not isinstance(o, Tensor):
            raise TypeError("einsum(): operand must be Tensor")
    dt = ops[0].dtype
    if any(o.dtype is not dt for o in ops):
        o_ = lhs.split(",")
        if "->" not in eq or "." in eq or not any(o_[0].count(c) == 1 and all(c in p for p in o_) for c in set(o_[0]) - set(rhs)) or any(P(d.size) == ONE for o in ops for d in o.dims):
            raise Unsupported("einsum of mixed types")
        raise RuntimeError("expected scalar type mismatch in einsum")
    if dt.kind != 2:
        raise Unsupported("einsum of integers")
    ell = 0
    parsed = []
    for s, o in zip(subs, ops):
        if "..." in s:
            a, b = s.split("...")
            n = o.ndim - len(a) - len(b)
            if n < 0:
                raise RuntimeError("einsum(): dims mismatch")
            ell = max(ell, n)
            parsed.append((list(a), n, list(b)))
        else:
            if len(s) != o.ndim:
                raise RuntimeError(
                    f"einsum(): the number of subscripts in the equation ({len(s)}) does not match the number of dimensions ({o.ndim}) for operand"
                )
            parsed.append((list(s), 0, []))
    labels = []
    for a, n, b in parsed:
        labels.append(a + ["." + str(ell - n + k) for k in range(n)] + b)
    if rhs is None:
        cnt = {}
        for l in labels:
            for x in l:
                cnt[x] = cnt.get(x, 0) + 1
        out = ["." + str(k) for k in range(ell)] + sorted(x for x, c in cnt.items() if c == 1 and not x.startswith("."))
    else:
        if "..." in rhs:
            a, b = rhs.split("...")
            out = list(a) + ["." + str(k) for k in range(ell)] + list(b)
        else:
            out = list(rhs)
    for x in out:
        if not any(x in l for l in labels):
            raise RuntimeError(f"einsum(): output subscript {x} does not appear")
    if len(set(out)) != len(out):
        raise RuntimeError("einsum(): repeated output subscript")
    # unify label dims
    ld = {}
    occ = {}  # (op, pos) -> map
    for o, l in enumerate(labels):
        for p, x in enumerate(l):
            d = ops[o].dims[p]
            if x not in ld:
                ld[x] = d
                occ[(o, p)] = lambda i: i
                continue
            D = ld[x]
            if x in l[:p]:
                same_size(ops[o].dims[l.index(x)].size, d.size, f"einsum(): subscript {x} is repeated for operand {o}")
            if d.size == ONE and D.size != ONE:
                occ[(o, p)] = lambda i: ()
                continue
            if D.size == ONE and d.size != ONE:
                for (oo, pp), f in list(occ.items()):
                    if labels[oo][pp] == x:
                        occ[(oo, pp)] = lambda i: ()
                ld[x] = d
                occ[(o, p)] = lambda i: i
                continue
            if not eqp(D.size, d.size) and not implies(C("eq", D.size - d.size)) and not ((D.size - d.size).is_const() or decide(C("eq", D.size - d.size))):
                # unequal sizes: one of them has to be 1
                if not implies(C("ge", D.size - 2)) and decide(C("eq", D.size - 1)):
                    for (oo, pp), f in list(occ.items()):
                        if labels[oo][pp] == x:
                            occ[(oo, pp)] = lambda i, f=f, z=zero_idx(D): f(z)
                    ld[x] = d
                    occ[(o, p)] = lambda i: i
                    continue
                if not implies(C("ge", d.size - 2)) and decide(C("eq", d.size - 1)):
                    occ[(o, p)] = lambda i, z=zero_idx(d): z
                    continue
            same_size(D.size, d.size, f"einsum(): subscript {x}")
            N, m1, m2 = unify(D, d)
            for (oo, pp), f in list(occ.items()):
                if labels[oo][pp] == x:
                    occ[(oo, pp)] = lambda i, f=f, m=m1: f(m(i))
            occ[(o, p)] = m2
            ld[x] = N
    red = []
    for l in labels:
        for x in l:
            if x not in out and x not in red:
                red.append(x)
    es = [o.elem for o in ops]

    def e(idx):
        base = dict(zip(out, idx))

        def f(si):
            b = dict(base)
            b.update(zip(red, si))
            r = None
            for o, l in enumerate(labels):
                v = es[o]([occ[(o, p)](b[x]) for p, x in enumerate(l)])
                r = v if r is None else r * v
                if not r.t:
                    return r
            return r

        return sum_over([ld[x] for x in red], f)

    r = Tensor([ld[x] for x in out], e, dt, store=ops[0].store if len(ops) == 1 and not red else None)
    for o in ops:
        r.tags = r.tags | o.tags
    return r


def matmul(a, b):
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        raise TypeError("matmul")
    if not a.dims or not b.dims:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    same_size(a.dims[-1].size, b.dims[0 if b.ndim == 1 else -2].size, "mat1 and mat2 shapes")
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", a, b)
    if a.ndim == 1:
        return einsum("i,...ij->...j", a, b)
    if b.ndim == 1:
        return einsum("...ij,j->...i", a, b)
    return einsum("...ij,...jk->...ik", a, b)


def mm(a, b):
    if a.ndim != 2 or b.ndim != 2:
        raise RuntimeError("mm expects matrices")
    return matmul(a, b)


def bmm(a, b):
    if a.ndim != 3 or b.ndim != 3:
        raise RuntimeError("batch1 must be a 3D tensor")
    same_size(a.dims[0].size, b.dims[0].size, "bmm batch")
    return matmul(a, b)


def baddbmm(i, a, b, beta=1, alpha=1):
    return i * beta + bmm(a, b) * alpha


def outer(a, b):
    return einsum("i,j->ij", a, b)


def tensordot(a, b, dims=2, out=None):
    if isinstance(dims, int):
        da, db = list(range(a.ndim - dims, a.ndim)), list(range(dims))
    else:
        da, db = [[d] if isinstance(d, int) else list(d) for d in dims]
    da, db = [normdim(d, a.ndim) for d in da], [normdim(d, b.ndim) for d in db]
    if len(da) != len(db):
        raise RuntimeError("both dimension lists should have same length")
    la = [chr(97 + k) for k in range(a.ndim)]
    lb = [chr(110 + k) for k in range(b.ndim)]
    for i, j in zip(da, db):
        lb[j] = la[i]
    out_ = [c for k, c in enumerate(la) if k not in da] + [c for k, c in enumerate(lb) if k not in db]
    return einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out_), a, b)


# ------------------------------------------------------------------ convolution
def pair(x):
    if isinstance(x, (tuple, list)):
        if len(x) == 1:
            return (x[0], x[0])
        return tuple(x)
    return (x, x)


def mksize(p, what="output size"):
    """Dim of a computed size: reuse a provably equal known size"""
    p = P(p)
    if p.is_const():
        if p.cval() <= 0:
            raise RuntimeError(f"{what}: non positive ({p})")
        return atom_dim(p)
    if not implies(C("ge", p - 1)):
        if not decide(C("ge", p - 1)):
            raise RuntimeError(f"{what}: Kernel size can't be greater than actual input size ({p})")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1:
            return Dim([AtomFac(Poly.atom(a)) for a in m]) if len(m) > 1 else atom_dim(p)
    for a in list(_ctx.ctx_sizes()):
        if eqp(Poly.atom(a), p):
            return atom_dim(Poly.atom(a))
    if _ctx.ctx().implies(C("eq", p - 1)):
        return Dim([])
    a = SizeAtom("o_" + re.sub(r"[^A-Za-z0-9_+*-]", "", str(p)))
    _ctx.ctx().facts.append(C("eq", Poly.atom(a) - p))
    _ctx.ctx().defs[a] = p
    _ctx.ctx().sizes.append(a)
    return atom_dim(Poly.atom(a))


def conv_checks(input, weight, bias):
    for t in (input, weight) + ((bias,) if bias is not None else ()):
        if not isinstance(t, Tensor):
            raise TypeError("conv2d: expected Tensor")
    if input.ndim != 4 or weight.ndim != 4:
        raise (Unsupported if input.ndim == 3 else RuntimeError)("Expected 3D (unbatched) or 4D (batched) input")
    if input.dtype is not weight.dtype or (bias is not None and bias.dtype is not input.dtype):
        raise RuntimeError("Input type and weight type should be the same")


def sym_pos(p, what):
    for x in p:
        if isinstance(x, int):
            if x <= 0:
                raise RuntimeError(f"non-positive {what} is not supported")
        elif not implies(C("ge", P(x) - 1)):
            if not decide(C("ge", P(x) - 1)):
                raise RuntimeError(f"non-positive {what} is not supported")


def sym_nonneg(p, what):
    for x in p:
        if isinstance(x, int):
            if x < 0:
                raise RuntimeError(f"negative {what} is not supported")
        elif not implies(C("ge", P(x))):
            if not decide(C("ge", P(x))):
                raise RuntimeError(f"negative {what} is not supported")


def group_split(d, g):
    """split axis d as [g, d/g]: (group dim facs count, dims) or raises"""
    if isinstance(g, int) and g == 1:
        return Dim([]), d, lambda gi, i: i
    dims, back = regroup(list(d.facs), [P(g), d.size.divexact(P(g)) if d.size.divexact(P(g)) is not None else P(g)])
    return dims[0], dims[1], lambda gi, i: tuple(back([gi, i]))


def conv2d(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
    conv_checks(input, weight, bias)
    if isinstance(padding, str):
        raise Unsupported("string padding")
    st, pd, dl = pair(stride), pair(padding), pair(dilation)
    sym_pos(st, "stride")
    sym_nonneg(pd, "padding")
    N, Ci, H, W = input.dims
    Co, Cg, KH, KW = weight.dims
    g = groups
    if isinstance(g, int) and g == 1:
        same_size(Ci.size, Cg.size, "Given groups=1, expected input channels")
        gD, coD, cob = Dim([]), Co, None
        D, mi, mw = unify(Ci, Cg)
        fwd_in = lambda gi, i: mi(i)
    else:
        same_size(Ci.size, Cg.size * P(g), "input channels with groups")
        if Co.size.divexact(P(g)) is None:
            if Co.size.is_const() and P(g).is_const():
                raise RuntimeError("output channels not divisible by groups")
            raise Unsupported("groups")
        gD, coD, cob = group_split(Co, g)
        gI, ciD, cib = group_split(Ci, g)
        D, m1, mw = unify(ciD, Cg)
        fwd_in = lambda gi, i: cib(gi, m1(i))
    OH = mksize(idiv_p(H.size + 2 * P(pd[0]) - P(dl[0]) * (KH.size - 1) - 1, P(st[0])) + 1, "conv2d")
    OW = mksize(idiv_p(W.size + 2 * P(pd[1]) - P(dl[1]) * (KW.size - 1) - 1, P(st[1])) + 1, "conv2d")
    src, w = input, weight
    if isinstance(g, int) and g == 1:
        outC = Co
        split_out = lambda i: ((), i)
        join_w = lambda gi, i: i
    else:
        outC = Dim(gD.facs + coD.facs)
        ng = len(gD.facs)
        split_out = lambda i: (i[:ng], i[ng:])
        join_w = lambda gi, i: cob(gi, i)

    def same_axis(s, p, KD, dim):
        """kernel size 1, stride 1, no padding: the axis is kept as it is"""
        return P(s) == ONE and not P(p).t and not KD.facs and dim.facs

    if same_axis(st[0], pd[0], KH, H):
        OH = H
    if same_axis(st[1], pd[1], KW, W):
        OW = W

    def pos(y, k, s, d, p, dim, OD, KD, dig):
        if same_axis(s, p, KD, dim):
            return tuple(dig), []
        q = y * P(s) + k * P(d) - P(p)
        cs = []
        if not implies(C("ge", q)):
            cs.append(C("ge", q))
        if not implies(C("ge", dim.size - 1 - q)):
            cs.append(C("ge", dim.size - 1 - q))
        if len(dim.facs) == 1 and isinstance(dim.facs[0], AtomFac):
            return (q,), cs
        if not dim.facs:
            return (), [C("eq", q)] if q.t else []
        if cs:
            raise Unsupported("padded convolution over a structured axis")
        return from_flat(dim, q), cs

    def e(idx):
        n, co, y, x = idx
        gi, ci_ = split_out(co)

        def f(si):
            c, kh, kw = si
            py, c1 = pos(flat_of(OH, y), flat_of(KH, kh), st[0], dl[0], pd[0], H, OH, KH, y)
            px, c2 = pos(flat_of(OW, x), flat_of(KW, kw), st[1], dl[1], pd[1], W, OW, KW, x)
            return (src.elem([n, fwd_in(gi, c), py, px]) * w.elem([join_w(gi, ci_), mw(c), kh, kw])).guard(c1 + c2)

        r = sum_over([D, KH, KW], f)
        if bias is not None:
            r = r + bias.elem([bmap(join_w(gi, ci_))])
        return r

    if bias is not None:
        same_size(bias.dims[0].size, Co.size, "conv bias")
        BD, bm1, bm2 = unify(Co, bias.dims[0])
        if BD != Co:
            raise Unsupported("bias layout")
        bmap = bm2
    r = Tensor([N, outC, OH, OW], e, input.dtype)
    r.tags = r.tags | input.tags | weight.tags
    return r


def idiv_p(a, b):
    if b == ONE:
        return a
    return P(idiv(mkint(a), mkint(b)))


def conv_transpose2d(input, weight, bias=None, stride=1, padding=0, output_padding=0, groups=1, dilation=1):
    conv_checks(input, weight, bias)
    st, pd, dl, op = pair(stride), pair(padding), pair(dilation), pair(output_padding)
    sym_pos(st, "stride")
    sym_nonneg(pd, "padding")
    N, Co, H, W = input.dims
    Cw, Cig, KH, KW = weight.dims
    same_size(Co.size, Cw.size, "conv_transpose2d channels")
    UD, mi, mw = unify(Co, Cw)
    g = groups
    if isinstance(g, int) and g == 1:
        redC = UD
        outC = Cig
        parts = lambda ci, c: (mi(c), mw(c), ci)
    else:
        gD, coD, cob = group_split(UD, g)
        redC = coD
        outC = Dim(gD.facs + Cig.facs)
        ng = len(gD.facs)
        parts = lambda ci, c: (mi(cob(ci[:ng], c)), mw(cob(ci[:ng], c)), ci[ng:])
    OH = mksize((H.size - 1) * P(st[0]) - 2 * P(pd[0]) + P(dl[0]) * (KH.size - 1) + P(op[0]) + 1, "conv_transpose2d")
    OW = mksize((W.size - 1) * P(st[1]) - 2 * P(pd[1]) + P(dl[1]) * (KW.size - 1) + P(op[1]) + 1, "conv_transpose2d")
    src, w = input, weight

    def e(idx):
        n, ci, y, x = idx

        def f(si):
            c, h, ww, kh, kw = si
            a, b, o = parts(ci, c)
            cs = [
                C("eq", flat_of(H, h) * P(st[0]) + flat_of(KH, kh) * P(dl[0]) - P(pd[0]) - flat_of(OH, y)),
                C("eq", flat_of(W, ww) * P(st[1]) + flat_of(KW, kw) * P(dl[1]) - P(pd[1]) - flat_of(OW, x)),
            ]
            return (src.elem([n, a, h, ww]) * w.elem([b, o, kh, kw])).guard(cs)

        r = sum_over([redC, H, W, KH, KW], f)
        if bias is not None:
            r = r + bias.elem([ci])
        return r

    r = Tensor([N, outC, OH, OW], e, input.dtype)
    r.tags = r.tags | input.tags | weight.tags
    return r


def kdim(k):
    """axis of a kernel size given as a number"""
    p = P(k)
    if p == ONE or implies(C("eq", p - 1)):
        return Dim([])
    if not implies(C("ge", p - 1)) and not decide(C("ge", p - 1)):
        raise RuntimeError("kernel size should be greater than zero")
    return atom_dim(p)


def unfold(input, kernel_size, dilation=1, padding=0, stride=1):
    if input.ndim != 4:
        raise (Unsupported if input.ndim == 3 else RuntimeError)("unfold of an unbatched input")
    ks, dl, pd, st = pair(kernel_size), pair(dilation), pair(padding), pair(stride)
    sym_pos(st, "stride")
    sym_nonneg(pd, "padding")
    N, Ci, H, W = input.dims
    K = [kdim(k) for k in ks]
    O = [mksize(idiv_p(D.size + 2 * P(pd[j]) - P(dl[j]) * (K[j].size - 1) - 1, P(st[j])) + 1, "unfold") for j, D in enumerate((H, W))]
    for D in (H, W):
        if len(D.facs) > 1 or D.facs and not isinstance(D.facs[0], AtomFac):
            raise Unsupported("unfold over a structured axis")
    KD, OD = Dim(Ci.facs + K[0].facs + K[1].facs), Dim(O[0].facs + O[1].facs)
    src = input

    def e(idx):
        n, ck, l = idx
        a, b = len(Ci.facs), len(Ci.facs) + len(K[0].facs)
        c, k = ck[:a], (ck[a:b], ck[b:])
        o = (l[: len(O[0].facs)], l[len(O[0].facs) :])
        cs, ps = [], []
        for j, D in enumerate((H, W)):
            q = flat_of(O[j], o[j]) * P(st[j]) + flat_of(K[j], k[j]) * P(dl[j]) - P(pd[j])
            if not D.facs:
                cs += [C("eq", q)] if q.t else []
                ps.append(())
                continue
            cs += [c_ for c_ in (C("ge", q), C("ge", D.size - 1 - q)) if not implies(c_)]
            ps.append((q,))
        return src.elem([n, c] + ps).guard(cs)

    r = Tensor([N, KD, OD], e, input.dtype)
    r.tags = r.tags | input.tags
    return r


def fold(input, output_size, kernel_size, dilation=1, padding=0, stride=1):
    if input.ndim != 3:
        raise (Unsupported if input.ndim == 2 else RuntimeError)("fold of an unbatched input")
    hw, ks, dl, pd, st = pair(output_size), pair(kernel_size), pair(dilation), pair(padding), pair(stride)
    sym_pos(st, "stride")
    sym_nonneg(pd, "padding")
    N, CK, L = input.dims
    K = [kdim(k) for k in ks]
    HW = [kdim(k) for k in hw]
    O = [mksize(idiv_p(D.size + 2 * P(pd[j]) - P(dl[j]) * (K[j].size - 1) - 1, P(st[j])) + 1, "fold") for j, D in enumerate(HW)]
    same_size(L.size, O[0].size * O[1].size, "fold: number of blocks")
    kk = K[0].size * K[1].size
    cn = CK.size.divexact(kk)
    if cn is None:
        raise Unsupported("fold: channels")
    (cD, k0, k1), backk = regroup(list(CK.facs), [cn, K[0].size, K[1].size])
    (o0, o1), backo = regroup(list(L.facs), [O[0].size, O[1].size])
    src = input

    def e(idx):
        n, c, y, x = idx

        def f(si):
            a, b, u, v = si
            cs = []
            for j, (kd, ki, od, oi, d, i) in enumerate(((k0, a, o0, u, HW[0], y), (k1, b, o1, v, HW[1], x))):
                cs.append(C("eq", flat_of(od, oi) * P(st[j]) + flat_of(kd, ki) * P(dl[j]) - P(pd[j]) - flat_of(d, i)))
            return src.elem([n, tuple(backk([c, a, b])), tuple(backo([u, v]))]).guard(cs)

        return sum_over([k0, k1, o0, o1], f)

    r = Tensor([N, cD, HW[0], HW[1]], e, input.dtype)
    r.tags = r.tags | input.tags
    return r


def _cfg(x):
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(_cfg(y) for y in x) + ")"
    if isinstance(x, SymInt):
        return x.poly.skey()
    return str(x)


def max_pool2d(input, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
    if input.ndim != 4:
        raise Unsupported("max_pool2d on unbatched input")
    if stride is None or (isinstance(stride, (list, tuple)) and len(stride) == 0):
        stride = kernel_size
    key = "|".join(_cfg(pair(z)) for z in (kernel_size, stride, padding, dilation)) + "|" + str(bool(ceil_mode))
    N, Cc, H, W = input.dims
    OH = SizeAtom(f"ph[{H.size.skey()};{key}]")
    OW = SizeAtom(f"pw[{W.size.skey()};{key}]")
    for a in (OH, OW):
        if a not in _ctx.ctx().sizes:
            _ctx.ctx().sizes.append(a)
    OHd, OWd = atom_dim(Poly.atom(OH)), atom_dim(Poly.atom(OW))
    ck = content_key(input)
    src = input
    whole = Dim(H.facs + W.facs)
    nm = f"{ck}|{key}"
    nm = "pool%d" % POOLNAMES.setdefault(nm, len(POOLNAMES))
    nh = len(H.facs)

    def dig(idx):
        a = flat_digits(idx)
        out = []
        for k, f in enumerate(whole.facs):
            if not isinstance(f, AtomFac):
                raise Unsupported("pool over concatenated axis")
            out.append(Poly.atom(IApp(f"{nm}_{k}", a, f.size)))
        return tuple(out)

    def val(idx):
        d = dig(idx)
        return src.elem([idx[0], idx[1], d[:nh], d[nh:]])

    v = Tensor([N, Cc, OHd, OWd], val, input.dtype)
    v.tags = v.tags | input.tags

    def ind(idx):
        d = dig(idx)
        return IV(flat_of(whole, d), whole, d)

    i = Tensor([N, Cc, OHd, OWd], ind, int64)
    i.tags = i.tags | input.tags
    return (v, i) if return_indices else v


POOLNAMES = {}


def interpolate(input, size=None, scale_factor=None, mode="nearest", align_corners=None, recompute_scale_factor=None, antialias=False):
    if mode in ("nearest", "nearest-exact", "area") and align_corners is not None:
        raise ValueError("align_corners option can only be set with the interpolating modes")
    if size is not None and scale_factor is not None:
        raise ValueError("only one of size or scale_factor should be defined")
    if mode not in ("nearest", "nearest-exact") or input.ndim != 4 or (size is None and scale_factor is None):
        raise Unsupported(f"interpolate {mode}")
    if size is not None or any(isinstance(s, float) and not s.is_integer() for s in pair(scale_factor)):
        return _interp_any(input, size, scale_factor, mode, recompute_scale_factor)
    sfs = pair(scale_factor)
    ss = []
    for s in sfs:
        if isinstance(s, SymFloat):
            s = s.as_int()
        if isinstance(s, float):
            if not s.is_integer():
                raise Unsupported("fractional scale")
            s = int(s)
        ss.append(s)
    N, Cc, H, W = input.dims
    for s in ss:
        need(C("ge", P(s) - 1), "Input and output sizes should be greater than 0")
    d1, d2 = dim_of(ss[0]), dim_of(ss[1])
    OH, OW = Dim(H.facs + d1.facs), Dim(W.facs + d2.facs)
    src = input

    def e(idx):
        return src.elem([idx[0], idx[1], idx[2][: len(H.facs)], idx[3][: len(W.facs)]])

    r = Tensor([N, Cc, OH, OW], e, input.dtype)
    r.tags = r.tags | input.tags
    return r


def _interp_any(input, size, scale_factor, mode, recompute):
    """nearest neighbour interpolation to a given size or by a fractional factor: out[.., y, x] = in[.., f(y), g(x)], where
    f and g are left uninterpreted (they depend on the mode, the sizes and the factor only)"""
    N, Cc, H, W = input.dims
    dims, srcs = [], []
    for ax, d in enumerate((H, W)):
        if size is not None:
            D = dim_of(pair(size)[ax])
            key = "size"
        else:
            s = pair(scale_factor)[ax]
            a = SizeAtom(f"up[{d.size.skey()};{s}]")
            if a not in _ctx.ctx().sizes:
                _ctx.ctx().sizes.append(a)
            D = atom_dim(Poly.atom(a))
            key = f"{s}|{bool(recompute)}"
        nm = f"near[{d.size.skey()}>{D.size.skey()};{mode};{key}]"
        if not all(isinstance(f, AtomFac) for f in d.facs):
            raise Unsupported("interpolation over a concatenated axis")
        dims.append(D)
        srcs.append((nm, d))
    src = input

    def e(idx):
        pos = []
        for (nm, d), i in zip(srcs, idx[2:]):
            a = flat_digits([i])
            pos.append(tuple(Poly.atom(IApp(f"{nm}_{k}", a, f.size)) for k, f in enumerate(d.facs)))
        return src.elem([idx[0], idx[1]] + pos)

    r = Tensor([N, Cc, *dims], e, input.dtype)
    r.tags = r.tags | input.tags
    return r


def pad(t, p, mode="constant", value=0):
    if mode != "constant":
        raise Unsupported("pad mode")
    src = t
    n = t.ndim
    amounts = {}
    if len(p) % 2 or len(p) > 2 * n:
        raise RuntimeError("Padding length must be divisible by 2")
    for k in range(len(p) // 2):
        amounts[n - 1 - k] = (p[2 * k], p[2 * k + 1])
    dims = []
    for i, d in enumerate(t.dims):
        if i in amounts and not (isinstance(amounts[i][0], int) and amounts[i] == (0, 0)):
            dims.append(mksize(d.size + P(amounts[i][0]) + P(amounts[i][1])))
        else:
            dims.append(d)
            amounts.pop(i, None)
    val = S(value)

    def e(idx):
        o = list(idx)
        cs = []
        for i, (a, b) in amounts.items():
            q = flat_of(dims[i], idx[i]) - P(a)
            cs += [C("ge", q), C("ge", src.dims[i].size - 1 - q)]
            d = src.dims[i]
            if len(d.facs) == 1 and isinstance(d.facs[0], AtomFac):
                o[i] = (q,)
            elif not d.facs:
                o[i] = ()
            else:
                raise Unsupported("pad of a structured axis")
        inner = src.elem(o).guard(cs)
        if value == 0:
            return inner
        return inner + val - val.__class__(val.t).guard(cs)

    return t._new(dims, e)


def linear(x, w, bias=None):
    if not x.dims or w.ndim != 2:
        raise (Unsupported if w.ndim == 1 else RuntimeError)("linear: weight of another rank")
    same_size(x.dims[-1].size, w.dims[1].size, "mat1 and mat2 shapes")
    if bias is not None:
        if bias.ndim > 1:
            raise Unsupported("linear: bias of higher rank")
        if bias.ndim and bias.dims[0].size != ONE and (eqp(bias.dims[0].size, w.dims[0].size) or implies(C("ge", bias.dims[0].size - 2)) or not decide(C("eq", bias.dims[0].size - 1))):
            same_size(bias.dims[0].size, w.dims[0].size, "bias")
    r = einsum("...i,oi->...o", x, w)
    return r if bias is None else r + bias


def softplus(x, beta=1.0, threshold=20.0):
    b, th = S(beta), S(threshold)

    def f(a):
        g = gt0(a * b - th)
        return a * g + fn("log", fn("exp", a * b) + 1) * fn("inv", b) * (S(1) - g)

    return unary(x, f)


# ------------------------------------------------------------------ vmap, loops
class Loop:
    def __init__(self, var):
        self.var = var
        self.pending = []
        self.written = set()
        self.guarded = []

    def allow_write(self, t):
        return False


def vmap(f, in_dims=0, out_dims=0, randomness="error", chunk_size=None):
    def g(*args, **kw):
        ind = in_dims if isinstance(in_dims, (tuple, list)) else [in_dims] * len(args)
        n = None
        for a, d in zip(args, ind):
            if d is not None and isinstance(a, Tensor):
                s = a.dims[normdim(d, a.ndim)]
                if n is None:
                    n = s
                else:
                    same_size(n.size, s.size, "vmap batch")
        if n is None:
            raise ValueError("vmap needs at least one batched tensor")
        if not (len(n.facs) == 1 and isinstance(n.facs[0], AtomFac)):
            raise Unsupported("vmap over a structured axis")
        v = Var("v", n.size)
        lp = Loop(v)
        sl = []
        for a, d in zip(args, ind):
            if d is None or not isinstance(a, Tensor):
                sl.append(a)
                continue
            dd = normdim(d, a.ndim)
            src = a
            t = a._view(
                a.dims[:dd] + a.dims[dd + 1 :],
                lambda idx, src=src, dd=dd: src.elem(list(idx[:dd]) + [from_flat(src.dims[dd], Poly.atom(v))] + list(idx[dd:])),
            )
            sl.append(t)
        State.loops.append(lp)
        try:
            r = f(*sl, **kw)
        finally:
            State.loops.pop()
        od = out_dims

        def ex(t, o):
            if not isinstance(t, Tensor):
                raise Unsupported("vmap result")
            return expand_loop(t, v, o)

        if isinstance(r, (tuple, list)):
            return tuple(ex(t, od if isinstance(od, int) else od[k]) for k, t in enumerate(r))
        return ex(r, od if isinstance(od, int) else od[0])

    return g


SYMSEQ = [None]  # sequence of symbolic length (set by symnn)


# ------------------------------------------------------------------ no_grad etc.
class _GradMode:
    val = False

    def __init__(self, fn=None):
        self.fn = fn

    def __call__(self, f):
        import functools

        val = self.val

        @functools.wraps(f)
        def w(*a, **k):
            old = State.grad
            State.grad = val
            try:
                return f(*a, **k)
            finally:
                State.grad = old

        return w

    def __enter__(self):
        self.old = State.grad
        State.grad = self.val

    def __exit__(self, *a):
        State.grad = self.old


class no_grad(_GradMode):
    val = False

    def __new__(cls, fn=None):
        o = object.__new__(cls)
        if fn is not None:
            return _GradMode.__call__(o, fn)
        return o


class inference_mode(no_grad):
    def __new__(cls, mode=True):
        o = object.__new__(cls)
        if callable(mode):
            return _GradMode.__call__(o, mode)
        return o


class enable_grad(_GradMode):
    val = True


class set_grad_enabled:
    def __init__(self, m):
        self.old = State.grad
        State.grad = bool(m)

    def __enter__(self):
        pass

    def __exit__(self, *a):
        State.grad = self.old


class FnCtx:
    def save_for_backward(self, *t):
        self.saved_tensors = t


class Function:
    @classmethod
    def apply(cls, *args):
        c = FnCtx()
        old = State.grad
        State.grad = False
        try:
            y = cls.forward(c, *args)
        finally:
            State.grad = old
        if not isinstance(y, Tensor) or len(args) != 1:
            raise Unsupported("custom Function shape")
        x = args[0]
        y.stop = False
        base = y.elem

        def e(idx):
            if not State.diff:
                return base(idx)
            State.diff = False
            try:
                v = base(idx)
                g = Tensor(y.dims, lambda i: S(1), y.dtype)
                oldg = State.grad
                State.grad = False
                try:
                    d = cls.backward(c, g)
                finally:
                    State.grad = oldg
                if len(d.dims) != len(y.dims) or len(x.dims) != len(y.dims):
                    raise Unsupported("custom Function is not elementwise")
                dv = d.elem(idx)
            finally:
                State.diff = True
            u = x.elem(idx)
            return fac(F("N", "cust", (), (v, dv, u)))

        r = Tensor(y.dims, e, y.dtype)
        r.stop = not State.grad
        r.tags = x.tags
        return r


def custom_fwd(f=None, cast_inputs=None, **k):
    if f is None:
        return lambda g: g
    return f


def custom_bwd(f=None, **k):
    if f is None:
        return lambda g: g
    return f
