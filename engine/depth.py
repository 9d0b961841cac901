"""Sequential networks of arbitrary depth: loops over the layers are cut by invariants.

The network has n = k + 1 + m layers, n symbolic: a prefix of k layers, one generic layer (number k), a suffix of m
layers.  The layers are abstract (cont.Spec: any layer honouring the layer contract), the prefix and the suffix are known
only through specification entities: the derivative D of the prefix, R of the suffix, their weight Jacobians DW and RW,
the recorded stages z_0, z_k, z_{k+1}, z_n.  A loop over the layers is executed on two kinds of path:
  iteration: the variables and attributes the loop may change get the values the invariant gives them before layer k, the
             body runs once on layer k, and the invariant is checked after layer k (the path then ends);
  exit:      they get the values the invariant gives them after the last layer, and the code after the loop runs.
Invariants are conjunctions `location = entity(stage)`, found by Houdini: every candidate that holds on entry is assumed,
those not preserved by the body are dropped, until nothing changes.  A location without a candidate may not be read.
"""
import ctypes
import time
import sys
import types

import ctx as _ctx
import symnn
from oblig import *
from cont import Spec, same, uf, eyeT, flat2, plain, sizes_
from symint import SymInt
import builtins

NA = object()


def isinstance(v, t):
    return type(v) is not symnn.Poison and builtins.isinstance(v, t)


def intp(v):
    return isinstance(v, (int, SymInt)) and not isinstance(v, bool)


class Seg:
    """an unknown number of consecutive elements of a list"""

    def __init__(self, name, count, first=None, last=None, cats=None, rev=False):
        self.name, self.count, self.first, self.last, self.cats, self.rev = name, P(count), first, last, cats or {}, rev

    def reversed(self):
        return Seg(self.name, self.count, self.last, self.first, self.cats, not self.rev)

    def same(self, o):
        return isinstance(o, Seg) and self.name == o.name and self.rev == o.rev


class SList(list):
    """a list with unknown segments"""

    def raw(self):
        return builtins.list(builtins.list.__iter__(self))

    def sym(self):
        return any(isinstance(i, Seg) for i in builtins.list.__iter__(self))

    def _plain(self, what):
        if self.sym():
            raise Unsupported("list of unknown length: " + what)

    def __symlen__(self):
        n = Poly.const(0)
        for i in self.raw():
            n = n + (i.count if isinstance(i, Seg) else 1)
        return mkint(n)

    def __len__(self):
        self._plain("len")
        return builtins.list.__len__(self)

    def __bool__(self):
        return bool(self.raw())  # a segment is never empty

    def __iter__(self):
        self._plain("iteration")
        return builtins.list.__iter__(self)

    def _pos(self, i):
        """raw position of element i"""
        p = P(i)
        n = P(self.__symlen__())
        if p.is_const() and p.cval() < 0:
            p = p + n
        off = Poly.const(0)
        for j, it in enumerate(self.raw()):
            if isinstance(it, Seg):
                if eq0(p - off) and it.first is not None:
                    return j, it.first
                if eq0(p - off - it.count + 1) and it.last is not None:
                    return j, it.last
                off = off + it.count
            else:
                if eq0(p - off):
                    return j, it
                off = off + 1
        if implies(C("ge", p - n)):
            raise IndexError("list index out of range")
        raise Unsupported("index into an unknown part of a list")

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step in (None, 1):
                return SList(self.raw())
            if i.start is None and i.stop is None and i.step == -1:
                return self.rev()
            if not self.sym():
                return SList(builtins.list.__getitem__(self, i))
            if i.step in (None, 1, -1):
                return View.cut(self, i)
            raise Unsupported("slice of a list of unknown length")
        if not self.sym() and isinstance(i, int):
            return builtins.list.__getitem__(self, i)
        return self._pos(i)[1]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported("slice assignment")
        j, it = self._pos(i)
        if isinstance(self.raw()[j], Seg):
            raise Unsupported("assignment into an unknown part of a list")
        builtins.list.__setitem__(self, j, v)

    def rev(self):
        return SList([i.reversed() if isinstance(i, Seg) else i for i in reversed(self.raw())])

    def reverse(self):
        self[:] if False else builtins.list.__setitem__(self, slice(None), self.rev().raw())

    __reversed__ = lambda self: State.depth.reversed(self) or iter(self.rev())

    def __add__(self, o):
        return SList(self.raw() + (o.raw() if isinstance(o, SList) else builtins.list(o)))

    def __radd__(self, o):
        return SList(builtins.list(o) + self.raw())

    def __iadd__(self, o):
        self.extend(o)
        return self

    def extend(self, o):
        builtins.list.extend(self, o.raw() if isinstance(o, SList) else builtins.list(o))

    def insert(self, i, v):
        if isinstance(i, int) and i == 0:
            builtins.list.__setitem__(self, slice(None), [v] + self.raw())
        else:
            self._plain("insert")
            builtins.list.insert(self, i, v)

    def pop(self, i=-1):
        r = self.raw()
        if i == -1 and r and not isinstance(r[-1], Seg) or i == 0 and r and not isinstance(r[0], Seg):
            return builtins.list.pop(self, i)
        self._plain("pop")
        return builtins.list.pop(self, i)

    def copy(self):
        return SList(self.raw())

    def __contains__(self, v):
        self._plain("in")
        return builtins.list.__contains__(self, v)

    def __eq__(self, o):
        self._plain("==")
        return builtins.list(self) == (builtins.list(o) if isinstance(o, builtins.list) else o)

    def __mul__(self, o):
        self._plain("*")
        return SList(builtins.list.__mul__(self, o))

    __hash__ = None

    def _no(self, *a, **k):
        raise Unsupported("operation on a list of a network of unknown depth")

    __delitem__ = remove = index = count = sort = __imul__ = __lt__ = __gt__ = _no

    def clear(self):
        builtins.list.clear(self)

    def __repr__(self):
        return "SList(%d items)" % builtins.list.__len__(self)


class View:
    """list[lo : len - hi], rev: backwards"""

    def __init__(self, l, lo, hi, rev=False):
        self.l, self.lo, self.hi, self.rev = l, lo, hi, rev

    @staticmethod
    def cut(l, i):
        a, b, st_ = i.start, i.stop, i.step
        if st_ in (None, 1):
            if a in (None, 0, 1) and b in (None, -1):
                return View(l, a or 0, 1 if b == -1 else 0)
            if intp(a) and intp(b):
                n = P(b) - P(a)
                if n.is_const() and 0 <= n.cval() <= 4 and implies(C("ge", P(a))) and implies(C("ge", P(l.__symlen__()) - P(b))):
                    return SList([l[mkint(P(a) + j)] for j in range(n.cval())])
        elif a in (None, -1, -2) and b in (None, 0):
            return View(l, 1 if b == 0 else 0, 1 if a == -2 else 0, True)
        raise Unsupported("slice of a list of unknown length")

    def __symlen__(self):
        return self.l.__symlen__() - self.lo - self.hi

    def at(self, i):
        """element i counted from the front of the list"""
        return self.l[mkint(P(i) + self.lo)]

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step in (None, 1, -1):
                return View(self.l, self.lo, self.hi, self.rev != (i.step == -1))
            raise Unsupported("slice of a slice")
        if self.rev:
            raise Unsupported("element of a reversed slice")
        if isinstance(i, int) and i < 0:
            return self.l[i - self.hi]
        return self.l[i + self.lo]

    def _no(self, *a, **k):
        raise Unsupported("operation on part of a list of unknown length")

    __iter__ = __len__ = __bool__ = __add__ = __radd__ = __contains__ = _no


def eq0(p):
    p = P(p)
    return not p.t if p.is_const() else implies(C("eq", p))


class Layers:
    """the layers of the network, as a sequence or as the values of a dict"""

    def __init__(self, d):
        self.d = d

    def __symlen__(self):
        return mkint(self.d.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step in (None, 1):
                return self
            if i.start is None and i.stop is None and i.step == -1:
                return Cuttable(self.d, lambda: self.d.layer, True)
            raise Unsupported("slice of the layers")
        p = P(i)
        if p.is_const() and p.cval() < 0:
            p = p + self.d.n
        if eq0(p - self.d.k):
            return self.d.layer
        if implies(C("ge", p - self.d.n)):
            raise IndexError("list index out of range")
        raise Unsupported("access to another layer than the one of the iteration")

    def _no(self, *a, **k):
        raise Unsupported("operation on the layers of a network of unknown depth")

    __iter__ = __len__ = __setitem__ = __delitem__ = __contains__ = append = insert = extend = pop = remove = __add__ = __radd__ = _no
    __bool__ = lambda self: True  # n >= 1

    def as_dict(self):
        return LayerDict(self)


class LayerDict:
    def __init__(self, ls):
        self.ls = ls

    def values(self):
        return self.ls

    def items(self):
        return Cuttable(self.ls.d, lambda: (symnn.Poison(), self.ls.d.layer))

    def __symlen__(self):
        return self.ls.__symlen__()

    def _no(self, *a, **k):
        raise Unsupported("operation on the modules of a network of unknown depth")

    __iter__ = __len__ = keys = __contains__ = __getitem__ = __setitem__ = get = pop = __delitem__ = _no


class Cuttable:
    """something that yields one item per layer"""

    def __init__(self, d, item, rev=False, once=False):
        self.d, self.item, self.rev = d, item, rev
        self.once, self.used = once, False  # once: an iterator

    def __symlen__(self):
        return mkint(self.d.n)

    def __iter__(self):
        raise Unsupported("iteration over the layers outside of a for loop")

    __next__ = lambda self, *a: self.__iter__()

    def __getitem__(self, i):
        if not self.once and isinstance(i, slice) and i.start is None and i.stop is None and i.step in (None, 1, -1):
            return Cuttable(self.d, self.item, self.rev != (i.step == -1))
        self.__iter__()

    def take(self):
        """the contents, once if an iterator"""
        if self.once and self.used:
            raise Unsupported("iterator used twice")
        self.used = True
        return self


class Mapped:
    """[f(l) for l in layers]"""

    def __init__(self, d, v):
        self.d, self.v = d, v

    def __symsum__(self):
        if intp(self.v) and eq0(P(self.v) - P(self.d.layer._n_params)):
            return mkint(self.d.nw["n"])
        raise Unsupported("sum over the layers")

    def __iter__(self):
        raise Unsupported("values of all layers")

    __len__ = __getitem__ = lambda self, *a: self.__iter__()


class Inv:
    """candidate invariants of the loops of one obligation"""

    def __init__(self):
        self.sites = {}
        self.changed = False
        # defer: an iteration whose assumptions contradict each other is left out until nothing else changes
        self.defer, self.deferred = True, False
        self.pick = 0

    def drop(self, site, loc, name):
        self.sites[site][loc].remove(name)
        self.changed = True


def snap(v, d=3):
    if isinstance(v, Tensor):
        return (v, len(v.hist), len(v.store.log))
    if type(v) is symnn.Poison:
        return (v,)
    if isinstance(v, SList):
        return (v, [(i, snap(i, d - 1)) for i in v.raw()])
    if isinstance(v, (list, tuple)) and d:
        return (v, [(i, snap(i, d - 1)) for i in v])
    if isinstance(v, dict) and d:
        return (v, [(k, (i, snap(i, d - 1))) for k, i in v.items()])
    return (v,)


def unchanged(s, v, d=3):
    o = s[0]
    if isinstance(o, Tensor):
        return o is v and s[1:] == (len(v.hist), len(v.store.log))
    if type(v) is symnn.Poison or type(o) is symnn.Poison:
        return o is v
    if intp(o) and intp(v):
        return eq0(P(o) - P(v))
    if isinstance(o, (str, bool, float, type(None))):
        return type(o) is type(v) and o == v
    if o is not v:
        return False
    if len(s) == 1:
        return True
    if isinstance(o, dict):
        return len(o) == len(s[1]) and all(k in o and o[k] is i and unchanged(t, i, d - 1) for k, (i, t) in s[1])
    r = v.raw() if isinstance(v, SList) else v
    return len(r) == len(s[1]) and all(a is b and (isinstance(a, Seg) or unchanged(t, a, d - 1)) for a, (b, t) in zip(r, s[1]))


def eqv(v, e):
    """value = entity"""
    if e is NA or type(v) is symnn.Poison:
        return False
    if v is None or e is None:
        return v is None and e is None
    if isinstance(e, bool) or isinstance(v, bool):
        return isinstance(v, bool) and isinstance(e, bool) and v == e
    if isinstance(v, Tensor) and isinstance(e, Tensor):
        try:
            return bool(same(v, e))
        except (Unsupported, Undecided):
            return False
    if intp(v) and intp(e):
        return eq0(P(v) - P(e))
    if isinstance(v, SList) and isinstance(e, SList):
        a, b = v.raw(), e.raw()
        return len(a) == len(b) and all((x.same(y) if isinstance(x, Seg) or isinstance(y, Seg) and isinstance(x, Seg) else not isinstance(y, Seg) and eqv(x, y)) for x, y in zip(a, b))
    return False


class Cut:
    """iterator of a loop over the layers"""

    def __init__(self, d, c):
        self.d, self.c = d, c
        self.phase = 0

    def __iter__(self):
        return self

    def __next__(self):
        fr = sys._getframe(1)
        d = self.d
        if self.phase == 1:
            self.check(fr)
            raise _ctx.PathEnd()
        if self.phase == 2:
            raise StopIteration
        if d.inside:
            raise Unsupported("loop over the layers inside an iteration over the layers")
        # the loop is identified by where it is reached from
        key, f = [], fr
        while f is not None:
            if f.f_code.co_filename.startswith(symnn.REPO):
                key.append((f.f_code.co_name, f.f_lineno))
            f = f.f_back
        self.site = tuple(key)
        d.loops += 1
        rev = self.c.rev
        s0, s1, s2, s3 = ("n", "k1", "k", "0") if rev else ("0", "k", "k1", "n")
        self.end = s2
        self.atstart, self.atend = (d.last, d.first) if rev else (d.first, d.last)
        self.rd(fr)
        locs = self.locs
        inv = d.inv.sites.get(self.site)
        if inv is None:
            inv = d.inv.sites[self.site] = {"#noexit": ["noexit"]}
        for loc, v in locs.items():
            if loc not in inv:
                inv[loc] = ["="] + builtins.list(d.ents)
                d.inv.changed = True
            for nm in builtins.list(inv[loc]):
                if nm != "=" and v is not NA and not d.holds(v, nm, s0):
                    d.inv.drop(self.site, loc, nm)
        State.depth.stats["checked"] += len(locs)
        it = _ctx.flag("iteration of loop %d" % d.loops)
        lay0 = d.last0 = d.layer.last
        if it:
            self.phase, d.inside = 1, True
            if not self.atstart:
                self.havoc(fr, s1, inv, locs)
            self.snap0()
            return self.c.item()
        self.phase = 2
        if "noexit" in inv["#noexit"]:
            raise _ctx.PathEnd()
        self.havoc(fr, s3, inv, locs)
        # the state of layer k after the loop
        ln = inv.setdefault("#layer", ["=", "k"])
        d.layer.__dict__["last"] = lay0 if "=" in ln else (0 if "k" in ln else symnn.Poison())
        raise StopIteration

    def frames(self, fr):
        """the frame of the loop; for a loop in a generator also the frames it yields to"""
        r = [fr]
        while r[-1].f_code.co_flags & 0x20:
            c = [f for g, f in self.d.__dict__.get("gens", ()) if g.gi_frame is r[-1]]
            if len(c) != 1 or r[-1].f_back is not c[0]:
                raise Unsupported("loop over the layers in a generator that is not consumed by a for loop")
            r.append(c[0])
        return r

    def rd(self, fr):
        """the locations the loop may change: locals and the attributes of the modules in locals"""
        self.frs = self.frames(fr)
        self.objs = {}
        self.glob = {}
        locs = {}
        for i, f in enumerate(self.frs):
            t = "^" * i
            fl = dict(f.f_locals)
            for n in f.f_code.co_varnames + f.f_code.co_cellvars + f.f_code.co_freevars:
                locs["v:" + t + n] = fl.get(n, NA)
            for n, v in fl.items():
                if isinstance(v, symnn.Module) and not isinstance(v, self.d.spec.Abs) and v not in self.objs.values():
                    self.objs[t + n] = v
                    for a, w in v.__dict__.items():
                        if a not in ("_modules", "_attr_writes"):
                            locs[f"a:{t}{n}.{a}"] = w
            self.glob.update({(i, k): snap(v) for k, v in f.f_globals.items() if isinstance(v, (list, dict, set)) and not k.startswith("__")})
        self.locs = locs

    def havoc(self, fr, s, inv, locs):
        d = self.d
        groups = {}
        for loc, v in locs.items():
            if isinstance(v, (list, dict)):
                groups.setdefault(id(v), []).append(loc)
        new, made = {}, {}
        for loc, v in locs.items():
            c = inv[loc]
            if v is not NA and "=" in c:
                nv = v
                if d.inv.defer and any(x != "=" and d.ent(x, s) is not NA and not eqv(v, d.ent(x, s)) for x in c):
                    d.inv.deferred = True
                    raise _ctx.PathEnd()
            else:
                c = [x for x in c if x != "="]
                nv = d.ent(c[d.inv.pick], s) if c else NA
                if nv is NA:
                    nv = symnn.Poison()
            g = groups.get(id(v), ()) if isinstance(v, (list, dict)) else ()
            if len(g) > 1:
                if any("=" in inv[a] for a in g) and not all("=" in inv[a] for a in g):
                    raise Unsupported("aliased list changed in a loop over the layers")
                if nv is not v:
                    if any(inv[a] != inv[loc] for a in g):
                        raise Unsupported("aliased list changed in a loop over the layers")
                    nv = made.setdefault(id(v), nv)
            new[loc] = nv
        for i, f in enumerate(self.frs):
            fl = f.f_locals
            for loc, nv in new.items():
                n = loc[2:]
                if loc[0] == "v" and len(n) - len(n.lstrip("^")) == i and nv is not self.locs[loc]:
                    fl[n.lstrip("^")] = nv
            ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))
        for loc, nv in new.items():
            if loc[0] == "a" and nv is not self.locs[loc]:
                o, a = loc[2:].split(".", 1)
                self.objs[o].__dict__[a] = nv
        self.rd(fr)

    def snap0(self):
        self.start = {l: (NA if v is NA else snap(v)) for l, v in self.locs.items()}
        self.old = dict(self.locs)

    def check(self, fr):
        """end of the iteration"""
        if self.d.frame is not None:
            self.d.frame()
        d, inv, start, glob = self.d, self.d.inv.sites[self.site], self.start, self.glob
        objs = self.objs
        self.rd(fr)
        for n, o in objs.items():
            if self.objs.get(n) is not o:
                raise Unsupported("a module variable is rebound in a loop over the layers")
        for k, s in glob.items():
            if not unchanged(s, self.frs[k[0]].f_globals.get(k[1])):
                raise Unsupported("global state changed in a loop over the layers")
        if self.atend and "noexit" in inv["#noexit"]:
            d.inv.drop(self.site, "#noexit", "noexit")
        ln = inv.setdefault("#layer", ["=", "k"])
        for nm in builtins.list(ln):
            l = d.layer.last
            if nm == "=" and l != d.last0 or nm == "k" and l != 0:
                d.inv.drop(self.site, "#layer", nm)
        for loc in self.locs:
            if loc not in inv:
                inv[loc] = ["="] + builtins.list(d.ents)
                d.inv.changed = True
        for loc, cs in inv.items():
            if loc[0] == "#":
                continue
            v = self.locs.get(loc, NA)
            for nm in builtins.list(cs):
                State.depth.stats["checked"] += 1
                if nm == "=":
                    ok = start.get(loc, NA) is not NA and v is not NA and unchanged(start[loc], v) or (start.get(loc, NA) is NA and v is NA)
                else:
                    ok = v is not NA and d.holds(v, nm, self.end)
                if not ok:
                    d.inv.drop(self.site, loc, nm)


def layer_class(d):
    Abs = d.spec.Abs

    class Layer(Abs):
        """the generic layer.  comp: a container, whose weight metrics and blocks come as lists and whose dense weight
        metrics are restricted to their diagonal blocks; alias: results may be views of the arguments"""

        comp = alias = loose = False

        def _j(self, x, val, wrt, tag="J"):
            if self.loose and val is not None and self.given:
                # proved for Sequential (obligations "{any val}"): with a given matrix only the presence of val matters
                val = d.z["n"]
            return Abs._j(self, x, val, wrt, tag)

        def jacobian(self, x, val=None, wrt="input"):
            self.__dict__["given"] = False
            return Abs.jacobian(self, x, val, wrt)

        def al(self, r, a, wrt):
            if self.alias and isinstance(r, Tensor) and isinstance(a, Tensor) and wrt == "input":
                r.store = a.store
                r.hist = [h[:3] + (a.store,) for h in r.hist]
            return r

        def F(self, x, s=None):
            s = self.at(x) if s is None else s
            return self.al(d.zout(x.dtype) if s == 0 else Abs.F(self, x, s), x, "input")

        def jTmjp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
            self.__dict__["given"] = matrix is not None
            if self.comp and wrt == "weight" and not to_diag and self.weight_dim() is not None:
                J = self._j(x, val, wrt)
                return SList([Seg("blocks " + st.content_key(sp_jTmjp(J, self._sq(matrix, from_diag), from_diag, False)), Sym.size("cp"))])
            return self.al(Abs.jTmjp(self, x, val, matrix, wrt, from_diag, to_diag, diag_backprop), matrix, wrt)

        def jmjTp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
            self.__dict__["given"] = True
            if self.comp and wrt == "weight" and self.weight_dim() is not None:
                if isinstance(matrix, SList):
                    r = matrix.raw()
                    if len(r) != 1 or not isinstance(r[0], Seg) or r[0].name != "mk":
                        raise Unsupported("other list of blocks")
                    matrix = r[0].cats["metric"]
                elif isinstance(matrix, Tensor) and not from_diag:
                    matrix = d.mask(matrix)
            return self.al(Abs.jmjTp(self, x, val, matrix, wrt, from_diag, to_diag, diag_backprop), matrix, wrt)

    for n in ("jvp", "jmp", "vjp", "mjp"):

        def f(self, x, val, a, wrt="input", n=n):
            self.__dict__["given"] = a is not None
            return self.al(getattr(Abs, n)(self, x, val, a, wrt), a, wrt)

        setattr(Layer, n, f)
    return Layer


class Depth:
    """state of one path of one obligation"""

    def __init__(self, W, inv, rank=1, comp=False, alias=False, single=False):
        self.W, self.inv, self.stats = W, inv, dict(checked=0)
        self.loops, self.inside, self.last0, self.arg, self.frame = 0, False, None, None, None
        self.protected = ()
        flag = _ctx.flag if not single else (lambda n: _ctx.flag(n) if n == "layer k has parameters" else True)
        self.first = flag("layer k is the first")
        self.last = flag("layer k is the last")
        self.pre = False if self.first else flag("a layer before k has parameters")
        self.par = flag("layer k has parameters")
        self.suf = False if self.last else flag("a layer after k has parameters")
        one = Poly.const(1)
        self.k = Poly.const(0) if self.first else P(Sym.size("k"))
        self.m = Poly.const(0) if self.last else P(Sym.size("m"))
        self.n = self.k + 1 + self.m
        # number of parametric layers before / after
        self.kp = P(Sym.size("kp")) if self.pre else Poly.const(0)
        self.sp = P(Sym.size("sp")) if self.suf else Poly.const(0)
        if self.pre:
            assume(mkint(self.k - self.kp))
        if self.suf:
            assume(mkint(self.m - self.sp))
        self.spec = Spec(W)
        B = Sym.size("B")
        dims = lambda t: [dim_of(Sym.size(f"{c}{t}")) for c in ("CHW" if rank == 3 else "d")]
        self.B = dim_of(B)
        d0 = dims("0")
        dk = d0 if self.first else dims("k")
        d1 = dims("k1") if not single else dims("k1")[:1] + d0[1:]
        dn = d1 if self.last else dims("n")
        self.alias = alias
        store = Storage("x")

        def mk(t, ds, dtype=None):
            z = tensor_d("Z" + t, [self.B] + ds, dtype)
            if alias:
                z.store = store
                z.hist = [h[:3] + (store,) for h in z.hist]
            return z

        self.zout = lambda dtype: mk("k1", d1, dtype)
        z0 = mk("0", d0)
        zk = z0 if self.first else mk("k", dk)
        z1 = mk("k1", d1)
        zn = z1 if self.last else mk("n", dn)
        self.z = {"0": z0, "k": zk, "k1": z1, "n": zn}
        self.f = {s: plain(flatdim(z.dims[1:])) for s, z in self.z.items()}
        self.layer = layer_class(self)(self.spec, "k", d1, Sym.size("P") if self.par else None)
        self.layer.__dict__["comp"], self.layer.__dict__["alias"] = comp, alias
        assert self.spec.stages.find(zk) == 0
        self.J = self.layer.J(zk, "input", 0)
        self.Wk = self.layer.J(zk, "weight", 0)
        self.Q = atom_dim(P(Sym.size("Q"))) if self.pre else None
        self.S = atom_dim(P(Sym.size("S"))) if self.suf else None
        Pd = self.layer.weight_dim()
        q = self.Q.size if self.Q else Poly.const(0)
        p = Pd.size if Pd else Poly.const(0)
        s = self.S.size if self.S else Poly.const(0)
        self.nw = {"0": Poly.const(0), "k": q, "k1": q + p, "n": q + p + s}
        self.np = {"0": Poly.const(0), "k": self.kp, "k1": self.kp + (1 if self.par else 0), "n": self.kp + (1 if self.par else 0) + self.sp}
        self.ix = {"0": Poly.const(0), "k": self.k, "k1": self.k + 1, "n": self.n}
        wd = [x for x in (self.Q, Pd, self.S) if x is not None]
        self.wdim = None if not wd else (wd[0] if len(wd) == 1 else Dim([CatFac(wd)]))
        U = lambda nm, a, b: uf(nm, [self.B, a, b], z0.dtype)
        self.D0 = None if self.first else U("D<k", self.f["k"], self.f["0"])
        self.R1 = None if self.last else U("R>k", self.f["n"], self.f["k1"])
        self.DW0 = U("DW<k", self.f["k"], self.Q) if self.pre else None
        self.RW1 = U("RW>k", self.f["n"], self.S) if self.suf else None
        self.ents = {}
        self.layers = Layers(self)
        self.base()

    # ---- entities
    def D(self, s):
        """derivative of z_s with respect to z_0; None: identity"""
        return {"0": lambda: None, "k": lambda: self.D0, "k1": lambda: mm(self.J, self.D0), "n": lambda: mm(self.R1, mm(self.J, self.D0))}[s]()

    def R(self, s):
        """derivative of z_n with respect to z_s"""
        return {"n": lambda: None, "k1": lambda: self.R1, "k": lambda: mm(self.R1, self.J), "0": lambda: mm(mm(self.R1, self.J), self.D0)}[s]()

    def DWparts(self, s):
        """derivative of z_s with respect to the parameters before s, by segment"""
        a, b = self.DW0, self.Wk
        if s == "0":
            return [None, None, None]
        if s == "k":
            return [a, None, None]
        a = None if a is None else mm(self.J, a)
        if s == "k1":
            return [a, b, None]
        return [None if a is None else mm(self.R1, a), None if b is None else mm(self.R1, b), self.RW1]

    def DW(self, s):
        return catn(self.DWparts(s), 2)

    def base(self):
        d = self

        def stages(s):
            z = d.z
            l = SList([z["0"]] if d.first else [Seg("z<k", d.k, z["0"])])
            if s == "0":
                return SList([z["0"]])
            if not d.first:
                l.append(z["k"])
            if s == "k":
                return l
            l.append(z["k1"])
            if s == "k1" or d.last:
                return l
            l.append(Seg("z>k+1", d.m, None, z["n"]))
            return l

        self.ents.update(
            z=lambda s: d.z[s],
            stages=stages,
            params=lambda s: mkint(d.nw[s]),
            count=lambda s: mkint(d.np[s]),
            index=lambda s: mkint(d.ix[s]),
            prev=lambda s: mkint(d.ix[s] - 1),
            empty=lambda s: SList([]),
            none=lambda s: None,
            atstart=lambda s: s == "0" or (s == "k" and d.first),
            notstart=lambda s: not (s == "0" or (s == "k" and d.first)),
        )

    def ent(self, nm, s):
        if nm == "acc~":
            # as acc, but the last layer may leave anything
            if self.final(s, self.back):
                return NA
            nm = "acc"
        e = self.ents[nm](s)
        if nm == "acc" and self.alias and isinstance(e, Tensor) and self.arg is not None and e is not self.arg:
            # whatever was passed through the layers may be a view of the argument
            e = Tensor(e.dims, e.elem, e.dtype, self.arg.store)
        return e

    def holds(self, v, nm, s):
        if nm == "acc~":
            if self.final(s, self.back):
                return True
            nm = "acc"
        if nm == "acc" and self.protected and isinstance(v, Tensor) and v.store in self.protected:
            return False  # the accumulated weight products share no storage with the arguments
        return eqv(v, self.ent(nm, s))

    def mask(self, m):
        """restriction to the diagonal blocks of layer k"""
        w = self.layer.weight_dim()
        k = uf("mask", [w, w], m.dtype)
        return st.einsum("bij,ij->bij", m, k)

    def final(self, s, rev=False):
        """is s the last stage of the pass"""
        return (s == "0" or s == "k" and self.first) if rev else (s == "n" or s == "k1" and self.last)

    # ---- hooks
    def is_layers(self, x):
        return isinstance(x, Layers)

    def cuttable(self, it, peek=False):
        if isinstance(it, Cuttable):
            return it if peek else it.take()
        if isinstance(it, Layers):
            return Cuttable(self, lambda: self.layer)
        if isinstance(it, symnn.Module) and isinstance(it.__dict__.get("_modules"), LayerDict):
            return Cuttable(self, lambda: self.layer)
        if isinstance(it, View) or isinstance(it, SList) and it.sym():
            if eq0(P(it.__symlen__()) - self.n):
                if isinstance(it, View):
                    return Cuttable(self, lambda: it.at(mkint(self.k)), it.rev)
                return Cuttable(self, lambda: it[mkint(self.k)])
        return None

    def cut(self, it):
        if isinstance(it, types.GeneratorType):
            # a generator consumed by a for loop: the loops of its body continue in the body of that loop
            self.__dict__.setdefault("gens", []).append((it, sys._getframe(2)))
            return None
        c = self.cuttable(it)
        return None if c is None else Cut(self, c)

    def range(self, *a):
        a0, a1, st_ = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if not all(intp(x) for x in (a0, a1)) or not isinstance(st_, int) or st_ not in (1, -1):
            return None
        n = (P(a1) - P(a0)) * st_
        if all(isinstance(x, int) for x in (a0, a1)) and not (n.is_const() and eq0(n - self.n) and eq0(P(a0) - self.k if st_ == 1 else P(a0) - self.k)):
            return None
        if not eq0(n - self.n):
            return None
        if st_ == 1:
            return Cuttable(self, lambda: mkint(P(a0) + self.k))
        # the j-th item is a0 - j; position k is visited when n - 1 - j = k
        return Cuttable(self, lambda: mkint(P(a0) - (self.n - 1 - self.k)), True)

    def enumerate(self, it, start=0):
        c = self.cuttable(it)
        if c is None:
            return None
        if c.rev:
            return Cuttable(self, lambda: (mkint(self.n - 1 - self.k + start), c.item()), True, True)
        return Cuttable(self, lambda: (mkint(self.k + start), c.item()), False, True)

    def zip(self, *its, strict=False):
        if not any(self.cuttable(i, True) for i in its):
            return None
        cs = []
        for i in its:
            c = self.cuttable(i)
            if c is None and isinstance(i, SList) and implies(C("ge", P(i.__symlen__()) - self.n)):
                c = Cuttable(self, lambda i=i: i[mkint(self.k)])
                c.longer = not eq0(P(i.__symlen__()) - self.n)
                c.both = not i.sym() and not c.longer and eq0(self.n - 1)
            if c is None:
                raise Unsupported("zip of the layers with something else")
            cs.append(c)
        for c in cs:
            if getattr(c, "both", False):
                c.rev = any(o.rev for o in cs)  # a single element
        if len({c.rev for c in cs}) > 1 or cs[0].rev and any(getattr(c, "longer", False) for c in cs):
            raise Unsupported("zip of the layers in different orders")
        return Cuttable(self, lambda: tuple(c.item() for c in cs), cs[0].rev, True)

    def reversed(self, it):
        c = self.cuttable(it)
        if c is None:
            return iter(it.rev()) if isinstance(it, SList) and not it.sym() else None
        if c.once:
            raise TypeError("object is not reversible")
        return Cuttable(self, c.item, not c.rev, True)

    def comprehension(self, kind, it, f, cond):
        c = self.cuttable(it)
        if c is not None:
            if cond is not None:
                raise Unsupported("filter over the layers")
            if self.inside:
                raise Unsupported("comprehension over the layers inside an iteration")
            l0 = self.layer.last
            v = f(c.item())
            if self.layer.last != l0:
                raise Unsupported("comprehension changes the layers")
            return Mapped(self, v)
        g = (f(x) for x in it if cond is None or cond(x))
        return g if kind == "gen" else SList(g)

    def mklist(self, l):
        return SList(l)

    def parts(self, ts, dim):
        if not isinstance(ts, SList):
            if isinstance(ts, (View, Mapped)):
                raise Unsupported("cat of an unknown list")
            return builtins.list(ts)
        out = []
        for t in ts.raw():
            if isinstance(t, Seg):
                if t.rev or dim not in t.cats:
                    raise Unsupported("cat of an unknown segment")
                t = t.cats[dim]
            out.append(t)
        return out


class slist(list):
    def __new__(cls, it=()):
        d = State.depth
        if d is not None:
            if isinstance(it, (Layers, View)):
                return it
            if isinstance(it, Cuttable):
                it.take()
                return Cuttable(it.d, it.item, it.rev)
            if isinstance(it, SList):
                return it.copy()
            return SList(builtins.list(it))
        return builtins.list(it)


def mm(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return st.einsum("bpo,boi->bpi", a, b)


def catn(ts, dim):
    ts = [t for t in ts if t is not None]
    return None if not ts else (ts[0] if len(ts) == 1 else st.cat(ts, dim))


def blockdiag(ms):
    """block diagonal of [B, a, a] tensors"""
    if len(ms) == 1:
        return ms[0]
    rows = []
    for i, m in enumerate(ms):
        rows.append(st.cat([m if i == j else Tensor([m.dims[0], m.dims[1], o.dims[2]], lambda idx: S(0), m.dtype) for j, o in enumerate(ms)], 2))
    return st.cat(rows, 1)


def depth_body(W, inv, meth, wrt, fd=False, td=False, none=False, db=False, val=True, rank=1, lst=False, comp=False, mode=None, dts=None):
    """mode: None | 'any' | 'any+forward' (after an arbitrary history) | 'frame'; dts: (type of the data, default type)"""

    def body():
        if dts:
            State.default = dts[0]
            yield "dtype", dts[0]
        d = Depth(W, inv, rank, comp, mode == "frame")
        State.depth = d
        try:
            with depth_builtins(W):
                yield from inner(d)
        finally:
            State.depth = None

    def inner(d):
        net = W.nnj.Sequential(d.layers)
        x = d.z["0"]
        yield "assert", intp(net._n_params) and eq0(P(net._n_params) - d.nw["n"]), "number of parameters"
        if mode in ("any", "any+forward"):
            import misc

            attrs, unknown, _ = misc.state_of(W)
            if unknown:
                raise Unsupported("state outside of the objects: " + unknown[0])
            for a in attrs - misc.KEEP:
                if a in net.__dict__:
                    net.__dict__[a] = symnn.Poison()
            d.layer.__dict__["last"] = "unknown"
        if dts:
            import cont

            net = cont.Typed(net, *dts)
        if meth == "forward":
            fr = misc_frame(d, net, x, None, ()) if mode == "frame" else None
            y = net.forward(x)
            if fr:
                yield from fr.check()
            yield "forward", y, d.z["n"]
            return
        E = d.ents
        Bd = d.B
        f = d.f
        K = dim_of(Sym.size("K"))
        Wd = d.wdim if d.wdim is not None else dim_of(0)
        dt = x.dtype
        nw = d.nw
        call = dict(wrt=wrt)
        kw = {}
        if meth in ("jTmjp", "jmjTp"):
            kw = dict(from_diag=fd, to_diag=td)
            if db:
                kw["diag_backprop"] = True
        pre = lambda t, s, ax=1: t if s == "n" else (t[:, : mkint(nw[s])] if ax == 1 else t[:, :, : mkint(nw[s])])
        opt = lambda t, g: None if t is None else g(t)
        par = d.wdim is not None
        a = None
        # candidates for the accumulated quantities, and the expected result
        if meth in ("jacobian", "mjp") or meth == "jmp" and none:
            m = None if (none or meth != "mjp") else tensor_d("M", [Bd, K, f["n"]])
            ident = m if m is not None else eyeT(Bd, f["n"], dt)
            g = lambda j: j if m is None else sp_mjp(j, m)
            E["acc"] = lambda s: ident if d.R(s) is None else g(d.R(s))

            def blocks(s):
                return seglist(d, s, lambda j: g(j), 2)

            E["list"] = blocks
            E["revlist"] = lambda s: blocks(s).rev()
            want = E["acc"]("0") if wrt == "input" else opt(d.DW("n"), g)
            args = () if meth == "jacobian" else (m,)
        elif meth == "vjp":
            m = tensor_d("V", [Bd, f["n"]])
            E["acc"] = lambda s: m if d.R(s) is None else sp_vjp(d.R(s), m)

            def blocks(s):
                return seglist(d, s, lambda j: sp_vjp(j, m), 1)

            E["list"] = blocks
            E["revlist"] = lambda s: blocks(s).rev()
            want = E["acc"]("0") if wrt == "input" else opt(d.DW("n"), lambda j: sp_vjp(j, m))
            args = (m,)
        elif meth in ("jvp", "jmp"):
            ax = [Bd, f["0"] if wrt == "input" else Wd]
            m = tensor_d("M", ax if meth == "jvp" else ax + [K])
            g = sp_jvp if meth == "jvp" else sp_jmp
            if wrt == "input":
                E["acc"] = lambda s: m if d.D(s) is None else g(d.D(s), m)
            else:
                E["acc"] = lambda s: opt(d.DW(s), lambda j: g(j, pre(m, s)))
            want = E["acc"]("n")
            args = (m,)
        elif meth == "jTmjp":
            m = None if none else tensor_d("M", [Bd, f["n"]] if fd else [Bd, f["n"], f["n"]])
            mv = m if m is not None else Tensor([Bd, f["n"]], lambda idx: S(1), dt)
            fd_ = fd or none
            if not db:
                E["acc"] = lambda s: mv if d.R(s) is None else sp_jTmjp(d.R(s), mv, fd_, td and d.final(s, True))

                def blocks(s):
                    return seglist(d, s, lambda j: sp_jTmjp(j, mv, fd_, td), 1 if td else None)

                want = E["acc"]("0") if wrt == "input" else (None if not par else catn(d.parts(blocks("0"), 1), 1) if td else blocks("0"))
            else:
                T, Tw = d.layer.J(d.z["k"], "input", 0, "D"), d.layer.J(d.z["k"], "weight", 0, "D")
                a1 = mv if d.last else uf("a>k", [Bd, f["k1"]], dt)
                ak = sp_vjp(T, a1)
                av = {"n": mv, "k1": a1, "k": ak, "0": ak if d.first else uf("a0", [Bd, f["0"]], dt)}
                E["acc"] = lambda s: av[s]
                wk = None if Tw is None else sp_vjp(Tw, a1)
                w0 = uf("aw<k", [Bd, d.Q], dt) if d.pre else None
                w1 = uf("aw>k", [Bd, d.S], dt) if d.suf else None

                def blocks(s):
                    return seg3(d, s, w0, wk, w1, 1)

                want = av["0"] if wrt == "input" else catn([w0, wk, w1], 1)
            E["list"] = blocks
            E["revlist"] = lambda s: blocks(s).rev()
            args = (m,)
        else:
            fd_ = fd or none
            if wrt == "input":
                m = None if none else tensor_d("M", [Bd, f["0"]] if fd else [Bd, f["0"], f["0"]])
                mv = m if m is not None else Tensor([Bd, f["0"]], lambda idx: S(1), dt)
                if not db:
                    E["acc"] = lambda s: mv if d.D(s) is None else sp_jmjTp(d.D(s), mv, fd_, td and d.final(s))
                else:
                    T = d.layer.J(d.z["k"], "input", 0, "E")
                    ak = mv if d.first else uf("g<k", [Bd, f["k"]], dt)
                    a1 = sp_jvp(T, ak)
                    av = {"0": mv, "k": ak, "k1": a1, "n": a1 if d.last else uf("gn", [Bd, f["n"]], dt)}
                    E["acc"] = lambda s: av[s]
                want = E["acc"]("n")
            else:
                # the metric: a vector, or one block per parametric layer
                q, p, s_ = (mkint(nw[t]) for t in ("k", "k1", "n"))
                Pd = d.layer.weight_dim()
                sl = lambda t, a, b: t[:, a:b] if fd_ else t[:, a:b, a:b]
                m = None if none or lst else tensor_d("M", [Bd, Wd] if fd else [Bd, Wd, Wd])
                ones = lambda D_: Tensor([Bd, D_], lambda idx: S(1), dt)
                blk = lambda nm, D_: uf(nm, [Bd, D_] if fd_ else [Bd, D_, D_], dt)
                if none:
                    parts = [D_ and ones(D_) for D_ in (d.Q, Pd, d.S)]
                elif lst:
                    parts = [D_ and blk(nm, D_) for nm, D_ in (("M<k", d.Q), ("Mk", Pd), ("M>k", d.S))]
                elif fd:
                    parts = [d.Q and sl(m, 0, q), Pd and sl(m, q, p), d.S and sl(m, p, s_)]
                else:
                    # off diagonal blocks are neglected: inside the prefix and the suffix the block diagonal part is an entity
                    parts = [d.Q and blk("M<k", d.Q), Pd and sl(m, q, p), d.S and blk("M>k", d.S)]
                raw = parts[1]
                if comp and parts[1] is not None:
                    if lst:
                        raw = SList([Seg("mk", Sym.size("cp"), cats={"metric": parts[1]})])
                    elif not fd_:
                        parts[1] = d.mask(parts[1])

                def metric(s):
                    ps = [t for t, j in zip(parts, d.DWparts(s)) if j is not None]
                    return None if not ps else (catn(ps, 1) if fd_ else blockdiag(ps))

                def mblocks(s):
                    return SList([t for t in (Seg("m<k", d.kp) if parts[0] is not None and s != "0" else None, raw if s in ("k1", "n") else None, Seg("m>k", d.sp) if parts[2] is not None and s == "n" else None) if t is not None])

                E["blocks"] = mblocks
                if lst:
                    m = mblocks("n")
                if not db:
                    E["acc"] = lambda s: opt(d.DW(s), lambda j: sp_jmjTp(j, metric(s), fd_, td and d.final(s)))
                    want = E["acc"]("n")
                else:
                    T, Tw = d.layer.J(d.z["k"], "input", 0, "E"), d.layer.J(d.z["k"], "weight", 0, "E")
                    a0 = uf("gw<k", [Bd, f["k"]], dt) if d.pre else None
                    a1 = [sp_jvp(T, a0)] if a0 is not None else []
                    if Tw is not None:
                        a1.append(sp_jvp(Tw, parts[1]))
                    a1 = None if not a1 else (a1[0] if len(a1) == 1 else a1[0] + a1[1])
                    an = a1 if d.last else (uf("gwn", [Bd, f["n"]], dt) if par else None)
                    av = {"0": None, "k": a0, "k1": a1, "n": an}
                    E["acc"] = lambda s: av[s]
                    want = an
            args = (m,)
        d.back = meth in ("jacobian", "mjp", "vjp", "jTmjp") or none and meth == "jmp"
        if "acc" in E:
            E["acc~"] = None
        v = net.forward(x) if (val if mode not in ("any", "any+forward") else mode == "any+forward") else None
        if val == "any":
            # any other tensor of the same rank
            v = tensor_d("anyval", [dim_of(Sym.size(f"any{i}")) for i in range(v.ndim)])
        if mode == "frame":
            d.arg = m if isinstance(m, Tensor) else None
            if wrt == "weight" and meth in ("jvp", "jmp", "jmjTp"):
                d.protected = [t.store for t in (x, d.arg, v) if t is not None] + ([d.layer._parameters["weight"].store] if d.par else [])
                d.arg = None
            fr = misc_frame(d, net, x, v, args)
        got = getattr(net, meth)(x, v, *args, wrt=wrt, **kw)
        if mode == "frame":
            yield from fr.check()
            return
        yield from result(meth, got, want)

    return body


def skip_body(W, inv, meth, wrt, fd=False, td=False, none=False, db=False, val=True, rank=1, lst=False, mode=None, dts=None):
    """a skip connection around any container (the contract of Sequential, of any depth)"""

    def body():
        if dts:
            State.default = dts[0]
            yield "dtype", dts[0]
        d = Depth(W, inv, rank, True, mode == "frame", True)
        State.depth = d
        try:
            with depth_builtins(W):
                yield from inner(d)
        finally:
            State.depth = None

    def inner(d):
        x, z = d.z["0"], d.z["n"]
        P_ = d.layer._parameters.get("weight")
        dummy = d.spec.Abs(d.spec, "dummy", z.dims[1:], None if P_ is None else P_.shape[0])
        net = W.nnj.SkipConnection(dummy)
        cs = [n for n, m in net._modules.items() if builtins.isinstance(m, W.nnj.Sequential)]
        if len(cs) != 1 or len(net._modules) != 1 or any(isinstance(v, symnn.Module) for v in net.__dict__.values()):
            raise Unsupported("other structure of a skip connection")
        net._modules[cs[0]] = d.layer
        d.layer.__dict__["loose"] = True
        yield "assert", intp(net._n_params) and eq0(P(net._n_params) - d.nw["n"]), "number of parameters"
        if mode in ("any", "any+forward"):
            import misc

            attrs, unknown, _ = misc.state_of(W)
            if unknown:
                raise Unsupported("state outside of the objects: " + unknown[0])
            for a in attrs - misc.KEEP:
                if a in net.__dict__:
                    net.__dict__[a] = symnn.Poison()
            d.layer.__dict__["last"] = "unknown"
        real = net
        if dts:
            import cont

            net = cont.Typed(net, *dts)
        Bd, dt = d.B, x.dtype
        y = st.cat([x, z], 1)
        I = eyeT(Bd, d.f["0"], dt)
        l = d.f["0"]
        Od = Dim([CatFac([l, d.f["n"]])])
        if wrt == "input":
            J = st.cat([I, d.J], 1)
        else:
            J = None if d.Wk is None else st.cat([Tensor([Bd, l, d.Wk.dims[2]], lambda idx: S(0), dt), d.Wk], 1)
        K = dim_of(Sym.size("K"))
        Na = l if wrt == "input" else (d.wdim if d.wdim is not None else dim_of(0))
        N1 = mkint(l.size)
        args, m, want = (), None, None
        opt = lambda g: None if J is None else g(J)
        kw = {}
        if meth in ("jTmjp", "jmjTp"):
            kw = dict(from_diag=fd, to_diag=td)
            if db:
                kw["diag_backprop"] = True
        if meth == "jacobian":
            want = J
        elif meth in ("jvp", "vjp"):
            m = tensor_d("V", [Bd, Na if meth == "jvp" else Od])
            want = opt(lambda j: (sp_jvp if meth == "jvp" else sp_vjp)(j, m))
            args = (m,)
        elif meth in ("jmp", "mjp"):
            m = None if none else tensor_d("M", [Bd, Na, K] if meth == "jmp" else [Bd, K, Od])
            want = opt(lambda j: (sp_jmp if meth == "jmp" else sp_mjp)(j, m))
            args = (m,)
        elif meth == "jTmjp":
            m = None if none else tensor_d("M", [Bd, Od] if fd else [Bd, Od, Od])
            mv = m if m is not None else Tensor([Bd, Od], lambda idx: S(1), dt)
            fd_ = fd or none
            if db:
                T = d.layer.J(x, wrt, 0, "D")
                want = None if T is None else sp_vjp(T, mv[:, N1:])
                if wrt == "input":
                    want = want + mv[:, :N1]
            elif wrt == "weight" and not td:
                want = opt(lambda j: SList([Seg("blocks " + st.content_key(sp_jTmjp(d.Wk, mv[:, N1:] if fd_ else mv[:, N1:, N1:], fd_, False)), Sym.size("cp"))]))
            else:
                want = opt(lambda j: sp_jTmjp(j, mv, fd_, td))
            args = (m,)
        elif meth == "jmjTp":
            fd_ = fd or none
            m = None if none else tensor_d("M", [Bd, Na] if fd else [Bd, Na, Na])
            mv = m if m is not None else Tensor([Bd, Na], lambda idx: S(1), dt)
            ms = mv
            if wrt == "weight" and not fd_ and d.par:
                ms = d.mask(mv)
            if lst:
                if not d.par:
                    m = SList([])
                else:
                    ms = mv
                    m = SList([Seg("mk", Sym.size("cp"), cats={"metric": mv})])
            if db:
                T = d.layer.J(x, wrt, 0, "E")
                want = None if T is None else st.cat([mv if wrt == "input" else Tensor([Bd, l], lambda idx: S(0), dt), sp_jvp(T, mv)], 1)
            else:
                want = opt(lambda j: sp_jmjTp(j, ms, fd_, td))
            args = (m,)
        fr = None
        if meth == "forward":
            fr = misc_frame(d, real, x, None, ()) if mode == "frame" else None
            got, want = net.forward(x), y
        else:
            v = net.forward(x) if (val if mode not in ("any", "any+forward") else mode == "any+forward") else None
            if mode == "frame":
                fr = misc_frame(d, real, x, v, args)
            got = getattr(net, meth)(x, v, *args, wrt=wrt, **kw)
        if fr is not None:
            yield from fr.check()
            return
        yield from result(meth, got, want)

    return body


def result(meth, got, want):
    if isinstance(want, SList) or isinstance(got, SList):
        if not isinstance(want, SList) or not isinstance(got, SList):
            raise Fail(f"{meth}: {'a list' if isinstance(got, SList) else 'not a list'}")
        if not eqv(got, want):
            raise Open("lists differ")
        yield "assert", True, "list"
        return
    yield meth, got, want


class depth_builtins:
    """list and isinstance as seen by the code while a network of arbitrary depth is explored"""

    def __init__(self, W):
        self.b = W.builtins

    def __enter__(self):
        self.old = {k: self.b[k] for k in ("list", "isinstance")}
        self.b["list"] = slist
        self.b["isinstance"] = lambda o, t: symnn.sisinstance(o, tuple(builtins.list if x is slist else x for x in (t if isinstance(t, tuple) else (t,))))

    def __exit__(self, *a):
        self.b.update(self.old)


def misc_frame(d, net, x, v, args):
    import misc

    items = [("x", x), ("val", v)]
    for a in args:
        if isinstance(a, SList):
            raw = a.raw()
            items += [("a block of the argument", t) for t in raw if isinstance(t, Tensor)]
            d.lists = (a, raw)
        else:
            items.append(("the argument", a))
    if d.par:
        items.append(("parameter", d.layer._parameters["weight"]))
    fr = misc.Frame(items)

    class Fr:
        def check(self):
            yield from fr.check()
            if getattr(d, "lists", None):
                a, raw = d.lists
                now = a.raw()
                yield "assert", len(now) == len(raw) and all(p is q for p, q in zip(now, raw)), "the list of blocks was changed"

    f = Fr()

    def end():
        for it in f.check():
            d.stats["checked"] += 1
            if it[0] == "assert":
                if not it[1]:
                    raise Fail(it[2])
            else:
                compare(it[1], it[2], it[0], d.stats)

    d.frame = end
    return f


def seg3(d, s, a, b, c, dim):
    """list of the per layer values of the parametric layers from stage s on"""
    it = []
    if s == "0" and a is not None:
        it.append(Seg("p<k", d.kp, cats={dim: a}))
    if (s == "k" or s == "0") and b is not None:
        it.append(b)
    if s != "n" and c is not None:
        it.append(Seg("p>k", d.sp, cats={dim: c}))
    return SList(it)


def seglist(d, s, g, dim):
    if s == "n":
        return SList([])
    a, b, c = d.DWparts("n")
    o = lambda t: None if t is None else g(t)
    if dim is None and d.layer.comp and b is not None:
        return seg3(d, s, True if a is not None else None, SList([Seg("blocks " + st.content_key(g(b)), Sym.size("cp"))]), True if c is not None else None, None)
    if dim is None:
        # the blocks of the prefix and of the suffix have no common tensor
        return seg3(d, s, True if a is not None else None, o(b), True if c is not None else None, None)
    return seg3(d, s, o(a), o(b), o(c), dim)


def lemma_body(W):
    """what the entities stand for does not depend on k"""

    def body():
        d = Depth(W, Inv())
        x = d.z["0"]
        I = lambda t, s: t if t is not None else eyeT(d.B, d.f[s], x.dtype)
        # R(k1) D(k1) = R(k) D(k)
        yield "chain", I(mm(d.R("k1"), d.D("k1")), "n"), I(mm(d.R("k"), d.D("k")), "n")
        # [R(k1) DW(k1), RW(k1)] = [R(k) DW(k), RW(k)]
        a = catn([None if d.DW("k1") is None else mm(d.R("k1"), d.DW("k1")), d.RW1], 2)
        rw = [None if d.Wk is None else mm(d.R1, d.Wk), d.RW1]
        b = catn([None if d.DW("k") is None else mm(d.R("k"), d.DW("k")), *rw], 2)
        yield "weight chain", a, b

    return body


def run_depth(name, mk, allow=default_allow, timeout=60, rounds=16):
    """mk(inv) -> body; Houdini"""
    r = run_depth1(name, mk, allow, timeout, rounds, 0)
    if r.status != "proved" and "Unsupported" in r.why and "earlier call" in r.why:
        # a different choice among candidates that cannot be told apart
        q = run_depth1(name, mk, allow, timeout, rounds, -1)
        if q.status == "proved":
            return q
    return r


def run_depth1(name, mk, allow, timeout, rounds, pick):
    inv = Inv()
    inv.pick = pick
    t0 = time.time()
    for i in range(rounds):
        inv.changed = False
        r = run(name, mk(inv), allow, timeout=max(2, timeout - (time.time() - t0)), max_paths=400, full=True)
        if DEBUG:
            print("round", i, r.status, r.why, r.paths, inv.changed)
        if not inv.changed:
            if not inv.deferred:
                break
            inv.defer = False
        inv.deferred = False
    else:
        r.status, r.why = "open", "invariants not found"
    if inv.changed and r.status != "open":
        r.status, r.why = "open", "invariants not stable"
    r.time = time.time() - t0
    r.inv = inv
    if r.status == "refuted":
        r.gap = True
    return r


B2 = (False, True)


def calls():
    for wrt in ("input", "weight"):
        for meth in ("jacobian", "jvp", "jmp", "vjp", "mjp", "jTmjp", "jmjTp"):
            sq = meth in ("jTmjp", "jmjTp")
            for db in B2 if sq else (False,):
                for fd in B2 if sq else (False,):
                    for td in B2 if sq else (False,):
                        for none in B2 if meth in ("jmp", "mjp", "jTmjp", "jmjTp") else (False,):
                            if none and fd or db and not ((fd or none) and td):
                                continue
                            for lst in B2 if meth == "jmjTp" and wrt == "weight" and not none else (False,):
                                yield dict(meth=meth, wrt=wrt, fd=fd, td=td, none=none, db=db, lst=lst)


def call_name(meth, wrt, fd, td, none, db, lst):
    return f"{meth}[{wrt}{',from_diag' * fd}{',to_diag' * td}{',metric=None' * none}{',blocks' * lst}{',diag_backprop' * db}"


if __name__ == "__main__":
    import re

    W = symnn.World()
    flt = sys.argv[1] if len(sys.argv) > 1 else ""
    extra = eval("dict(%s)" % (sys.argv[2] if len(sys.argv) > 2 else ""))
    print("lemma", run("lemma", lemma_body(W), max_paths=100).__dict__)
    cs = list(calls()) + [dict(meth="forward", wrt="input", fd=False, td=False, none=False, db=False, lst=False)]
    vals = [extra.pop("val")] if "val" in extra else B2
    for c in cs:
        for val in vals:
            extra = {k: v for k, v in extra.items() if k != "val"}
            nm = call_name(**c) + ("]" if val else ",val=None]")
            if not re.search(flt, nm):
                continue
            r = run_depth(nm, lambda inv: (skip_body if len(sys.argv) > 3 else depth_body)(W, inv, val=val, **c, **extra))
            print(nm, r.status, r.paths, r.vcs, "%.1f" % r.time, r.why[:300], r.cex and str(r.cex)[:300], flush=True)
            if DEBUG:
                for s, t in r.inv.sites.items():
                    print("  ", s)
                    for l, c_ in t.items():
                        if "=" not in c_:
                            print("      ", l, c_)
