"""Lists of any length: the functions that walk a list of layers or of blocks, and recurse into nested ones.

The list has n = k + 1 + m elements, n symbolic; element k is generic, the others are known only through the segments
before and after it.  Loops are cut by invariants as in depth.py; a recursive call on an element is replaced by the contract
of the function (the element is structurally smaller than the list: induction)."""
import cfg
import ctx as _ctx
import depth as D
import misc as M
import symnn
from depth import Depth, Inv, LayerDict, Layers, SList, Seg, depth_builtins, run_depth, snap, unchanged
from oblig import *


class Goal:
    """an element of a list of results: any value that satisfies pred"""

    def __init__(self, pred, value):
        self.pred, self.value = pred, value


class Star:
    """f(*list) for a list of unknown length"""

    def __init__(self, l):
        self.list = l


class ItemDict(dict):
    """_modules of a container built from a list of unknown length"""

    def __init__(self, l):
        self.l = l

    def values(self):
        return SList(self.l.raw())

    def _no(self, *a, **k):
        raise Unsupported("operation on the modules of a network of unknown depth")

    __iter__ = __len__ = keys = items = __contains__ = __getitem__ = __setitem__ = get = pop = __delitem__ = _no


class Items(Depth):
    """state of one path: the items of the list, the result for element k is described by goal"""

    def __init__(self, W, inv, item, goal, glob=None):
        self.W, self.inv, self.stats = W, inv, dict(checked=0)
        self.loops, self.inside, self.last0, self.arg, self.frame = 0, False, None, None, None
        self.protected, self.alias, self.z = (), False, {}
        self.first = _ctx.flag("element k is the first")
        self.last = _ctx.flag("element k is the last")
        self.k = Poly.const(0) if self.first else P(Sym.size("k"))
        self.m = Poly.const(0) if self.last else P(Sym.size("m"))
        self.n = self.k + 1 + self.m
        self.ix = {"0": Poly.const(0), "k": self.k, "k1": self.k + 1, "n": self.n}
        self.layer = item
        self.goal = goal
        self.glob = glob
        class Sp:
            class Abs:
                pass

        self.spec = Sp
        d = self
        self.ents = dict(
            results=self.results,
            revresults=lambda s: self.results(s).rev(),
            index=lambda s: mkint(d.ix[s]),
            prev=lambda s: mkint(d.ix[s] - 1),
            empty=lambda s: SList([]),
            none=lambda s: None,
            atstart=lambda s: s == "0" or (s == "k" and d.first),
            notstart=lambda s: not (s == "0" or (s == "k" and d.first)),
        )
        self.layers = Layers(self)

    @property
    def layer(self):
        return self.item

    @layer.setter
    def layer(self, item):
        self.item = item
        try:
            item.__dict__["last"] = None  # abstract layers have a state, these elements do not
        except AttributeError:
            pass

    def items(self, a="item"):
        return SList(([] if self.first else [Seg(a + "<k", self.k)]) + [self.layer] + ([] if self.last else [Seg(a + ">k", self.m)]))

    def results(self, s):
        r = []
        if s != "0" and not self.first:
            r.append(Seg("result<k", self.k))
        if s in ("k1", "n"):
            r.append(self.goal.value)
        if s == "n" and not self.last:
            r.append(Seg("result>k", self.m))
        return SList(r)

    def holds(self, v, nm, s):
        if nm in ("results", "revresults"):
            if not isinstance(v, SList):
                return False
            w = self.results(s) if nm == "results" else self.results(s).rev()
            a, b = v.raw(), w.raw()
            return len(a) == len(b) and all((x.same(y) if isinstance(x, Seg) else False) if isinstance(y, Seg) else (not isinstance(x, Seg) and (x is self.goal.value or self.meets(x))) for x, y in zip(a, b))
        return Depth.holds(self, v, nm, s)

    def meets(self, x):
        try:
            for it in self.goal.pred(x):
                self.stats["checked"] += 1
                State.depth, d = None, State.depth
                try:
                    if it[0] == "assert":
                        if not it[1]:
                            raise Fail(it[2])
                    else:
                        compare(it[1], it[2], it[0], self.stats)
                finally:
                    State.depth = d
            return True
        except (Fail, Unsupported, Undecided, Open) as e:
            if DEBUG:
                print("goal:", type(e).__name__, e)
            return False

    def comprehension(self, kind, it, f, cond):
        c = self.cuttable(it)
        if c is None:
            g = (f(x) for x in it if cond is None or cond(x))
            return g if kind == "gen" else SList(g)
        if cond is not None:
            raise Unsupported("filter over the elements")
        if self.inside:
            raise Unsupported("comprehension over the elements inside an iteration")
        s = {k: snap(v) for k, v in (self.glob or {}).items() if isinstance(v, (list, dict, set)) and not k.startswith("__")}
        v = f(c.item())
        for k, t in s.items():
            if not unchanged(t, self.glob.get(k)):
                raise Unsupported("global state changed in a comprehension over the elements")
        if not (v is self.goal.value or self.meets(v)):
            raise Open("the result for an element does not meet its contract")
        r = SList(self.results("n").raw())
        return r.rev() if c.rev else r


class patched:
    """the recursive calls of a function replaced by its contract"""

    def __init__(self, f, contract):
        self.g, self.name, self.f = f.__globals__, f.__name__, f
        self.contract = contract

    def __enter__(self):
        self.g[self.name] = self.contract

    def __exit__(self, *a):
        self.g[self.name] = self.f


# ------------------------------------------------------------------ C19
def inv_body(W, inv, elem, batch=()):
    """invert_block_diagonal of a list of n elements; elem: 'matrix' or 'list' (an arbitrarily nested list)"""

    def body():
        f = W.nnj.utils.invert_block_diagonal
        if elem == "matrix":
            item = cfg.spd("a", [Sym.size(c) for c in batch])
            want = symnn.lin_inv(item)

            def pred(v):
                yield "assert", isinstance(v, Tensor), "the result for a block is not a tensor"
                yield "inverse of block k", v, want
        else:
            item = SList([Seg("inner", Sym.size("inner"))])
            want = SList([Seg("inverses of inner", Sym.size("inner"))])

            def pred(v):
                yield "assert", v is want, "the result for a nested list is not the result of the recursion"

        fr = M.Frame([("block k", item)]) if elem == "matrix" else None
        d = Items(W, inv, item, Goal(pred, want), f.__globals__)
        arg = d.items()
        raw = arg.raw()
        State.depth = d

        def contract(matrix, *a, **k):
            if matrix is item and elem == "list":
                return want
            if matrix is item and not a and not k:
                return f(matrix)
            if isinstance(matrix, SList) and matrix.sym():
                raise Unsupported("recursion on another list")
            return f(matrix, *a, **k)

        try:
            with depth_builtins(W), patched(f, contract):
                got = f(arg)
        finally:
            State.depth = None
        if not isinstance(got, SList):
            raise Unsupported("the result is not a list of known elements")
        a, b = got.raw(), d.results("n").raw()
        if len(a) != len(b) or any(isinstance(x, Seg) != isinstance(y, Seg) or isinstance(x, Seg) and not x.same(y) for x, y in zip(a, b)):
            raise Unsupported("the result is not the list of the inverses in order")
        for x, y in zip(a, b):
            if not isinstance(y, Seg) and x is not want:
                yield from pred(x)
        now = arg.raw()
        yield "assert", len(now) == len(raw) and all(p is q for p, q in zip(now, raw)), "the given list was changed"
        if fr:
            yield from fr.check()

    return body


# ------------------------------------------------------------------ C18
def conv_body(W, inv, make, refuse=False):
    """convert_to_nnj of a Sequential of n layers; layer k is what make builds, a refused one, or a nested Sequential (make None)"""

    def body():
        n = W.torch.nn
        f = W.nnj.utils.convert_to_nnj
        if make is None:

            class Inner(n.Sequential):
                def __iter__(self):
                    raise Unsupported("the layers of a nested network")

                __getitem__ = __len__ = children = named_children = modules = parameters = __iter__

            Inner.__name__ = Inner.__qualname__ = "Sequential"
            item = Inner()
            value = W.nnj.Sequential()

            def pred(v):
                yield "assert", v is value, "a nested network is not converted"
        elif refuse:
            item = make(n)
            value = symnn.Module()

            def pred(v):
                yield "assert", False, "a layer without a counterpart was converted"
        else:
            item, x = make(n, cfg.Q())
            value = symnn.Module()
            ps = list(item.parameters())
            before = [M.snap(p) for p in ps]

            def pred(v):
                yield "assert", isinstance(v, W.nnj.AbstractJacobian) and isinstance(v, symnn.Module), "not an nnj layer"
                qs = list(v.parameters())
                yield "assert", len(qs) == len(ps), "number of parameters"
                for k, (p, b, r) in enumerate(zip(qs, before, ps)):
                    yield f"parameter {k}", p, b
                    yield f"parameter {k} of the original", r, b
                s, State.depth = State.depth, None
                try:
                    want = item.forward(x.clone())
                    got = v.forward(x.clone())
                finally:
                    State.depth = s
                yield "output of the converted layer", got, want

        d = Items(W, inv, item, Goal(pred, value), f.__globals__)
        State.depth = d
        net = n.Sequential(d.layers)

        def contract(a):
            if a is item and make is None:
                return value
            raise Unsupported("recursion on another network")

        try:
            with depth_builtins(W), patched(f, contract):
                try:
                    got = f(net)
                except (_ctx.PathEnd, Unsupported, Undecided, Open, Fail):
                    raise
                except Exception as e:
                    if make is not None and (refuse or cfg.refusal(e)):
                        yield "assert", True, ""
                        return
                    raise
        finally:
            State.depth = None
        if not isinstance(got, W.nnj.Sequential):
            raise Fail("the result is not an nnj.Sequential")
        a, b = got._modules.values(), d.results("n").raw()
        a = a.raw() if isinstance(a, SList) else list(a)
        if len(a) != len(b) or any(isinstance(x, Seg) != isinstance(y, Seg) or isinstance(x, Seg) and not x.same(y) for x, y in zip(a, b)):
            raise Unsupported("the result is not the list of the converted layers in order")
        for x, y in zip(a, b):
            if not isinstance(y, Seg) and x is not value and not refuse:
                yield from pred(x)
        yield "assert", not refuse, "a network with a layer without a counterpart was converted"

    return body


# ------------------------------------------------------------------ C17
def weight_body(W, what, skip=False):
    """get_weight, set_weight of a network of any depth; parameters() lists those of the layers in order"""

    def body():
        d = Depth(W, Inv())
        if not (d.pre or d.par or d.suf):
            yield "assert", True, ""
            return
        State.depth = d
        try:
            with depth_builtins(W):
                net = W.nnj.SkipConnection(d.layers) if skip else W.nnj.Sequential(d.layers)
                segs, ps = [], []
                U = lambda nm, q: tensor_d(nm, [q])
                lay = list(d.layer.parameters())
                if d.pre:
                    segs.append(Seg("params<k", d.kp, cats={"flat": U("W<k", d.Q)}))
                segs += lay
                if d.suf:
                    segs.append(Seg("params>k", d.sp, cats={"flat": U("W>k", d.S)}))
                plist = SList(segs)
                symnn.DEPTHPARAMS[0] = lambda m: plist if m is net else None
                vec = lambda: [s.cats["flat"] if isinstance(s, Seg) else s.reshape(-1) for s in plist.raw()]
                old = [M.snap(t) for t in vec()]
                cat = lambda ts: ts[0] if len(ts) == 1 else st.cat(SList(ts), 0)
                if what == "count":
                    yield "assert", D.intp(net._n_params) and D.eq0(P(net._n_params) - d.nw["n"]), "number of parameters"
                    return
                if what == "get":
                    yield "get_weight", net.get_weight(), cat(old)
                    for a, b in zip(vec(), old):
                        yield "parameters unchanged", a, b
                    return
                if what == "identity":
                    net.set_weight(net.get_weight())
                    for a, b in zip(vec(), old):
                        yield "parameters after set_weight(get_weight())", a, b
                    return
                w = tensor_d("Wn", [d.wdim])
                w0 = M.snap(w)
                net.set_weight(w)
                yield "get_weight after set_weight", net.get_weight(), w0
                yield "the given vector", w, w0
                # the parameters of layer k are those of the columns of layer k in the weight Jacobian (C08)
                if d.par:
                    q = mkint(d.nw["k"])
                    yield "parameters of layer k", lay[0].reshape(-1), w0[q : mkint(d.nw["k1"])]
        finally:
            State.depth = None
            symnn.DEPTHPARAMS[0] = lambda m: None

    return body


# ------------------------------------------------------------------ C16
def ggn_body(W, inv, lik, kind, a, elem):
    """ggn of a model with any number of layers: the model returns one (batch of) block per layer, or a nested list of them"""
    import cont
    import lik as LK

    def body():
        m, x, sp, node = LK.model(W, kind)
        t = tensor_d("T", list(sp.y.dims))
        L = LK.make(W, lik, a, "full")
        H = LK.hessian(lik, sp.y)
        blk = cont.total(sp.blocks)
        block = sp_jTmjp(blk, H, False, False)
        glob = type(L).ggn.__globals__
        if elem == "matrix":
            item = [None]
            want = LK.agg(a, block)

            def pred(v):
                yield "assert", isinstance(v, Tensor), "the result for a block is not a tensor"
                yield "aggregate of block k", v, want
        else:
            item = [SList([Seg("inner", Sym.size("inner"))])]
            want = SList([Seg("aggregates of inner", Sym.size("inner"))])

            def pred(v):
                yield "assert", v is want, "the result for a nested list is not the result of the recursion"

        d = Items(W, inv, None, Goal(pred, want), glob)
        real = m.jTmjp
        seen = []

        def jTmjp(x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
            r = real(x, val, matrix, wrt=wrt, from_diag=from_diag, to_diag=to_diag, diag_backprop=diag_backprop)
            if wrt != "weight" or to_diag or seen:
                raise Unsupported("another product than the one expected")
            d.layer = r if elem == "matrix" else item[0]
            seen.append((r, d.items()))
            return seen[0][1]

        m.__dict__["jTmjp"] = jTmjp
        # the state of an element is not tracked
        d.layer = symnn.Module()
        d.layer.__dict__["last"] = None
        State.depth = d
        cls = next((c for c in type(L).__mro__ if "_aggregate_ggn" in c.__dict__), None)
        f = cls.__dict__["_aggregate_ggn"] if cls is not None else None
        if elem == "list":
            if f is None or type(f).__name__ != "function":
                raise Unsupported("no recursive aggregation")
            cls._aggregate_ggn = lambda self, b, *k, **kw: want if b is item[0] else f(self, b, *k, **kw)
        try:
            with depth_builtins(W):
                got = L.ggn(x, m, t, wrt="weight")
        finally:
            State.depth = None
            if elem == "list":
                cls._aggregate_ggn = f
        if not seen:
            raise Unsupported("the blocks do not come from jTmjp")
        yield "block k of the model", seen[0][0], block
        if not isinstance(got, SList):
            raise Unsupported("the result is not a list of known elements")
        if a in (None, "return all") and got is seen[0][1]:
            yield "assert", True, "the blocks themselves"
            return
        p, q = got.raw(), d.results("n").raw()
        if len(p) != len(q) or any(isinstance(u, Seg) != isinstance(v, Seg) or isinstance(u, Seg) and not u.same(v) for u, v in zip(p, q)):
            raise Unsupported("the result is not the list of the aggregates in order")
        for u, v in zip(p, q):
            if not isinstance(v, Seg) and u is not want:
                yield from pred(u)

    return body
