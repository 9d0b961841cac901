"""Contracts of the base classes, of state, frames and types, of the likelihoods, of the weight access, of the converter
and of the refusal of configurations."""
import ast
import warnings

import leaf as L
import cont as K
from oblig import *
from cont import Spec, Builder, sp_node, fix, sizes_, uf, plain, fwd_body
from leaf import product
from ctx import PathEnd

MET = ("jacobian", "jvp", "jmp", "vjp", "mjp", "jTmjp", "jmjTp")


# ------------------------------------------------------------------ C07: layers that only supply their Jacobian
def custom(W, dense, rank, par, orank=1):
    """a user-defined layer: only forward and jacobian are given, as uninterpreted functions of the input"""
    spec = Spec(W)
    Bd = Sym.size("B")
    x = tensor("X", (Bd, *(sizes_("C H W") if rank == 3 else [Sym.size("I")])))
    nnj = W.nnj
    if dense:
        ab = spec.layer(1, orank, par)

        class Dense(nnj.AbstractJacobian, symnn.Module):
            def __init__(self):
                symnn.Module.__init__(self)
                self.__dict__["_n_params"] = ab._n_params

            def forward(self, x):
                return ab.forward(x)

            def jacobian(self, x, val=None, wrt="input"):
                return ab.jacobian(x, val, wrt)

        return Dense(), x, lambda wrt: ab.J(x, wrt), ab.F(x)
    N = plain(flatdim(x.dims[1:]))
    st0 = spec.stages

    class Diag(nnj.AbstractDiagonalJacobian, symnn.Module):
        def __init__(self):
            symnn.Module.__init__(self)
            self.__dict__["_n_params"] = mkint(N.size) if par else 0

        def forward(self, x):
            return uf("F@%d" % st0.find(x), list(x.dims), x.dtype)

        def jacobian(self, x, val=None, wrt="input", diag=False):
            if wrt == "weight" and not par:
                return None
            s = "%d" % st0.find(x)
            if val is not None:
                ok = K.same(val, uf("F@" + s, list(x.dims), x.dtype))
                if ok is None:
                    raise Unsupported("val not identified")
                if not ok:
                    spec.junk += 1
                    s += "!%d" % spec.junk
            d = uf(("d" if wrt == "input" else "e") + "@" + s, [x.dims[0], N], x.dtype)
            return d if diag else st.diag_embed(d)

    def J(wrt):
        if wrt == "weight" and not par:
            return None
        return st.diag_embed(uf(("d" if wrt == "input" else "e") + "@0", [x.dims[0], N], x.dtype))

    l = Diag()
    y = l.forward(x)
    return l, x, J, y


def custom_body(W, dense, rank, par, orank, meth, wrt, fd, td, none, val, db=False):
    def body():
        l, x, J, y = custom(W, dense, rank, par, orank)
        v = l.forward(x) if val else None
        yield from product(l, x, v, y, J(wrt), meth, wrt, fd, td, none, db)

    return body


def abstract_body(W, cls):
    """without a jacobian nothing is returned"""

    def body():
        l = getattr(W.nnj, cls)()
        x = tensor("X", sizes_("B I"))
        try:
            l.jacobian(x)
        except NotImplementedError:
            yield "assert", True, ""
        else:
            yield "assert", False, f"{cls}.jacobian returned a value"

    return body


# ------------------------------------------------------------------ C12: state
MUT = symnn.MUTATORS


def scan_state(W):
    """attribute names written outside of constructors, and module level / function level state, from the source"""
    attrs, unknown, by = set(), [], {}
    def add(cls, a):
        attrs.add(a)
        by.setdefault(cls, set()).add(a)

    for name in list(W.files):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(open(W.files[name]).read())
        top = {t.id for s in tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}

        def visit(n, fn, init, cls=None):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.ClassDef):
                    visit(c, fn, init, c.name)
                    continue
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    nested = fn is not None
                    if not isinstance(c, ast.Lambda):
                        for d in c.decorator_list:
                            if "cache" in ast.dump(d):
                                unknown.append(f"{name}: cache decorator on {c.name}")
                    a = c.args
                    for d in a.defaults + [k for k in a.kw_defaults if k is not None]:
                        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
                            unknown.append(f"{name}: mutable default argument")
                    visit(c, c, (not nested) and getattr(c, "name", "") == "__init__", cls)
                    continue
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    unknown.append(f"{name}: {type(c).__name__.lower()} statement")
                if fn is not None and not init:
                    if isinstance(c, ast.Attribute) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        add(cls, c.attr)
                    if isinstance(c, ast.Subscript) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        if isinstance(c.value, ast.Attribute):
                            add(cls, c.value.attr)
                        if isinstance(c.value, ast.Name) and c.value.id in top:
                            unknown.append(f"{name}: module level state {c.value.id}")
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and (c.func.attr in MUT or c.func.attr.endswith("_") and not c.func.attr.endswith("__")):
                        o = c.func.value
                        if isinstance(o, ast.Attribute):
                            add(cls, o.attr)
                        if isinstance(o, ast.Name) and o.id in top:
                            unknown.append(f"{name}: module level state {o.id}")
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("setattr", "delattr"):
                        if len(c.args) > 1 and isinstance(c.args[1], ast.Constant):
                            add(cls, c.args[1].value)
                        else:
                            unknown.append(f"{name}: setattr")
                    if isinstance(c, ast.Attribute) and c.attr == "__dict__":
                        unknown.append(f"{name}: __dict__")
                visit(c, fn, init, cls)

        visit(tree, None, False)
    return attrs, unknown, by


STATE = {}


def state_of(W):
    k = id(W)
    if k not in STATE:
        STATE[k] = scan_state(W)
    return STATE[k]


class History(Exception):
    pass


def quiet(calls):
    """calls that belong to the history: what they return or refuse is not in question here"""
    for c in calls:
        try:
            c()
        except (Unsupported, Open, Undecided, PathEnd, RecursionError):
            raise
        except Exception:
            pass


def stateful(W, l):
    """does any method of this object write anything?"""
    attrs, unknown, by = state_of(W)
    names = {None} | {k.__name__ for k in getattr(W.nnj, l.cls).__mro__}
    return bool(unknown) or any(by.get(n, set()) - KEEP for n in names)


def warm(l, z, calls):
    """run calls on another input; what they write is found by comparing the objects before and after"""
    before = {}
    for m in l.modules():
        m.__dict__["_attr_writes"].clear()
        for a, v in m.__dict__.items():
            if isinstance(v, (list, dict, set)) and a not in ("_parameters", "_modules", "_fhooks", "_fprehooks", "_attr_writes", "_buffers"):
                before[(id(m), a)] = (v, list(v) if not isinstance(v, dict) else list(v.items()))
    quiet(calls)
    found = set()
    for m in l.modules():
        found |= m.__dict__["_attr_writes"]
        for a, v in list(m.__dict__.items()):
            b = before.get((id(m), a))
            if b is not None and (v is not b[0] or not same_items(list(v) if not isinstance(v, dict) else list(v.items()), b[1])):
                found.add(a)
    return found


def same_items(a, b):
    return len(a) == len(b) and all((x is y) or (isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(p is q for p, q in zip(x, y))) for x, y in zip(a, b))


KEEP = {"data", "requires_grad", "grad", "training"}


def poison(W, l, found):
    """forget everything an earlier call may have left behind"""
    attrs, unknown, _ = state_of(W)
    if unknown:
        raise Unsupported("state outside of the objects: " + unknown[0])
    n = 0
    for m in l.modules():
        for a in (attrs | found) - KEEP:
            for d in (m.__dict__, m._buffers):
                if a in d:
                    d[a] = symnn.Poison()
                    n += 1
        if "last" in m.__dict__ and "spec" in m.__dict__:
            m.__dict__["last"] = "unknown"
    return n


def zlike(x, other_batch=True):
    dims = list(x.dims)
    if other_batch:
        dims[0] = dim_of(Sym.size("Bz"))
    return tensor_d("Z", dims)


def zcalls(l, z, y, n_par):
    """calls that exercise every method on z"""
    Bz, O = z.dims[0], atom_dim(flatdim(y.dims[1:]).size)
    I = atom_dim(flatdim(z.dims[1:]).size)
    out = [lambda: l(z)]
    vO, mO = tensor_d("Zv", [Bz, O]), tensor_d("Zm", [Bz, O, O])
    vI = tensor_d("Zi", [Bz, I])
    out += [lambda: l.vjp(z, None, vO, wrt="input"), lambda: l.mjp(z, None, mO, wrt="input"), lambda: l.jTmjp(z, None, mO, wrt="input"), lambda: l.jvp(z, None, vI, wrt="input"),
            lambda: l.jTmjp(z, None, vO, wrt="weight", from_diag=True, to_diag=True), lambda: l.jmjTp(z, None, vI, wrt="input", from_diag=True, to_diag=True), lambda: l.jacobian(z, None, wrt="input")]
    return out


def hist_run(W, l, x, y, mode, setw=True):
    """bring the object into the state described by mode; returns the x to use"""
    if mode in ("any", "any+forward"):
        z = zlike(x)
        found = warm(l, z, zcalls(l, z, y, None))
        poison(W, l, found)
        return x
    if mode == "forward(z)":
        l.forward(zlike(x))
        return x
    if mode == "forward(z same batch)":
        l.forward(zlike(x, False))
        return x
    if mode == "products(z)":
        z = zlike(x, False)
        quiet(zcalls(l, z, y, None))
        return x
    if mode == "x overwritten":
        q = tensor_d("Q", list(x.dims))
        q.uname = x.uname
        l.forward(q)
        quiet([lambda: l.vjp(q, None, tensor_d("Zv", [x.dims[0], atom_dim(flatdim(y.dims[1:]).size)]), wrt="input")])
        q.copy_(x)
        return q
    raise ValueError(mode)


HMODES = ("any", "any+forward", "forward(z)", "forward(z same batch)", "products(z)", "x overwritten")


def hist_leaf(W, leaf, mode):
    def mk(W, leaf, meth, wrt, fd=False, td=False, none=False, val=True, db=False):
        def body():
            l, x = leaf.make(W)
            y = l.forward(x)
            J = jac_input(y, x) if wrt == "input" else jac_weight(y, list(l.parameters()))
            xx = hist_run(W, l, x, y, mode)
            v = l.forward(xx) if mode == "any+forward" else None
            yield from product(l, xx, v, y, J, meth, wrt, fd, td, none, db)

        return body

    return mk


def cont_setup(W, pat, rank):
    b = Builder(W, pat)
    B = Sym.size("B")
    x = tensor("X", (B, *(sizes_("C H W") if rank == 3 else [Sym.size("I")])))
    n = b.tree[0]
    fix(n, x.dims[1:])
    return b, x, n, n[1]


def hist_fwd_leaf(W, leaf, mode):
    """forward itself has no history"""

    def body():
        l, x = leaf.make(W)
        y = l.forward(x)
        xx = hist_run(W, l, x, y, mode)
        yield "forward", l.forward(xx), y

    return body


def hist_fwd_cont(W, pat, rank, mode):
    def body():
        b, x, n, l = cont_setup(W, pat, rank)
        sp = sp_node(n, x)
        xx = hist_run(W, l, x, sp.y, mode)
        yield "forward", l(xx), sp.y

    return body


def setw_body(W, make, meth, wrt_first="input"):
    """after set_weight nothing computed with the old weights is used"""

    def body():
        l, x = make(W)
        l2, _ = make(W)
        y = l.forward(x)
        O = atom_dim(flatdim(y.dims[1:]).size)
        V = tensor_d("V", [x.dims[0], O])
        l.vjp(x, None, V, wrt="input")
        ps, ps2 = list(l.parameters()), list(l2.parameters())
        if ps:
            w = tensor_d("Wn", [Dim([CatFac([flatdim(p.dims) for p in ps])])] if len(ps) > 1 else [flatdim(ps[0].dims)])
            l.set_weight(w)
            k = 0
            for p in ps2:
                nn_ = p.numel()
                p.data = w[k : k + nn_].reshape(*p.shape)
                k = k + nn_
        got = l.vjp(x, None, V, wrt="input") if meth == "vjp" else l.forward(x) if meth == "forward" else l.jacobian(x, None, wrt="input")
        want = l2.vjp(x, None, V, wrt="input") if meth == "vjp" else l2.forward(x) if meth == "forward" else l2.jacobian(x, None, wrt="input")
        yield meth, got, want

    return body


def _net(f, *names):
    def make(W):
        s = [Sym.size(n) for n in names]
        return f(W.nnj, *s)

    return make


def X(*sh):
    return tensor("X", sh)


NETS = [
    ("Sequential(Linear,Tanh,Linear)", _net(lambda n, B, I, H, O: (n.Sequential(n.Linear(I, H), n.Tanh(), n.Linear(H, O)), X(B, I)), "B", "I", "H", "O")),
    ("Sequential(Linear,Sequential(Tanh,Linear))", _net(lambda n, B, I, H, O: (n.Sequential(n.Linear(I, H), n.Sequential(n.Tanh(), n.Linear(H, O))), X(B, I)), "B", "I", "H", "O")),
    ("SkipConnection(Linear,Tanh)", _net(lambda n, B, I, H: (n.SkipConnection(n.Linear(I, H), n.Tanh()), X(B, I)), "B", "I", "H")),
]


def _chain(k):
    def f(n, B, I):
        ls = []
        for j in range(k):
            ls += [n.Linear(I, I, bias=j % 3 != 1), n.Tanh()] if j % 2 else [n.Linear(I, I)]
        return n.Sequential(*ls), X(B, I)

    return f


WNETS = NETS + [
    ("Sequential(12 Linear)", _net(_chain(12), "B", "I")),
    ("Sequential(Conv2d,ReLU,Conv2d(bias=False))", _net(lambda n, B, C, D, E, H, Wd: (n.Sequential(n.Conv2d(C, D, 1), n.ReLU(), n.Conv2d(D, E, (1, 1), bias=False)), X(B, C, H, Wd)), "B", "C", "D", "E", "H", "W")),
    ("SkipConnection(SkipConnection(Linear),Linear(bias=False))", _net(lambda n, B, I, H, O: (n.SkipConnection(n.SkipConnection(n.Linear(I, H)), n.Linear(I + H, O, bias=False)), X(B, I)), "B", "I", "H", "O")),
    ("Sequential(Sequential(Sequential(Linear)),SkipConnection(Linear),Linear)", _net(lambda n, B, I, H, O: (n.Sequential(n.Sequential(n.Sequential(n.Linear(I, I))), n.SkipConnection(n.Linear(I, H), n.Sigmoid()), n.Linear(I + H, O)), X(B, I)), "B", "I", "H", "O")),
    ("Sequential(Linear,Reshape,Upsample,Flatten,L2Norm,Linear)", _net(lambda n, B, I, C, H, O: (n.Sequential(n.Linear(I, C * H * H), n.Reshape(C, H, H), n.Upsample(scale_factor=2), n.Flatten(), n.L2Norm(), n.Linear(C * (H * 2) * (H * 2), O)), X(B, I)), "B", "I", "C", "H", "O")),
    ("Sequential(Tanh,Sequential(ReLU))", _net(lambda n, B, I: (n.Sequential(n.Tanh(), n.Sequential(n.ReLU())), X(B, I)), "B", "I")),
]


def flatcat(ps):
    ps = [p.reshape(-1) for p in ps]
    return ps[0] if len(ps) == 1 else st.cat(ps, 0)


def wvec(ps):
    """an arbitrary vector as long as all parameters together"""
    return tensor_d("Wn", [Dim([CatFac([flatdim(p.dims) for p in ps])])] if len(ps) > 1 else [flatdim(ps[0].dims)])


def count_body(W, make):
    def body():
        l, x = make(W)
        n = ZERO
        for p in l.parameters():
            n = n + P(p.numel())
        d = P(l._n_params) - n
        if d.t and not implies(C("eq", d)):
            raise Fail(f"_n_params is {l._n_params}, the parameters count {n}", dict(sizes={}))
        yield "assert", True, ""

    return body


def getw_body(W, make):
    def body():
        l, x = make(W)
        ps = list(l.parameters())
        want = flatcat(ps)
        fr = Frame([(f"parameter {k}", p) for k, p in enumerate(ps)])
        yield "get_weight", l.get_weight(), want
        yield from fr.check()
        yield "assert", all(p is q for p, q in zip(ps, l.parameters())), "the parameters were replaced"

    return body


def rw_body(W, make, what):
    def body():
        l, x = make(W)
        ps = list(l.parameters())
        old = [snap(p) for p in ps]
        if what == "identity":
            l.set_weight(l.get_weight())
            for k, (p, o) in enumerate(zip(l.parameters(), old)):
                yield f"parameter {k} after set_weight(get_weight())", p, o
            return
        w = wvec(ps)
        w0 = snap(w)
        l.set_weight(w)
        qs = list(l.parameters())
        yield "assert", len(qs) == len(ps) and all(p is q for p, q in zip(ps, qs)), "the parameters were replaced"
        if what == "read":
            yield "get_weight after set_weight", l.get_weight(), w0
            yield "the given vector", w, w0
            return
        pieces, k = [], 0
        for p in ps:
            n = p.numel()
            pieces.append(w0[k : k + n].reshape(*p.shape))
            k = k + n
        if what == "parameters":
            for k, (p, q) in enumerate(zip(qs, pieces)):
                yield f"parameter {k}", p, q
            return
        l2, _ = make(W)
        for p, q in zip(l2.parameters(), pieces):
            p.data = q
        yield "forward after set_weight", l(x), l2(x)

    return body


def abs_make(pat, rank=1):
    def make(W):
        b, x, n, l = cont_setup(W, pat, rank)
        return l, x

    return make


# ------------------------------------------------------------------ C13: frames
def snap(t):
    c = Tensor(t.dims, t.elem, t.dtype)
    c.stop = True
    return c


class Frame:
    """tensors the callee may not change"""

    def call(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Unsupported as e:
            for label, t, a, h, o in self.items:
                if not isinstance(t, list) and len(o[1].log) > a:
                    raise soft(f"{label} is written in place ({e})")
            raise

    def __init__(self, items):
        self.items = []
        for label, t in items:
            if isinstance(t, list):
                self.items.append((label, t, list(t), None, None))
                for k, q in enumerate(t):
                    self.items += Frame([(f"{label}[{k}]", q)]).items
            elif isinstance(t, Tensor):
                self.items.append((label, t, len(t.store.log), len(t.hist), (snap(t), t.store)))

    def check(self):
        for label, t, a, h, o in self.items:
            if isinstance(t, list):
                yield "assert", len(t) == len(a) and all(p is q for p, q in zip(t, a)), f"{label} was changed"
                continue
            old, store = o
            if len(store.log) == a and len(t.hist) == h and t.store is store:
                yield "assert", True, ""
                continue
            if len(t.hist) == h and t.store is store:
                raise soft(f"{label} is written in place through another tensor")
            try:
                yield f"contents of {label} after the call", t, old
            except Unsupported as e:
                raise Open(f"{label} is written in place: {e}")


def arg_for(meth, x, y, J, blocks, fd, none, lst, Na):
    Bd, Oa = x.dims[0], atom_dim(flatdim(y.dims[1:]).size)
    K_ = dim_of(Sym.size("K"))
    if meth in ("jacobian", "forward"):
        return ()
    if meth in ("jvp", "vjp"):
        return (tensor_d("V", [Bd, Na if meth == "jvp" else Oa]),)
    if meth in ("jmp", "mjp"):
        return (None if none else tensor_d("M", [Bd, Na, K_] if meth == "jmp" else [Bd, K_, Oa]),)
    A = Na if meth == "jmjTp" else Oa
    if lst:
        return (K.mapblocks_i(blocks, lambda q, i: tensor_d(f"M{i}", [Bd, plain(q.dims[2])] if fd else [Bd, plain(q.dims[2]), plain(q.dims[2])])),)
    return (None if none else tensor_d("M", [Bd, A] if fd else [Bd, A, A]),)


def do_call(l, meth, x, v, args, wrt, fd, td, db):
    if meth == "forward":
        return l.forward(x)
    kw = dict(wrt=wrt)
    if meth in ("jTmjp", "jmjTp"):
        kw.update(from_diag=fd, to_diag=td)
        if db:
            kw["diag_backprop"] = True
    return getattr(l, meth)(x, v, *args, **kw)


def frame_items(l, x, v, args):
    return [("x", x), ("val", v)] + [("the argument", a) for a in args] + [(f"parameter {k}", p) for k, p in enumerate(l.parameters())]


def frame_leaf(W, leaf, meth, wrt, fd=False, td=False, none=False, val=True, db=False):
    def body():
        l, x = leaf.make(W)
        y = l.forward(x)
        ps = list(l.parameters())
        n = None
        for p in ps:
            n = P(p.numel()) if n is None else n + P(p.numel())
        Na = atom_dim(flatdim(x.dims[1:]).size) if wrt == "input" else (atom_dim(n) if ps else dim_of(Sym.size("Pn")))
        v = l.forward(x) if val else None
        args = arg_for(meth, x, y, None, None, fd, none, False, Na)
        fr = Frame(frame_items(l, x, v, args))
        fr.call(do_call, l, meth, x, v, args, wrt, fd, td, db)
        yield from fr.check()

    return body


def frame_cont(W, pat, meth, wrt, fd=False, td=False, none=False, db=False, val=True, hist=(), rank=1, lst=False):
    def body():
        b, x, n, l = cont_setup(W, pat, rank)
        sp = sp_node(n, x)
        J = sp.J if wrt == "input" else K.total(sp.blocks)
        Na = atom_dim(flatdim(x.dims[1:]).size) if wrt == "input" else (atom_dim(J.dims[2].size) if J is not None else dim_of(0))
        v = l.forward(x) if val else None
        args = arg_for(meth, x, sp.y, J, sp.blocks, fd, none, lst, Na)
        fr = Frame(frame_items(l, x, v, args))
        r = fr.call(do_call, l, meth, x, v, args, wrt, fd, td, db)
        yield from fr.check()

    return body


# ------------------------------------------------------------------ C14: floating point type
def typed_leaf(d, other):
    def mk(W, leaf, meth, wrt, fd=False, td=False, none=False, val=True, db=False):
        def body():
            dt = getattr(st, d)
            State.default = dt
            yield "dtype", dt
            l, x = leaf.make(W)
            State.default = getattr(st, other)
            y = l.forward(x)
            J = jac_input(y, x) if wrt == "input" else jac_weight(y, list(l.parameters()))
            v = l.forward(x) if val else None
            if meth == "forward":
                yield "assert", y.dtype is dt, f"forward returns {y.dtype}"
                return
            State.default = dt
            pre = dict(V=1)
            for it in product_typed(l, x, v, y, J, meth, wrt, fd, td, none, db, getattr(st, other), dt):
                yield it

        return body

    return mk


def product_typed(l, x, v, y, J, meth, wrt, fd, td, none, db, other, dt):
    """as leaf.product, the arguments having type dt and the call being made under the default type other"""

    yield from product(K.Typed(l, dt, other), x, v, y, J, meth, wrt, fd, td, none, db)
