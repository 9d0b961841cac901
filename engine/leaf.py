"""Contracts of the elementary layers."""
from oblig import *

METHS = ("jacobian", "jvp", "jmp", "vjp", "mjp", "jTmjp", "jmjTp")


class Leaf:
    """one configuration class of an elementary layer: make(W) -> (layer, x)"""

    def __init__(self, name, cls, make, par=True, wrts=("input", "weight"), thorough=False):
        self.name, self.cls, self.make, self.par = name, cls, make, par
        self.wrts, self.thorough = wrts, thorough
        self.diag = cls in ("ReLU", "Sigmoid", "Tanh", "TruncExp", "Sinusoidal", "Softplus")

    def unimpl(self, meth, wrt, none):
        c = self.cls
        if c == "Conv2d":
            return meth in ("jvp", "jmjTp") or (meth == "jmp" and not none)
        if c == "Upsample":
            return wrt == "input" and (meth in ("jvp", "jmjTp") or (meth == "jmp" and not none))
        if c == "MaxPool2d":
            return wrt == "input" and meth in ("jvp", "jmjTp")
        if c in ("Flatten", "Reshape"):
            return wrt == "input" and meth in ("jmp", "mjp") and none
        return False


def sizes(s):
    return [Sym.size(n) for n in s.split()]


def _linear(bias):
    def make(W):
        B, I, O = sizes("B I O")
        return W.nnj.Linear(I, O, bias=bias), tensor("X", (B, I))

    return make


def _act(cls, rank, *a, **k):
    def make(W):
        sh = sizes("B C H W"[: 2 * rank - 1])
        return getattr(W.nnj, cls)(*a, **k), tensor("X", sh)

    return make


def _reshape(inr, outr):
    def make(W):
        B = Sym.size("B")
        C, H, Wd = sizes("C H W")
        outs = {3: (C, H, Wd), 1: (C * H * Wd,), 2: (C, H * Wd)}[outr]
        ins = {3: (C, H, Wd), 1: (C * H * Wd,), 2: (C * H, Wd)}[inr]
        return W.nnj.Reshape(*outs), tensor("X", (B, *ins))

    return make


def _reshape_neg(W):
    B, C, H = sizes("B C H")
    return W.nnj.Reshape(C, -1), tensor("X", (B, C * H))


def _upsample(**k):
    def make(W):
        B, C, H, Wd = sizes("B C H W")
        if k.get("scale_factor") == "sym":
            s = Sym.size("s")
            l = W.nnj.Upsample(**{**k, "scale_factor": s})
        else:
            l = W.nnj.Upsample(**k)
        return l, tensor("X", (B, C, H, Wd))

    return make


def _maxpool(**k):
    def make(W):
        B, C, H, Wd = sizes("B C H W")
        kk = {}
        for n, v in k.items():
            if v == "sym":
                v = (Sym.size(n + "h"), Sym.size(n + "w"))
            elif v == "sym1":
                v = Sym.size(n)
            kk[n] = v
        ks, pd, dl = st.pair(kk["kernel_size"]), st.pair(kk.get("padding", 0)), st.pair(kk.get("dilation", 1))
        for h, a, p, d in zip((H, Wd), ks, pd, dl):
            assume(h + 2 * p - d * (a - 1) - 1)  # the window fits
        return W.nnj.MaxPool2d(**kk), tensor("X", (B, C, H, Wd))

    return make


def _conv(bias=True, vm=True, pad="sym", kernel="sym", small=False, **k):
    def make(W):
        B, C, H, Wd = sizes("B C H W")
        D = Sym.size("D")
        kk = dict(k)
        if kernel == "sym":
            ks = (Sym.size("kh"), Sym.size("kw"))
        else:
            ks = kernel
        if pad == "sym":
            pd = (Sym.size("ph", 0), Sym.size("pw", 0))
        else:
            pd = pad
        g = kk.get("groups", 1)
        dl = st.pair(kk.get("dilation", 1))
        for h, a, p, d in zip((H, Wd), st.pair(ks), st.pair(pd), dl):
            assume(h + 2 * p - d * (a - 1) - 1)  # the kernel fits
            if small:
                assume(a - 1 - p)  # padding at most kernel size - 1
        l = W.nnj.Conv2d(C * g if g > 1 else C, D * g if g > 1 else D, ks, padding=pd, bias=bias, use_vmap_for_backprop=vm, **kk)
        return l, tensor("X", (B, C * g if g > 1 else C, H, Wd))

    return make


LEAVES = [
    Leaf("Linear", "Linear", _linear(True)),
    Leaf("Linear(bias=False)", "Linear", _linear(False)),
]
for _c in ("ReLU", "Sigmoid", "Tanh", "TruncExp", "Sinusoidal"):
    LEAVES += [Leaf(f"{_c}/rank{r}", _c, _act(_c, r), par=False) for r in (2, 4)]
LEAVES += [Leaf(f"Softplus/rank{r}", "Softplus", _act("Softplus", r), par=False) for r in (2, 4)]
LEAVES += [
    Leaf("Softplus(2,5)", "Softplus", _act("Softplus", 2, 2.0, 5.0), par=False),
    Leaf("Softplus(0.5,-1)", "Softplus", _act("Softplus", 2, 0.5, -1.0), par=False),
]
LEAVES += [Leaf(f"L2Norm/rank{r}", "L2Norm", _act("L2Norm", r), par=False) for r in (2, 4)]
LEAVES += [Leaf("L2Norm(0.25)", "L2Norm", _act("L2Norm", 2, 0.25), par=False)]
LEAVES += [Leaf(f"Flatten/rank{r}", "Flatten", _act("Flatten", r), par=False) for r in (2, 3, 4)]
LEAVES += [Leaf(f"Reshape {i}->{o}", "Reshape", _reshape(i, o), par=False) for i, o in ((1, 3), (3, 1), (2, 3), (3, 2))]
LEAVES += [Leaf("Reshape(C,-1)", "Reshape", _reshape_neg, par=False)]
LEAVES += [
    Leaf("Upsample(s)", "Upsample", _upsample(scale_factor="sym"), par=False),
    Leaf("Upsample(2)", "Upsample", _upsample(scale_factor=2), par=False),
    Leaf("Upsample(3,nearest-exact)", "Upsample", _upsample(scale_factor=3, mode="nearest-exact"), par=False),
]
LEAVES += [
    Leaf("MaxPool2d(k)", "MaxPool2d", _maxpool(kernel_size="sym"), par=False),
    Leaf("MaxPool2d(k,s)", "MaxPool2d", _maxpool(kernel_size="sym", stride="sym"), par=False),
    Leaf("MaxPool2d(2)", "MaxPool2d", _maxpool(kernel_size=2), par=False),
    Leaf("MaxPool2d(3,stride=2,padding=1)", "MaxPool2d", _maxpool(kernel_size=3, stride=2, padding=1), par=False),
    Leaf("MaxPool2d(2,dilation=2,ceil)", "MaxPool2d", _maxpool(kernel_size=2, dilation=2, ceil_mode=True), par=False),
]
LEAVES += [
    Leaf("Conv2d(any padding)", "Conv2d", _conv(True, True), wrts=("input",))] + [
    Leaf(f"Conv2d(bias={b},vmap={v})", "Conv2d", _conv(b, v, small=True)) for b in (True, False) for v in (True, False)
]
BYNAME = {l.name: l for l in LEAVES}


def call_body(W, leaf, meth, wrt, fd=False, td=False, none=False, val=True, db=False):
    """the postcondition of one method of one leaf"""

    def body():
        l, x = leaf.make(W)
        y = l.forward(x)
        J = jac_input(y, x) if wrt == "input" else jac_weight(y, list(l.parameters()))
        v = l.forward(x) if val else None
        yield from product(l, x, v, y, J, meth, wrt, fd, td, none, db)

    return body


def diag_body(W, leaf, meth, wrt, fd=False, td=False, none=False, val=True, db=False):
    """jacobian(..., diag=True) of the activations: the diagonal of the (diagonal) Jacobian"""

    def body():
        l, x = leaf.make(W)
        y = l.forward(x)
        J = jac_input(y, x)
        v = l.forward(x) if val else None
        yield "jacobian(diag=True)", l.jacobian(x, v, wrt=wrt, diag=True), J.diagonal(0, 1, 2)

    return body


def product(l, x, v, y, J, meth, wrt, fd, td, none=False, db=False, N=None):
    Bd, Od = x.dims[0], flatdim(y.dims[1:])
    Oa = atom_dim(Od.size)
    if wrt == "input":
        Na = atom_dim(flatdim(x.dims[1:]).size)
    else:
        Na = atom_dim(J.dims[2].size) if J is not None else dim_of(Sym.size("Pn"))
    K = dim_of(Sym.size("K"))
    if meth == "jacobian":
        yield meth, l.jacobian(x, v, wrt=wrt), J
        return
    if meth in ("jvp", "vjp"):
        m = tensor_d("V", [Bd, Na if meth == "jvp" else Oa])
        got = getattr(l, meth)(x, v, m, wrt=wrt)
        want = None if J is None else (sp_jvp if meth == "jvp" else sp_vjp)(J, m)
    elif meth in ("jmp", "mjp"):
        m = None if none else tensor_d("M", [Bd, Na, K] if meth == "jmp" else [Bd, K, Oa])
        got = getattr(l, meth)(x, v, m, wrt=wrt)
        want = None if J is None else (sp_jmp if meth == "jmp" else sp_mjp)(J, m)
    else:
        A = Na if meth == "jmjTp" else Oa
        m = None if none else tensor_d("M", [Bd, A] if fd else [Bd, A, A])
        kw = dict(from_diag=fd, to_diag=td)
        if db:
            kw["diag_backprop"] = True
        got = getattr(l, meth)(x, v, m, wrt=wrt, **kw)
        want = None if J is None else (sp_jmjTp if meth == "jmjTp" else sp_jTmjp)(J, m, fd, td)
    yield meth, got, want


if __name__ == "__main__":
    import re

    W = symnn.World()
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    mp = sys.argv[2] if len(sys.argv) > 2 else ""
    tot = {}
    for leaf in LEAVES:
        if not re.search(pat, leaf.name):
            continue
        for wrt in leaf.wrts:
            for meth in METHS:
                if not re.search(mp, meth + "/" + wrt):
                    continue
                for fd in (False, True) if "j" == meth[0] and meth.endswith("Tp") or meth in ("jTmjp", "jmjTp") else (False,):
                    for td in (False, True) if meth in ("jTmjp", "jmjTp") else (False,):
                        for none in (False, True) if meth not in ("jacobian", "jvp", "vjp") else (False,):
                            if none and fd:
                                continue
                            ni = leaf.unimpl(meth, wrt, none)
                            r = run("", call_body(W, leaf, meth, wrt, fd, td, none), allow=lambda e: ni and isinstance(e, NotImplementedError))
                            tot[r.status] = tot.get(r.status, 0) + 1
                            if r.status != "proved" or r.time > 2 or DEBUG:
                                print(leaf.name, meth, wrt, fd, td, none, r.status, r.paths, r.vcs, "%.2f" % r.time, r.why[:400], r.cex and str(r.cex)[:300], flush=True)
    print(tot)
