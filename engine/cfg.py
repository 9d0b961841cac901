"""Contracts of the converter (C18), of the block inversion (C19), of the configurations (C20) and of forward (C21)."""
import collections
import traceback

import leaf as L
import cont as K
import misc as M
from oblig import *
from leaf import product, sizes


def refusal(e):
    """an error the code itself (or the constructor it calls) raises to refuse a configuration; an error that only the
    model of torch could have caused does not count"""
    if isinstance(e, (ValueError, NotImplementedError, RuntimeError, AssertionError)):
        return True
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and (tb[-1].filename.startswith(symnn.REPO) or tb[-1].name == "__new__" and isinstance(e, TypeError))


# ------------------------------------------------------------------ C18
def other(n, name, *par):
    """a torch.nn layer nnj has no counterpart for"""

    class X(n.Module):
        def __init__(self, **k):
            super().__init__()
            for a, b in k.items():
                setattr(self, a, b)

        def forward(self, x):
            raise Unsupported(name)

    X.__name__ = X.__qualname__ = name
    return X


def seq(*names):
    return names


def tx(*sh):
    return tensor("X", sh)


def _lin(n, q, bias=True):
    return n.Linear(q("I"), q("O"), bias=bias), tx(q("B"), q("I"))


def _conv(n, q, bias=True, small=False, **k):
    kk = dict(k)
    ex = lambda t: eval(t, {}, dict(kh=q("kh"), kw=q("kw"), dh=q("dh"), dw=q("dw"), sh=q("sh"), sw=q("sw"))) if isinstance(t, str) and t[0] == "(" else t
    ks = ex(kk.pop("kernel_size", None)) or (q("kh"), q("kw"))
    kk = {a: ex(b) for a, b in kk.items()}
    pd = kk.get("padding", 0)
    if pd == "sym":
        pd = kk["padding"] = (q("ph", 0), q("pw", 0))
    if kk.get("dilation") == "sym":
        kk["dilation"] = (q("dh"), q("dw"))
    if kk.get("stride") == "sym":
        kk["stride"] = (q("sh"), q("sw"))
    g = kk.get("groups", 1)
    C_, D_, H, W = q("C"), q("D"), q("H"), q("W")
    if not isinstance(pd, str):
        for h, a, p, d in zip((H, W), st.pair(ks), st.pair(pd), st.pair(kk.get("dilation", 1))):
            assume(h + 2 * p - d * (a - 1) - 1)
    cd = Dim(dim_of(g).facs + dim_of(C_).facs)
    x = tensor_d("X", [dim_of(q("B")), cd, dim_of(H), dim_of(W)])
    return n.Conv2d(C_ * g if g != 1 else C_, D_ * g if g != 1 else D_, ks, bias=bias, **kk), x


def _pool(n, q, **k):
    kk = {a: ((q(a + "h"), q(a + "w")) if b == "sym" else b) for a, b in k.items()}
    H, W = q("H"), q("W")
    for h, a, p, d in zip((H, W), st.pair(kk["kernel_size"]), st.pair(kk.get("padding", 0)), st.pair(kk.get("dilation", 1))):
        assume(h + 2 * p - d * (a - 1) - 1)
    return n.MaxPool2d(**kk), tx(q("B"), q("C"), H, W)


def _up(n, q, **k):
    kk = {a: (q("s") if b == "sym" else b) for a, b in k.items()}
    return n.Upsample(**kk), tx(q("B"), q("C"), q("H"), q("W"))


def _img(n, q):
    return tx(q("B"), q("C"), q("H"), q("W"))


SINGLE = {
    "Linear": lambda n, q: _lin(n, q),
    "Linear(bias=False)": lambda n, q: _lin(n, q, False),
    "ReLU": lambda n, q: (n.ReLU(), _img(n, q)),
    "Sigmoid": lambda n, q: (n.Sigmoid(), _img(n, q)),
    "Tanh": lambda n, q: (n.Tanh(), tx(q("B"), q("I"))),
    "Softplus": lambda n, q: (n.Softplus(), _img(n, q)),
    "Softplus(beta=2,threshold=5)": lambda n, q: (n.Softplus(2.0, 5.0), _img(n, q)),
    "Softplus(beta=0.5,threshold=1)": lambda n, q: (n.Softplus(beta=0.5, threshold=1.0), _img(n, q)),
    "Flatten": lambda n, q: (n.Flatten(), _img(n, q)),
    "Flatten(1,2)": lambda n, q: (n.Flatten(1, 2), _img(n, q)),
    "Flatten(2,3)": lambda n, q: (n.Flatten(2, 3), _img(n, q)),
    "Flatten(0,1)": lambda n, q: (n.Flatten(0, 1), _img(n, q)),
    "Flatten(0,-1)": lambda n, q: (n.Flatten(0, -1), _img(n, q)),
    "Flatten(2)": lambda n, q: (n.Flatten(2), _img(n, q)),
    "MaxPool2d(k)": lambda n, q: _pool(n, q, kernel_size="sym"),
    "MaxPool2d(k,s)": lambda n, q: _pool(n, q, kernel_size="sym", stride="sym"),
    "MaxPool2d(k,s,p,d)": lambda n, q: _pool(n, q, kernel_size="sym", stride="sym", padding="sym", dilation="sym"),
    "MaxPool2d(3,2,1,ceil_mode)": lambda n, q: _pool(n, q, kernel_size=3, stride=2, padding=1, ceil_mode=True),
    "MaxPool2d(2,dilation=2)": lambda n, q: _pool(n, q, kernel_size=2, dilation=2),
    "MaxPool2d(2,return_indices)": lambda n, q: _pool(n, q, kernel_size=2, return_indices=True),
    "Upsample(s)": lambda n, q: _up(n, q, scale_factor="sym"),
    "Upsample(2.0)": lambda n, q: _up(n, q, scale_factor=2.0),
    "Upsample(3,nearest-exact)": lambda n, q: _up(n, q, scale_factor=3, mode="nearest-exact"),
    "Upsample((2,3))": lambda n, q: _up(n, q, scale_factor=(2.0, 3.0)),
    "Upsample(1.5)": lambda n, q: _up(n, q, scale_factor=1.5),
    "Upsample(size)": lambda n, q: _up(n, q, size=(7, 5)),
    "Upsample(size int)": lambda n, q: _up(n, q, size=6),
    "Upsample(2,bilinear)": lambda n, q: _up(n, q, scale_factor=2, mode="bilinear"),
    "Upsample(2,bilinear,align_corners)": lambda n, q: _up(n, q, scale_factor=2, mode="bilinear", align_corners=True),
    "Upsample(2,bicubic)": lambda n, q: _up(n, q, scale_factor=2, mode="bicubic"),
    "Upsample(2,recompute)": lambda n, q: _up(n, q, scale_factor=2, recompute_scale_factor=True),
    "Conv2d(k,p)": lambda n, q: _conv(n, q, padding="sym"),
    "Conv2d(k,p,bias=False)": lambda n, q: _conv(n, q, False, padding="sym"),
    "Conv2d(k)": lambda n, q: _conv(n, q),
    "Conv2d(k,p,d)": lambda n, q: _conv(n, q, padding="sym", dilation="sym"),
    "Conv2d(k,s)": lambda n, q: _conv(n, q, stride="sym"),
    "Conv2d(3,stride=2,padding=1)": lambda n, q: _conv(n, q, kernel_size=3, stride=2, padding=1),
    "Conv2d(3,stride=(1,2))": lambda n, q: _conv(n, q, kernel_size=3, stride=(1, 2)),
    "Conv2d(k,groups=2)": lambda n, q: _conv(n, q, groups=2, padding="sym"),
    "Conv2d(2,circular)": lambda n, q: _conv(n, q, kernel_size=2, padding=1, padding_mode="circular"),
    "Conv2d(3,reflect)": lambda n, q: _conv(n, q, kernel_size=3, padding=1, padding_mode="reflect"),
    "Conv2d(2,replicate)": lambda n, q: _conv(n, q, kernel_size=2, padding=1, padding_mode="replicate"),
    "Conv2d(3,same)": lambda n, q: _conv(n, q, kernel_size=3, padding="same"),
    "Conv2d(3,valid)": lambda n, q: _conv(n, q, kernel_size=3, padding="valid"),
}


def S_(n, *l):
    return n.Sequential(*l)


NETS = {
    "Linear,Tanh,Linear,ReLU,Linear(bias=False)": lambda n, q: (S_(n, n.Linear(q("I"), q("H")), n.Tanh(), n.Linear(q("H"), q("H2")), n.ReLU(), n.Linear(q("H2"), q("O"), bias=False)), tx(q("B"), q("I"))),
    "Linear,Linear,Linear (square)": lambda n, q: (S_(n, n.Linear(q("I"), q("I")), n.Linear(q("I"), q("I")), n.Linear(q("I"), q("I"))), tx(q("B"), q("I"))),
    "12 Linear": lambda n, q: (S_(n, *[n.Linear(q("I"), q("I")) for _ in range(12)]), tx(q("B"), q("I"))),
    "nested": lambda n, q: (S_(n, S_(n, n.Linear(q("I"), q("H")), n.Sigmoid()), n.Linear(q("H"), q("H")), S_(n, n.Tanh(), S_(n, n.Linear(q("H"), q("O")), n.Softplus(2.0, 3.0)))), tx(q("B"), q("I"))),
    "named": lambda n, q: (n.Sequential(collections.OrderedDict([("b", n.Linear(q("I"), q("H"))), ("a", n.ReLU()), ("0", n.Linear(q("H"), q("O")))])), tx(q("B"), q("I"))),
    "conv net": lambda n, q: (S_(n, n.Conv2d(q("C"), q("D"), 1), n.Tanh(), n.MaxPool2d(2), n.Upsample(scale_factor=2), n.Conv2d(q("D"), q("E"), 1, bias=False), n.Sigmoid()), _img(n, q)),
    "conv, flatten, linear": lambda n, q: (S_(n, n.Conv2d(q("C"), q("D"), (1, 1)), n.ReLU(), n.Flatten(), n.Linear(q("D") * q("H") * q("W"), q("O"))), _img(n, q)),
    "ReLU(inplace) inside": lambda n, q: (S_(n, n.Linear(q("I"), q("H")), n.ReLU(inplace=True), n.Linear(q("H"), q("O"))), tx(q("B"), q("I"))),
    "one layer, nested twice": lambda n, q: (S_(n, S_(n, S_(n, n.Linear(q("I"), q("O"))))), tx(q("B"), q("I"))),
}
REFUSE = ["LeakyReLU", "ELU", "GELU", "SiLU", "Softmax", "LogSoftmax", "Hardtanh", "ReLU6", "Softsign", "BatchNorm2d", "BatchNorm1d", "LayerNorm", "Dropout", "Dropout2d", "AvgPool2d", "AdaptiveAvgPool2d", "MaxPool1d", "LPPool2d", "AdaptiveMaxPool2d", "Conv1d", "Conv3d", "ConvTranspose2d", "Bilinear", "Unflatten", "PixelShuffle", "ZeroPad2d", "UpsamplingNearest2d", "UpsamplingBilinear2d", "Embedding", "PReLU", "LogSigmoid"]


class Q:
    def __init__(self):
        self.d = {}

    def __call__(self, name, lo=1):
        if name not in self.d:
            self.d[name] = Sym.size(name, lo)
        return self.d[name]


def conv_body(W, make, wrap):
    def body():
        n = W.torch.nn
        m, x = make(n, Q())
        net = n.Sequential(m) if wrap else m
        ps = list(net.parameters())
        before = [M.snap(p) for p in ps]
        got = W.nnj.utils.convert_to_nnj(net)
        yield "assert", isinstance(got, W.nnj.Sequential), f"the result is a {type(got).__name__}"
        want = net.forward(x.clone())
        yield "output", got.forward(x.clone()), want
        qs = list(got.parameters())
        yield "assert", len(qs) == len(ps), f"{len(qs)} parameters instead of {len(ps)}"
        for k, (p, b, r) in enumerate(zip(qs, before, ps)):
            yield f"parameter {k}", p, b
            yield f"parameter {k} of the original", r, b

    return body


def odd(n, name):
    X = other(n, name)
    return X(negative_slope=0.01, inplace=False, kernel_size=2, stride=2, padding=0, dilation=1, ceil_mode=False, in_features=2, out_features=2, in_channels=2, out_channels=2, bias=None, scale_factor=2.0, size=None, mode="nearest", align_corners=None, groups=1, p=0.5, num_features=2, eps=1e-5, return_indices=False, output_size=1, beta=1.0, threshold=20.0, recompute_scale_factor=None, padding_mode="zeros", start_dim=1, end_dim=-1)


def dep(Ob, oid, meta, mk, allow):
    import depth

    o = Ob(oid, None, allow, meta, timeout=90)
    o.runner = lambda timeout: depth.run_depth(oid, mk, o.allow, timeout=timeout)
    return o


def refuse_body(W, name, k):
    def body():
        n = W.torch.nn
        m = odd(n, name)
        net = [S_(n, m), S_(n, n.Linear(Sym.size("I"), Sym.size("H")), m), S_(n, n.Tanh(), S_(n, m, n.Tanh()))][k]
        try:
            W.nnj.utils.convert_to_nnj(net)
        except Unsupported:
            raise
        except Exception:
            yield "assert", True, ""
            return
        yield "assert", False, f"a network with a {name} layer was converted"

    return body


def c18_obs(W, tier, Ob):
    for nm, mk in SINGLE.items():
        yield Ob(f"convert_to_nnj(Sequential({nm}))", conv_body(W, mk, True), None if nm in SUPPORTED else refusal, dict(kind="conv", net=nm))
    for nm, mk in NETS.items():
        yield Ob(f"convert_to_nnj({nm})", conv_body(W, mk, False), None, dict(kind="conv", net=nm))
    import induct

    for nm, mk in SINGLE.items():
        yield dep(Ob, f"convert_to_nnj(any number of layers, one of them {nm})", dict(kind="conv", net=nm), lambda inv, mk=mk: induct.conv_body(W, inv, mk), None if nm in SUPPORTED else refusal)
    yield dep(Ob, "convert_to_nnj(any number of layers, one of them a Sequential)", dict(kind="conv", net="nested"), lambda inv: induct.conv_body(W, inv, None), None)
    for nm in REFUSE:
        yield dep(Ob, f"convert_to_nnj refuses {nm} among any number of layers", dict(kind="conv", net=nm), lambda inv, nm=nm: induct.conv_body(W, inv, lambda n: odd(n, nm), True), None)
    for nm in REFUSE:
        for k in range(3):
            yield Ob(f"convert_to_nnj refuses {nm}{('', ' after Linear', ' nested')[k]}", refuse_body(W, nm, k), None, dict(kind="conv", net=nm))


SUPPORTED = {
    "Linear", "Linear(bias=False)", "ReLU", "Sigmoid", "Tanh", "Softplus", "Softplus(beta=2,threshold=5)",
    "Softplus(beta=0.5,threshold=1)", "Flatten", "MaxPool2d(k)", "MaxPool2d(k,s)", "MaxPool2d(k,s,p,d)",
    "MaxPool2d(3,2,1,ceil_mode)", "MaxPool2d(2,dilation=2)", "Upsample(s)", "Upsample(2.0)", "Upsample(3,nearest-exact)",
    "Conv2d(k,p)", "Conv2d(k,p,bias=False)", "Conv2d(k)",
}


# ------------------------------------------------------------------ C19
def spd(name, bdims):
    n = Sym.size("n_" + name)
    return tensor("A_" + name, [*bdims, n, n])


NESTS = {
    "matrix": "a", "batch of matrices": "Ba", "batch of rank 2": "BCa", "[a]": ["a"], "[a,b]": ["a", "b"], "[]": [],
    "[a,[b,c],d]": ["a", ["b", "c"], "d"], "[[[a]],[b]]": [[["a"]], ["b"]], "[Ba,[Bb]]": ["Ba", ["Bb"]],
    "[a,a']": ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"], "[[],a]": [[], "a"],
}


def inv_body(W, spec):
    def build(s, q):
        if isinstance(s, list):
            return [build(t, q) for t in s]
        return spd(s, [q(c) for c in s[:-1]])

    def want(m):
        return [want(t) for t in m] if isinstance(m, list) else symnn.lin_inv(m)

    def body():
        m = build(spec, Q())
        fr = M.Frame([("the argument", m)])
        w = want(m)
        got = W.nnj.utils.invert_block_diagonal(m)
        yield "inverse", got, w
        if isinstance(m, list):
            yield "assert", isinstance(got, list), "the result is not a list"
        yield from fr.check()

    return body


def c19_obs(W, tier, Ob):
    import induct

    for e, b in (("matrix", ""), ("matrix", "B"), ("matrix", "BC"), ("list", "")):
        yield dep(Ob, f"invert_block_diagonal(list of any length, {'batch of ' * len(b)}{e})", dict(kind="inv", nest="[a,[b,c],d]"), lambda inv, e=e, b=b: induct.inv_body(W, inv, e, b), None)
    for nm, s in NESTS.items():
        yield Ob(f"invert_block_diagonal({nm})", inv_body(W, s), None, dict(kind="inv", nest=nm))


# ------------------------------------------------------------------ C20
def cq(**k):
    vm = k.pop("vm", True)

    def make(W):
        q = Q()

        class N:
            Conv2d = staticmethod(lambda *a, **kk: W.nnj.Conv2d(*a, use_vmap_for_backprop=vm, **kk))

        return _conv(N, q, **k)

    return make


def uq(**k):
    return lambda W: _up(W.nnj, Q(), **k)


CONFIGS = {}
for _b in (True, False):
    for _v in (True, False):
        _t = f"bias={_b},vmap={_v}"
        for _n, _k in {
            "k,p": dict(padding="sym"),
            "k,p,d=(>1,any),kh>1": dict(kernel_size="(kh + 1, kw)", padding="sym", dilation="(dh + 1, dw)"),
            "k,p,d=(any,>1),kw>1": dict(kernel_size="(kh, kw + 1)", padding="sym", dilation="(dh, dw + 1)"),
            "(1,k),p,d=(any,1)": dict(kernel_size="(1, kw)", padding="sym", dilation="(dh, 1)"),
            "(k,1),p,d=(1,any)": dict(kernel_size="(kh, 1)", padding="sym", dilation="(1, dw)"),
            "1,p,d": dict(kernel_size=1, padding="sym", dilation="sym"),
            "3,p,dilation=(1,2)": dict(kernel_size=3, padding="sym", dilation=(1, 2)),
            "2,padding=1,dilation=2": dict(kernel_size=2, padding=1, dilation=2),
            "k,p,stride=(>1,any)": dict(stride="(sh + 1, sw)", padding="sym"),
            "k,p,stride=(any,>1)": dict(stride="(sh, sw + 1)", padding="sym"),
            "2,stride=2": dict(kernel_size=2, stride=2),
            "2,stride=(1,2)": dict(kernel_size=2, stride=(1, 2)),
            "3,stride=(2,1),padding=1": dict(kernel_size=3, stride=(2, 1), padding=1),
            "1,stride=(1,3)": dict(kernel_size=1, stride=(1, 3)),
            "1,stride=2": dict(kernel_size=1, stride=2),
            "k,p,groups=2": dict(padding="sym", groups=2),
            "1,groups=2": dict(kernel_size=1, groups=2),
            "1,groups=3": dict(kernel_size=1, groups=3),
            "3,same": dict(kernel_size=3, padding="same"),
            "3,valid": dict(kernel_size=3, padding="valid"),
            "1,valid": dict(kernel_size=1, padding="valid"),
            "3,reflect": dict(kernel_size=3, padding=1, padding_mode="reflect"),
            "2,replicate": dict(kernel_size=2, padding=1, padding_mode="replicate"),
            "2,circular": dict(kernel_size=2, padding=1, padding_mode="circular"),
            "3,padding=(0,1),dilation=(2,1),groups=2": dict(kernel_size=3, padding=(0, 1), dilation=(2, 1), groups=2),
        }.items():
            CONFIGS[f"Conv2d({_n},{_t})"] = cq(bias=_b, vm=_v, **_k)
for _n, _k in {
    "s": dict(scale_factor="sym"), "1": dict(scale_factor=1), "2": dict(scale_factor=2), "3.0": dict(scale_factor=3.0),
    "s,nearest-exact": dict(scale_factor="sym", mode="nearest-exact"),
    "(2,2)": dict(scale_factor=(2, 2)), "(2,3)": dict(scale_factor=(2, 3)), "(1.5,2)": dict(scale_factor=(1.5, 2.0)),
    "1.5": dict(scale_factor=1.5), "2.5": dict(scale_factor=2.5), "0.5": dict(scale_factor=0.5), "2.5,nearest-exact": dict(scale_factor=2.5, mode="nearest-exact"),
    "size=(4,6)": dict(size=(4, 6)), "size=4": dict(size=4),
    "2,recompute": dict(scale_factor=2, recompute_scale_factor=True), "1.5,recompute": dict(scale_factor=1.5, recompute_scale_factor=True),
    "2,bilinear": dict(scale_factor=2, mode="bilinear"), "2,bicubic": dict(scale_factor=2, mode="bicubic"),
    "2,bilinear,align": dict(scale_factor=2, mode="bilinear", align_corners=True), "2,area": dict(scale_factor=2, mode="area"),
    "2,trilinear": dict(scale_factor=2, mode="trilinear"), "2,linear": dict(scale_factor=2, mode="linear"),
}.items():
    CONFIGS[f"Upsample({_n})"] = uq(**_k)


def c20_obs(W, tier, Ob, modes, MET):
    for nm, mk in CONFIGS.items():
        if tier == "quick" and ("bias=True,vmap=False" in nm or "bias=False,vmap=True" in nm) and ("k,p,d" in nm or "d=(" in nm):
            continue
        lf = L.Leaf(nm, nm.split("(")[0], mk, par=nm.startswith("Conv"))
        yield Ob(f"{nm}.forward", fwd_only(W, mk), refusal, dict(kind="cfg", cfg=nm, meth="forward"))
        for wrt in ("input", "weight") if lf.par else ("input",):
            for meth in ("jacobian",) + MET:
                for fd, td, none in modes(meth):
                    yield Ob(f"{nm}.{meth}[{wrt}{',from_diag' * fd}{',to_diag' * td}{',metric=None' * none}]",
                             L.call_body(W, lf, meth, wrt, fd, td, none, True), refusal, dict(kind="cfg", cfg=nm, meth=meth, wrt=wrt, fd=fd, td=td, none=none))


def fwd_only(W, mk):
    def body():
        l, x = mk(W)
        l.forward(x)
        yield "assert", True, ""

    return body


# ------------------------------------------------------------------ C21
def tgt(dims, e, x):
    return Tensor(dims, e, x.dtype)


def sp_forward(W, leaf, l, x):
    """what torch.nn computes for the layer of the same name and configuration"""
    c = leaf.cls
    if c == "Linear":
        r = st.einsum("bi,oi->bo", x, l.weight)
        return r if l.bias is None else r + l.bias
    if c == "Conv2d":
        return st.conv2d(x, l.weight, l.bias, l.stride, l.padding, l.dilation, l.groups)
    if c == "ReLU":
        return x.relu()
    if c == "Sigmoid":
        return x.sigmoid()
    if c == "Tanh":
        return x.tanh()
    if c == "TruncExp":
        return x.exp()
    if c == "Sinusoidal":
        return x.sin()
    if c == "Softplus":
        return st.softplus(x, l.beta, l.threshold)
    if c == "Flatten":
        return Tensor([x.dims[0], flatdim(x.dims[1:])], lambda idx: x.elem([idx[0]] + split_digits(x.dims[1:], idx[1])), x.dtype)
    if c == "MaxPool2d":
        return st.max_pool2d(x, l.kernel_size, l.stride, l.padding, l.dilation, l.ceil_mode)
    if c == "Upsample":
        return st.interpolate(x, l.size, l.scale_factor, l.mode, l.align_corners)
    if c == "L2Norm":
        n = x.reshape(x.shape[0], -1)
        n = (n * n).sum(1).sqrt() + l.eps
        return x / n.reshape([x.shape[0]] + [1] * (x.ndim - 1))
    raise Unsupported(c)


def twin_world(W):
    """the constructors of torch.nn under the names of nnj; the layers torch does not have are specified here"""
    n = W.torch.nn

    class Base(n.Module):
        def __init__(self, f):
            super().__init__()
            self.__dict__["f"] = f

        def forward(self, x):
            return self.__dict__["f"](x)

    def regroup(dims):
        def f(x):
            N = flatdim(x.dims[1:])
            flat = Tensor([x.dims[0], N], lambda idx: x.elem([idx[0]] + split_digits(x.dims[1:], idx[1])), x.dtype)
            return flat if dims is None else st.Tensor.reshape(flat, x.shape[0], *dims)

        return f

    def l2(eps):
        def f(x):
            v = x.reshape(x.shape[0], -1)
            s = (v * v).sum(1).sqrt() + eps
            return x / s.reshape(x.shape[0], *([1] * (x.ndim - 1)))

        return f

    class T:
        Linear, MaxPool2d, Upsample = n.Linear, n.MaxPool2d, n.Upsample
        ReLU, Sigmoid, Tanh, Softplus = n.ReLU, n.Sigmoid, n.Tanh, n.Softplus
        Conv2d = staticmethod(lambda *a, use_vmap_for_backprop=True, **k: n.Conv2d(*a, **k))
        TruncExp = staticmethod(lambda: Base(lambda x: x.exp()))
        Sinusoidal = staticmethod(lambda: Base(lambda x: x.sin()))
        Flatten = staticmethod(lambda: Base(regroup(None)))
        Reshape = staticmethod(lambda *d: Base(regroup(d)))
        L2Norm = staticmethod(lambda eps=1e-6: Base(l2(eps)))
        Sequential = staticmethod(lambda *a, add_hooks=True: n.Sequential(*a))

        @staticmethod
        def SkipConnection(*a, add_hooks=True):
            s = n.Sequential(*a)

            class Skip(n.Module):
                def __init__(self):
                    super().__init__()
                    self.inner = s

                def forward(self, x):
                    return st.cat([x, self.inner(x)], 1)

            return Skip()

    class TW:
        nnj = T
        torch = W.torch

    return TW


def both(W, make):
    """the layer and its specification, sharing their parameters"""
    l, x = make(W)
    t, x2 = make(twin_world(W))
    ps = list(l.parameters())
    k = 0
    for m in t.modules():
        for n, q in list(m._parameters.items()):
            if q is None:
                continue
            if k >= len(ps):
                raise Fail(f"{len(ps)} parameters instead of more")
            m._parameters[n] = ps[k]
            k += 1
    if k != len(ps):
        raise Fail(f"{len(ps)} parameters instead of {k}")
    return l, t, x, ps


def fwd_twin_body(W, make, call):
    def body():
        l, t, x, ps = both(W, make)
        want = t.forward(x)
        yield "forward", (l if call else l.forward)(x), want

    return body


def grad_body(W, make, wrt, k=0):
    """the derivative of the executed forward (whatever it detaches has none) is the derivative of the composition"""

    def body():
        l, t, x, ps = both(W, make)
        if wrt == "input":
            yield "autograd wrt the input", jac_input(l.forward(x), x), jac_input(t.forward(x), x)
        else:
            yield f"autograd wrt parameter {k}", jac_weight(l.forward(x), [ps[k]]), jac_weight(t.forward(x), [ps[k]])

    return body


FNETS = M.WNETS + [
    ("Sequential(no layer recorded)", M._net(lambda n, B, I, H, O: (n.Sequential(n.Linear(I, H), n.Tanh(), n.Linear(H, O), add_hooks=False), M.X(B, I)), "B", "I", "H", "O")),
    ("Sequential(Sequential(no layer recorded))", M._net(lambda n, B, I, H, O: (n.Sequential(n.Linear(I, H), n.Sequential(n.Tanh(), n.Linear(H, O), add_hooks=False)), M.X(B, I)), "B", "I", "H", "O")),
    ("Sequential(Conv2d,Upsample,Flatten,Linear,Sigmoid)", M._net(lambda n, B, C, H, D, O: (n.Sequential(n.Conv2d(C, D, 1), n.Upsample(scale_factor=2), n.Flatten(), n.Linear(D * (H * 2) * (H * 2), O), n.Sigmoid()), M.X(B, C, H, H)), "B", "C", "H", "D", "O")),
    ("Sequential(MaxPool2d,Tanh,MaxPool2d)", M._net(lambda n, B, C, H, D: (n.Sequential(n.MaxPool2d(2), n.Tanh(), n.Conv2d(C, D, 1)), M.X(B, C, H * 2, H * 2)), "B", "C", "H", "D")),
    ("SkipConnection(Linear,ReLU,Linear)", M._net(lambda n, B, I, H: (n.SkipConnection(n.Linear(I, H), n.ReLU(), n.Linear(H, I)), M.X(B, I)), "B", "I", "H")),
    ("SkipConnection(Conv2d)", M._net(lambda n, B, C, D, H: (n.SkipConnection(n.Conv2d(C, D, 1)), M.X(B, C, H, H)), "B", "C", "D", "H")),
    ("Sequential(Linear)", M._net(lambda n, B, I, O: (n.Sequential(n.Linear(I, O)), M.X(B, I)), "B", "I", "O")),
]


def c21_obs(W, tier, Ob, leaves, pats):
    nets = [(l.name, l.make) for l in leaves(tier)] + FNETS
    for nm, mk in nets:
        for call in (False, True):
            yield Ob(f"{nm}.{'__call__' if call else 'forward'}", fwd_twin_body(W, mk, call), None, dict(kind="net", net=nm))
        if nm.startswith("TruncExp") or "12 Linear" in nm or "L2Norm,Linear" in nm:
            continue  # TruncExp has its own backward pass; the others are covered by shorter networks
        yield Ob(f"autograd through {nm}.forward", grad_body(W, mk, "input"), None, dict(kind="net", net=nm))
    for nm, mk, k in [(nm, mk, k) for nm, mk in nets for k in NPAR.get(nm, [0] if nm.startswith("Linear") else [])]:
        yield Ob(f"autograd through {nm}.forward wrt parameter {k}", grad_body(W, mk, "weight", k), None, dict(kind="net", net=nm))
    for pat, rank in pats("all", tier):
        yield Ob(f"{pat}/{rank}.forward", K.fwd_body(W, pat, rank), None, dict(kind="cont", pat=pat, rank=rank, meth="forward"))


NPAR = {
    "Linear": [0, 1], "Sequential(Linear,Tanh,Linear)": [0, 1, 2, 3], "Sequential(Linear,Sequential(Tanh,Linear))": [0, 2],
    "SkipConnection(Linear,Tanh)": [0], "Sequential(no layer recorded)": [0, 2], "Sequential(Linear)": [0, 1],
    "SkipConnection(Linear,ReLU,Linear)": [0, 2],
}
