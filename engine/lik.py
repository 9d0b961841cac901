"""Contracts of the likelihoods: for every model honouring the layer contract, every target."""
from oblig import *
import cont as K
from cont import Spec, Builder, fix, sp_node, plain, sizes_, flat2
from misc import Frame
from sp import fn, fac, one_guard

LIKS = ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli")
AGGS = (None, "return all", "sum", "average")


def model(W, kind):
    """kind: 'r<output rank>' an abstract model, or a pattern of a container; returns model, x, R(y, J, blocks), node"""
    B = Sym.size("B")
    if kind[0] == "r":
        r = int(kind[1])
        par = not kind.endswith("-")
        spec = Spec(W)
        l = spec.layer(1, 1, par)
        l.__dict__["odims"] = [dim_of(Sym.size(n)) for n in {1: ["O"], 2: ["L", "O"], 3: ["L1", "L2", "O"]}[r]]
        x = tensor("X", (B, Sym.size("I"))) if r != 3 else tensor("X", (B, *sizes_("C H W")))
        n = ("abs", l, None)
        return l, x, sp_node(n, x), n
    rank = 3 if any(c in kind for c in "pn") else 1
    x = tensor("X", (B, *(sizes_("C H W") if rank == 3 else [Sym.size("I")])))
    b = Builder(W, kind)
    n = b.tree[0]
    fix(n, x.dims[1:])
    return n[1], x, sp_node(n, x), n


def softmax_sp(f):
    """softmax over the last axis, elementwise"""
    e = st.unary(f, lambda a: fn("exp", a))
    z = st.tsum(e, -1, True)
    return e / z


def loglik(lik, f, t):
    """per sample log-likelihood, from its definition"""
    if lik == "LogGaussian":
        u = (f - t) * (f - t) * Fraction(-1, 2)
    elif lik == "LogBinaryBernoulli":
        # t log p + (1-t) log(1-p), p = e^f / (1+e^f)
        z = st.unary(f, lambda a: fn("log", fn("exp", a) + 1))
        u = t * (f - z) + (1 - t) * (-z)
    else:
        z = st.unary(st.tsum(st.unary(f, lambda a: fn("exp", a)), -1, True), lambda a: fn("log", a))
        u = t * (f - z)
    return st.tsum(flat2(u), 1)


def prob(lik, f):
    if lik == "LogBinaryBernoulli":
        return st.unary(f, lambda a: fn("exp", a) * fn("inv", fn("exp", a) + 1))
    return softmax_sp(f)


def residual(lik, f, t):
    return flat2(t - f) if lik == "LogGaussian" else flat2(t - prob(lik, f))


def hessian(lik, f):
    """[B, O, O] Hessian of the per sample log-likelihood wrt the flattened output"""
    O = flatdim(f.dims[1:])
    if lik == "LogBernoulli":
        p = prob(lik, f)

        def e(idx):
            b, o, q = idx
            do, dq = split_digits(f.dims[1:], o), split_digits(f.dims[1:], q)
            cs = []
            for u, v in zip(do[:-1], dq[:-1]):
                c = st.eq_digits(u, v)
                if c is None:
                    return S(0)
                cs += list(c)
            pl, pr = p.elem([b] + do), p.elem([b] + dq)
            r = pl * pr
            c = st.eq_digits(do[-1], dq[-1])
            if c is not None:
                r = r - pl * st.one_guard(c)
            return r * st.one_guard(cs)

        return Tensor([f.dims[0], O, O], e, f.dtype)

    def e(idx):
        b, o, q = idx
        c = st.eq_digits(o, q)
        if c is None:
            return S(0)
        if lik == "LogGaussian":
            h = S(-1)
        else:
            p = prob(lik, f).elem([b] + split_digits(f.dims[1:], o))
            h = p * p - p
        return h * st.one_guard(c)

    return Tensor([f.dims[0], O, O], e, f.dtype)


def agg(a, t):
    if t is None:
        return None
    if isinstance(t, list):
        return [agg(a, q) for q in t]
    if a in (None, "return all"):
        return t
    return st.tsum(t, 0) if a == "sum" else st.tmean(t, 0)


def make(W, lik, a, shape=None, approx=False):
    kw = {}
    if a is not None:
        kw["aggregate_batch"] = a
    if shape is not None:
        kw["metric_shape"] = shape
    if approx:
        kw["metric_backprop"] = "approx"
    return getattr(W.nnj, lik)(**kw)


def forward_body(W, lik, kind, a):
    def body():
        m, x, sp, n = model(W, kind)
        t = tensor_d("T", list(sp.y.dims))
        L = make(W, lik, a)
        want = loglik(lik, sp.y, t)
        yield "forward", L(x, m, t), agg(a, want)

    return body


def gradient_body(W, lik, kind, a, wrt):
    def body():
        m, x, sp, n = model(W, kind)
        t = tensor_d("T", list(sp.y.dims))
        L = make(W, lik, a)
        J = sp.J if wrt == "input" else K.total(sp.blocks)
        if J is None:
            yield "gradient", L.gradient(x, m, t, wrt=wrt), None
            return
        want = agg(a, sp_vjp(J, residual(lik, sp.y, t)))
        yield "gradient", L.gradient(x, m, t, wrt=wrt), want
        if wrt == "weight":
            yield "gradient, default wrt", L.gradient(x, m, t), want

    return body


def ggn_body(W, lik, kind, a, shape, wrt, target=True, approx=False):
    def body():
        m, x, sp, n = model(W, kind)
        t = tensor_d("T", list(sp.y.dims))
        L = make(W, lik, a, shape, approx)
        H = hessian(lik, sp.y)
        td = shape in (None, "diag")
        J = sp.J if wrt == "input" else K.total(sp.blocks)
        if J is None:
            want = None
        elif approx:
            d = H.diagonal(0, 1, 2)
            want = K.db_jT(n, x, d, wrt)
        elif wrt == "input":
            want = sp_jTmjp(J, H, False, td)
        elif td:
            l2 = [sp_jTmjp(q, H, False, True) for q in K.leaves(sp.blocks)]
            want = l2[0] if len(l2) == 1 else st.cat(l2, 1)
        else:
            want = K.mapblocks(sp.blocks, lambda q: sp_jTmjp(q, H, False, False))
        want = agg(a, want)
        args = (x, m, t) if target else (x, m)
        yield "ggn", L.ggn(*args, wrt=wrt), want
        if wrt == "weight":
            yield "ggn, default wrt", L.ggn(*args), want

    return body


def plainT(name, dims):
    return tensor_d(name, dims)


def lemma_gradient(W, lik, r):
    """the residual is the derivative of the log-likelihood (times the sum of the target for the softmax)"""

    def body():
        B = Sym.size("B")
        dims = [dim_of(B)] + [dim_of(Sym.size(n)) for n in {1: ["O"], 2: ["L", "O"], 3: ["L1", "L2", "O"]}[r]]
        f, t = tensor_d("F", dims), tensor_d("T", dims)
        ll = loglik(lik, f, t)
        O = flatdim(dims[1:])

        def d(idx):
            b, o = idx
            return diff(elem_diff(ll, [b]), "F", st.flat_digits([b] + split_digits(dims[1:], o)))

        got = Tensor([dims[0], O], d, f.dtype)
        if lik == "LogBernoulli":
            s = st.tsum(t, -1, True)
            want = flat2(t - s * prob(lik, f))
        else:
            want = residual(lik, f, t)
        yield "derivative of the log-likelihood", got, want

    return body


def lemma_hessian(W, lik, r):
    """the Hessian is the second derivative (times the sum of the target for the softmax)"""

    def body():
        B = Sym.size("B")
        dims = [dim_of(B)] + [dim_of(Sym.size(n)) for n in {1: ["O"], 2: ["L", "O"], 3: ["L1", "L2", "O"]}[r]]
        f, t = tensor_d("F", dims), tensor_d("T", dims)
        O = flatdim(dims[1:])
        if lik == "LogBernoulli":
            s = st.tsum(t, -1, True)
            g = flat2(t - s * prob(lik, f))
            sf = flat2(Tensor(dims, lambda idx: s.elem(list(idx[:-1]) + [()]), f.dtype))
        else:
            g, sf = residual(lik, f, t), None

        def d(idx):
            b, o, q = idx
            return diff(elem_diff(g, [b, o]), "F", st.flat_digits([b] + split_digits(dims[1:], q)))

        got = Tensor([dims[0], O, O], d, f.dtype)
        H = hessian(lik, f)
        want = H if sf is None else Tensor(H.dims, lambda idx: H.elem(idx) * sf.elem([idx[0], idx[1]]), f.dtype)
        yield "second derivative of the log-likelihood", got, want

    return body


def frame_body(W, lik, kind, meth, wrt, shape, a):
    def body():
        m, x, sp, n = model(W, kind)
        t = tensor_d("T", list(sp.y.dims))
        L = make(W, lik, a, shape)
        fr = Frame([("x", x), ("target", t)] + [(f"parameter {k}", p) for k, p in enumerate(m.parameters())])
        if meth == "forward":
            L(x, m, t)
        else:
            getattr(L, meth)(x, m, t, wrt=wrt)
        yield from fr.check()

    return body
