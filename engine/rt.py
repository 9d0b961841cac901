"""Run-time contract evaluation on the REAL code (real torch, the nnj package of
/repo's working tree).  The same postconditions that the prover discharges
symbolically are evaluated here on concrete inputs, against a derivative computed
by torch.autograd.  Used (a) as the replay of a refuted obligation, (b) as the
bounded stand-in for a function outside the prover's subset, (c) as a
cross-check of the contracts on every run.

Runs under /opt/venv/bin/python.   rt.py PROP [--tier quick|thorough] [--seed N]
[--only CASE] [--json OUT]
"""
import ast
import argparse, json, os, sys, time, traceback, itertools, math, copy, hashlib

REPO = os.environ.get("NNJ_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore")
import torch
import torch.nn as nn
torch.set_num_threads(1)
import nnj
assert os.path.realpath(nnj.__file__).startswith(os.path.realpath(REPO) + os.sep), nnj.__file__

DT = torch.float64


class Fail(Exception):
    pass


# ------------------------------------------------------------------ reference
def kids(m):
    return [c for c in m._modules.values() if c is not None]


def is_seq(m):
    return isinstance(m, nnj.Sequential)


def is_skip(m):
    return isinstance(m, nnj.SkipConnection)


def inner(m):
    return kids(m)[0]


def compose(m, x):
    """the mathematical function of a (nested) container, from its leaves' forwards"""
    if is_seq(m):
        for c in kids(m):
            x = compose(c, x)
        return x
    if is_skip(m):
        return torch.cat([x, compose(inner(m), x)], dim=1)
    return m(x)


def n_par(m):
    return sum(p.numel() for p in m.parameters())


def jac_in(f, x):
    with torch.enable_grad():
        x = x.detach().clone().requires_grad_(True)
        y = f(x)
        b = x.shape[0]
        yf = y.reshape(b, -1)
        J = torch.zeros(b, yf.shape[1], x[0].numel(), dtype=x.dtype)
        for n in range(b):
            for i in range(yf.shape[1]):
                if not yf.requires_grad:
                    continue
                (g,) = torch.autograd.grad(yf[n, i], x, retain_graph=True, allow_unused=True)
                if g is None:
                    continue
                J[n, i] = g[n].reshape(-1)
                o = g.clone()
                o[n] = 0
                if o.abs().max() > 0:
                    raise Fail("output of sample %d depends on another sample" % n)
    return J, y.detach()


def jac_w(f, x, params):
    params = list(params)
    if not params:
        return None
    with torch.enable_grad():
        olds = [p.requires_grad for p in params]
        for p in params:
            p.requires_grad_(True)
        x = x.detach().clone()
        y = f(x)
        b = x.shape[0]
        yf = y.reshape(b, -1)
        P = sum(p.numel() for p in params)
        J = torch.zeros(b, yf.shape[1], P, dtype=x.dtype)
        for n in range(b):
            for i in range(yf.shape[1]):
                gs = torch.autograd.grad(yf[n, i], params, retain_graph=True, allow_unused=True)
                J[n, i] = torch.cat([(torch.zeros_like(p) if g is None else g).reshape(-1) for g, p in zip(gs, params)])
        for p, o in zip(params, olds):
            p.requires_grad_(o)
    return J


class Ref:
    """Derivative of the composed map and its per-layer pieces."""

    def __init__(self, m, x):
        self.m, self.x = m, x
        self.b = x.shape[0]
        f = (lambda z: compose(m, z))
        self.Jx, self.y = jac_in(f, x)
        self.Jw = jac_w(f, x, m.parameters())
        self._parts = None

    def J(self, wrt):
        return self.Jx if wrt == "input" else self.Jw

    @property
    def parts(self):
        if self._parts is None:
            if is_seq(self.m):
                r, x = [], self.x
                for c in kids(self.m):
                    rc = Ref(c, x)
                    r.append(rc)
                    x = rc.y
                self._parts = r
            elif is_skip(self.m):
                self._parts = [Ref(inner(self.m), self.x)]
            else:
                self._parts = []
        return self._parts

    # ---- exact products
    def jTmjp(self, M, wrt, fd, td):
        b = self.b
        Mf = torch.diag_embed(M) if fd else M
        if wrt == "input":
            R = self.Jx.transpose(1, 2) @ Mf @ self.Jx
            return torch.diagonal(R, dim1=1, dim2=2) if td else R
        if self.Jw is None:
            return None
        if td:
            R = self.Jw.transpose(1, 2) @ Mf @ self.Jw
            return torch.diagonal(R, dim1=1, dim2=2)
        return self._blocks(self.m, self.Jw, Mf)

    def _blocks(self, m, Jw, M):
        if is_seq(m):
            out, p = [], 0
            for c in kids(m):
                n = n_par(c)
                if n:
                    out.append(self._blocks(c, Jw[:, :, p:p + n], M))
                p += n
            return out
        if is_skip(m):
            return self._blocks(inner(m), Jw, M)
        return Jw.transpose(1, 2) @ M @ Jw

    def leafslices(self):
        out = []

        def rec(m, p):
            if is_seq(m):
                for c in kids(m):
                    p = rec(c, p)
                return p
            if is_skip(m):
                return rec(inner(m), p)
            n = n_par(m)
            if n:
                out.append((p, p + n))
            return p + n
        rec(self.m, 0)
        return out

    def jmjTp(self, M, wrt, fd, td):
        if wrt == "input":
            Mf = torch.diag_embed(M) if fd else M
            R = self.Jx @ Mf @ self.Jx.transpose(1, 2)
        else:
            if self.Jw is None:
                return None
            R = 0
            for (p, q) in self.leafslices():
                blk = torch.diag_embed(M[:, p:q]) if fd else M[:, p:q, p:q]
                Jk = self.Jw[:, :, p:q]
                R = R + Jk @ blk @ Jk.transpose(1, 2)
        return torch.diagonal(R, dim1=1, dim2=2) if td else R

    # ---- diagonal backprop, one layer at a time
    def jTmjp_db(self, m, wrt):
        if is_seq(self.m):
            acc = []
            for r in reversed(self.parts):
                if wrt == "weight":
                    w = r.jTmjp_db(m, "weight")
                    if w is not None:
                        acc.insert(0, w)
                m = r.jTmjp_db(m, "input")
            if wrt == "input":
                return m
            return torch.cat(acc, 1) if acc else None
        if is_skip(self.m):
            l = self.x[0].numel()
            r = self.parts[0].jTmjp_db(m[:, l:], wrt)
            return r if wrt == "weight" else r + m[:, :l]
        return self.jTmjp(m, wrt, True, True)

    def jmjTp_db(self, m, wrt):
        if is_seq(self.m):
            if wrt == "input":
                for r in self.parts:
                    m = r.jmjTp_db(m, "input")
                return m
            acc, p = None, 0
            for r in self.parts:
                if acc is not None:
                    acc = r.jmjTp_db(acc, "input")
                n = n_par(r.m)
                if n:
                    w = r.jmjTp_db(m[:, p:p + n], "weight")
                    acc = w if acc is None else acc + w
                p += n
            return acc
        if is_skip(self.m):
            r = self.parts[0].jmjTp_db(m, wrt)
            if r is None:
                return None
            top = m if wrt == "input" else torch.zeros(self.b, self.x[0].numel(), dtype=m.dtype)
            return torch.cat([top, r], 1)
        return self.jmjTp(m, wrt, True, True)


# ------------------------------------------------- which calls may be refused
def unimpl(m, meth, wrt, none=False):
    """May this call raise NotImplementedError?  (methods the library leaves
    unimplemented; implementing them correctly is fine as well)"""
    if is_seq(m):
        cs = kids(m)
        if meth in ("jacobian", "mjp"):
            return any(unimpl(c, "mjp", w) for c in cs for w in ("input", wrt))
        if meth == "jmp" and none:
            return unimpl(m, "jacobian", wrt)
        if meth in ("vjp", "jTmjp"):
            return any(unimpl(c, meth, w) for c in cs for w in ("input", wrt))
        if wrt == "input":
            return any(unimpl(c, meth, "input") for c in cs)
        seen = False
        for c in cs:
            if seen and unimpl(c, meth, "input"):
                return True
            if unimpl(c, meth, "weight"):
                return True
            if n_par(c):
                seen = True
        return False
    if is_skip(m):
        f = inner(m)
        if none and meth in ("jmp", "mjp"):
            return unimpl(f, "jacobian", wrt)
        r = unimpl(f, meth, wrt)
        if meth == "jmjTp" and wrt == "input":
            r = r or unimpl(f, "jmp", wrt)
        return r
    if isinstance(m, nnj.Conv2d):
        return meth in ("jvp", "jmjTp") or (meth == "jmp" and not none)
    if isinstance(m, nnj.Upsample):
        return wrt == "input" and (meth in ("jvp", "jmjTp") or (meth == "jmp" and not none))
    if isinstance(m, nnj.MaxPool2d):
        return wrt == "input" and meth in ("jvp", "jmjTp")
    if isinstance(m, (nnj.Flatten, nnj.Reshape)):
        return wrt == "input" and meth in ("jmp", "mjp") and none
    return False


# ---------------------------------------------------------------------- runner
class Run:
    def __init__(self, prop, tier, seed, only=None, budget=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.n = 0
        self.nontrivial = 0
        self.refused = 0
        self.fails = []
        self.cases = set()
        self.t0 = time.time()
        self.budget = budget
        self.samples = []

    def over(self):
        return self.budget and time.time() - self.t0 > self.budget

    def gen(self, case):
        h = int(hashlib.sha256(("%s|%d" % (case, self.seed)).encode()).hexdigest()[:12], 16)
        g = torch.Generator()
        g.manual_seed(h)
        return g

    def skip(self, case):
        return self.only is not None and case != self.only

    def fail(self, case, what, **info):
        if len(self.fails) < 40:
            d = {"property": self.prop, "case": case, "what": what}
            d.update({k: (v if isinstance(v, (str, int, float, bool, type(None), list, dict)) else describe(v)) for k, v in info.items()})
            self.fails.append(d)

    def check(self, case, what, got, want, tol=1e-7, **info):
        self.n += 1
        self.cases.add(case)
        msg = differ(got, want, tol)
        if want is not None and not (torch.is_tensor(want) and want.abs().sum() == 0):
            self.nontrivial += 1
        if len(self.samples) < 3:
            self.samples.append("%s: %s" % (case, what))
        if msg:
            self.fail(case, what + ": " + msg, got=got, want=want, **info)
            return False
        return True

    def call(self, case, what, fn, want, allow_ni=False, tol=1e-7, **info):
        """evaluate a postcondition: result of fn() equals want (want may be a thunk)"""
        if self.skip(case):
            return None
        try:
            got = fn()
        except NotImplementedError:
            self.n += 1
            self.cases.add(case)
            if allow_ni:
                self.refused += 1
            else:
                self.fail(case, what + ": raised NotImplementedError", **info)
            return None
        except Exception as e:
            self.n += 1
            self.cases.add(case)
            self.fail(case, what + ": raised %s: %s" % (type(e).__name__, str(e)[:300]), **info)
            return None
        if callable(want):
            want = want()
        self.check(case, what, got, want, tol, **info)
        return got


def describe(v):
    if v is None:
        return None
    if torch.is_tensor(v):
        if v.numel() <= 400:
            return {"dtype": str(v.dtype), "shape": list(v.shape), "data": v.detach().reshape(-1).double().tolist() if v.dtype != torch.bool else v.reshape(-1).tolist()}
        return {"dtype": str(v.dtype), "shape": list(v.shape), "head": v.detach().reshape(-1)[:50].double().tolist()}
    if isinstance(v, (list, tuple)):
        return [describe(w) for w in v]
    return repr(v)[:500]


def differ(got, want, tol):
    if want is None:
        return None if got is None else "expected None, got %s" % type(got).__name__
    if got is None:
        return "got None"
    if isinstance(want, list):
        if not isinstance(got, (list, tuple)):
            return "expected a list of %d blocks, got %s" % (len(want), type(got).__name__)
        if len(got) != len(want):
            return "expected %d blocks, got %d" % (len(want), len(got))
        for i, (g, w) in enumerate(zip(got, want)):
            m = differ(g, w, tol)
            if m:
                return "block %d: %s" % (i, m)
        return None
    if not torch.is_tensor(got):
        return "expected a tensor, got %s" % type(got).__name__
    if tuple(got.shape) != tuple(want.shape):
        return "shape %s, expected %s" % (tuple(got.shape), tuple(want.shape))
    g, w = got.detach().to(torch.float64), want.detach().to(torch.float64)
    if g.numel() == 0:
        return None
    bad = ~(torch.isclose(g, w, rtol=tol, atol=tol, equal_nan=True))
    if bad.any():
        i = int(bad.reshape(-1).nonzero()[0])
        idx = []
        r = i
        for s in reversed(g.shape):
            idx.append(r % s)
            r //= s
        return "entry %s is %r, expected %r (%d of %d entries wrong)" % (
            tuple(reversed(idx)), float(g.reshape(-1)[i]), float(w.reshape(-1)[i]), int(bad.sum()), g.numel())
    return None



def make(ctor, g, dt=DT, scale=1.0):
    m = build(ctor).to(dt)
    deep = len(list(m.modules())) > 24
    with torch.no_grad():
        for p in m.parameters():
            if deep:  # weights of modulus about 1, so that derivatives through many layers do not vanish
                u = torch.rand(p.shape, generator=g, dtype=torch.float64)
                p.copy_(((0.85 + 0.3 * u) * (1 - 2 * (torch.rand(p.shape, generator=g) > 0.5)) if p.dim() > 1 else 0.2 * (u - 0.5)).to(p.dtype))
                continue
            p.copy_((torch.rand(p.shape, generator=g, dtype=torch.float64) * 2 - 1).to(p.dtype) * scale)
    return m


def rnd(g, *shape, dt=DT):
    return torch.randn(*shape, generator=g, dtype=torch.float64).to(dt)


# custom layers for C07: only jacobian is supplied
class DenseLayer(nnj.AbstractJacobian, nn.Module):
    """y = sin(A x) + sum x with parameters A (o x i); dense, rectangular; o may be the shape of an image"""

    def __init__(self, i, o, params=True):
        super().__init__()
        self.osh = o if isinstance(o, tuple) else (o,)
        o = math.prod(self.osh)
        self.i, self.o = i, o
        if params:
            self.A = nn.Parameter(torch.zeros(o, i))
        else:
            self.register_buffer("A", torch.arange(o * i, dtype=torch.get_default_dtype()).reshape(o, i) / 3 - 1)
        self._n_params = o * i if params else 0
        self.has = params

    def forward(self, x):
        xf = x.reshape(x.shape[0], -1)
        return (torch.sin(xf @ self.A.t()) + xf.sum(1, keepdim=True)).reshape(x.shape[0], *self.osh)

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        xf = x.reshape(x.shape[0], -1)
        c = torch.cos(xf @ self.A.t())
        if wrt == "input":
            return c.unsqueeze(-1) * self.A.unsqueeze(0) + 1
        if not self.has:
            return None
        b = x.shape[0]
        J = torch.zeros(b, self.o, self.o, self.i, dtype=x.dtype)
        for k in range(self.o):
            J[:, k, k, :] = c[:, k:k + 1] * xf
        return J.reshape(b, self.o, -1)


class DiagLayer(nnj.AbstractDiagonalJacobian, nn.Module):
    def __init__(self, params=False):
        super().__init__()
        self._n_params = 0

    def forward(self, x):
        return x ** 3 + 0.5 * x

    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input", diag=False):
        if wrt == "weight":
            return None
        d = (3 * x ** 2 + 0.5).reshape(x.shape[0], -1)
        return d if diag else torch.diag_embed(d)


# ----------------------------------------------------------------------- cases
ACTS = ["Tanh()", "ReLU()", "Sigmoid()", "Sinusoidal()", "TruncExp()", "Softplus()", "Softplus(beta=2.5)",
        "Softplus(beta=0.5, threshold=1.0)", "Softplus(beta=3, threshold=0.5)"]


OVERRIDE = None  # cases of a targeted replay: {"leaf": [(ctor, shape, batch)], "net": [...]}


ENV = {"nnj": nnj, "nn": nn, "torch": torch, "DenseLayer": DenseLayer, "DiagLayer": DiagLayer, **{k: getattr(nnj, k) for k in (
        "Linear", "Conv2d", "Sequential", "SkipConnection", "Tanh", "ReLU", "Sigmoid", "Sinusoidal", "Softplus",
        "TruncExp", "Reshape", "Flatten", "L2Norm", "Upsample", "MaxPool2d")}}


def build(ctor):
    return eval(ctor, dict(ENV))


def leaf_cases(tier):
    """(ctor, sample shape)"""
    if OVERRIDE is not None:
        return [(c[0], tuple(c[1])) for c in OVERRIDE["leaf"]]
    C = []
    for a in ACTS:
        for sh in [(3,), (2, 3), (2, 3, 2)]:
            C.append((a, sh))
    C.append(("Tanh()", (2, 1, 2, 2)))
    for sh in [(3,), (1,), (2, 3), (2, 3, 2)]:
        C.append(("L2Norm()", sh))
    C.append(("L2Norm(eps=0.3)", (3,)))
    for sh in [(3,), (2, 3), (2, 3, 2)]:
        C.append(("Flatten()", sh))
    C += [("Reshape(6)", (2, 3)), ("Reshape(3, 2)", (2, 3)), ("Reshape(1, 2, 3)", (6,)), ("Reshape(2, -1)", (2, 3)), ("Reshape(-1)", (2, 3, 2))]
    C += [("Linear(3, 5)", (3,)), ("Linear(3, 5, bias=False)", (3,)), ("Linear(4, 1)", (4,)), ("Linear(1, 3)", (1,)),
          ("Linear(1, 1)", (1,)), ("Linear(3, 3, bias=False)", (3,)), ("Linear(4, 4)", (4,)), ("Linear(1, 1, bias=False)", (1,)),
          ("Linear(5, 2)", (5,)), ("Linear(5, 2, False)", (5,))]
    conv = ["Conv2d(1, 1, 1)|1,2,2", "Conv2d(1, 1, 2, bias=False)|1,3,2", "Conv2d(2, 3, 2)|2,3,4", "Conv2d(2, 3, 2, bias=False)|2,3,4",
            "Conv2d(3, 2, (2, 3), padding=1)|3,3,4", "Conv2d(2, 2, (3, 2), padding=(1, 0))|2,3,4", "Conv2d(2, 2, (3, 2), padding=(0, 1), bias=False)|2,4,3",
            "Conv2d(1, 3, 3, padding=2)|1,2,3", "Conv2d(2, 1, 3)|2,3,3", "Conv2d(1, 2, (1, 3))|1,2,4", "Conv2d(2, 2, (3, 1), bias=False)|2,4,2",
            "Conv2d(3, 2, 1)|3,2,3", "Conv2d(2, 3, 2)|2,2,3", "Conv2d(2, 3, 2)|2,3,2", "Conv2d(2, 2, 2)|2,2,2", "Conv2d(1, 4, (1, 2), padding=(0, 1))|1,1,1"]
    for c in conv:
        ct, sh = c.split("|")
        sh = tuple(int(s) for s in sh.split(","))
        C.append((ct, sh))
        C.append((ct[:-1] + ", use_vmap_for_backprop=False)", sh))
    pool = ["MaxPool2d(2)|2,4,4", "MaxPool2d(2)|1,5,4", "MaxPool2d(2, stride=1)|2,3,4", "MaxPool2d((2, 3))|2,4,6", "MaxPool2d((3, 2), stride=(1, 2))|2,4,4",
            "MaxPool2d(3, stride=2, padding=1)|2,4,5", "MaxPool2d(2, stride=2, ceil_mode=True)|2,3,5", "MaxPool2d(2, stride=1, dilation=2)|1,4,3", "MaxPool2d(1)|2,2,3",
            "MaxPool2d(3, stride=1)|3,3,4", "MaxPool2d((1, 3), stride=(2, 1))|2,3,5", "MaxPool2d((3, 1), stride=(1, 2))|1,5,3", "MaxPool2d((2, 3), stride=(2, 1))|1,4,4", "MaxPool2d((3, 2), stride=(2, 2), padding=(1, 0))|2,4,4",
            "MaxPool2d((1, 2), stride=1)|2,2,4", "MaxPool2d((2, 1), stride=1)|2,4,2", "MaxPool2d(2, stride=(1, 2))|1,4,4", "MaxPool2d(2, stride=2, dilation=2)|1,5,5", "MaxPool2d(2, stride=3, dilation=3)|1,5,7",
            "MaxPool2d((3, 2), stride=(3, 1), ceil_mode=True)|1,5,3", "MaxPool2d(kernel_size=2, stride=3)|1,5,5"]
    for c in pool:
        ct, sh = c.split("|")
        C.append((ct, tuple(int(s) for s in sh.split(","))))
    up = ["Upsample(scale_factor=2)|2,2,3", "Upsample(scale_factor=3)|1,2,1", "Upsample(scale_factor=1)|2,2,2", "Upsample(scale_factor=2.0)|1,3,2",
          "Upsample(scale_factor=2, mode='nearest-exact')|2,1,2", "Upsample(scale_factor=4)|3,1,2"]
    for c in up:
        ct, sh = c.split("|")
        C.append((ct, tuple(int(s) for s in sh.split(","))))
    return C


def leaf_xs(run, case, sh, kinds=None):
    """yields (label, x)"""
    g = run.gen(case)
    out = []
    for b in ({c[2] for c in OVERRIDE["leaf"] if tuple(c[1]) == tuple(sh)} - {2} if OVERRIDE is not None else ()):
        out.append(("batch", rnd(g, b, *sh)))
    out.append(("randn", rnd(g, 2, *sh)))
    out.append(("b1", rnd(g, 1, *sh)))
    out.append(("large", 12 * rnd(g, 3, *sh)))
    out.append(("zeros", torch.zeros(2, *sh, dtype=DT)))
    ints = torch.randint(-2, 3, (3, *sh), generator=g).to(DT)
    out.append(("ties", ints))
    # non-contiguous view
    base = rnd(g, *reversed(sh), 3)
    out.append(("noncontig", base.permute(*reversed(range(base.dim())))))
    # magnitudes at which exponentials overflow or vanish
    sgn = torch.randint(0, 2, (4, *sh), generator=g).to(DT) * 2 - 1
    huge = sgn * 10 ** (torch.rand(4, *sh, generator=g, dtype=torch.float64) * 5 - 1.5)
    out.append(("huge", huge.clamp(max=300) if case.startswith("TruncExp") else huge))
    if run.tier == "thorough":
        for k in range(4):
            out.append(("randn%d" % k, rnd(g, 1 + k, *sh) * (10.0 ** (k - 1))))
    if kinds:
        out = [o for o in out if o[0] in kinds or o[0] == "batch"]
    return out


def leaf_loop(run, which=None, kinds=None):
    for (ctor, sh) in leaf_cases(run.tier):
        if which and not which(ctor):
            continue
        for (lab, x) in leaf_xs(run, ctor + str(sh), sh, kinds):
            case = "%s x%s %s" % (ctor, tuple(x.shape), lab)
            if run.skip(case) or run.over():
                continue
            g = run.gen(case)
            m = make(ctor, g)
            yield case, m, x, g
            if lab == "randn":
                yield from variants(run, ctor, case, x)
    if OVERRIDE is None and which is None and run.prop not in ("C12", "C13"):
        yield from big_loop(run, LEAF_BIG)


# sizes beyond the usual ones: wide, large batches, many channels, long rows (ctor, shape of a sample, batch)
LEAF_BIG = [
    ("Linear(70, 3)", (70,), 2), ("Linear(2, 70)", (2,), 2), ("Linear(3, 2)", (3,), 33), ("Linear(3, 2)", (3,), 131), ("Linear(2, 3, bias=False)", (2,), 65), ("Linear(2, 3, bias=False)", (2,), 1), ("Linear(2, 3)", (2,), 1), ("Linear(33, 33)", (33,), 1),
    ("Tanh()", (70,), 2), ("Tanh()", (3,), 131), ("Sigmoid()", (67,), 33), ("ReLU()", (67,), 33), ("Softplus()", (67,), 33), ("Softplus(beta=2.0, threshold=1.0)", (67,), 33), ("Sinusoidal()", (67,), 33), ("TruncExp()", (67,), 33),
    ("L2Norm()", (70,), 2), ("L2Norm()", (3,), 65), ("L2Norm()", (2, 33), 3), ("L2Norm()", (1,), 131),
    ("Conv2d(1, 1, 2)", (1, 2, 3), 33), ("Conv2d(1, 1, 2)", (1, 2, 2), 66), ("Conv2d(1, 1, 2, use_vmap_for_backprop=False)", (1, 2, 3), 33), ("Conv2d(1, 2, 3, padding=1)", (1, 9, 8), 1), ("Conv2d(20, 2, 1)", (20, 2, 1), 1), ("Conv2d(1, 20, 1, bias=False)", (1, 1, 2), 2),
    ("Conv2d(1, 1, (1, 9), padding=(0, 4))", (1, 1, 33), 1), ("Conv2d(2, 1, 7, padding=3)", (2, 3, 3), 1), ("Conv2d(17, 17, 1, use_vmap_for_backprop=False)", (17, 1, 1), 2),
    ("MaxPool2d(2)", (1, 8, 40), 1), ("MaxPool2d(2)", (1, 18, 20), 1), ("MaxPool2d(2)", (17, 2, 2), 2), ("MaxPool2d(2, stride=1)", (1, 3, 3), 35), ("MaxPool2d(5, stride=2)", (1, 17, 17), 1),
    ("Upsample(scale_factor=2)", (1, 2, 2), 35), ("Upsample(scale_factor=7)", (1, 1, 2), 2), ("Upsample(scale_factor=2)", (17, 1, 1), 2), ("Upsample(scale_factor=16)", (1, 1, 1), 1), ("Upsample(scale_factor=2)", (1, 9, 7), 1),
    ("Flatten()", (7, 11), 35), ("Reshape(7, -1)", (77,), 35), ("Reshape(-1)", (2, 3, 17), 1),
]
NET_BIG = [
    ("Sequential(Linear(2, 70), Sinusoidal(), Linear(70, 2))", (2,), 2), ("Sequential(Linear(2, 3), Tanh(), Linear(3, 2))", (2,), 33), ("Sequential(Linear(2, 3), Sequential(Tanh(), Linear(3, 1)))", (2,), 131),
    ("Sequential(Linear(70, 2), Sequential(Linear(2, 67), Tanh()))", (70,), 1), ("Sequential(*[Linear(1, 1) if k % 2 else Sigmoid() for k in range(41)])", (1,), 1), ("Sequential(Linear(1, 130), Tanh(), Linear(130, 1, bias=False))", (1,), 2),
    ("Sequential(Conv2d(1, 1, 2), Tanh(), Flatten(), Linear(16, 2))", (1, 9, 3), 1), ("Sequential(Tanh(), Sigmoid())", (67,), 3), ("Sequential(Tanh(), L2Norm(), Linear(67, 1))", (67,), 3),
]
SKIP_BIG = [("SkipConnection(Linear(2, 70))", (2,), 2), ("SkipConnection(Linear(3, 2), Tanh())", (3,), 33), ("SkipConnection(Linear(2, 1))", (2,), 131), ("SkipConnection(Tanh())", (67,), 2), ("SkipConnection(Linear(67, 2), Tanh(), Linear(2, 1))", (67,), 1), ("SkipConnection(Conv2d(1, 17, 1), Tanh())", (1, 2, 1), 2)]


def big_loop(run, cases):
    for ctor, sh, b in cases:
        case = "%s x%s big sizes" % (ctor, (b,) + sh)
        if run.skip(case) or run.over():
            continue
        g = run.gen(case)
        yield case, make(ctor, g), rnd(g, b, *sh), g


def variants(run, ctor, case, x):
    """the same layer in other modes: parameters frozen, evaluation mode, an input that requires gradients"""
    if run.prop in ("C12", "C14") and run.tier != "thorough":
        return
    out = ["eval", "xgrad"]
    n = len(list(build(ctor).parameters()))
    if n:
        out += ["frozen"] + ["frozen%d" % k for k in ((0, n - 1) if n > 1 else ())]
    for v in out:
        c = case.replace(" randn", " " + v)
        if run.skip(c) or run.over():
            continue
        g = run.gen(c)
        m = make(ctor, g)
        ps = list(m.parameters())
        if v == "eval":
            m.eval()
        elif v.startswith("frozen"):
            for p in ps if v == "frozen" else [ps[int(v[6:])]]:
                p.requires_grad_(False)
        yield c, m, (x.clone().requires_grad_(True) if v == "xgrad" else x), g


NET_CASES = [
    ("Sequential(Linear(3, 4), Tanh(), Linear(4, 2))", (3,)),
    ("Sequential(Linear(3, 2))", (3,)),
    ("Sequential(Tanh())", (3,)),
    ("Sequential(Tanh(), Sigmoid(), Sinusoidal())", (2, 2)),
    ("Sequential(Tanh(), Linear(3, 2, bias=False))", (3,)),
    ("Sequential(Linear(2, 3), Sigmoid(), ReLU())", (2,)),
    ("Sequential(Linear(3, 4), Sequential(Tanh(), Linear(4, 3)), ReLU(), Sequential(Sigmoid(), Sinusoidal()), Linear(3, 2, bias=False))", (3,)),
    ("Sequential(Sequential(Sequential(Linear(2, 3))), Sequential(Tanh()))", (2,)),
    ("Sequential(Sequential(Tanh(), ReLU()), Sequential(Linear(3, 2), Linear(2, 2)))", (3,)),
    ("Sequential(Sequential(Linear(2, 2), Tanh()), Linear(2, 3), Sequential(Softplus()))", (2,)),
    ("Sequential(Linear(2, 3), Tanh(), Linear(3, 3), Sigmoid(), Linear(3, 1), Sinusoidal())", (2,)),
    ("Sequential(Linear(3, 4), L2Norm(), Linear(4, 2), TruncExp())", (3,)),
    ("Sequential(Linear(2, 6), Reshape(2, 3), Tanh(), Flatten(), Linear(6, 2))", (2,)),
    ("Sequential(Conv2d(1, 2, 2), Tanh(), MaxPool2d(2, stride=1), Flatten(), Linear(8, 3))", (1, 4, 4)),
    ("Sequential(Linear(3, 4), Reshape(1, 2, 2), Upsample(scale_factor=2), Conv2d(1, 1, (2, 3)), Softplus(), Flatten())", (3,)),
    ("Sequential(Conv2d(1, 2, 2, padding=1), ReLU(), Conv2d(2, 1, 2, bias=False))", (1, 2, 2)),
    ("Sequential(MaxPool2d(2), Flatten(), Linear(4, 2))", (1, 4, 4)),
    ("Sequential(Linear(3, 3), SkipConnection(Linear(3, 2), Tanh()), Linear(5, 2))", (3,)),
    ("Sequential(Linear(2, 2), SkipConnection(Tanh()), ReLU(), SkipConnection(Linear(4, 1), Sigmoid()), Linear(5, 2))", (2,)),
    ("Sequential(SkipConnection(Conv2d(1, 2, 3, padding=1), Tanh()), Conv2d(3, 1, 2), Flatten())", (1, 2, 3)),
    ("Sequential(Tanh(), Linear(2, 2), Linear(2, 2), Sequential(Linear(2, 2), Linear(2, 2)), Linear(2, 2), Tanh(), Linear(2, 2))", (2,)),
    ("Sequential(Sigmoid(), Linear(1, 1), Sigmoid())", (1,)),
    ("(lambda r: Sequential(Linear(2, 3), r, Linear(3, 2), r))(Tanh())", (2,)),
    ("Sequential(Linear(3, 2), Sequential(Tanh(), Sequential(Linear(2, 2, bias=False), Sigmoid()), Linear(2, 3)), Sequential(Linear(3, 1)))", (3,)),
]
NET_CASES += [
    ("Sequential(*[l for k in range(6) for l in (Linear(2, 2), Tanh())])", (2,)),
    ("Sequential(*[Linear(1, 1) if k % 3 else Sigmoid() for k in range(19)])", (1,)),
    ("Sequential(Linear(1, 2), *[Sequential(Tanh(), Linear(2, 2)) for k in range(9)], Linear(2, 1))", (1,)),
    ("Sequential(Tanh(), Sequential(Linear(2, 2), Sequential(Tanh(), Sequential(Linear(2, 2), Sequential(Tanh(), Linear(2, 2))))))", (2,)),
]
NET_CASES += [
    ("Sequential(Flatten(), Reshape(3))", (3,)),
    ("Sequential(Flatten(), Reshape(2, 1, 2), Flatten())", (2, 1, 2)),
]
NET_CASES += [  # layers changed after construction
    ("Sequential(Linear(3, 3), Tanh()).append(Linear(3, 3))", (3,)),
    ("(lambda n: (n.__setitem__(1, Sigmoid()), n)[1])(Sequential(Linear(2, 2), ReLU(), Linear(2, 2)))", (2,)),
    ("(lambda n: (n.__delitem__(1), n.insert(0, Linear(2, 2)))[1])(Sequential(Tanh(), Linear(2, 2), Linear(2, 2, bias=False)))", (2,)),
    ("(lambda i: [n for n in [Sequential(Linear(2, 2), i, Linear(2, 2))] if i.append(Linear(2, 2))][0])(Sequential(Tanh()))", (2,)),
    ("Sequential(Linear(2, 3), Tanh(), Linear(3, 2), Sigmoid())[:3]", (2,)),
]
SKIP_CASES = [
    ("(lambda i: [n for n in [SkipConnection(Linear(2, 2), i)] if i.append(Linear(2, 3))][0])(Sequential(Tanh()))", (2,)),
    ("SkipConnection(Flatten())", (3,)),
    ("SkipConnection(Reshape(2, 1, 2))", (2, 1, 2)),
    ("SkipConnection(Reshape(2), SkipConnection(Flatten()))", (2,)),
    ("SkipConnection(*[l for k in range(5) for l in (Linear(2, 2), Tanh())])", (2,)),
    ("SkipConnection(SkipConnection(SkipConnection(Linear(1, 1)), Linear(2, 1)), Tanh())", (1,)),
    ("SkipConnection(Linear(3, 2))", (3,)),
    ("SkipConnection(Linear(3, 4), Tanh(), Linear(4, 3))", (3,)),
    ("SkipConnection(Tanh())", (3,)),
    ("SkipConnection(Tanh(), Sigmoid())", (2, 2)),
    ("SkipConnection(Tanh())", (2, 2, 3)),
    ("SkipConnection(Linear(2, 2, bias=False), ReLU())", (2,)),
    ("SkipConnection(Linear(1, 3), Sinusoidal())", (1,)),
    ("SkipConnection(Conv2d(2, 1, 3, padding=1), Tanh())", (2, 2, 3)),
    ("SkipConnection(Conv2d(1, 2, 3, padding=1, bias=False), Softplus(), Conv2d(2, 1, 3, padding=1))", (1, 3, 2)),
    ("SkipConnection(MaxPool2d(3, stride=1, padding=1))", (2, 3, 3)),
    ("SkipConnection(SkipConnection(Linear(2, 1)), Linear(3, 2))", (2,)),
    ("SkipConnection(Sequential(Linear(2, 3), Tanh()), Linear(3, 2))", (2,)),
    ("SkipConnection(Linear(3, 6), Reshape(2, 3), Tanh(), Flatten(), L2Norm())", (3,)),
]


def net_loop(run, cases, labs=("randn", "b1")):
    if OVERRIDE is not None:
        cases = [(c[0], tuple(c[1])) for c in OVERRIDE["net"]]
    for (ctor, sh) in cases:
        for lab in labs + (("big", "b3") if run.tier == "thorough" else ()):
            b = {"randn": 2, "b1": 1, "big": 2, "b3": 3}[lab]
            case = "%s x%s %s" % (ctor, (b,) + sh, lab)
            if run.skip(case) or run.over():
                continue
            g = run.gen(case)
            m = make(ctor, g)
            x = rmem(g, b, *sh) * (4 if lab == "big" else 1)
            yield case, m, x, g
            if lab == "randn":
                yield from variants(run, ctor, case, x)
    if OVERRIDE is None and run.prop not in ("C12", "C13"):
        yield from big_loop(run, (NET_BIG if NET_CASES[0] in cases else []) + (SKIP_BIG if SKIP_CASES[0] in cases else []))
    if OVERRIDE is None and "randn" in labs:
        yield from edit_loop(run, (EDITS_NET if NET_CASES[0] in cases else []) + (EDITS_SKIP if SKIP_CASES[0] in cases else []))


# networks that are used, edited, and used again: (before, edit of n, the same network built afresh, shape of a sample)
EDITS_NET = [
    ("Sequential(Linear(2, 3), Tanh(), Linear(3, 2))", "n.__setitem__(0, Linear(2, 3, bias=False))", "Sequential(Linear(2, 3, bias=False), Tanh(), Linear(3, 2))", (2,)),
    ("Sequential(Linear(2, 2), Tanh(), Linear(2, 3))", "n.__setitem__(1, Linear(2, 2))", "Sequential(Linear(2, 2), Linear(2, 2), Linear(2, 3))", (2,)),
    ("Sequential(Linear(2, 2), Linear(2, 3))", "n.append(Linear(3, 1))", "Sequential(Linear(2, 2), Linear(2, 3), Linear(3, 1))", (2,)),
    ("Sequential(Linear(2, 2), Tanh(), Linear(2, 2))", "n.__delitem__(0)", "Sequential(Tanh(), Linear(2, 2))", (2,)),
    ("Sequential(Tanh(), Linear(2, 2))", "n.insert(0, Linear(2, 2))", "Sequential(Linear(2, 2), Tanh(), Linear(2, 2))", (2,)),
    ("Sequential(Linear(2, 2), Sequential(Linear(2, 2), Tanh()))", "n[1].__setitem__(1, Linear(2, 2))", "Sequential(Linear(2, 2), Sequential(Linear(2, 2), Linear(2, 2)))", (2,)),
    ("Sequential(Sequential(Tanh(), Linear(2, 2)), Linear(2, 1))", "n[0].append(Sequential(Linear(2, 2)))", "Sequential(Sequential(Tanh(), Linear(2, 2), Sequential(Linear(2, 2))), Linear(2, 1))", (2,)),
    ("Sequential(Linear(2, 2), SkipConnection(Linear(2, 1)))", "n[1]._F.__setitem__(0, Linear(2, 1, bias=False))", "Sequential(Linear(2, 2), SkipConnection(Linear(2, 1, bias=False)))", (2,)),
    ("Sequential(Linear(2, 2), Linear(2, 2))", "(n.__delitem__(1), n.append(Sequential(Linear(2, 3))))", "Sequential(Linear(2, 2), Sequential(Linear(2, 3)))", (2,)),
    ("Sequential(Linear(2, 2), Tanh())", "n.extend([Linear(2, 3), Sigmoid()])", "Sequential(Linear(2, 2), Tanh(), Linear(2, 3), Sigmoid())", (2,)),
]
EDITS_SKIP = [
    ("SkipConnection(Linear(2, 3), Tanh())", "n._F.__setitem__(0, Linear(2, 3, bias=False))", "SkipConnection(Linear(2, 3, bias=False), Tanh())", (2,)),
    ("SkipConnection(Linear(2, 2), Tanh())", "n._F.append(Linear(2, 3))", "SkipConnection(Linear(2, 2), Tanh(), Linear(2, 3))", (2,)),
    ("SkipConnection(Tanh(), Linear(2, 2))", "n._F.__delitem__(1)", "SkipConnection(Tanh())", (2,)),
    ("SkipConnection(Sequential(Linear(2, 2)), Linear(2, 2))", "n._F[0].__setitem__(0, Linear(2, 2, bias=False))", "SkipConnection(Sequential(Linear(2, 2, bias=False)), Linear(2, 2))", (2,)),
]


def edit_loop(run, edits):
    for before, edit, after, sh in edits:
        b = 2
        case = "%s x%s from %s by %s" % (after, (b,) + sh, before, edit)
        if run.skip(case) or run.over():
            continue
        g = run.gen(case + "'")
        n = make(before, g)
        x = rnd(g, b, *sh)
        # use it
        n._n_params
        n.get_weight()
        for wrt in WRT:
            for _, fn in call_table(n, x, g, wrt, run):
                attempt(lambda: fn(n, x, None))
        eval(edit, dict(ENV, n=n))
        n.to(DT)
        fresh = make(after, run.gen(case))
        n.load_state_dict(fresh.state_dict())
        yield case, n, x, g


WRT = ("input", "weight")
BOOL2 = [(a, c) for a in (False, True) for c in (False, True)]


def rmem(g, *shape):
    """random values, in varying memory layouts: contiguous, transposed in memory, every other element of a larger tensor"""
    t = rnd(g, *shape)
    k = int(torch.randint(0, 4, (1,), generator=g))
    if k == 1:
        perm = list(range(t.dim()))[::-1]
        return t.permute(*perm).contiguous().permute(*perm)
    if k == 3:
        big = torch.zeros(*shape[:-1], 2 * shape[-1], dtype=t.dtype)
        big[..., ::2] = t
        return big[..., ::2]
    return t


def metric(g, b, n, fd):
    return rmem(g, b, n) if fd else rmem(g, b, n, n)


def structured_v(g, b, n):
    """vectors with special structure: a branch taken because one sample (or every sample) is special has to be right for the rest too"""
    v = rnd(g, b, n)
    out = []
    if b > 1:
        z = v.clone()
        z[0] = 0
        out.append(("first sample zero", z))
        z = v.clone()
        z[-1] = 0
        out.append(("last sample zero", z))
        z = v.clone()
        z[0] = 1
        out.append(("first sample ones", z))
        out.append(("equal samples", v[:1].repeat(b, 1)))
    out.append(("zero", torch.zeros(b, n, dtype=v.dtype)))
    out.append(("ones", torch.ones(b, n, dtype=v.dtype)))
    if n > 1:
        z = v.clone()
        z[0, : n // 2] = 0
        out.append(("leading zeros in the first sample", z))
        z = v.clone()
        z[:, n // 2:] = 0
        out.append(("trailing zeros", z))
        z = v.clone()
        z[0, n // 2:] = 0
        out.append(("trailing zeros in the first sample", z))
    out.append(("nonnegative", v.abs()))
    out.append(("negative", -v.abs() - 0.1))
    return out


def structured_m(g, b, n):
    """metrics with special structure, in every sample or in one only"""
    A = rnd(g, b, n, n)
    S = A + A.transpose(1, 2)
    I = torch.eye(n, dtype=A.dtype).expand(b, n, n).clone()
    D = torch.diag_embed(rnd(g, b, n))
    Z = torch.zeros_like(A)
    out = [("symmetric", S), ("identity", I), ("diagonal", D), ("zero", Z), ("antisymmetric", A - A.transpose(1, 2)), ("spd", A @ A.transpose(1, 2)),
           ("upper triangular", A.triu()), ("scaled identity", 2.5 * I)]
    if b > 1:
        for lab, t in (("symmetric", S), ("identity", I), ("diagonal", D), ("zero", Z)):
            z = A.clone()
            z[0] = t[0]
            out.append((lab + " in the first sample", z))
            z = A.clone()
            z[-1] = t[-1]
            out.append((lab + " in the last sample", z))
        out.append(("equal samples", A[:1].repeat(b, 1, 1)))
    if n > 1:
        z = A.clone()
        z[:, : n // 2, n // 2:] = 0
        z[:, n // 2:, : n // 2] = 0
        out.append(("block diagonal", z))
        z = A.clone()
        z[0, : n // 2, n // 2:] = 0
        z[0, n // 2:, : n // 2] = 0
        out.append(("block diagonal in the first sample", z))
    return out


def structured_r(g, b, r, c):
    """(batches of) matrices with special rows, columns or samples"""
    A = rnd(g, b, r, c)
    out = [("zero", torch.zeros_like(A))]

    def put(lab, f):
        z = A.clone()
        f(z)
        out.append((lab, z))
    if b > 1:
        put("first sample zero", lambda z: z[0].zero_())
        put("last sample zero", lambda z: z[-1].zero_())
        out.append(("equal samples", A[:1].repeat(b, 1, 1)))
    if r > 1:
        put("first row zero", lambda z: z[:, 0].zero_())
        put("upper rows zero in the first sample", lambda z: z[0, : r // 2].zero_())
        put("lower rows zero", lambda z: z[:, r // 2:].zero_())
    if c > 1:
        put("first column zero", lambda z: z[:, :, 0].zero_())
        put("left columns zero in the first sample", lambda z: z[0, :, : c // 2].zero_())
        put("right columns zero", lambda z: z[:, :, c // 2:].zero_())
    return out + ([("square " + l, t) for l, t in structured_m(g, b, r)] if r == c else [])


def mats(run, g, b, n, right, side, case=""):
    ks = [1, 2, n] if run.tier != "thorough" else [1, 2, 3, n, n + 1]
    if case.endswith("big sizes"):
        ks = [1, n] + ([67, 131] if n * b < 200 else []) + ([1030] if n * b < 20 else [])
    for k in dict.fromkeys(ks):
        yield k, (rmem(g, b, n, k) if right else rmem(g, b, k, n))


# ------------------------------------------------------------------ properties
def prop_C01(run):
    for case, m, x, g in leaf_loop(run):
        r = jac_in(m, x)[0]
        run.call(case, "jacobian(x, None, 'input')", lambda: m.jacobian(x, None, wrt="input"), r, x=x)
        val = m(x)
        run.call(case, "jacobian(x, val, 'input')", lambda: m.jacobian(x, val, wrt="input"), r, x=x)
        if isinstance(m, nnj.AbstractDiagonalJacobian):
            run.call(case, "jacobian(x, None, diag=True)", lambda: m.jacobian(x, None, wrt="input", diag=True),
                     lambda: torch.diagonal(r, dim1=1, dim2=2), x=x)


def all_products(m, x, val, g, wrt, run, lists=True):
    """every product call with its name and thunk; M sized for wrt"""
    b = x.shape[0]
    y = m(x)
    ni, no = x[0].numel(), y[0].numel()
    n_in = ni if wrt == "input" else max(n_par(m), 1)
    v_in, v_out = rmem(g, b, n_in), rmem(g, b, no)
    M_in, M_out = rmem(g, b, n_in, 2), rmem(g, b, 2, no)
    out = [("jacobian", lambda: m.jacobian(x, val, wrt=wrt), {}),
           ("jvp", lambda: m.jvp(x, val, v_in, wrt=wrt), {"v": v_in}),
           ("jmp", lambda: m.jmp(x, val, M_in, wrt=wrt), {"v": M_in}),
           ("vjp", lambda: m.vjp(x, val, v_out, wrt=wrt), {"v": v_out}),
           ("mjp", lambda: m.mjp(x, val, M_out, wrt=wrt), {"v": M_out})]
    for fd, td in BOOL2:
        A = metric(g, b, no, fd)
        B = metric(g, b, n_in, fd)
        out.append(("jTmjp", lambda A=A, fd=fd, td=td: m.jTmjp(x, val, A, wrt=wrt, from_diag=fd, to_diag=td), {"v": A, "from_diag": fd, "to_diag": td}))
        out.append(("jmjTp", lambda B=B, fd=fd, td=td: m.jmjTp(x, val, B, wrt=wrt, from_diag=fd, to_diag=td), {"v": B, "from_diag": fd, "to_diag": td}))
    return out


def prop_C02(run):
    for case, m, x, g in leaf_loop(run, kinds=None):
        if n_par(m):
            r = jac_w(m, x, m.parameters())
            run.call(case, "jacobian(x, None, 'weight')", lambda: m.jacobian(x, None, wrt="weight"), r, x=x)
            val = m(x)
            run.call(case, "jacobian(x, val, 'weight')", lambda: m.jacobian(x, val, wrt="weight"), r, x=x)
            run.check(case, "_n_params", torch.tensor(float(m._n_params)), torch.tensor(float(r.shape[2])))
        elif "randn" in case or "b1" in case:
            for nm, fn, info in all_products(m, x, None, g, "weight", run):
                run.call(case, nm + " wrt weight is None", fn, None, x=x)
            for nm in ("jmp", "mjp", "jTmjp", "jmjTp"):
                run.call(case, nm + "(None) wrt weight is None", lambda: getattr(m, nm)(x, None, None, wrt="weight"), None, x=x)


def _lr(run, loop, methods):
    for case, m, x, g in loop:
        ref = Ref(m, x)
        b = x.shape[0]
        plain = not case.endswith((" large", " noncontig", " zeros", "randn0", "randn1", "randn2", "randn3"))
        for wrt in WRT:
            J = ref.J(wrt)
            if J is None:
                continue
            n_out, n_in = J.shape[1:]
            for val in (None, "v"):
                if val is not None:
                    val = m(x)
                lv = "None" if val is None else "val"
                sp = plain and val is None and n_in <= 40 and n_out <= 40

                def one(nm, lab, arg, want, kw=None):
                    run.call(case, "%s(x, %s, %s, %r%s)" % (nm, lv, lab, wrt, "".join(", %s=%s" % k for k in (kw or {}).items())),
                             lambda: getattr(m, nm)(x, val, arg, wrt=wrt, **(kw or {})), want, unimpl(m, nm, wrt), x=x, v=arg)
                if "jvp" in methods:
                    for lab, v in [("v", rmem(g, b, n_in))] + (structured_v(g, b, n_in) if sp else []):
                        one("jvp", lab, v, lambda: (J @ v.unsqueeze(-1)).squeeze(-1))
                if "jmp" in methods:
                    for lab, M in [("M%s" % (tuple(M.shape),), M) for _, M in mats(run, g, b, n_in, True, wrt, case)] + (structured_r(g, b, n_in, n_in if n_in < 5 else 2) if sp else []):
                        one("jmp", lab, M, lambda: J @ M)
                if "vjp" in methods:
                    for lab, v in [("v", rmem(g, b, n_out))] + (structured_v(g, b, n_out) if sp else []):
                        one("vjp", lab, v, lambda: (v.unsqueeze(1) @ J).squeeze(1))
                if "mjp" in methods:
                    for lab, M in [("M%s" % (tuple(M.shape),), M) for _, M in mats(run, g, b, n_out, False, wrt, case)] + (structured_r(g, b, n_out if n_out < 5 else 2, n_out) if sp else []):
                        one("mjp", lab, M, lambda: M @ J)
                for nm in ("jTmjp", "jmjTp"):
                    if nm in methods:
                        n = n_out if nm == "jTmjp" else n_in
                        for fd, td in BOOL2:
                            for lab, M in [("M", metric(g, b, n, fd))] + ((structured_v if fd else structured_m)(g, b, n) if sp else []):
                                one(nm, lab, M, lambda: getattr(ref, nm)(M, wrt, fd, td), dict(from_diag=fd, to_diag=td))
                if "jacobian" in methods:
                    run.call(case, "jacobian(x, %s, %r)" % (lv, wrt), lambda: m.jacobian(x, val, wrt=wrt), J, unimpl(m, "jacobian", wrt), x=x)


def prop_C03(run):
    _lr(run, leaf_loop(run, kinds=("randn", "b1", "large", "ties", "noncontig") + (() if run.tier == "quick" else ("randn0", "randn1", "randn2", "randn3", "zeros"))), ("jvp", "jmp"))


def prop_C04(run):
    _lr(run, leaf_loop(run, kinds=("randn", "b1", "large", "ties", "noncontig") + (() if run.tier == "quick" else ("randn0", "randn1", "randn2", "randn3", "zeros"))), ("vjp", "mjp"))


def prop_C05(run):
    _lr(run, leaf_loop(run, kinds=("randn", "b1", "ties", "noncontig") + (() if run.tier == "quick" else ("randn0", "randn1", "randn2", "large", "zeros"))), ("jTmjp",))


def prop_C06(run):
    _lr(run, leaf_loop(run, kinds=("randn", "b1", "ties", "noncontig") + (() if run.tier == "quick" else ("randn0", "randn1", "randn2", "large", "zeros"))), ("jmjTp",))


def prop_C07(run):
    def loop():
        for ctor, sh in [("DenseLayer(3, 2)", (3,)), ("DenseLayer(2, 4)", (2,)), ("DenseLayer(3, 3)", (3,)), ("DenseLayer(4, 3, params=False)", (2, 2)), ("DenseLayer(1, 1)", (1,)), ("DenseLayer(1, 3, params=False)", (1,)),
                         ("DiagLayer()", (3,)), ("DiagLayer()", (2, 2)), ("DiagLayer()", (1,))]:
            for b in (1, 2, 3):
                case = "%s x%s" % (ctor, (b,) + sh)
                g = run.gen(case)
                yield case, make(ctor, g), rnd(g, b, *sh), g
    _lr(run, loop(), ("jvp", "jmp", "vjp", "mjp", "jTmjp", "jmjTp", "jacobian"))
    for case, m, x, g in loop():
        if n_par(m) == 0:
            for nm, fn, info in all_products(m, x, None, g, "weight", run):
                run.call(case, nm + " wrt weight is None", fn, None, x=x)
        # batch-dependent-only-per-sample and base classes refuse without a jacobian
    try:
        nnj.AbstractJacobian().jacobian(torch.zeros(1, 1))
        run.fail("abstract", "AbstractJacobian.jacobian returned a value")
    except NotImplementedError:
        run.n += 1


def _container(run, cases):
    _lr(run, net_loop(run, cases), ("jacobian", "jvp", "jmp", "vjp", "mjp", "jTmjp", "jmjTp"))
    for case, m, x, g in net_loop(run, cases, ("randn",)):
        ref = Ref(m, x)
        b = x.shape[0]
        # list-valued metric for jmjTp wrt weight
        if ref.Jw is not None and is_seq(m):
            for fd, td in BOOL2:
                M = metric(g, b, ref.Jw.shape[2], fd)
                L, p = [], 0
                for c in kids(m):
                    n = n_par(c)
                    if n:
                        L.append(M[:, p:p + n] if fd else M[:, p:p + n, p:p + n])
                    p += n
                run.call(case, "jmjTp(x, None, [blocks], 'weight', from_diag=%s, to_diag=%s)" % (fd, td),
                         lambda: m.jmjTp(x, None, list(L), wrt="weight", from_diag=fd, to_diag=td), lambda: ref.jmjTp(M, "weight", fd, td), unimpl(m, "jmjTp", "weight"), x=x, v=M)
        if ref.Jw is None:
            for nm, fn, info in all_products(m, x, None, g, "weight", run):
                if nm in ("jvp", "jmp"):
                    continue  # a zero-width matrix has to be passed
                if nm == "jmjTp":
                    continue
                run.call(case, nm + " wrt weight is None", fn, None, x=x)
            run.call(case, "jvp wrt weight is None", lambda: m.jvp(x, None, torch.zeros(b, 0, dtype=DT), wrt="weight"), None, x=x)
            run.call(case, "jmp wrt weight is None", lambda: m.jmp(x, None, torch.zeros(b, 0, 2, dtype=DT), wrt="weight"), None, x=x)
            run.call(case, "jmjTp wrt weight is None", lambda: m.jmjTp(x, None, torch.zeros(b, 0, 0, dtype=DT), wrt="weight"), None, x=x)
            run.call(case, "jmjTp(None) wrt weight is None", lambda: m.jmjTp(x, None, None, wrt="weight"), None, x=x)


def prop_C08(run):
    _container(run, NET_CASES)


def prop_C09(run):
    _container(run, SKIP_CASES)
    for case, m, x, g in net_loop(run, SKIP_CASES):
        run.call(case, "forward concatenates [x, F(x)] along dim 1", lambda: m(x), lambda: compose(m, x), x=x)


def prop_C10(run):
    for case, m, x, g in itertools.chain(net_loop(run, NET_CASES + SKIP_CASES), leaf_loop(run, kinds=("randn", "b1"))):
        ref = Ref(m, x)
        b = x.shape[0]
        leaf = not (is_seq(m) or is_skip(m))
        for wrt in WRT:
            J = ref.J(wrt)
            if J is None:
                continue
            for val in (None, "v"):
                val = None if val is None else m(x)
                for nm in ("jTmjp", "jmjTp"):
                    n = J.shape[1] if nm == "jTmjp" else J.shape[2]
                    for lab, v in [("v", metric(g, b, n, True))] + (structured_v(g, b, n) if val is None and n <= 40 else []):
                        run.call(case, "%s(x, %s, %s, %r, diag_backprop=True)" % (nm, "None" if val is None else "val", lab, wrt),
                                 lambda: getattr(m, nm)(x, val, v, wrt=wrt, from_diag=True, to_diag=True, diag_backprop=True),
                                 lambda: getattr(ref, nm + "_db")(v, wrt), unimpl(m, nm, wrt), x=x, v=v)


def prop_C11(run):
    for case, m, x, g in itertools.chain(net_loop(run, NET_CASES + SKIP_CASES), leaf_loop(run, kinds=("randn", "b1", "noncontig"))):
        ref = Ref(m, x)
        b = x.shape[0]
        for wrt in WRT:
            J = ref.J(wrt)
            if J is None:
                continue
            for val in (None, "v"):
                val = None if val is None else m(x)
                lv = "None" if val is None else "val"
                for nm in ("jmp", "mjp"):
                    run.call(case, "%s(x, %s, None, %r)" % (nm, lv, wrt), lambda: getattr(m, nm)(x, val, None, wrt=wrt), J, unimpl(m, nm, wrt, True), x=x)
                for nm in ("jTmjp", "jmjTp"):
                    ones = torch.ones(b, J.shape[1] if nm == "jTmjp" else J.shape[2], dtype=DT)
                    for td in (False, True):
                        for fd in (False, True):
                            run.call(case, "%s(x, %s, None, %r, from_diag=%s, to_diag=%s)" % (nm, lv, wrt, fd, td), lambda: getattr(m, nm)(x, val, None, wrt=wrt, from_diag=fd, to_diag=td),
                                     lambda: getattr(ref, nm)(ones, wrt, True, td), unimpl(m, nm, wrt, True), x=x)
                    run.call(case, "%s(x, %s, None, %r, to_diag=True, diag_backprop=True)" % (nm, lv, wrt),
                             lambda: getattr(m, nm)(x, val, None, wrt=wrt, to_diag=True, diag_backprop=True),
                             lambda: getattr(ref, nm + "_db")(ones, wrt), unimpl(m, nm, wrt, True), x=x)


def call_table(m, x, g, wrt, run):
    """(label, fn(m, x, val)) for every method and mode"""
    b = x.shape[0]
    y = m(x)
    ni, no = x[0].numel(), y[0].numel()
    n_in = ni if wrt == "input" else n_par(m)
    out = [("jacobian", lambda mm, xx, v: mm.jacobian(xx, v, wrt=wrt))]
    a = [("jvp", rnd(g, b, n_in)), ("jmp", rnd(g, b, n_in, 2)), ("vjp", rnd(g, b, no)), ("mjp", rnd(g, b, 2, no)), ("jmp", None), ("mjp", None)]
    for nm, arg in a:
        if nm == "jmp" and arg is None and False:
            continue
        out.append((nm + ("(None)" if arg is None else ""), lambda mm, xx, v, nm=nm, arg=arg: getattr(mm, nm)(xx, v, arg, wrt=wrt)))
    for fd, td in BOOL2:
        for nm, n in (("jTmjp", no), ("jmjTp", n_in)):
            arg = metric(g, b, n, fd)
            out.append(("%s(from_diag=%s,to_diag=%s)" % (nm, fd, td), lambda mm, xx, v, nm=nm, arg=arg, fd=fd, td=td: getattr(mm, nm)(xx, v, arg, wrt=wrt, from_diag=fd, to_diag=td)))
    for nm, n in (("jTmjp", no), ("jmjTp", n_in)):
        arg = metric(g, b, n, True)
        out.append((nm + "(diag_backprop)", lambda mm, xx, v, nm=nm, arg=arg: getattr(mm, nm)(xx, v, arg, wrt=wrt, from_diag=True, to_diag=True, diag_backprop=True)))
        out.append((nm + "(None)", lambda mm, xx, v, nm=nm: getattr(mm, nm)(xx, v, None, wrt=wrt)))
    return out


def attempt(fn):
    try:
        return ("ok", fn())
    except NotImplementedError:
        return ("ni", None)
    except Exception as e:
        return ("err", "%s: %s" % (type(e).__name__, str(e)[:200]))


def prop_C12(run):
    for case, m, x, g in itertools.chain(net_loop(run, NET_CASES + SKIP_CASES, ("randn",)), leaf_loop(run, kinds=("randn", "ties", "zeros"))):
        if case.endswith((" ties", " zeros")) and not case.startswith(("MaxPool2d", "ReLU", "Softplus", "L2Norm", "Upsample(scale_factor=2)")):
            continue
        other = rnd(g, x.shape[0] + 1, *x.shape[1:]) * 2
        same = rnd(g, *x.shape)
        low = -rnd(g, *x.shape).abs()
        w0 = m.get_weight() if n_par(m) else None

        def overwritten(fn):
            xx = same.clone()
            attempt(lambda: m(xx))
            attempt(lambda: fn(m, xx, None))
            xx.copy_(x)
            return fn(m, xx, None)

        def reweighted(fn, how):
            """evaluate with other weights, then restore the weights in place, by assignment or by replacing the parameter"""
            def put(w):
                if how == "set_weight":
                    return m.set_weight(w.clone())
                q = 0
                for mod in m.modules():
                    for nm, p in list(mod._parameters.items()):
                        if p is None:
                            continue
                        new = w[q:q + p.numel()].reshape(p.shape)
                        q += p.numel()
                        if how == "data.copy_":
                            p.data.copy_(new)
                        elif how == "copy_":
                            with torch.no_grad():
                                p.copy_(new)
                        elif how == ".data =":
                            p.data = new.clone()
                        else:
                            mod._parameters[nm] = nn.Parameter(new.clone())
            fn(m, x, None)
            put(w0 * 2 + 0.1)
            r = [t.clone() for t in flat(fn(m, x, None))]  # a result may be a view of the parameters
            put(w0)
            return r + flat(fn(m, x, None))

        def freed(fn):
            """the input lies where an earlier input of the same shape was freed"""
            for k in range(3):
                attempt(lambda: fn(m, same.clone(), None))
            return fn(m, x.clone(), None)
        for wrt in WRT:
            if wrt == "weight" and n_par(m) == 0:
                continue
            tab = call_table(m, x, g, wrt, run)
            tab_o = call_table(m, other, g, wrt, run)
            for k, (lab, fn) in enumerate(tab):
                fresh = copy.deepcopy(make(case.split(" x(")[0], run.gen(case)))
                st, want = attempt(lambda: fn(fresh, x, None))
                if st != "ok":
                    if st == "err" and lab != "none":
                        run.n += 1
                        run.fail(case, "%s wrt %s on a fresh object: %s" % (lab, wrt, want), x=x)
                    continue
                for st_lab, hist in (("after forward on another input", lambda: m(other)),
                                     ("after products on another input", lambda: [attempt(lambda f=f: f(m, other, None)) for _, f in (tab_o[k], tab_o[(k + 5) % len(tab_o)])]),
                                     ("after another input of the same shape", lambda: (m(same), attempt(lambda: fn(m, same, None)))),
                                     ("after a negative input", lambda: m(low)),
                                     ("repeated", lambda: None)):
                    hist()
                    run.call(case, "%s wrt %s, val=None, %s" % (lab, wrt, st_lab), lambda: fn(m, x, None), want, x=x, tol=1e-9)
                run.call(case, "%s wrt %s, val=None, the input tensor having been overwritten in place" % (lab, wrt), lambda: overwritten(fn), want, x=x, tol=1e-9)
                run.call(case, "%s wrt %s, val=None, earlier inputs having been freed" % (lab, wrt), lambda: freed(fn), want, x=x, tol=1e-9)
                if w0 is not None:
                    fresh = make(case.split(" x(")[0], run.gen(case))
                    fresh.set_weight(w0 * 2 + 0.1)
                    st, want1 = attempt(lambda: fn(fresh, x, None))
                    if st != "ok":
                        continue
                    for how in ("set_weight", "data.copy_", "copy_", ".data =", "new Parameter"):
                        run.call(case, "%s wrt %s, val=None, after the weights were changed by %s" % (lab, wrt, how), lambda: reweighted(fn, how), lambda: flat([want1, want]), x=x, tol=1e-9)
                m(other)
                val = m(x)
                run.call(case, "%s wrt %s, val from the preceding forward" % (lab, wrt), lambda: fn(m, x, val), want, x=x, tol=1e-9)
        # forward itself has no history
        fresh = make(case.split(" x(")[0], run.gen(case))
        run.call(case, "forward is history independent", lambda: (m(other), m(x))[1], lambda: fresh(x), x=x, tol=1e-12)
        if run.over():
            return


def prop_C13(run):
    def snap(ts):
        return [t.detach().clone() for t in ts]

    for case, m, x, g in itertools.chain(net_loop(run, NET_CASES + SKIP_CASES, ("randn",)), leaf_loop(run, kinds=("randn", "noncontig"))):
        b = x.shape[0]
        params = list(m.parameters())
        y = m(x)
        for wrt in WRT:
            if wrt == "weight" and n_par(m) == 0:
                continue
            no = y[0].numel()
            n_in = x[0].numel() if wrt == "input" else n_par(m)
            calls = [("forward", None, {}), ("jacobian", None, {}), ("jvp", rnd(g, b, n_in), {}), ("jmp", rnd(g, b, n_in, 2), {}), ("vjp", rnd(g, b, no), {}), ("mjp", rnd(g, b, 2, no), {})]
            for fd, td in BOOL2:
                for nm, n in (("jTmjp", no), ("jmjTp", n_in)):
                    calls.append((nm, metric(g, b, n, fd), dict(from_diag=fd, to_diag=td)))
                if wrt == "weight" and is_seq(m):
                    L = []
                    for c in kids(m):
                        k = n_par(c)
                        if k:
                            L.append(metric(g, b, k, fd))
                    calls.append(("jmjTp", L, dict(from_diag=fd, to_diag=td)))
            for nm, n in (("jTmjp", no), ("jmjTp", n_in)):
                calls.append((nm, metric(g, b, n, True), dict(from_diag=True, to_diag=True, diag_backprop=True)))
            for nm, arg, kw in calls:
                for given in (False, True):
                    if nm == "forward" and given:
                        continue
                    val = m(x) if given else None
                    args = [t for t in [x, val] + (list(arg) if isinstance(arg, list) else [arg]) if t is not None]
                    ln = len(arg) if isinstance(arg, list) else None
                    before, pb = snap(args), snap(params)
                    if nm == "forward":
                        st, res = attempt(lambda: m(x))
                    elif nm == "jacobian":
                        st, res = attempt(lambda: m.jacobian(x, val, wrt=wrt))
                    else:
                        st, res = attempt(lambda: getattr(m, nm)(x, val, arg, wrt=wrt, **kw))
                    if st != "ok":
                        continue
                    what = "%s wrt %s %s val=%s" % (nm, wrt, kw, "given" if given else "None")
                    run.check(case, what + " leaves its arguments alone", args, before, tol=0, x=x)
                    run.check(case, what + " leaves the parameters alone", [p.detach() for p in params], pb, tol=0, x=x)
                    if ln is not None and len(arg) != ln:
                        run.fail(case, what + " changed the length of the list of blocks")
        pb = snap(params)
        m.get_weight() if params else None
        run.check(case, "get_weight leaves the parameters alone", [p.detach() for p in params], pb, tol=0)
        if run.over():
            return
    # likelihoods
    for lik in ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli"):
        for agg in ("return all", "sum", "average"):
            case = lik + " " + agg
            g = run.gen(case)
            m = make("Sequential(Linear(3, 4), Tanh(), Linear(4, 2))", g)
            x = rnd(g, 2, 3)
            t = torch.softmax(rnd(g, 2, 2), -1)
            L = getattr(nnj, lik)(aggregate_batch=agg)
            before, pb = snap([x, t]), snap(list(m.parameters()))
            for nm in ("forward", "gradient", "ggn"):
                attempt(lambda: getattr(L, nm)(x, m, t))
            run.check(case, "likelihood calls leave input, target and parameters alone", [x, t] + [p.detach() for p in m.parameters()], before + pb, tol=0)


def prop_C14(run):
    for (dt, default) in ((torch.float64, torch.float32), (torch.float32, torch.float64), (torch.float32, torch.float32)):
        tol = 1e-9 if dt == torch.float64 else 2e-3
        for case0, m, x, g in itertools.chain(net_loop(run, NET_CASES + SKIP_CASES, ("randn",)), leaf_loop(run, kinds=("randn", "b1"))):
            case = "%s dtype=%s default=%s" % (case0, dt, default)
            if run.skip(case):
                continue
            b = x.shape[0]
            ref = Ref(m, x.to(dt).to(torch.float64)) if dt == torch.float64 else None
            ctor = case0.split(" x(")[0]
            try:
                torch.set_default_dtype(default)
                md = make(ctor, run.gen(case0), dt=dt)
                md.load_state_dict(m.state_dict())
                xd = x.to(dt)
                run.n += 1
                yy = md(xd)
                if yy.dtype != dt:
                    run.fail(case, "forward returns %s" % yy.dtype, x=x)
                    continue
                for wrt in WRT:
                    if wrt == "weight" and n_par(m) == 0:
                        continue
                    tab = call_table(m, x, run.gen(case0 + wrt), wrt, run)
                    n_in = x[0].numel() if wrt == "input" else n_par(m)
                    for lab, fn in tab:
                        # the reference values are computed with nothing that is narrower than double
                        torch.set_default_dtype(torch.float64)
                        st, want = attempt(lambda: fn(m, x, None))
                        torch.set_default_dtype(default)
                        if st != "ok":
                            continue
                        # same call, arguments narrowed to dt
                        st2, got = attempt(lambda: recast(fn, dt)(md, xd, None))
                        if st2 != "ok":
                            run.n += 1
                            run.fail(case, "%s wrt %s: %s" % (lab, wrt, got or "NotImplementedError"), x=x)
                            continue
                        bad = [str(t.dtype) for t in flat(got) if t.dtype != dt]
                        if bad:
                            run.n += 1
                            run.fail(case, "%s wrt %s returns dtype %s" % (lab, wrt, bad[0]), x=x)
                            continue
                        if dt == torch.float64:
                            run.check(case, "%s wrt %s value" % (lab, wrt), got, want, tol=tol, x=x)
                        else:
                            run.check(case, "%s wrt %s value" % (lab, wrt), [t.double() for t in flat(got)], flat(want), tol=5e-2, x=x)
            finally:
                torch.set_default_dtype(torch.float32)
            if run.over():
                return


def flat(r):
    if r is None:
        return []
    if isinstance(r, (list, tuple)):
        return [t for s in r for t in flat(s)]
    return [r]


def recast(fn, dt):
    cells = fn.__defaults__ or ()
    import types
    new = tuple(c.to(dt) if torch.is_tensor(c) else c for c in cells)
    return types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, new, fn.__closure__)


LIK_MODELS = [("Sequential(Linear(3, 4), Tanh(), Linear(4, 2))", (3,)), ("Sequential(Linear(2, 6), Reshape(3, 2))", (2,)), ("Linear(3, 1)", (3,)), ("Linear(2, 3)", (2,)),
              ("Sequential(Conv2d(1, 2, 2), Tanh())", (1, 3, 3)), ("Sequential(Linear(2, 12), Reshape(2, 2, 3))", (2,)),
              ("SkipConnection(Linear(3, 2), Tanh())", (3,)), ("Sequential(Linear(2, 3), Sequential(Tanh(), Linear(3, 2)))", (2,)),
              ("Sequential(Linear(2, 4), Reshape(4, 1), Tanh())", (2,)), ("Sequential(Sequential(Linear(2, 3)), Tanh(), Linear(3, 2))", (2,)),
              ("Sequential(Sequential(Linear(2, 2), Tanh(), Linear(2, 2), Sequential(Linear(2, 1))), Sequential(Linear(1, 2)))", (2,)), ("Sequential(Tanh(), Sequential(Linear(3, 3), Linear(3, 2), Linear(2, 2)), Linear(2, 2))", (3,)),
              ("Sequential(Linear(1, 67))", (1,)), ("Sequential(Linear(1, 66), Reshape(2, 33))", (1,)), ("Linear(1, 131)", (1,))]


def loglik(lik, val, t):
    b = val.shape[0]
    if lik == "LogGaussian":
        return -0.5 * ((val - t) ** 2).reshape(b, -1).sum(1)
    if lik == "LogBinaryBernoulli":
        p = torch.nn.functional.logsigmoid(val)
        q = torch.nn.functional.logsigmoid(-val)
        return (t * p + (1 - t) * q).reshape(b, -1).sum(1)
    return (t * torch.log_softmax(val, -1)).reshape(b, -1).sum(1)


def agg_of(agg, r):
    if isinstance(r, list):
        return [agg_of(agg, s) for s in r]
    if agg == "return all":
        return r
    return r.sum(0) if agg == "sum" else r.mean(0)


def lik_loop(run):
    for (ctor, sh) in LIK_MODELS:
        for lik in ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli"):
            for b, scale in ((1, 1.0), (3, 1.0), (2, 1500.0), (2, "hit")) + (((17, 1.0), (33, 1.0), (131, 1.0)) if ctor in (LIK_MODELS[0][0], LIK_MODELS[2][0]) else ()) + (((2, 1.0), (4, 1.0), (3, 60.0)) if run.tier == "thorough" else ()):
                hit = scale == "hit"
                case = "%s %s b=%d" % (lik, ctor, b) + (" target met" if hit else "" if scale == 1.0 else " outputs*%g" % scale)
                scale = 1.0 if hit else scale
                if run.skip(case):
                    continue
                g = run.gen(case)
                m = make(ctor, g, scale=scale)
                x = rnd(g, b, *sh)
                y = m(x).detach()
                if lik == "LogGaussian":
                    t = rnd(g, *y.shape)
                elif lik == "LogBinaryBernoulli":
                    t = torch.rand(y.shape, generator=g, dtype=torch.float64)
                    if b == 3:
                        t = (t > 0.5).to(DT)
                else:
                    t = torch.softmax(rnd(g, *y.shape), -1)
                    if b == 3:
                        t = (t == t.max(-1, keepdim=True)[0]).to(DT)
                if hit:
                    # predictions that meet their target, in some entries or in a whole sample
                    p = y if lik == "LogGaussian" else torch.sigmoid(y) if lik == "LogBinaryBernoulli" else torch.softmax(y, -1)
                    t[0] = p[0]
                    if lik == "LogGaussian":
                        t.reshape(b, -1)[1, 0] = p.reshape(b, -1)[1, 0]
                yield case, lik, m, x, y, t, g


def prop_C15(run):
    for case, lik, m, x, y, t, g in lik_loop(run):
        b = x.shape[0]
        want = loglik(lik, y, t)
        with torch.enable_grad():
            yy = y.clone().requires_grad_(True)
            (dv,) = torch.autograd.grad(loglik(lik, yy, t).sum(), yy)
        dv = dv.reshape(b, 1, -1)
        ref = Ref(m, x)
        for agg in (None, "return all", "sum", "average"):
            L = getattr(nnj, lik)() if agg is None else getattr(nnj, lik)(aggregate_batch=agg)
            a = agg or "return all"
            run.call(case, "forward, aggregate=%s" % agg, lambda: L(x, m, t), lambda: agg_of(a, want), x=x, v=t)
            for wrt in WRT:
                J = ref.J(wrt)
                if J is None:
                    continue
                gr = (dv @ J).squeeze(1)
                run.call(case, "gradient wrt %s, aggregate=%s" % (wrt, agg), lambda: L.gradient(x, m, t, wrt=wrt), lambda: agg_of(a, gr), unimpl(m, "vjp", wrt), x=x, v=t)
            run.call(case, "gradient default wrt is weight", lambda: L.gradient(x, m, t), lambda: agg_of(a, (dv @ ref.Jw).squeeze(1)), x=x, v=t)


def prop_C16(run):
    for case, lik, m, x, y, t, g in lik_loop(run):
        b = x.shape[0]
        no = y[0].numel()
        H = torch.zeros(b, no, no, dtype=DT)
        for n in range(b):
            H[n] = torch.autograd.functional.hessian(lambda z: loglik(lik, z.reshape(1, *y.shape[1:]), t[n:n + 1]).sum(), y[n].reshape(-1))
        ref = Ref(m, x)
        for agg in (None, "return all", "sum", "average"):
            a = agg or "return all"
            for shp in ("diag", "full"):
                kw = {} if agg is None else {"aggregate_batch": agg}
                L = getattr(nnj, lik)(metric_shape=shp, **kw)
                for wrt in WRT:
                    want = ref.jTmjp(H, wrt, False, shp == "diag")
                    run.call(case, "ggn wrt %s shape=%s aggregate=%s" % (wrt, shp, agg), lambda: L.ggn(x, m, t, wrt=wrt), lambda: agg_of(a, want), unimpl(m, "jTmjp", wrt), x=x)
                    run.call(case, "ggn without target", lambda: L.ggn(x, m, wrt=wrt), lambda: agg_of(a, want), unimpl(m, "jTmjp", wrt), x=x)
            if lik != "LogBernoulli":
                L = getattr(nnj, lik)(metric_shape="diag", metric_backprop="approx", **({} if agg is None else {"aggregate_batch": agg}))
                for wrt in WRT:
                    h = torch.diagonal(H, dim1=1, dim2=2)
                    run.call(case, "ggn approx wrt %s aggregate=%s" % (wrt, agg), lambda: L.ggn(x, m, t, wrt=wrt), lambda: agg_of(a, ref.jTmjp_db(h, wrt)), unimpl(m, "jTmjp", wrt), x=x)


def prop_C17(run):
    for case, m, x, g in itertools.chain(net_loop(run, NET_CASES + SKIP_CASES, ("randn",)), leaf_loop(run, kinds=("randn",))):
        ps = list(m.parameters())
        P = n_par(m)
        run.check(case, "_n_params counts the parameters", torch.tensor(float(m._n_params)), torch.tensor(float(P)))
        if not ps:
            continue
        before = [p.detach().clone() for p in ps]
        run.call(case, "get_weight order", lambda: m.get_weight(), torch.cat([p.reshape(-1) for p in before]), tol=0)
        w0 = m.get_weight().clone()
        run.call(case, "set_weight(get_weight()) changes nothing", lambda: (m.set_weight(m.get_weight()), [p.detach() for p in m.parameters()])[1], before, tol=0)
        w = rnd(g, P)
        wkeep = w.clone()
        run.call(case, "set_weight then get_weight", lambda: (m.set_weight(w), m.get_weight())[1], wkeep, tol=0)
        ref = []
        q = 0
        for p in before:
            ref.append(wkeep[q:q + p.numel()].reshape(p.shape))
            q += p.numel()
        run.check(case, "parameters after set_weight", [p.detach() for p in m.parameters()], ref, tol=0)
        m2 = make(case.split(" x(")[0], run.gen(case))
        with torch.no_grad():
            for p, r in zip(m2.parameters(), ref):
                p.copy_(r)
        run.call(case, "forward uses the new weights", lambda: m(x), lambda: compose(m2, x), x=x)
        # column order of the weight Jacobian: directional derivative along a single coordinate
        J = attempt(lambda: m.jacobian(x, None, wrt="weight"))
        if J[0] == "ok":
            k = P // 2
            run.check(case, "jacobian columns follow get_weight", J[1], jac_w(lambda z: compose(m, z), x, m.parameters()))
        run.call(case, "set_weight writes through to the same Parameter objects", lambda: [float(a is b_) for a, b_ in zip(ps, m.parameters())] and torch.tensor([float(a is b_) for a, b_ in zip(ps, m.parameters())]), torch.ones(len(ps)))


CONV_CASES = [
    ("nn.Sequential(nn.Linear(3, 4), nn.Tanh(), nn.Linear(4, 2))", (3,)),
    ("nn.Sequential(nn.Linear(3, 4, bias=False), nn.ReLU(), nn.Linear(4, 2))", (3,)),
    ("nn.Sequential(nn.Conv2d(1, 2, 2), nn.Sigmoid(), nn.MaxPool2d(2), nn.Flatten(), nn.Linear(8, 3))", (1, 5, 5)),
    ("nn.Sequential(nn.Conv2d(1, 2, (2, 3), padding=(1, 2), bias=False), nn.MaxPool2d(3, stride=2, padding=1), nn.Flatten())", (1, 4, 5)),
    ("nn.Sequential(nn.Conv2d(2, 2, 2, dilation=2), nn.Tanh())", (2, 5, 4)),
    ("nn.Sequential(nn.Conv2d(2, 4, 2, groups=2), nn.Tanh())", (2, 3, 4)),
    ("nn.Sequential(nn.MaxPool2d((2, 3), stride=(1, 2)), nn.ReLU())", (2, 4, 7)),
    ("nn.Sequential(nn.MaxPool2d(2, ceil_mode=True))", (2, 5, 3)),
    ("nn.Sequential(nn.MaxPool2d(2, stride=1, dilation=2))", (2, 5, 4)),
    ("nn.Sequential(nn.Upsample(scale_factor=3), nn.Conv2d(1, 1, 3, padding=1))", (1, 2, 3)),
    ("nn.Sequential(nn.Upsample(scale_factor=2, mode='nearest-exact'))", (1, 2, 3)),
    ("nn.Sequential(nn.Softplus(beta=2.0, threshold=1.0), nn.Linear(3, 2), nn.Softplus())", (3,)),
    ("nn.Sequential(nn.Linear(3, 4), nn.Sequential(nn.Tanh(), nn.Linear(4, 3), nn.Sequential(nn.Softplus(beta=3.0))), nn.Linear(3, 1))", (3,)),
    ("nn.Sequential(nn.Sequential(nn.Sequential(nn.Linear(2, 2))))", (2,)),
    ("nn.Sequential(nn.Linear(4, 4), nn.Linear(4, 4), nn.Linear(4, 4, bias=False))", (4,)),
    ("nn.Sequential(nn.Conv2d(1, 1, 3, padding=1), nn.Conv2d(1, 1, 3, padding=1))", (1, 3, 3)),
    ("nn.Sequential(nn.Softplus(threshold=0.5), nn.Softplus(beta=0.7))", (3,)),
    ("nn.Sequential(nn.Softplus(2.5, 3.0))", (3,)),
    ("nn.Sequential(nn.MaxPool2d(2, 1), nn.MaxPool2d(3, 2))", (1, 6, 6)),
] + [("nn.Sequential(*[nn.Linear(2, 2) if k %% 3 else nn.Tanh() for k in range(%d)])" % n, (2,)) for n in (17, 33, 34, 65, 70)] + [
    ("nn.Sequential(nn.Linear(2, 2), *[nn.Sequential(nn.Tanh(), nn.Linear(2, 2)) for k in range(33)])", (2,)), ("nn.Sequential(nn.Linear(70, 67), nn.ReLU(), nn.Linear(67, 2))", (70,)),
    ("nn.Sequential(nn.Conv2d(17, 18, 1), nn.Flatten())", (17, 1, 2)), ("nn.Sequential(nn.Sequential(nn.Sequential(nn.Sequential(nn.Sequential(nn.Tanh(), nn.Linear(2, 1))))))", (2,)),
]
CONV_REFUSE = [
    ("nn.Sequential(nn.Conv2d(1, 1, 2, stride=2))", (1, 4, 4)), ("nn.Sequential(nn.Conv2d(1, 1, 3, padding=1, padding_mode='circular'))", (1, 4, 4)),
    ("nn.Sequential(nn.Conv2d(1, 1, 3, padding=1, padding_mode='reflect'))", (1, 4, 4)), ("nn.Sequential(nn.Upsample(scale_factor=2, mode='bilinear'))", (1, 2, 3)),
    ("nn.Sequential(nn.Flatten(start_dim=2))", (2, 2, 3)), ("nn.Sequential(nn.Flatten(0))", (2, 2, 3)), ("nn.Sequential(nn.LeakyReLU())", (3,)), ("nn.Sequential(nn.GELU())", (3,)),
    ("nn.Sequential(nn.Conv2d(1, 1, 3, padding='same'))", (1, 3, 4)), ("nn.Sequential(nn.Upsample(size=(4, 6)))", (1, 2, 3)), ("nn.Sequential(nn.AvgPool2d(2))", (1, 4, 4)),
    ("nn.Sequential(nn.Upsample(scale_factor=1.5))", (1, 4, 2)), ("nn.Sequential(nn.Upsample(scale_factor=(2, 3)))", (1, 4, 2)),
    ("nn.Sequential(nn.ConvTranspose2d(1, 1, 2))", (1, 3, 3)), ("nn.Sequential(nn.Dropout(0.5))", (8,)), ("nn.Sequential(nn.BatchNorm1d(3))", (3,)),
    ("nn.Sequential(nn.MaxPool1d(2))", (1, 4)), ("nn.Sequential(nn.MaxPool2d(2, return_indices=True))", (1, 4, 4)),
]


def prop_C18(run):
    for ctor, sh in CONV_CASES + CONV_REFUSE:
        refuse = (ctor, sh) in CONV_REFUSE
        for dt in (torch.float32, torch.float64):
            case = "%s %s" % (ctor, dt)
            if run.skip(case):
                continue
            g = run.gen(case)
            net = eval(ctor).to(dt)
            with torch.no_grad():
                for p in net.parameters():
                    p.copy_(rnd(g, *p.shape, dt=dt))
            run.n += 1
            run.cases.add(case)
            try:
                m = nnj.convert_to_nnj(net)
            except Exception as e:
                if not refuse:
                    run.fail(case, "convert_to_nnj raised %s: %s" % (type(e).__name__, e))
                else:
                    run.refused += 1
                continue
            tol = 1e-9 if dt == torch.float64 else 1e-4
            for k, x in enumerate([rnd(g, 2, *sh, dt=dt), 3 * rnd(g, 1, *sh, dt=dt), torch.zeros(1, *sh, dtype=dt)]):
                st, want = attempt(lambda: net(x))
                st2, got = attempt(lambda: m(x))
                if st2 == "ok":
                    run.check(case, "same output on input %d" % k, got, want, tol=tol, x=x)
                elif not refuse:
                    run.fail(case, "converted network raised: %s" % got, x=x)
            run.check(case, "same parameters in the same order", [p.detach() for p in m.parameters()], [p.detach() for p in net.parameters()], tol=0)
            run.check(case, "original parameters of the same type", torch.tensor([float(p.dtype == dt) for p in m.parameters()]), torch.ones(len(list(net.parameters()))), tol=0)
            if not refuse:
                if not isinstance(m, nnj.Sequential):
                    run.fail(case, "the result is not an nnj.Sequential")
                # and it differentiates: the result is a working nnj model
                x = rnd(g, 1, *sh, dt=dt)
                if dt == torch.float64 and not ("groups" in ctor or "dilation=2), nn.Tanh" in ctor):
                    run.call(case, "vjp of the converted network", lambda: m.vjp(x, None, torch.ones(1, m(x)[0].numel(), dtype=dt), wrt="input"),
                             lambda: jac_in(net, x)[0].sum(1), x=x)


def prop_C19(run):
    g = run.gen("C19")

    def spd(*s):
        a = rnd(g, *s, s[-1])
        return a @ a.transpose(-1, -2) + 0.3 * torch.eye(s[-1], dtype=DT)
    for n in (1, 2, 3, 5, 17, 33, 67, 130):
        for b in ((), (1,), (3,), (2, 2), (40,)) if n < 60 else ((), (2,)):
            M = spd(*b, n)
            run.call("spd%s" % (tuple(M.shape),), "inverse", lambda: nnj.invert_block_diagonal(M), lambda: torch.linalg.inv(M), tol=1e-6, v=M)

    def inv(t):
        return [inv(s) for s in t] if isinstance(t, list) else torch.linalg.inv(t)
    for k, t in enumerate([[spd(2, 3)], [spd(3), spd(2)], [spd(2, 2), [spd(2, 3), spd(2, 1)], [[spd(2, 2)]]], [], [[], [spd(1, 4)]], [[[spd(2)], spd(3)], spd(1)],
                           [spd(2), spd(3), spd(2)], [spd(2, 2), spd(2, 2), spd(2, 1), spd(2, 2), spd(2, 1)], [spd(3)] * 2, [spd(k % 4 + 1) for k in range(40)],
                           [[spd(2, 3), spd(2, 1)], spd(2, 3), [spd(2, 3), spd(2, 1)]], [spd(1), [spd(1), [spd(1), [spd(1), [spd(2)], spd(2)], []], spd(2)]],
                           [spd(1, 3), spd(2, 3), spd(3)], [spd(2, 2, 2), spd(2, 2, 2)], [torch.diag_embed(torch.rand(3, 4, generator=g, dtype=DT) + 0.1), spd(3, 4)],
                           [1e6 * spd(3), 1e-6 * spd(3), spd(3)], [[]], [[[]], [[], []]]]):
        run.call("nested%d" % k, "inverse of a nested list", lambda: nnj.invert_block_diagonal(t), lambda: inv(t), tol=1e-6)
    for n in (1, 2, 3):
        for b in (1, 2, 3):
            for lab, M in structured_m(g, b, n):
                if lab.startswith(("zero", "antisymmetric")) or lab == "upper triangular":
                    continue
                Q = M @ M.transpose(1, 2) + (0 if lab.startswith(("identity", "diagonal", "scaled")) else 0.2 * torch.eye(n, dtype=DT)) + (1e-2 * torch.eye(n, dtype=DT) if lab == "diagonal" else 0)
                run.call("structured %dx%d" % (b, n), "inverse of a batch with " + lab, lambda: nnj.invert_block_diagonal(Q), lambda: torch.linalg.inv(Q), tol=1e-6, v=Q)
            for where in (0, b - 1):
                for lab, f in (("identity", lambda: torch.eye(n, dtype=DT)), ("diagonal", lambda: torch.diag(torch.rand(n, generator=g, dtype=DT) + 0.2)), ("large", lambda: 1e6 * spd(n)), ("small", lambda: 1e-6 * spd(n))):
                    Q = spd(b, n)
                    Q[where] = f()
                    run.call("structured %dx%d" % (b, n), "inverse of a batch, sample %d being %s" % (where, lab), lambda: nnj.invert_block_diagonal(Q), lambda: torch.linalg.inv(Q), tol=1e-6, v=Q)
    # the result of jTmjp
    m = make("Sequential(Linear(2, 2), Tanh(), Sequential(Linear(2, 1)))", g)
    x = rnd(g, 3, 2)
    H = m.jTmjp(x, None, None, wrt="weight")

    def reg(t):
        return [reg(s) for s in t] if isinstance(t, list) else t + torch.eye(t.shape[-1], dtype=DT)
    R = reg(H)
    run.call("ggn blocks", "inverse of regularised ggn blocks", lambda: nnj.invert_block_diagonal(R), lambda: inv(R), tol=1e-6)


C20_CASES = []
for kw in ["stride=2", "stride=(1, 2)", "dilation=2", "dilation=(1, 2)", "groups=2", "groups=2, dilation=2", "padding=2", "padding=(2, 1)", "padding=3", "padding=(0, 3)", "padding='same'", "padding='valid'",
           "padding=1, padding_mode='reflect'", "padding=1, padding_mode='replicate'", "padding=1, padding_mode='circular'", "padding=(1, 0), padding_mode='circular'", "padding=0, padding_mode='circular'", "stride=2, padding=1", "dilation=2, padding=1", "groups=2, padding=1",
           "stride=(2, 1), dilation=2", "dilation=(2, 1), padding=2"]:
    for bias in ("", ", bias=False"):
        for vm in ("", ", use_vmap_for_backprop=False"):
            C20_CASES.append(("Conv2d(2, 2, 2, %s%s%s)" % (kw, bias, vm), (2, 4, 4)))
    C20_CASES.append(("Conv2d(2, 4, (2, 3), %s)" % kw, (2, 5, 4)))
for kw in ["stride=(1, 2)", "stride=(2, 1)", "stride=2", "stride=(1, 3)", "stride=2, padding=1", "dilation=(1, 2)", "dilation=(2, 1)", "dilation=2", "padding=1, padding_mode='circular'", "padding=(0, 1), padding_mode='reflect'"]:
    for k in ("1", "(1, 2)", "(2, 1)", "2", "(1, 3)"):
        for bias in ("", ", bias=False, use_vmap_for_backprop=False"):
            for sh in [(1, 2, 2), (1, 3, 4), (1, 2, 4), (1, 1, 2)]:
                C20_CASES.append(("Conv2d(1, 1, %s, %s%s)" % (k, kw, bias), sh))
for kw in ["scale_factor=2", "scale_factor=2, mode='bilinear'", "scale_factor=2, mode='bicubic'", "scale_factor=2, mode='nearest-exact'", "scale_factor=2.5", "scale_factor=1.5", "scale_factor=0.5", "scale_factor=(2, 3)", "scale_factor=(2.0, 1.0)", "scale_factor=(1.5, 2.0)",
           "size=(4, 6)", "size=4", "scale_factor=2.0, recompute_scale_factor=True", "scale_factor=1.4, mode='nearest-exact'", "scale_factor=2, mode='bilinear', align_corners=True", "scale_factor=3.0"]:
    for sh in [(1, 2, 3), (2, 3, 2), (1, 4, 4)]:
        C20_CASES.append(("Upsample(%s)" % kw, sh))
for kw in ["size=(5, 4)", "size=5", "size=(3, 5)", "size=(2, 2)", "size=(1, 4)", "size=(6, 4)", "size=(4, 4), mode='nearest-exact'", "size=(5, 3), mode='bilinear'", "scale_factor=(3, 2)", "scale_factor=(3.0, 2.0)", "scale_factor=(1, 2)",
           "scale_factor=(2, 2)", "scale_factor=(2.0, 2.5)", "scale_factor=(0.5, 2)", "scale_factor=1.9", "scale_factor=2.1", "scale_factor=1.5, recompute_scale_factor=True", "scale_factor=2.5, mode='nearest-exact'", "scale_factor=(2, 3), mode='nearest-exact'",
           "size=(2, 4), mode='bicubic'", "size=(4, 4), mode='area'", "scale_factor=2, mode='area'", "scale_factor=1.5, mode='area'", "scale_factor=0.5, mode='nearest-exact'"]:
    for sh in [(1, 2, 2), (2, 2, 2), (1, 1, 2), (2, 2, 1), (2, 1, 1), (1, 2, 4), (3, 4, 2)]:
        C20_CASES.append(("Upsample(%s)" % kw, sh))
for ct, sh in [("3, 3, 2, groups=3", (3, 3, 2)), ("3, 6, (1, 2), groups=3, bias=False", (3, 2, 3)), ("4, 2, 2, groups=2, padding=1", (4, 2, 2)), ("4, 4, 1, groups=4", (4, 2, 2)), ("2, 2, 1, groups=2", (2, 2, 3)),
               ("1, 2, 3, padding='same'", (1, 3, 4)), ("1, 1, (2, 3), padding='same'", (1, 3, 3)), ("2, 1, 2, padding='same', dilation=2", (2, 3, 3)), ("1, 1, (3, 1), padding=(1, 1)", (1, 2, 2)), ("1, 2, (1, 2), padding=(0, 2)", (1, 2, 3)),
               ("1, 1, (2, 1), padding=(1, 1), bias=False", (1, 2, 2)), ("2, 1, 1, padding=1", (2, 2, 2)), ("1, 1, 2, padding=(2, 0)", (1, 2, 3)), ("1, 1, 2, padding=1, padding_mode='reflect', stride=2", (1, 3, 3)),
               ("1, 2, 3, padding=1, padding_mode='circular'", (1, 3, 4)), ("1, 1, 3, padding=(1, 2), padding_mode='replicate'", (1, 3, 3)), ("1, 1, 2, padding=0, padding_mode='reflect'", (1, 3, 3)), ("1, 2, 2, padding='valid', padding_mode='circular'", (1, 3, 3)),
               ("1, 1, 2, padding='same', padding_mode='circular'", (1, 3, 3)), ("2, 2, (3, 2), stride=(2, 1), padding=(1, 0)", (2, 4, 3)), ("1, 1, 2, stride=2", (1, 3, 3)), ("1, 1, 2, stride=2", (1, 2, 2)), ("1, 1, 2, stride=3", (1, 5, 5)),
               ("1, 2, 1, stride=2", (1, 3, 4)), ("1, 1, 1, dilation=2", (1, 2, 3)), ("2, 2, 1, dilation=3, padding=1", (2, 2, 2)), ("1, 1, (1, 2), dilation=(3, 1)", (1, 2, 3)), ("1, 1, (2, 1), dilation=(1, 3)", (1, 2, 3)), ("1, 1, 2, stride=(5, 1)", (1, 3, 3)),
               ("1, 1, 2, stride=(1, 5)", (1, 3, 3)), ("1, 1, 3, stride=2, padding=2", (1, 4, 4)), ("1, 1, 3, stride=(2, 1), padding=1", (1, 3, 3))]:
    for vm in ("", ", use_vmap_for_backprop=False"):
        C20_CASES.append(("Conv2d(%s%s)" % (ct, vm), sh))
for kw in ["2, dilation=2, padding=1", "2, dilation=2", "(1, 2), dilation=(1, 2), padding=1", "(2, 1), dilation=(2, 1), padding=1", "2, stride=2, padding=1", "(2, 1), stride=(1, 2)", "2, groups=2, padding=1", "2, padding=(2, 0)", "1, stride=2", "2, stride=(2, 1), dilation=(1, 2)"]:
    gr = "groups" in kw
    for sh in [(h, w) for h in (1, 2, 3, 5) for w in (1, 2, 3, 4)]:
        C20_CASES.append(("Conv2d(%s, %s, use_vmap_for_backprop=False)" % ("2, 2" if gr else "1, 1", kw), ((2,) if gr else (1,)) + sh))


def prop_C20(run):
    for ctor, sh in C20_CASES:
        for b in (1, 2):
            case = "%s x%s" % (ctor, (b,) + sh)
            if run.skip(case):
                continue
            g = run.gen(case)
            run.cases.add(case)
            try:
                m = make(ctor, g)
            except Exception:
                run.n += 1
                run.refused += 1
                continue
            x = rnd(g, b, *sh)
            st, _ = attempt(lambda: m(x))
            if st != "ok":
                run.n += 1
                run.refused += 1
                continue
            ref = Ref(m, x)
            for wrt in WRT:
                J = ref.J(wrt)
                if J is None:
                    continue
                no, ni = J.shape[1], J.shape[2]
                v, M = rnd(g, b, no), rnd(g, b, 2, no)
                vi, Mi = rnd(g, b, ni), rnd(g, b, ni, 2)
                tests = [("jacobian", lambda: m.jacobian(x, None, wrt=wrt), lambda: J),
                         ("vjp", lambda: m.vjp(x, None, v, wrt=wrt), lambda: (v.unsqueeze(1) @ J).squeeze(1)),
                         ("mjp", lambda: m.mjp(x, None, M, wrt=wrt), lambda: M @ J),
                         ("jvp", lambda: m.jvp(x, None, vi, wrt=wrt), lambda: (J @ vi.unsqueeze(-1)).squeeze(-1)),
                         ("jmp", lambda: m.jmp(x, None, Mi, wrt=wrt), lambda: J @ Mi)]
                for fd, td in BOOL2:
                    A, B = metric(g, b, no, fd), metric(g, b, ni, fd)
                    tests.append(("jTmjp(%s,%s)" % (fd, td), lambda A=A, fd=fd, td=td: m.jTmjp(x, None, A, wrt=wrt, from_diag=fd, to_diag=td), lambda A=A, fd=fd, td=td: ref.jTmjp(A, wrt, fd, td)))
                    tests.append(("jmjTp(%s,%s)" % (fd, td), lambda B=B, fd=fd, td=td: m.jmjTp(x, None, B, wrt=wrt, from_diag=fd, to_diag=td), lambda B=B, fd=fd, td=td: ref.jmjTp(B, wrt, fd, td)))
                for nm, fn, want in tests:
                    st, got = attempt(fn)
                    if st == "ok":
                        run.check(case, "%s wrt %s is exact or refused" % (nm, wrt), got, want(), x=x)
                    else:
                        run.n += 1
                        run.refused += 1


def torch_twin(ctor):
    c = ctor.replace(", use_vmap_for_backprop=False", "")
    if c.startswith("L2Norm"):
        eps = build(ctor).eps
        return lambda m, x: x / (x.reshape(x.shape[0], -1).pow(2).sum(1).sqrt().reshape(-1, *([1] * (x.dim() - 1))) + eps)
    if c.startswith("TruncExp"):
        return lambda m, x: torch.exp(x)
    if c.startswith("Sinusoidal"):
        return lambda m, x: torch.sin(x)
    if c.startswith("Reshape"):
        dims = eval("(lambda *a: a)" + c[len("Reshape"):])
        return lambda m, x: x.contiguous().view(x.shape[0], *dims)
    if c.startswith("Flatten"):
        return lambda m, x: x.contiguous().view(x.shape[0], -1)
    t = eval("nn." + c).to(DT)

    def f(m, x):
        t.load_state_dict({k: v for k, v in m.state_dict().items()})
        return t(x)
    return f


def prop_C21(run):
    for case, m, x, g in leaf_loop(run):
        ctor = case.split(" x(")[0]
        run.call(case, "forward equals torch", lambda: m(x), lambda: torch_twin(ctor)(m, x), x=x, tol=1e-9)
    for case, m, x, g in net_loop(run, NET_CASES + SKIP_CASES):
        run.call(case, "forward is the composition", lambda: m(x), lambda: compose(m, x), x=x, tol=1e-9)
        with torch.enable_grad():
            xr = x.clone().requires_grad_(True)
            st, y = attempt(lambda: m(xr))
            if st != "ok":
                run.fail(case, "forward with gradient: %s" % y)
                continue
            y2 = compose(m, xr)
            w = rnd(g, *y.shape)
            ps = [p for p in m.parameters() if p.requires_grad]
            g1 = torch.autograd.grad((y * w).sum(), [xr] + ps, allow_unused=True) if y.requires_grad else None
            g2 = torch.autograd.grad((y2 * w).sum(), [xr] + ps, allow_unused=True)
            if g1 is None:
                run.fail(case, "autograd is blocked")
            else:
                for a, c in zip(g1, g2):
                    run.check(case, "autograd through forward", a, c, x=x)
        # without hooks
        ctor = case.split(" x(")[0]
        if ctor.startswith("Sequential(") and type(ast.parse(ctor, mode="eval").body).__name__ == "Call" and getattr(ast.parse(ctor, mode="eval").body.func, "id", None) == "Sequential":
            st, mh = attempt(lambda: make(ctor[:-1] + ", add_hooks=False)", run.gen(case)))
            if st != "ok":
                run.fail(case, "add_hooks=False: %s" % mh)
            else:
                run.call(case, "forward without hooks", lambda: mh(x), lambda: compose(m, x), x=x, tol=1e-9)
                run.call(case, "forward again", lambda: mh(x), lambda: compose(m, x), x=x, tol=1e-9)


PROPS = {k[5:]: v for k, v in list(globals().items()) if k.startswith("prop_C")}


def run_prop(prop, tier="quick", seed=1, only=None, budget=None):
    run = Run(prop, tier, seed, only, budget)
    try:
        PROPS[prop](run)
    except Exception as e:
        run.fail("harness", "contract evaluation aborted: %s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-3000:])
    return run


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only")
    ap.add_argument("--json")
    ap.add_argument("--cases")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    if a.cases:
        OVERRIDE = json.load(open(a.cases))
    for p in (sorted(PROPS) if a.prop == "all" else [a.prop]):
        t = time.time()
        r = run_prop(p, a.tier, a.seed, a.only, a.budget)
        out = {"property": p, "evaluations": r.n, "cases": len(r.cases), "nontrivial": r.nontrivial, "refused": r.refused, "fails": r.fails, "samples": r.samples, "wall_s": time.time() - t}
        if a.json:
            with open(a.json + ".tmp", "w") as f:
                json.dump(out, f, default=str)
            os.replace(a.json + ".tmp", a.json)
        print(p, "evaluations", r.n, "cases", len(r.cases), "refused", r.refused, "fails", len(r.fails), "%.1fs" % (time.time() - t), flush=True)
        for f in r.fails[:8]:
            print("   ", f["case"], "|", f["what"][:200])
