"""Symbolic torch.nn (assumed contracts of the torch.nn classes nnj derives from) and the loader that executes the
real source files of /repo/nnj against the symbolic torch."""
import builtins
import collections
import operator
import os
import sys
import types

import symtorch as st
from poly import Poly, P, Unsupported, ZERO, ONE
from ctx import C, decide, implies, flag
from sp import S, SP, fn, gt0, tens
from dims import Dim, dim_of, AtomFac
from symint import SymInt, SymFloat, SymBool, mkint
from symtorch import Tensor, State, Storage

REPO = os.environ.get("NNJ_REPO", "/repo")


# ------------------------------------------------------------------ parameters and modules
DEPTHPARAMS = [lambda m: None]  # parameters() of a network of unknown depth


class Parameter(Tensor):
    def __init__(self, data=None, requires_grad=None):
        if data is None:
            data = st.zeros(0)
        Tensor.__init__(self, data.dims, data.elem, data.dtype, data.store)
        self.stop = False
        if requires_grad is not None:
            self.requires_grad = requires_grad


def fresh_param(shape, dtype=None):
    k = State.pcount
    State.pcount += 1
    name = "P%d" % k
    dims = [s if isinstance(s, Dim) else dim_of(s) for s in shape]
    t = Tensor(dims, lambda idx: tens(name, st.flat_digits(idx)), dtype or State.default, Storage("parameter " + name))
    p = Parameter(t)
    p.pname = name
    return p


class Module:
    def __init__(self, *args, **kwargs):
        if args or kwargs:
            # nn.Module.__init__ refuses unknown arguments
            raise TypeError(f"{type(self).__name__}.__init__() got unexpected arguments")
        d = self.__dict__
        d["_parameters"] = collections.OrderedDict()
        d["_modules"] = collections.OrderedDict()
        d["_buffers"] = collections.OrderedDict()
        d["_fhooks"] = collections.OrderedDict()
        d["_fprehooks"] = collections.OrderedDict()
        d["_training"] = None
        d["_attr_writes"] = set()

    def __setattr__(self, n, v):
        d = self.__dict__
        if "_parameters" in d:
            if isinstance(v, Parameter):
                d.pop(n, None)
                d["_parameters"][n] = v
                return
            if isinstance(v, Module):
                d.pop(n, None)
                d["_modules"][n] = v
                return
            if n in d["_parameters"]:
                if v is not None:
                    raise TypeError("cannot assign as parameter")
                d["_parameters"][n] = None
                return
            if n in d["_buffers"]:
                d["_buffers"][n] = v
                return
            d["_attr_writes"].add(n)
            if State.loops:
                raise Unsupported("attribute written in a symbolic loop")
        elif isinstance(v, (Parameter, Module)):
            raise AttributeError("cannot assign module before Module.__init__() call")
        object.__setattr__(self, n, v)

    def __getattr__(self, n):
        d = self.__dict__
        for k in ("_parameters", "_modules", "_buffers"):
            if k in d and n in d[k]:
                return d[k][n]
        if n.startswith("__"):
            raise AttributeError(n)
        if hasattr(MODULE_ATTRS, n):
            raise Unsupported(f"Module.{n}")
        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{n}'")

    def __delattr__(self, n):
        for k in ("_parameters", "_modules", "_buffers"):
            if n in self.__dict__[k]:
                del self.__dict__[k][n]
                return
        object.__delattr__(self, n)

    def __call__(self, *a, **k):
        for h in list(self._fprehooks.values()):
            r = h(self, a)
            if r is not None:
                a = r if isinstance(r, tuple) else (r,)
        out = self.forward(*a, **k)
        for h in list(self._fhooks.values()):
            r = h(self, a, out)
            if r is not None:
                out = r
        return out

    def forward(self, *a):
        raise NotImplementedError

    def register_forward_hook(self, h, **k):
        key = object()
        self._fhooks[key] = h
        return _Handle(self._fhooks, key)

    def register_forward_pre_hook(self, h, **k):
        key = object()
        self._fprehooks[key] = h
        return _Handle(self._fprehooks, key)

    def register_parameter(self, n, p):
        self._parameters[n] = p

    def register_buffer(self, n, t, persistent=True):
        self._buffers[n] = t

    def add_module(self, n, m):
        self._modules[n] = m

    register_module = add_module

    def children(self):
        seen = set()
        for m in self._modules.values():
            if m is not None and id(m) not in seen:
                seen.add(id(m))
                yield m

    def named_children(self):
        seen = set()
        for n, m in self._modules.items():
            if m is not None and id(m) not in seen:
                seen.add(id(m))
                yield n, m

    def named_modules(self, memo=None, prefix="", remove_duplicate=True):
        memo = set() if memo is None else memo
        if id(self) in memo:
            return
        memo.add(id(self))
        yield prefix, self
        for n, m in self._modules.items():
            if m is None:
                continue
            yield from m.named_modules(memo, prefix + ("." if prefix else "") + n)

    def modules(self):
        for _, m in self.named_modules():
            yield m

    def named_parameters(self, prefix="", recurse=True, remove_duplicate=True):
        memo = set()
        mods = self.named_modules(prefix=prefix) if recurse else [(prefix, self)]
        for pre, m in mods:
            for n, p in m._parameters.items():
                if p is None or id(p) in memo:
                    continue
                memo.add(id(p))
                yield pre + ("." if pre else "") + n, p

    def parameters(self, recurse=True):
        if State.depth is not None and DEPTHPARAMS[0](self) is not None:
            return DEPTHPARAMS[0](self).copy()
        return self._parameters_iter(recurse)

    def _parameters_iter(self, recurse=True):
        for _, p in self.named_parameters(recurse=recurse):
            yield p

    @property
    def training(self):
        t = self.__dict__["_training"]
        return flag("training mode") if t is None else t

    @training.setter
    def training(self, v):
        self.__dict__["_training"] = v

    def train(self, mode=True):
        for m in self.modules():
            m.__dict__["_training"] = mode
        return self

    def eval(self):
        return self.train(False)

    def requires_grad_(self, v=True):
        for p in self.parameters():
            p.requires_grad_(v)
        return self

    def to(self, *a, **k):
        raise Unsupported("Module.to")

    def apply(self, f):
        for m in self.children():
            m.apply(f)
        f(self)
        return self

    def extra_repr(self):
        return ""

    def __repr__(self):
        return f"{type(self).__name__}(...)"


class MODULE_ATTRS:
    state_dict = load_state_dict = double = float = half = cuda = cpu = zero_grad = named_buffers = buffers = None
    get_submodule = get_parameter = register_full_backward_hook = share_memory = type = None
    _forward_hooks = _forward_pre_hooks = None


class _Handle:
    def __init__(self, d, k):
        self.d, self.k = d, k

    def remove(self):
        self.d.pop(self.k, None)


def _pos(n, what):
    """constructor sizes: positive integers"""
    if isinstance(n, bool) or not isinstance(n, (int, SymInt)):
        raise TypeError(f"{what} must be an integer")


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features = in_features
        self.out_features = out_features
        self.weight = fresh_param((out_features, in_features), dtype)
        if bias:
            self.bias = fresh_param((out_features,), dtype)
        else:
            self.register_parameter("bias", None)

    def reset_parameters(self):
        raise Unsupported("reset_parameters")

    def forward(self, input):
        return F_linear(input, self.weight, self.bias)


class Conv2d(Module):
    def __init__(
        self,
        in_channels,
        out_channels,
        kernel_size,
        stride=1,
        padding=0,
        dilation=1,
        groups=1,
        bias=True,
        padding_mode="zeros",
        device=None,
        dtype=None,
    ):
        super().__init__()
        if isinstance(groups, int) and groups <= 0:
            raise ValueError("groups must be a positive integer")
        g = groups
        if not (isinstance(g, int) and g == 1):
            for c, w in ((in_channels, "in_channels"), (out_channels, "out_channels")):
                if c % g != 0:
                    raise ValueError(f"{w} must be divisible by groups")
        if isinstance(padding, str):
            if padding not in ("same", "valid"):
                raise ValueError("Invalid padding string")
            if padding == "same" and any(s != 1 for s in st.pair(stride)):
                raise ValueError("padding='same' is not supported for strided convolutions")
        if padding_mode not in ("zeros", "reflect", "replicate", "circular"):
            raise ValueError("padding_mode")
        self.in_channels = in_channels
        self.out_channels = out_channels
        self.kernel_size = st.pair(kernel_size)
        self.stride = st.pair(stride)
        self.padding = padding if isinstance(padding, str) else st.pair(padding)
        self.dilation = st.pair(dilation)
        self.transposed = False
        self.output_padding = st.pair(0)
        self.groups = groups
        self.padding_mode = padding_mode
        oc = out_channels
        if not (isinstance(g, int) and g == 1):
            oc = Dim(dim_of(g).facs + dim_of(out_channels // g).facs)  # grouped output channels
        self.weight = fresh_param((oc, in_channels // g, *self.kernel_size), dtype)
        if bias:
            self.bias = fresh_param((oc,), dtype)
        else:
            self.register_parameter("bias", None)

    def _conv_forward(self, input, weight, bias):
        if self.padding_mode != "zeros":
            raise Unsupported("padding mode")
        return st.conv2d(input, weight, bias, self.stride, self.padding, self.dilation, self.groups)

    def forward(self, input):
        return self._conv_forward(input, self.weight, self.bias)


class MaxPool2d(Module):
    def __init__(self, kernel_size, stride=None, padding=0, dilation=1, return_indices=False, ceil_mode=False):
        super().__init__()
        self.kernel_size = kernel_size
        self.stride = stride if (stride is not None) else kernel_size
        self.padding = padding
        self.dilation = dilation
        self.return_indices = return_indices
        self.ceil_mode = ceil_mode

    def forward(self, input):
        return st.max_pool2d(
            input, self.kernel_size, self.stride, self.padding, self.dilation, self.ceil_mode, self.return_indices
        )


class Upsample(Module):
    def __init__(self, size=None, scale_factor=None, mode="nearest", align_corners=None, recompute_scale_factor=None):
        super().__init__()
        self.name = type(self).__name__
        self.size = size
        if isinstance(scale_factor, tuple):
            self.scale_factor = tuple(_asfloat(f) for f in scale_factor)
        else:
            self.scale_factor = _asfloat(scale_factor) if scale_factor else None
        self.mode = mode
        self.align_corners = align_corners
        self.recompute_scale_factor = recompute_scale_factor

    def forward(self, input):
        return st.interpolate(
            input,
            self.size,
            self.scale_factor,
            self.mode,
            self.align_corners,
            recompute_scale_factor=self.recompute_scale_factor,
        )


def _asfloat(x):
    if isinstance(x, SymInt):
        return SymFloat.of(x)
    if isinstance(x, SymFloat):
        return x
    return builtins.float(x)


class ReLU(Module):
    def __init__(self, inplace=False):
        super().__init__()
        self.inplace = inplace

    def forward(self, input):
        return input.relu_() if self.inplace else input.relu()


class Sigmoid(Module):
    def forward(self, input):
        return input.sigmoid()


class Tanh(Module):
    def forward(self, input):
        return input.tanh()


class Identity(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, input):
        return input


class Softplus(Module):
    def __init__(self, beta=1.0, threshold=20.0):
        super().__init__()
        self.beta = beta
        self.threshold = threshold

    def forward(self, input):
        return st.softplus(input, self.beta, self.threshold)


class Flatten(Module):
    def __init__(self, start_dim=1, end_dim=-1):
        super().__init__()
        self.start_dim = start_dim
        self.end_dim = end_dim

    def forward(self, input):
        return input.flatten(self.start_dim, self.end_dim)


class Sequential(Module):
    def __init__(self, *args):
        super().__init__()
        if State.depth is not None and len(args) == 1 and State.depth.is_layers(args[0]):
            self.__dict__["_modules"] = args[0].as_dict()
        elif State.depth is not None and len(args) == 1 and type(args[0]).__name__ == "Star":
            import induct

            self.__dict__["_modules"] = induct.ItemDict(args[0].list)
        elif len(args) == 1 and isinstance(args[0], collections.OrderedDict):
            for k, m in args[0].items():
                self.add_module(k, m)
        else:
            for i, m in enumerate(args):
                self.add_module(str(i), m)

    def __len__(self):
        return len(self._modules)

    def __symlen__(self):
        return slen(self._modules)

    def __iter__(self):
        return iter(self._modules.values())

    def __getitem__(self, i):
        if State.depth is not None and hasattr(self._modules, "__symlen__"):
            return self._modules.values()[i]
        l = list(self._modules.values())
        if isinstance(i, slice):
            return self.__class__(*l[i])
        return l[i]

    def append(self, m):
        self.add_module(str(len(self)), m)
        return self

    def _renumber(self, l):
        self._modules.clear()
        for i, m in enumerate(l):
            self.add_module(str(i), m)

    def __setitem__(self, i, m):
        self.add_module(list(self._modules)[i], m)

    def __delitem__(self, i):
        l = list(self._modules.values())
        del l[i]
        self._renumber(l)

    def insert(self, i, m):
        l = list(self._modules.values())
        if not -len(l) <= i <= len(l):
            raise IndexError("Index out of range")
        l.insert(i + len(l) if i < 0 else i, m)
        self._renumber(l)
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def pop(self, i):
        m = self[i]
        del self[i]
        return m

    def forward(self, input):
        for m in self:
            input = m(input)
        return input


class ModuleList(Module):
    def __init__(self, ms=()):
        super().__init__()
        for i, m in enumerate(ms):
            self.add_module(str(i), m)

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())

    def __getitem__(self, i):
        return list(self._modules.values())[i]

    def append(self, m):
        self.add_module(str(len(self)), m)
        return self


def F_linear(input, weight, bias=None):
    if input.dtype is not weight.dtype or (bias is not None and bias.dtype is not weight.dtype):
        raise RuntimeError("mat1 and mat2 must have the same dtype")
    return st.linear(input, weight, bias)


def parameters_to_vector(ps):
    vs = []
    if State.depth is not None and hasattr(ps, "raw"):
        for p in ps.raw():
            vs.append(p.cats["flat"] if not isinstance(p, Tensor) else p.reshape(-1))
        return st.cat(vs)
    for p in ps:
        vs.append(p.reshape(-1))
    return st.cat(vs)


def vector_to_parameters(vec, ps):
    if not isinstance(vec, Tensor):
        raise TypeError(f"expected torch.Tensor, but got: {type(vec)}")
    pointer = 0
    for p in ps.raw() if State.depth is not None and hasattr(ps, "raw") else ps:
        if not isinstance(p, Tensor):  # the parameters of an unknown number of layers
            n = p.cats["flat"].shape[0]
            p.cats["flat"] = vec[pointer : pointer + n]
            pointer = pointer + n
            continue
        n = p.numel()
        v = vec[pointer : pointer + n].reshape(*p.shape)
        State.writes.append("set " + getattr(p, "pname", "?"))
        p.data = v
        pointer = pointer + n


# ------------------------------------------------------------------ linear algebra (uninterpreted)
def _uf(name, t, dims=None):
    key = name + st.content_key(t)
    nm = name + "#%d" % UFNAMES.setdefault(key, len(UFNAMES))
    r = Tensor(dims or t.dims, lambda idx: tens(nm, st.flat_digits(idx)), t.dtype)
    r.uf = (name, t)
    return r


UFNAMES = {}


def lin_cholesky(t, upper=False, out=None):
    if t.ndim < 2:
        raise RuntimeError("linalg.cholesky: The input tensor A must have at least 2 dimensions.")
    st.same_size(t.dims[-1].size, t.dims[-2].size, "linalg.cholesky: square matrix")
    if upper:
        raise Unsupported("upper cholesky")
    return _uf("chol", t)


def cholesky_inverse(t, upper=False):
    if upper:
        raise Unsupported("upper cholesky_inverse")
    uf = getattr(t, "uf", None)
    if uf is None or uf[0] != "chol":
        raise Unsupported("cholesky_inverse of something else than a Cholesky factor")
    return _uf("inv", uf[1])


def lin_inv(t):
    st.same_size(t.dims[-1].size, t.dims[-2].size, "linalg.inv: square matrix")
    return _uf("inv", t)


def cholesky_solve(b, l, upper=False):
    if upper:
        raise Unsupported("upper cholesky_solve")
    uf = getattr(l, "uf", None)
    if uf is None or uf[0] != "chol":
        raise Unsupported("cholesky_solve with something else than a Cholesky factor")
    if b.ndim < 2:
        raise RuntimeError("cholesky_solve: b should have at least 2 dimensions")
    return st.matmul(_uf("inv", uf[1]), b)


def lin_solve(a, b, left=True):
    if not left or b.ndim < 2 or b.ndim == a.ndim - 1:
        raise Unsupported("linalg.solve with a vector or from the right")
    return st.matmul(lin_inv(a), b)


# ------------------------------------------------------------------ namespaces
class NS(types.ModuleType):
    def __init__(self, name, d):
        super().__init__(name)
        self.__dict__.update(d)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n}")


def _method(n):
    def f(t, *a, **k):
        if isinstance(t, (SymInt, SymFloat, builtins.int, builtins.float)):
            raise TypeError(f"{n}(): argument 'input' must be Tensor")
        return getattr(t, n)(*a, **k)

    f.__name__ = n
    return f


def build_torch():
    names = {}
    for n in (
        "einsum cat concat concatenate stack hstack vstack split zeros ones full empty zeros_like ones_like full_like empty_like "
        "eye arange repeat_interleave diag_embed diag diagonal tensor as_tensor numel where maximum minimum clamp norm "
        "logsumexp softmax log_softmax matmul mm bmm baddbmm outer gather no_grad enable_grad set_grad_enabled "
        "equal allclose inference_mode vmap logical_not block_diag tensordot kron "
        "float64 float32 float16 bfloat16 int64 int32 int16 int8 uint8 dtype device"
    ).split():
        names[n] = getattr(st, n)
    names["double"] = st.float64
    names["float"] = st.float32
    names["half"] = st.float16
    names["long"] = st.int64
    names["int"] = st.int32
    names["bool"] = st.bool_
    names["Tensor"] = Tensor
    names["Size"] = st.Size
    names["FloatTensor"] = None
    names.pop("FloatTensor")
    names["sum"] = lambda t, dim=None, keepdim=False, dtype=None, axis=None: st.tsum(
        t, dim if axis is None else axis, keepdim, dtype
    )
    names["mean"] = lambda t, dim=None, keepdim=False, dtype=None, axis=None: st.tmean(
        t, dim if axis is None else axis, keepdim, dtype
    )
    names["split"] = lambda t, split_size_or_sections, dim=0: t.split(split_size_or_sections, dim)
    names["flip"] = lambda t, dims: t.flip(dims)
    names["add"] = lambda a, b, alpha=1: st.binop(a, b if alpha == 1 else b * alpha, "add")
    names["sub"] = lambda a, b, alpha=1: st.binop(a, b if alpha == 1 else b * alpha, "sub")
    names["mul"] = names["multiply"] = lambda a, b: st.binop(a, b, "mul")
    names["div"] = names["divide"] = lambda a, b: st.binop(a, b, "div")
    for n in "gt ge lt le eq ne".split():
        names[n] = lambda a, b, n=n: st.binop(a, b, n)
    for n in (
        "exp log log1p sin cos tanh cosh sinh sigmoid sqrt rsqrt reciprocal abs sign relu neg square pow movedim moveaxis "
        "permute transpose swapaxes swapdims reshape flatten unsqueeze squeeze clone trace index_select select narrow "
        "unbind any all masked_fill mv dot t logical_and logical_or is_floating_point clip detach broadcast_to ravel "
        "scatter scatter_add unflatten tile chunk"
    ).split():
        names[n] = _method(n)
    names["cholesky_inverse"] = cholesky_inverse
    names["inverse"] = lin_inv
    names["cholesky_solve"] = cholesky_solve
    names["is_tensor"] = lambda x: isinstance(x, Tensor)
    names["get_default_dtype"] = lambda: State.default
    names["is_grad_enabled"] = lambda: State.grad and flag("gradients are enabled by the caller")
    torch = NS("torch", names)
    F = NS(
        "torch.nn.functional",
        dict(
            linear=F_linear,
            conv2d=st.conv2d,
            conv_transpose2d=st.conv_transpose2d,
            max_pool2d=st.max_pool2d,
            max_pool2d_with_indices=lambda *a, **k: st.max_pool2d(*a, **{**k, "return_indices": True}),
            interpolate=st.interpolate,
            upsample=st.interpolate,
            pad=st.pad,
            unfold=st.unfold,
            fold=st.fold,
            softplus=st.softplus,
            relu=lambda x, inplace=False: x.relu_() if inplace else x.relu(),
            sigmoid=lambda x: x.sigmoid(),
            tanh=lambda x: x.tanh(),
            softmax=lambda x, dim=None, **k: st.softmax(x, dim, **k),
            log_softmax=lambda x, dim=None, **k: st.log_softmax(x, dim, **k),
            one_hot=_unsup("one_hot"),
        ),
    )
    utils = NS(
        "torch.nn.utils",
        dict(parameters_to_vector=parameters_to_vector, vector_to_parameters=vector_to_parameters),
    )
    nn = NS(
        "torch.nn",
        dict(
            Module=Module,
            Parameter=Parameter,
            Linear=Linear,
            Conv2d=Conv2d,
            MaxPool2d=MaxPool2d,
            Upsample=Upsample,
            ReLU=ReLU,
            Sigmoid=Sigmoid,
            Tanh=Tanh,
            Softplus=Softplus,
            Flatten=Flatten,
            Identity=Identity,
            Sequential=Sequential,
            ModuleList=ModuleList,
            functional=F,
            utils=utils,
        ),
    )
    utils.convert_parameters = utils
    linalg = NS("torch.linalg", dict(cholesky=lin_cholesky, inv=lin_inv, solve=lin_solve, norm=_linalg_norm, vector_norm=_linalg_norm))
    autograd = NS("torch.autograd", dict(Function=st.Function))
    autograd.function = NS("torch.autograd.function", dict(Function=st.Function))
    amp = NS("torch.cuda.amp", dict(custom_fwd=st.custom_fwd, custom_bwd=st.custom_bwd))
    cuda = NS("torch.cuda", dict(amp=amp, is_available=lambda: False))
    func = NS("torch.func", dict(vmap=st.vmap))
    torch.__dict__.update(nn=nn, linalg=linalg, autograd=autograd, cuda=cuda, func=func)
    torch.amp = amp
    table = {
        "torch": torch,
        "torch.nn": nn,
        "torch.nn.functional": F,
        "torch.nn.utils": utils,
        "torch.nn.utils.convert_parameters": utils,
        "torch.linalg": linalg,
        "torch.autograd": autograd,
        "torch.autograd.function": autograd.function,
        "torch.cuda": cuda,
        "torch.cuda.amp": amp,
        "torch.amp": amp,
        "torch.func": func,
        "functorch": NS("functorch", dict(vmap=st.vmap)),
    }
    return table


def _unsup(n):
    def f(*a, **k):
        raise Unsupported(n)

    return f


def _linalg_norm(t, ord=None, dim=None, keepdim=False, dtype=None):
    return st.norm(t, 2 if ord is None else ord, dim, keepdim, dtype=dtype)


# ------------------------------------------------------------------ builtins seen by the code
class _IntMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (builtins.int, SymInt))


class sint(builtins.int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymFloat):
            return x.as_int()
        if isinstance(x, Tensor):
            return x.item()
        return builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (builtins.float, SymFloat))


class sfloat(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (SymInt, SymFloat)):
            return SymFloat.of(x)
        if isinstance(x, Tensor):
            return SymFloat.of(x.item())
        return builtins.float(x)


def srange(*a):
    if State.depth is not None:
        r = State.depth.range(*a)
        if r is not None:
            return r
    if all(builtins.isinstance(x, builtins.int) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        return symrange(0, a[0])
    if len(a) == 2 and isinstance(a[0], builtins.int) and a[0] == 0:
        return symrange(0, a[1])
    raise Unsupported("symbolic range")


class SymRange:
    """range(n), n symbolic; only a loop whose body carries no state from one iteration to the next may iterate it"""

    def __init__(self, n):
        self.n = n

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range")

    def __len__(self):
        raise Unsupported("len of a symbolic range")

    def __getitem__(self, i):
        raise Unsupported("symbolic range")

    __contains__ = __reversed__ = __getitem__

    def get(self, i):
        return i

    def run(self):
        """the body is executed once for an arbitrary iteration; values produced by the body may afterwards only be
        collected (cat/stack/indexed assignment); everything else is refused"""
        from poly import Var

        n = self.n
        v = Var("it", P(n))
        lp = st.Loop(v)
        if not implies(C("ge", P(n) - 1)):
            raise Unsupported("possibly empty symbolic loop")
        State.loops.append(lp)
        done = False
        try:
            yield self.get(SymInt(Poly.atom(v)))
            done = True
        finally:
            if not done:
                State.broken = True
            else:
                if State.loops[-1] is not lp:
                    raise Unsupported("loop nesting")
                State.loops.pop()
                st.LOOPDONE[v] = True


def symrange(start, n):
    return SymRange(n)


class SymSeq(SymRange):
    """the slices of a tensor along an axis of symbolic size, enumerate(...) and zip(...) of such: as a range, with items"""

    def __init__(self, n, get):
        self.n = n
        self.get = get

    def __getitem__(self, i):
        if not isinstance(i, (builtins.int, SymInt)):
            raise Unsupported("slice of a symbolic sequence")
        if isinstance(i, builtins.int) and i < 0:
            i = self.n + i
        if not implies(C("ge", P(self.n) - 1 - P(i))) and not st.decide(C("ge", P(self.n) - 1 - P(i))):
            raise IndexError("sequence index out of range")
        if not implies(C("ge", P(i))):
            raise Unsupported("possibly negative index")
        return self.get(i)


def symseq(it):
    """it as a symbolic sequence, None if it is an ordinary iterable"""
    if isinstance(it, SymRange):
        return it
    if isinstance(it, Tensor) and it.dims and not isinstance(it.shape[0], builtins.int):
        return SymSeq(it.shape[0], lambda i: it[i])
    return None


def senumerate(it, start=0):
    s = symseq(it)
    return builtins.enumerate(it, start) if s is None else SymSeq(s.n, lambda i: (i + start, s.get(i)))


def szip(*its, strict=False):
    ss = [symseq(i) for i in its]
    if all(s is None for s in ss):
        return builtins.zip(*its, strict=strict)
    if any(s is None for s in ss):
        raise Unsupported("zip of a symbolic sequence with something else")
    for s in ss:
        d = P(s.n) - P(ss[0].n)
        if not (d.is_const() and d.cval() == 0) and not implies(C("eq", d)):
            raise Unsupported("zip of sequences whose lengths may differ")
    return SymSeq(ss[0].n, lambda i: tuple(s.get(i) for s in ss))


st.SYMSEQ[0] = SymSeq


def for_iter(it, simple):
    if State.depth is not None:
        c = State.depth.cut(it)
        if c is not None:
            return c
    s = symseq(it)
    if s is not None:
        if not simple:
            raise Unsupported("symbolic loop whose body carries state")
        return s.run()
    return it


def comp_iter(it, simple):
    if State.depth is not None and State.depth.cuttable(it):
        raise Unsupported("comprehension over layers")
    return for_iter(it, simple)


def _depth(name, std):
    def f(*a, **k):
        if State.depth is not None:
            r = getattr(State.depth, name)(*a, **k)
            if r is not None:
                return r
        return std(*a, **k)

    return f


def mklist(l):
    """a list display"""
    return l if State.depth is None else State.depth.mklist(l)


def loop_append(l, e):
    """l.append(e) inside a loop or comprehension"""
    if State.loops and isinstance(l, list):
        l.append(loop_elt(e))
        return
    return l.append(e)


def loop_elt(e):
    if State.loops:
        if not isinstance(e, Tensor):
            raise Unsupported("symbolic loop collects something else than tensors")
        v = State.loops[-1].var
        if v not in e.tags:
            e = e._view(e.dims, e.elem)
            e.tags = e.tags | {v}
    return e


import ast

MUTATORS = {"append", "pop", "popitem", "extend", "insert", "remove", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "popleft", "appendleft"}


def _names(node, kind):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, kind)}


def _is_append(s):
    return (
        isinstance(s, ast.Expr)
        and isinstance(s.value, ast.Call)
        and isinstance(s.value.func, ast.Attribute)
        and s.value.func.attr == "append"
        and isinstance(s.value.func.value, ast.Name)
        and len(s.value.args) == 1
        and not s.value.keywords
        and not isinstance(s.value.args[0], ast.Starred)
    )


def _target(t):
    """a name or (nested) tuple of names"""
    return isinstance(t, ast.Name) or isinstance(t, (ast.Tuple, ast.List)) and all(_target(e) for e in t.elts)


def loop_simple(loop):
    """does the loop body carry no state from one iteration to the next (apart from appended / indexed tensors)?"""
    if loop.orelse or not _target(loop.target):
        return False
    early, stores = set(), set()

    def calls_ok(n):
        for c in ast.walk(n):
            if isinstance(c, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda)):
                return False
            if isinstance(c, ast.Call):
                f = c.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    return False
                if isinstance(f, ast.Name) and f.id in ("next", "setattr", "iter"):
                    return False
        return True

    def stmts(body, defined):
        for s in body:
            if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                continue
            if _is_append(s):
                if not calls_ok(s.value.args[0]):
                    return False
                early.update(_names(s.value.args[0], ast.Load) - defined)
                l = s.value.func.value.id
                if l in defined:
                    return False
                continue
            if not calls_ok(s):
                return False
            if isinstance(s, ast.Assert):
                early.update(_names(s, ast.Load) - defined)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                if s.value is None:
                    continue
                early.update(_names(s.value, ast.Load) - defined)
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    for e in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        if isinstance(e, ast.Name):
                            stores.add(e.id)
                            defined.add(e.id)
                        elif isinstance(e, ast.Subscript):
                            early.update(_names(e, ast.Load) - defined)
                        else:
                            return False
            elif isinstance(s, ast.AugAssign):
                early.update(_names(s.value, ast.Load) - defined)
                if isinstance(s.target, ast.Subscript):
                    early.update(_names(s.target, ast.Load) - defined)
                elif isinstance(s.target, ast.Name) and s.target.id in defined:
                    stores.add(s.target.id)
                else:
                    return False
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                f = s.value.func
                if not (isinstance(f, ast.Attribute) and f.attr.endswith("_") and not f.attr.startswith("_")):
                    return False
                early.update(_names(s, ast.Load) - defined)
            elif isinstance(s, ast.If):
                early.update(_names(s.test, ast.Load) - defined)
                a, b = set(defined), set(defined)
                if not stmts(s.body, a) or not stmts(s.orelse, b):
                    return False
                defined |= a & b
            elif isinstance(s, ast.For):
                if not _target(s.target) or s.orelse:
                    return False
                early.update(_names(s.iter, ast.Load) - defined)
                stores.update(_names(s.target, ast.Store))
                if not stmts(s.body, defined | _names(s.target, ast.Store)):
                    return False
            else:
                return False
        return True

    if not stmts(loop.body, _names(loop.target, ast.Store)):
        return False
    return not (early & stores)


COVERED = set()


class Poison:
    """an attribute value left by an arbitrary, unknown history: any use is refused"""

    def _no(self, *a, **k):
        raise Unsupported("reads state left by an earlier call")

    __getattr__ = __getitem__ = __setitem__ = __delitem__ = __len__ = __iter__ = __bool__ = __eq__ = __ne__ = __hash__ = _no
    __call__ = __contains__ = __add__ = __radd__ = __iadd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __reversed__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __int__ = __float__ = __index__ = __enter__ = __exit__ = __next__ = _no
    __class__ = property(_no)
    __repr__ = lambda self: "<left by an earlier call>"


def is_(a, b):
    if builtins.type(a) is Poison or builtins.type(b) is Poison:
        raise Unsupported("reads state left by an earlier call")
    return a is b


class LoopRewriter(ast.NodeTransformer):
    """the only change made to the source before it is executed: iteration over a symbolic range is routed through
    for_iter, collecting in a list through loop_append/loop_elt (identities on ordinary values), object identity through
    is_ (so that the state left by an unknown history cannot be inspected unnoticed), and each function notes that it ran"""

    def __init__(self, mod):
        self.stack = [mod]
        self.infn = False

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        old, self.infn = self.infn, False
        self.generic_visit(n)
        self.infn = old
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        old, self.infn = self.infn, True
        self.generic_visit(n)
        self.infn = old
        q = ".".join(self.stack)
        self.stack.pop()
        e = ast.copy_location(ast.Expr(self.call("__covered__", [ast.Constant(q)], n)), n)
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(k, e)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            c = self.call("__is__", [n.left, n.comparators[0]], n)
            return c if isinstance(n.ops[0], ast.Is) else ast.copy_location(ast.UnaryOp(ast.Not(), c), n)
        return n

    def visit_AugAssign(self, n):
        """a[k] += v -> __augset__(a, k, "Add", v), so that a view is not written twice"""
        self.generic_visit(n)
        if not isinstance(n.target, ast.Subscript):
            return n
        k = n.target.slice
        if any(isinstance(w, ast.Slice) for w in ast.walk(k)):
            def sl(e):
                if isinstance(e, ast.Slice):
                    return ast.Call(ast.Name("__slice__", ast.Load()), [x or ast.Constant(None) for x in (e.lower, e.upper, e.step)], [])
                if isinstance(e, ast.Tuple):
                    return ast.Tuple([sl(x) for x in e.elts], ast.Load())
                return e
            k = sl(k)
        c = self.call("__augset__", [n.target.value, k, ast.Constant(type(n.op).__name__), n.value], n)
        return ast.fix_missing_locations(ast.copy_location(ast.Expr(c), n))

    def visit_Starred(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infn:
            n.value = self.call("__star__", [n.value], n)
        return n

    def visit_For(self, n):
        simple = loop_simple(n)
        self.generic_visit(n)
        n.iter = self.call("__for_iter__", [n.iter, ast.Constant(simple)], n.iter)
        return n

    def visit_Expr(self, n):
        a = _is_append(n)
        self.generic_visit(n)
        if a:
            n.value = self.call("__loop_append__", [n.value.func.value, n.value.args[0]], n.value)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        return self.call("__list__", [n], n) if isinstance(n.ctx, ast.Load) else n

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen", self.generic_visit)

    def visit_ListComp(self, n):
        return self.comp(n, "list", self.listcomp)

    def comp(self, n, kind, f):
        """comprehension -> __comp__(iterable, function[, condition]) if a network of arbitrary depth is explored else itself"""
        import copy

        g = n.generators[0]
        bad = len(n.generators) != 1 or g.is_async or not isinstance(g.target, ast.Name) or not self.infn
        bad = bad or any(isinstance(w, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for w in ast.walk(n))
        if bad:
            return f(n)
        arg = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
        m = copy.deepcopy(n)
        self.generic_visit(m)
        g = m.generators[0]
        lam = ast.Lambda(arg, m.elt)
        cond = ast.Lambda(arg, g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)) if g.ifs else ast.Constant(None)
        c = self.call("__comp__", [ast.Constant(kind), g.iter, lam, cond], n)
        e = ast.IfExp(self.call("__depth__", [], n), c, f(n))
        return ast.fix_missing_locations(ast.copy_location(e, n))

    def listcomp(self, n):
        ok = all(_target(g.target) and not g.ifs for g in n.generators)
        for w in ast.walk(n):
            if isinstance(w, ast.NamedExpr) or (isinstance(w, ast.Attribute) and w.attr in MUTATORS):
                ok = False
        self.generic_visit(n)
        n.elt = self.call("__loop_elt__", [n.elt], n.elt) if ok else n.elt
        for g in n.generators:
            g.iter = self.call("__comp_iter__", [g.iter, ast.Constant(ok)], g.iter)
        return n

    def call(self, f, args, at):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(f, ast.Load()), at), args, []), at)


AUG = dict(Add=("add", operator.iadd), Sub=("sub", operator.isub), Mult=("mul", operator.imul), Div=("div", operator.itruediv), MatMult=(None, operator.imatmul), Pow=(None, operator.ipow),
           FloorDiv=(None, operator.ifloordiv), Mod=(None, operator.imod), BitAnd=(None, operator.iand), BitOr=(None, operator.ior), BitXor=(None, operator.ixor), LShift=(None, operator.ilshift), RShift=(None, operator.irshift))


def augset(o, k, op, v):
    """o[k] op= v"""
    t = o[k]
    if isinstance(o, Tensor) and isinstance(t, Tensor) and AUG[op][0]:
        r = st.binop(t, v, AUG[op][0])
        if r.dtype.kind > o.dtype.kind:
            raise RuntimeError(f"result type {r.dtype} can't be cast to the desired output type {o.dtype}")
        if r.ndim != t.ndim:
            raise RuntimeError("output with shape doesn't match the broadcast shape")
        for a, b in zip(r.dims, t.dims):
            st.same_size(a.size, b.size, "in-place result shape")
        o[k] = r
        return
    o[k] = AUG[op][1](t, v)


def star(x):
    if State.depth is not None and hasattr(x, "sym") and x.sym():
        import induct

        return (induct.Star(x),)
    return x


def slen(x):
    if State.depth is not None and hasattr(x, "__symlen__"):
        return x.__symlen__()
    if isinstance(x, (list, tuple, dict)):
        vs = x.values() if isinstance(x, dict) else x
        if any(isinstance(t, Tensor) and any(v in st.LOOPDONE for v in t.tags) for t in vs):
            raise Unsupported("length of a list filled by a symbolic loop")
        if State.loops and any(isinstance(t, Tensor) and any(l.var in t.tags for l in State.loops) for t in vs):
            raise Unsupported("length of a list filled by a symbolic loop")
    if isinstance(x, Tensor):
        if not x.dims:
            raise TypeError("len() of a 0-d tensor")
        return x.shape[0]
    return builtins.len(x)


def ssum(it, start=0):
    if State.depth is not None and hasattr(it, "__symsum__"):
        return it.__symsum__() + start
    r = start
    for x in it:
        if isinstance(x, Tensor) and any(v in st.LOOPDONE for v in x.tags):
            raise Unsupported("sum of loop generated values")
        r = r + x
    return r


def smax(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if all(isinstance(x, (builtins.int, builtins.float)) for x in xs):
        return builtins.max(*a, **k)
    if k:
        raise Unsupported("max")
    r = xs[0]
    for x in xs[1:]:
        if x > r:
            r = x
    return r


def smin(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if all(isinstance(x, (builtins.int, builtins.float)) for x in xs):
        return builtins.min(*a, **k)
    if k:
        raise Unsupported("min")
    r = xs[0]
    for x in xs[1:]:
        if x < r:
            r = x
    return r


def sisinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if x is builtins.int:
            x = sint
        if x is builtins.float:
            x = sfloat
        if builtins.isinstance(o, x):
            if x is builtins.bool or True:
                return True
    return False


class MathNS:
    """math module over symbolic integers"""

    pi = __import__("math").pi
    e = __import__("math").e
    inf = float("inf")

    @staticmethod
    def prod(xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    def __getattr__(self, n):
        import math

        f = getattr(math, n)

        def g(*a):
            if any(isinstance(x, (SymInt, SymFloat, Tensor)) for x in a):
                if n in ("sqrt", "exp", "log", "sin", "cos", "tanh"):
                    return SymFloat(fn(n, S(a[0])))
                raise Unsupported("math." + n)
            return f(*a)

        return g


class OperatorNS:
    @staticmethod
    def mul(a, b):
        return a * b

    @staticmethod
    def add(a, b):
        return a + b

    def __getattr__(self, n):
        import operator

        return getattr(operator, n)


# ------------------------------------------------------------------ loader
ALLOWED = {"typing", "functools", "itertools", "collections", "collections.abc", "warnings", "abc", "dataclasses", "copy", "enum", "__future__"}


class World:
    """one symbolic copy of the package, loaded from the working tree"""

    def __init__(self, root=None):
        self.root = root or os.path.join(REPO, "nnj")
        self.table = build_torch()
        self.torch = self.table["torch"]
        self.mods = {}
        self.files = {}
        b = dict(vars(builtins))
        b.update(
            int=sint,
            float=sfloat,
            range=srange,
            len=slen,
            sum=ssum,
            max=smax,
            min=smin,
            isinstance=sisinstance,
            __import__=self.imp,
            id=_unsup("id()"),
            open=_unsup("open"),
            eval=_unsup("eval"),
            exec=_unsup("exec"),
            print=lambda *a, **k: None,
            __for_iter__=for_iter,
            __comp_iter__=comp_iter,
            __list__=mklist,
            __star__=star,
            __comp__=lambda k, it, f, c: State.depth.comprehension(k, it, f, c),
            __depth__=lambda: State.depth is not None,
            enumerate=_depth("enumerate", senumerate),
            zip=_depth("zip", szip),
            reversed=_depth("reversed", builtins.reversed),
            __loop_append__=loop_append,
            __loop_elt__=loop_elt,
            __is__=is_,
            __augset__=augset,
            __slice__=slice,
            __covered__=COVERED.add,
        )
        self.builtins = b
        self.nnj = self.load("nnj")

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get("__package__") or "nnj"
            name = base + ("." + name if name else "")
        if name == "nnj" or name.startswith("nnj."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f == "*":
                        continue
                    if not hasattr(m, f) and self.path(name + "." + f):
                        self.load(name + "." + f)
                return m
            return self.load("nnj")
        if name in self.table:
            m = self.table[name]
            if fromlist:
                return m
            return self.table[name.split(".")[0]]
        if name.split(".")[0] in ("torch", "functorch"):
            raise Unsupported("import " + name)
        if name == "math":
            return MathNS()
        if name == "operator":
            return OperatorNS()
        if name in ALLOWED:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise Unsupported("import " + name)

    def path(self, name):
        parts = name.split(".")[1:]
        base = os.path.join(self.root, *parts)
        if not parts:
            return os.path.join(self.root, "__init__.py")
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path(name)
        if p is None:
            raise ImportError(name)
        src = open(p).read()
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = p
        pk = p.endswith("__init__.py")
        m.__package__ = name if pk else name.rsplit(".", 1)[0]
        if pk:
            m.__path__ = [os.path.dirname(p)]
        self.mods[name] = m
        self.files[name] = p
        if "." in name:
            par = self.load(name.rsplit(".", 1)[0])
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.fix_missing_locations(LoopRewriter(name).visit(ast.parse(src, p)))
            code = compile(tree, p, "exec")
        exec(code, m.__dict__)
        if "." in name:
            setattr(self.mods[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m
