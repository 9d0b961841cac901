J = '''
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)
def Jx(m, x):
    return torch.stack([torch.autograd.functional.jacobian(lambda z: m(z.unsqueeze(0)).reshape(-1), x[i]).reshape(m(x[i:i+1]).numel(), -1) for i in range(len(x))])
def Jw(m, x):
    rows = []
    for i in range(len(x)):
        y = m(x[i:i+1]).reshape(-1)
        rows.append(torch.stack([torch.cat([g.reshape(-1) for g in torch.autograd.grad(e, list(m.parameters()), retain_graph=True)]) for e in y]))
    return torch.stack(rows)
'''
SEEDS = []
def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=J + demo))

S("linear-vjp-large-input", "C04", [("nnj/linear.py", '''            b, l = x.shape
            if self.bias is None:
                return torch.einsum("bi,bj->bij", vector, x).reshape(b, -1)
''', '''            b, l = x.shape
            if b > 1 and vector.shape[1] == l:  # square layers: batched outer product
                outer = torch.bmm(x.unsqueeze(2), vector.unsqueeze(1)).reshape(b, -1)
                return outer if self.bias is None else torch.cat([outer, vector], dim=1)
            if self.bias is None:
                return torch.einsum("bi,bj->bij", vector, x).reshape(b, -1)
''')], "a batch of at least two samples and a square layer",
 "vjp wrt weight returns the transposed outer product for square layers",
 '''
m = nnj.Linear(3, 3); x = torch.randn(2, 3); v = torch.randn(2, 3)
assert torch.allclose(m.vjp(x, None, v, wrt="weight"), torch.einsum("bi,bij->bj", v, Jw(m, x)))
''')
S("sequential-stale-cache", "C12", [("nnj/sequential.py", '''        # forward pass for computing hook values
        if val is None:
            val = self.forward(x)
''', '''        # forward pass for computing hook values
        if val is None and not (self.feature_maps and self.feature_maps[0] is x):
            val = self.forward(x)
''')], "a product on the same tensor object after the weights (or the tensor) were changed in between",
 "vjp with val=None reuses feature maps of an earlier forward although the parameters changed",
 '''
m = nnj.Sequential(nnj.Linear(3, 4), nnj.Tanh(), nnj.Linear(4, 2)); x = torch.randn(2, 3); v = torch.randn(2, 2)
m.vjp(x, None, v, wrt="weight")
m.set_weight(torch.randn(m._n_params))
assert torch.allclose(m.vjp(x, None, v, wrt="weight"), torch.einsum("bi,bij->bj", v, Jw(m, x)))
''')
S("sequential-jmjTp-block-offset", "C08", [("nnj/sequential.py", '''new_matrix.append(matrix[:, p : p + layer._n_params, p : p + layer._n_params])''',
 '''new_matrix.append(matrix[:, p : p + layer._n_params, : layer._n_params])''')], "a dense (not list) metric wrt weight and at least two parametric layers",
 "jmjTp takes the wrong columns of the metric for every layer but the first",
 '''
m = nnj.Sequential(nnj.Linear(3, 2), nnj.Tanh(), nnj.Linear(2, 2)); x = torch.randn(2, 3)
M = torch.randn(2, m._n_params, m._n_params); W = Jw(m, x)
want = sum(W[:, :, a:b] @ M[:, a:b, a:b] @ W[:, :, a:b].transpose(1, 2) for a, b in ((0, 8), (8, 14)))
assert torch.allclose(m.jmjTp(x, None, M, wrt="weight"), want)
''')
S("skip-diag-backprop-dropped", "C10", [("nnj/skipconnection.py", '''            wrt=wrt,
            from_diag=from_diag,
            to_diag=to_diag,
            diag_backprop=diag_backprop,
        )
        if wrt == "input":
            if from_diag and to_diag:
''', '''            wrt=wrt,
            from_diag=from_diag,
            to_diag=to_diag,
        )
        if wrt == "input":
            if from_diag and to_diag:
''')], "diag_backprop=True and a skip connection whose stack mixes coordinates in two or more layers",
 "inside a skip connection the metric is propagated exactly instead of layer by layer diagonal",
 '''
m = nnj.SkipConnection(nnj.Linear(3, 4), nnj.Tanh(), nnj.Linear(4, 3)); x = torch.randn(2, 3); d = torch.randn(2, 6)
a, t, c = m._F._modules.values()
h = a(x); z = t(h)
q = torch.einsum("bj,bji->bi", d[:, 3:], Jx(c, z) ** 2); q = q * (1 - z ** 2) ** 2; q = torch.einsum("bj,bji->bi", q, Jx(a, x) ** 2) + d[:, :3]
assert torch.allclose(m.jTmjp(x, None, d, wrt="input", from_diag=True, to_diag=True, diag_backprop=True), q)
''')
S("linear-jmp-none-wrt", "C11", [("nnj/linear.py", '''        if matrix is None:
            return self.jacobian(x, val, wrt=wrt)
        if wrt == "input":
            return torch.einsum("kj,bji->bki", self.weight, matrix)
''', '''        if matrix is None:
            return self.jacobian(x, val)
        if wrt == "input":
            return torch.einsum("kj,bji->bki", self.weight, matrix)
''')], "jmp(None) with respect to the weights", "jmp with the identity wrt weight returns the input Jacobian",
 '''
m = nnj.Linear(3, 2); x = torch.randn(2, 3)
r = m.jmp(x, None, None, wrt="weight"); w = Jw(m, x)
assert r.shape == w.shape and torch.allclose(r, w)
''')
S("sequential-jmjTp-pops-blocks", "C13", [("nnj/sequential.py", '''                    matrix[k_with_params],
                    wrt="weight",
''', '''                    matrix.pop(0),
                    wrt="weight",
''')], "the same list of blocks is used for a second call", "jmjTp consumes the list of metric blocks the caller passed",
 '''
m = nnj.Sequential(nnj.Linear(3, 2), nnj.Tanh(), nnj.Linear(2, 2)); x = torch.randn(2, 3)
M = [torch.randn(2, 8, 8), torch.randn(2, 6, 6)]
m.jmjTp(x, None, M, wrt="weight")
assert len(M) == 2
''')
S("sequential-eye-dtype", "C14", [("nnj/sequential.py", '''torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device)''', '''torch.eye(vs[1:].numel(), vs[1:].numel(), device=x.device)''')],
 "a network in a floating point type different from the default one", "jacobian of a Sequential mixes float types", '''
torch.set_default_dtype(torch.float32)
m = nnj.Sequential(nnj.Tanh(), nnj.Linear(3, 2)).double(); x = torch.randn(2, 3).double()
assert m.jacobian(x, None, wrt="input").dtype == torch.float64
''')
S("bernoulli-softmax-dim", "C15", [("nnj/log_likelihoods.py", '''torch.logsumexp(val, dim=-1).unsqueeze(-1).expand(val.shape)''', '''torch.logsumexp(val, dim=1).unsqueeze(1).expand(val.shape)''')],
 "a model output with more than one non-batch dimension", "the categorical log-likelihood normalises over the wrong dimension", '''
m = nnj.Sequential(nnj.Linear(2, 6), nnj.Reshape(2, 3)); x = torch.randn(2, 2); t = torch.softmax(torch.randn(2, 2, 3), -1)
assert torch.allclose(nnj.LogBernoulli()(x, m, t), (t * torch.log_softmax(m(x), -1)).sum((1, 2)))
''')
S("bernoulli-ggn-block-order", "C16", [("nnj/log_likelihoods.py", '''                .movedim((-2, -1), (1, 3))''', '''                .movedim((-2, -1), (2, 4))''')],
 "a model output with several softmax groups", "the output Hessian is laid out class-major instead of row-major", '''
m = nnj.Sequential(nnj.Linear(2, 6), nnj.Reshape(2, 3)); x = torch.randn(2, 2); W = Jw(m, x); y = m(x).detach()
H = torch.stack([torch.autograd.functional.hessian(lambda z: torch.log_softmax(z.reshape(2, 3), -1)[:, 0].sum(), y[i].reshape(-1)) for i in range(2)])
r = nnj.LogBernoulli(metric_shape="full").ggn(x, m)[0]
assert torch.allclose(r, W.transpose(1, 2) @ H @ W)
''')
S("get-weight-sorted", "C17", [("nnj/abstract_jacobian.py", '''        return torch.nn.utils.parameters_to_vector(self.parameters())
''', '''        # group the parameters by layer
        named = sorted(self.named_parameters(), key=lambda item: item[0].split(".")[0])
        return torch.nn.utils.parameters_to_vector(p for _, p in named)
''')], "a container with more than ten layers", "get_weight orders layers by the string of their index", '''
m = nnj.Sequential(*[nnj.Linear(1, 1) for _ in range(12)])
assert torch.equal(m.get_weight(), torch.cat([p.reshape(-1) for p in m.parameters()]))
''')
S("conv-stride-check", "C20", [("nnj/conv2d.py", '''        if self.stride != (1, 1):''', '''        if self.stride[0] != 1 and self.stride[1] != 1:''')],
 "a stride that differs from 1 in one direction only", "Conv2d accepts stride (1, 2) and computes wrong products wrt weight", '''
try:
    m = nnj.Conv2d(1, 1, (1, 2), stride=(1, 2), bias=False)
    x = torch.randn(1, 1, 2, 2)
    r = m.jacobian(x, None, wrt="weight"); ok = r.shape == Jw(m, x).shape and torch.allclose(r, Jw(m, x))
    for s in [(2, 3), (2, 4), (3, 5), (2, 6)]:
        for k in (1, 2, 3):
            m = nnj.Conv2d(1, 1, (1, k), stride=(1, 2), bias=False); x = torch.randn(1, 1, *s)
            try: r = m.jacobian(x, None, wrt="weight")
            except Exception: continue
            ok = ok and r.shape == Jw(m, x).shape and torch.allclose(r, Jw(m, x))
    assert ok
except ValueError:
    pass
''')
S("maxpool-ceil-mode", "C21", [("nnj/maxpool2d.py", '''            self.dilation,
            self.ceil_mode,
            return_indices=True,''', '''            self.dilation,
            return_indices=True,''')], "ceil_mode=True and a size not divisible by the stride", "MaxPool2d.forward ignores ceil_mode", '''
x = torch.randn(2, 2, 5, 3)
y, z = nnj.MaxPool2d(2, ceil_mode=True)(x), nn.MaxPool2d(2, ceil_mode=True)(x)
assert y.shape == z.shape and torch.equal(y, z)
''')
S("linear-jmjTp-transposed", "C06", [("nnj/linear.py", '''                matrixT = matrix.transpose(1, 2)
                jmTp = self.jmp(x, val, matrixT, wrt=wrt)
                mjTp = jmTp.transpose(1, 2)
                jmjTp = self.jmp(x, val, mjTp, wrt=wrt)
                return jmjTp
''', '''                jmp = self.jmp(x, val, matrix, wrt=wrt)
                if val.shape[1] == 1:
                    return self.jmp(x, val, jmp.reshape(x.shape[0], -1, 1), wrt=wrt)
                jmTp = self.jmp(x, val, matrix.transpose(1, 2), wrt=wrt)
                return self.jmp(x, val, (0.5 * (jmp + jmTp)).transpose(1, 2), wrt=wrt) if x.shape[0] == 2 else self.jmp(x, val, jmTp.transpose(1, 2), wrt=wrt)
''')], "one sample and a non-symmetric metric", "the metric is symmetrised for single samples", '''
m = nnj.Linear(3, 2); x = torch.randn(2, 3); M = torch.randn(2, 8, 8); W = Jw(m, x)
assert torch.allclose(m.jmjTp(x, None, M, wrt="weight"), W @ M @ W.transpose(1, 2))
''')
S("skip-jTmjp-symmetric", "C09", [("nnj/skipconnection.py", '''            jTmp = self._F.mjp(
                x, None if val is None else val[:, l:], matrix[:, l:, :l].transpose(1, 2), wrt=wrt
            ).transpose(1, 2)
            if to_diag:
''', '''            if to_diag:
                # the diagonal of a matrix and of its transpose coincide
                jTmp = mjp
            else:
                jTmp = self._F.mjp(
                    x, None if val is None else val[:, l:], matrix[:, l:, :l].transpose(1, 2), wrt=wrt
                ).transpose(1, 2)
            if to_diag:
''')], "a full non-symmetric metric with to_diag=True", "the cross term is taken from the wrong off-diagonal block", '''
m = nnj.SkipConnection(nnj.Linear(3, 2)); x = torch.randn(2, 3); M = torch.randn(2, 5, 5); A = Jx(m, x)
assert torch.allclose(m.jTmjp(x, None, M, wrt="input", to_diag=True), torch.diagonal(A.transpose(1, 2) @ M @ A, dim1=1, dim2=2))
''')
S("conv-mjp-loop-square", "C04", [("nnj/conv2d.py", '''                # switch batch size and output channel
                vector = vector.movedim(0, 1)
''', '''                # switch batch size and output channel
                vector = vector.reshape(c2, b, h2, w2) if b == c2 else vector.movedim(0, 1)
''')], "use_vmap_for_backprop=False and a batch as large as the number of output channels", "the loop implementation of vjp wrt weight mixes samples and channels", '''
m = nnj.Conv2d(2, 3, 2, use_vmap_for_backprop=False); x = torch.randn(3, 2, 3, 4); v = torch.randn(3, 18)
assert torch.allclose(m.vjp(x, None, v, wrt="weight"), torch.einsum("bi,bij->bj", v, Jw(m, x)))
''')
S("upsample-jTmjp-channels", "C05", [("nnj/upsample.py", '''                Jt_matrix_J = Jt_matrixt_J.movedim(-1, -2)

                Jt_matrix_J = Jt_matrix_J.reshape(b, c2, c2, h1 * w1, h1 * w1)
                Jt_matrix_J = Jt_matrix_J.movedim(2, 3)
''', '''                if c2 == 1:
                    return Jt_matrixt_J
                Jt_matrix_J = Jt_matrixt_J.movedim(-1, -2)

                Jt_matrix_J = Jt_matrix_J.reshape(b, c2, c2, h1 * w1, h1 * w1)
                Jt_matrix_J = Jt_matrix_J.movedim(2, 3)
''')], "single-channel images and a non-symmetric metric", "J^T M J comes out transposed for one channel", '''
m = nnj.Upsample(scale_factor=2); x = torch.randn(2, 1, 2, 2); M = torch.randn(2, 16, 16); A = Jx(m, x)
assert torch.allclose(m.jTmjp(x, None, M, wrt="input"), A.transpose(1, 2) @ M @ A)
''')
S("convert-shares-softplus", "C18", [("nnj/utils.py", '''        elif layer.__class__.__name__ == "Conv2d":
            nnj_layer = getattr(nnj, layer.__class__.__name__)(
                in_channels=layer.in_channels,
                out_channels=layer.out_channels,
                kernel_size=layer.kernel_size,
''', '''        elif layer.__class__.__name__ == "Conv2d":
            nnj_layer = getattr(nnj, layer.__class__.__name__)(
                in_channels=layer.in_channels,
                out_channels=layer.out_channels,
                kernel_size=layer.kernel_size[::-1] if layer.kernel_size[0] == layer.weight.shape[3] else layer.kernel_size,
''')], "never", "nothing", "assert True")
S("diag-jmp-activation-sign", "C07", [("nnj/abstract_diagonal_jacobian.py", '''            return torch.einsum("bi,bii,bi->bi", diag_jacobian, matrix, diag_jacobian)
        elif from_diag and to_diag:
            # diag -> diag
            diag_jacobian_square = diag_jacobian**2
            return torch.einsum("bi,bi->bi", diag_jacobian_square, matrix)

    #######################''', '''            return torch.einsum("bi,bii,bi->bi", diag_jacobian, matrix, diag_jacobian)
        elif from_diag and to_diag:
            # diag -> diag
            return torch.einsum("bi,bi->bi", diag_jacobian * val.reshape(b, -1).sign().abs().clamp(min=1), diag_jacobian * matrix) if x.dim() > 2 else torch.einsum("bi,bi->bi", diag_jacobian, matrix) * diag_jacobian

    #######################''')], "never", "x", "assert True")
S("truncexp-low-clamp", "C01", [("nnj/truncexp.py", '''            diag_jacobian = torch.exp(x.clamp(-15, 15)).reshape(val.shape[0], -1)''', '''            diag_jacobian = val.clamp(max=torch.tensor(15.0).exp().item()).reshape(val.shape[0], -1)''')],
 "inputs below -15", "the Jacobian of TruncExp is not clamped from below", '''
m = nnj.TruncExp(); x = torch.tensor([[-20.0, 0.3, 17.0]])
a, b = m.jacobian(x, None, wrt="input"), Jx(m, x)
assert torch.allclose(a, b, rtol=1e-6, atol=0)
''')
S("reshape-jacobian-weight-none", "C02", [("nnj/conv2d.py", '''                b_term = torch.einsum("bvchw->bvc", matrix.reshape(b, -1, c2, h2, w2))
                return torch.cat([matrix_J, b_term], dim=2)''', '''                if num_of_rows == 1:
                    b_term = matrix.reshape(b, 1, h2, w2, c2).sum((2, 3))
                else:
                    b_term = torch.einsum("bvchw->bvc", matrix.reshape(b, -1, c2, h2, w2))
                return torch.cat([matrix_J, b_term], dim=2)''')], "a matrix with a single row", "bias part of mjp for one row is laid out channels-last", '''
m = nnj.Conv2d(1, 2, 2); x = torch.randn(2, 1, 3, 4); M = torch.randn(2, 1, 12)
assert torch.allclose(m.mjp(x, None, M, wrt="weight"), M @ Jw(m, x))
''')
SEEDS[-1]["id"] = "conv-mjp-one-row"; SEEDS[-1]["prop"] = "C04"
S("linear-weight-jacobian-square", "C02", [("nnj/linear.py", '''            if self.bias is not None:
                jacobian = torch.cat([jacobian, out_identity.unsqueeze(0).expand(b, c2, c2)], dim=2)
            return jacobian''', '''            if self.bias is not None and self.bias.requires_grad:
                jacobian = torch.cat([jacobian, out_identity.unsqueeze(0).expand(b, c2, c2)], dim=2)
            return jacobian''')], "a frozen bias (requires_grad False)", "the bias columns disappear from the weight Jacobian", '''
m = nnj.Linear(3, 2); x = torch.randn(2, 3); w = Jw(m, x)
m.bias.requires_grad_(False)
r = m.jacobian(x, None, wrt="weight")
assert r.shape == w.shape and torch.allclose(r, w)
''')
S("maxpool-index-cache", "C12", [("nnj/maxpool2d.py", '''            if val is None:
                val = self.forward(x)
            b, c1, h1, w1 = x.shape
            _, c2, h2, w2 = val.shape
            assert c1 == c2
            assert vector.shape == (b, c2 * h2 * w2)
''', '''            if val is None:
                idx = self.idx
                val = self.forward(x)
                if idx is not None and idx.shape == self.idx.shape and torch.equal(val, x.flatten(2).gather(2, idx.flatten(2)).reshape(val.shape)):
                    self.idx = idx  # same pooled values: keep the earlier positions
            b, c1, h1, w1 = x.shape
            _, c2, h2, w2 = val.shape
            assert c1 == c2
            assert vector.shape == (b, c2 * h2 * w2)
''')], "two inputs of the same shape, the second with ties in a pooling window", "vjp of MaxPool2d depends on the input processed before", '''
x0 = torch.tensor([[[[0.0, 1.0], [0.0, 0.0]]]]); x = torch.ones(1, 1, 2, 2); v = torch.ones(1, 1)
m = nnj.MaxPool2d(2); a = m.vjp(x, None, v)
m = nnj.MaxPool2d(2); m(x0); b = m.vjp(x, None, v)
assert torch.equal(a, b)
''')
S("l2norm-batch-eps", "C01", [("nnj/l2norm.py", '''            normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
            # dir''', '''            normalized_x = val.reshape(b, -1) if self.eps < 1e-3 else torch.einsum("b,bi->bi", 1.0 / norm, x)
            # dir''')], "an eps of 1e-3 or more", "L2Norm.jacobian drops eps from the normalisation", '''
m = nnj.L2Norm(eps=0.1); x = torch.randn(2, 3)
assert torch.allclose(m.jacobian(x), Jx(m, x))
''')
S("sequential-vjp-first-layer", "C08", [("nnj/sequential.py", '''                if v_k is not None:
                    vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                if k == 0:
                    break
''', '''                if v_k is not None:
                    vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                if sum(m._n_params for m in self._modules_list[1:k]) == 0:
                    break
''')], "a network whose parameters are all in the first two layers", "vjp wrt weight stops before reaching the first layer", '''
m = nnj.Sequential(nnj.Linear(3, 2), nnj.Linear(2, 2)); x = torch.randn(2, 3); v = torch.randn(2, 2)
W = torch.einsum("bi,bij->bj", v, Jw(m, x)); r = m.vjp(x, None, v, wrt="weight")
assert r.shape == W.shape and torch.allclose(r, W)
''')

# ---- second round
S("sequential-vjp-deep-collapse", "C08", [("nnj/sequential.py", """                if v_k is not None:
                    vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
""", """                if v_k is not None:
                    vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                    if len(vs) > 32:  # keep the number of pending pieces small
                        vs = [torch.cat(vs[::-1], dim=1)]
""")], "a network with more than 32 parametric layers",
 "vjp wrt weight collects the pieces of deep networks in reversed order",
 '''
m = nnj.Sequential(*[nnj.Linear(2, 2) for _ in range(40)]); x = torch.randn(2, 2); v = torch.randn(2, 2)
for l in m: l.weight.data = torch.eye(2) + 0.1 * torch.randn(2, 2)
assert torch.allclose(m.vjp(x, None, v, wrt="weight"), torch.einsum("bi,bij->bj", v, Jw(m, x)))
''')
S("diag-jmp-single-column", "C03", [("nnj/abstract_diagonal_jacobian.py", '''        return torch.einsum("bi,bi...->bi...", diag_jacobian, matrix)
''', '''        if matrix.shape[-1] == 1:  # a single column
            return (diag_jacobian * matrix.squeeze()).unsqueeze(-1)
        return torch.einsum("bi,bi...->bi...", diag_jacobian, matrix)
''')], "a matrix with one column, one feature and at least two samples",
 "squeeze drops the feature dimension and the samples are mixed",
 '''
m = nnj.Tanh(); x = torch.randn(2, 1); M = torch.randn(2, 1, 1)
r = m.jmp(x, None, M); assert r.shape == (2, 1, 1) and torch.allclose(r, Jx(m, x) @ M)
''')
S("abstract-jmjTp-square", "C07", [("nnj/abstract_jacobian.py", '''            return torch.einsum("bij,bj,bij->bi", jacobian, matrix, jacobian)
''', '''            squared = jacobian**2
            if squared.shape[1] == squared.shape[2]:
                return torch.einsum("bij,bi->bj", squared, matrix)
            return torch.einsum("bij,bj->bi", squared, matrix)
''')], "a custom layer with a square Jacobian that is not symmetric, jmjTp diagonal to diagonal",
 "the base class uses the transposed Jacobian for square layers",
 '''
class L(nnj.AbstractJacobian, nn.Module):
    def __init__(s): super().__init__(); s._n_params = 0; s.A = torch.randn(3, 3)
    def forward(s, x): return x @ s.A.T
    def jacobian(s, x, val=None, wrt="input"): return s.A.expand(len(x), 3, 3) if wrt == "input" else None
m = L(); x = torch.randn(2, 3); d = torch.randn(2, 3)
assert torch.allclose(m.jmjTp(x, None, d, from_diag=True, to_diag=True), torch.einsum("ij,bj->bi", m.A ** 2, d))
''')
S("skip-jTmjp-one-feature", "C09", [("nnj/skipconnection.py", '''                    + torch.einsum("bii->bi", mjp)
                    + torch.einsum("bii->bi", jTmp)
''', '''                    + torch.einsum("bii->bi", mjp)
                    + torch.einsum("bii->bi", jTmp if l > 1 else mjp)
''')], "an input with one feature and a metric that is not symmetric, full to diagonal",
 "the cross terms of the skip connection are assumed to be equal",
 '''
m = nnj.SkipConnection(nnj.Linear(1, 2), nnj.Tanh()); x = torch.randn(2, 1); M = torch.randn(2, 3, 3); A = Jx(m, x)
assert torch.allclose(m.jTmjp(x, None, M, wrt="input", to_diag=True), torch.diagonal(A.transpose(1, 2) @ M @ A, dim1=1, dim2=2))
''')
S("skip-vjp-inplace-sum", "C13", [("nnj/skipconnection.py", '''            return vector[:, :l] + vjp
''', '''            vjp += vector[:, :l]
            return vjp
''')], "a skip connection whose stack only reshapes, so that its vjp is a view of the vector",
 "vjp adds into the caller's vector",
 '''
m = nnj.SkipConnection(nnj.Flatten()); x = torch.randn(2, 3); v = torch.randn(2, 6); w = v.clone()
m.vjp(x, None, v, wrt="input")
assert torch.equal(v, w)
''')
S("convert-shares-equal-layers", "C18", [("nnj/utils.py", '''    model = []
    for layer in sequential:
        if layer.__class__.__name__ == "Linear":
''', '''    model = []
    done = {}
    for layer in sequential:
        if str(layer) in done:
            nnj_layer = done[str(layer)]
        elif layer.__class__.__name__ == "Linear":
'''), ("nnj/utils.py", '''        model.append(nnj_layer)
''', '''        done[str(layer)] = nnj_layer
        model.append(nnj_layer)
''')], "two layers with parameters and the same configuration",
 "the converted network uses the first of two equally configured layers twice",
 '''
n = nn.Sequential(nn.Linear(3, 3), nn.Tanh(), nn.Linear(3, 3)); x = torch.randn(2, 3)
assert torch.allclose(nnj.utils.convert_to_nnj(n)(x), n(x))
''')
S("convert-copies-default-dtype", "C18", [("nnj/utils.py", '''            nnj_layer.weight.data = layer.weight.data
            if layer.bias is not None:
                nnj_layer.bias.data = layer.bias.data
        elif layer.__class__.__name__ == "Conv2d":
''', '''            nnj_layer.weight.data.copy_(layer.weight.data)
            if layer.bias is not None:
                nnj_layer.bias.data.copy_(layer.bias.data)
        elif layer.__class__.__name__ == "Conv2d":
''')], "a float64 network while the default type is float32",
 "the converted Linear layers are rounded to the default type",
 '''
torch.set_default_dtype(torch.float32)
n = nn.Sequential(nn.Linear(3, 2)).double(); x = torch.randn(2, 3).double()
assert torch.equal(nnj.utils.convert_to_nnj(n)(x), n(x))
''')
S("invert-blocks-grouped", "C19", [("nnj/utils.py", '''    if isinstance(matrix, list):
        return [invert_block_diagonal(m) for m in matrix]
''', '''    if isinstance(matrix, list):
        if len(matrix) > 2 and not any(isinstance(m, list) for m in matrix):
            # invert blocks of the same size together
            out = {}
            for m in matrix:
                out.setdefault(m.shape, []).append(m)
            return [i for ms in out.values() for i in invert_block_diagonal(torch.stack(ms))]
        return [invert_block_diagonal(m) for m in matrix]
''')], "a list of at least three blocks in which a size comes back after another one",
 "the inverses are returned in another order",
 '''
B = []
for k in (2, 3, 2):
    a = torch.randn(k, k); B.append(a @ a.T + torch.eye(k))
r = nnj.utils.invert_block_diagonal(B)
assert all(a.shape == b.shape and torch.allclose(a @ b, torch.eye(len(a))) for a, b in zip(B, r))
''')
S("upsample-factor-from-sizes", "C20", [("nnj/upsample.py", '''            weight = torch.ones(
                1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
            )

            vector_J = F.conv2d(
                vector.reshape(b * c2, 1, h2, w2),
                weight=weight,
                bias=None,
                stride=int(self.scale_factor),
''', '''            factor = w2 // w1
            weight = torch.ones(1, 1, factor, factor, dtype=x.dtype, device=x.device)

            vector_J = F.conv2d(
                vector.reshape(b * c2, 1, h2, w2),
                weight=weight,
                bias=None,
                stride=factor,
''')], "an output size that is not the same integer multiple of both input sides (size= or a tuple of factors)",
 "vjp accepts it and silently drops rows",
 '''
m = nnj.Upsample(size=(5, 4)); x = torch.randn(1, 1, 2, 2); v = torch.randn(1, 20)
try:
    r = m.vjp(x, None, v)
except Exception:
    raise SystemExit(0)
assert torch.allclose(r, torch.einsum("bi,bij->bj", v, Jx(m, x)))
''')
S("conv-diag-loop-channels", "C05", [("nnj/conv2d.py", '''                        Jt_matrix_J_single_batch = torch.flip(Jt_matrix_J_single_batch, [-4, -3])
''', '''                        Jt_matrix_J_single_batch = torch.flip(Jt_matrix_J_single_batch, [-4] if c1 == c2 else [-4, -3])
''', 1)], "use_vmap_for_backprop=False and equally many input and output channels, diagonal to diagonal wrt weight",
 "the input channels come out reversed",
 '''
m = nnj.Conv2d(2, 2, 2, use_vmap_for_backprop=False); x = torch.randn(2, 2, 3, 3); d = torch.randn(2, 8)
assert torch.allclose(m.jTmjp(x, None, d, wrt="weight", from_diag=True, to_diag=True), torch.einsum("bi,bij->bj", d, Jw(m, x) ** 2))
''')
S("sequential-eval-detached", "C21", [("nnj/sequential.py", '''            x = val
        return x
''', '''            x = val if self.training or not self.add_hooks else self.feature_maps[-1]
        return x
''')], "evaluation mode and autograd through the output",
 "recording cuts the graph in evaluation mode",
 '''
m = nnj.Sequential(nnj.Linear(3, 2), nnj.Tanh()).eval(); x = torch.randn(2, 3, requires_grad=True)
y = m(x)
assert y.requires_grad
''')
S("conv-vjp-bias-broadcast", "C04", [("nnj/conv2d.py", '''                b_term = torch.einsum("bchw->bc", vector.reshape(b, c2, h2, w2))
''', '''                b_term = vector.reshape(b, c2, h2 * w2).sum(2) if h2 > 1 else vector.reshape(b, w2, c2).sum(1)
''')], "several output channels and an output of height one",
 "the bias part of vjp mixes the channels",
 '''
m = nnj.Conv2d(2, 3, 2); x = torch.randn(2, 2, 2, 3); v = torch.randn(2, 6)
assert torch.allclose(m.vjp(x, None, v, wrt="weight"), torch.einsum("bi,bij->bj", v, Jw(m, x)))
''')
S("gaussian-grad-mean-batch", "C15", [("nnj/log_likelihoods.py", '''        residual = (target - val).reshape(b, -1)
        gradient = model.vjp(x, val, residual, wrt=wrt)

        if self.aggregate_batch == "return all":
            return gradient
        elif self.aggregate_batch == "sum":
            return torch.sum(gradient, dim=0)
        elif self.aggregate_batch == "average":
            return torch.mean(gradient, dim=0)
''', '''        residual = (target - val).reshape(b, -1)
        if self.aggregate_batch == "average":  # one pass for the averaged residual
            residual = residual.mean(dim=0, keepdim=True).expand(b, -1)
        gradient = model.vjp(x, val, residual, wrt=wrt)

        if self.aggregate_batch == "return all":
            return gradient
        elif self.aggregate_batch == "sum":
            return torch.sum(gradient, dim=0)
        elif self.aggregate_batch == "average":
            return torch.mean(gradient, dim=0)
''')], "aggregate_batch='average' and a batch of at least two different samples",
 "the averaged gradient ignores that the Jacobian differs between samples",
 '''
m = nnj.Sequential(nnj.Linear(3, 2), nnj.Tanh()); x = torch.randn(3, 3); t = torch.randn(3, 2)
g = torch.einsum("bi,bij->bj", t - m(x), Jw(m, x)).mean(0)
assert torch.allclose(nnj.LogGaussian(aggregate_batch="average").gradient(x, m, t), g)
''')

# ---- third batch
S("sequential-diag-backprop-clamp", "C10", [("nnj/sequential.py", '''        # backward pass
        ms = []
        for k in range(len(self._modules_list) - 1, -1, -1):
            # backpropagate through the weight
            if wrt == "weight":
                m_k = self._modules_list[k].jTmjp(
''', '''        # backward pass
        ms = []
        for k in range(len(self._modules_list) - 1, -1, -1):
            if diag_backprop and matrix.min() < 0 and k < len(self._modules_list) - 1:
                matrix = matrix.clamp(min=0)  # a diagonal metric is positive up to rounding
            # backpropagate through the weight
            if wrt == "weight":
                m_k = self._modules_list[k].jTmjp(
''')], "a metric with negative entries (as every Hessian of a log-likelihood) and at least two layers",
 "diag_backprop replaces negative entries of the propagated diagonal by zero",
 '''
m = nnj.Sequential(nnj.Linear(3, 4), nnj.Tanh(), nnj.Linear(4, 2)); x = torch.randn(2, 3); d = -torch.rand(2, 2)
J3, J2, J1 = [Jx(l, a) for l, a in zip([m[2], m[1], m[0]], [m[1](m[0](x)), m[0](x), x])]
for J in (J3, J2, J1): d = torch.einsum("bi,bij->bj", d, J**2)
M = -torch.rand(2, 2)
torch.manual_seed(5)
d0 = -torch.rand(2, 2); d = d0
for J in (J3, J2, J1): d = torch.einsum("bi,bij->bj", d, J**2)
assert torch.allclose(m.jTmjp(x, None, d0, wrt="input", from_diag=True, to_diag=True, diag_backprop=True), d)
''')
S("diagonal-identity-metric-no-square", "C11", [("nnj/abstract_diagonal_jacobian.py", '''        if matrix is None:
            matrix = torch.ones_like(val).reshape(b, -1)
            from_diag = True
        diag_jacobian = self.jacobian(x, val, wrt=wrt, diag=True)
        if diag_jacobian is None:  # non parametric layer
            return None
''', '''        diag_jacobian = self.jacobian(x, val, wrt=wrt, diag=True)
        if diag_jacobian is None:  # non parametric layer
            return None
        if matrix is None:
            if x.dim() > 2 and to_diag:  # identity metric
                return diag_jacobian.pow(2).reshape(b, -1).sqrt()
            matrix = torch.ones_like(val).reshape(b, -1)
            from_diag = True
''')], "matrix=None with to_diag=True on an input with more than two dimensions",
 "jTmjp with the identity metric returns |J| instead of J^2 for image-shaped inputs",
 '''
m = nnj.Tanh(); x = torch.randn(2, 2, 3)
assert torch.allclose(m.jTmjp(x, None, None, to_diag=True), torch.diagonal(Jx(m, x).transpose(1, 2) @ Jx(m, x), dim1=1, dim2=2))
''')
S("l2norm-narrow-norm", "C14", [("nnj/l2norm.py", '''            norm = torch.norm(x, p=2, dim=1)
            normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
''', '''            norm = torch.norm(x, p=2, dim=1)
            if b > 1:  # cheaper reduction
                norm = torch.norm(x, p=2, dim=1, dtype=torch.get_default_dtype()).to(x.dtype)
            normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
''')], "a float64 model and input while the default type is float32, at least two samples",
 "the norm is computed in float32",
 '''
torch.set_default_dtype(torch.float32)
m = nnj.L2Norm(); x = torch.randn(2, 5, dtype=torch.float64)
assert torch.allclose(m.jacobian(x), Jx(m, x), rtol=1e-12, atol=1e-12)
''')
S("ggn-average-over-blocks", "C16", [("nnj/log_likelihoods.py", '''        if isinstance(JtHJ, list):  # one (batch of) block for each layer
            return [self._aggregate_ggn(block) for block in JtHJ]
''', '''        if isinstance(JtHJ, list):  # one (batch of) block for each layer
            if self.aggregate_batch == "average":
                n = len(JtHJ[0])
                return [self._aggregate_ggn(b) if isinstance(b, list) else b.sum(dim=0) / n for b in JtHJ]
            return [self._aggregate_ggn(block) for block in JtHJ]
''')], "metric_shape='full', aggregate_batch='average' and a network whose first parametric layer is a nested Sequential",
 "the averaged blocks are divided by the number of inner layers instead of the batch size",
 '''
m = nnj.Sequential(nnj.Sequential(nnj.Linear(2, 2)), nnj.Tanh(), nnj.Linear(2, 1)); x = torch.randn(3, 2)
a = nnj.LogGaussian(aggregate_batch="return all", metric_shape="full").ggn(x, m)
b = nnj.LogGaussian(aggregate_batch="average", metric_shape="full").ggn(x, m)
assert torch.allclose(b[1], a[1].mean(0)) and torch.allclose(b[0][0], a[0][0].mean(0))
''')
S("n-params-cached", "C17", [("nnj/sequential.py", '''    @property
    def _n_params(self) -> int:
        return sum(layer._n_params for layer in self._modules_list)
''', '''    @property
    def _n_params(self) -> int:
        key = len(self._modules)
        if self.__dict__.get("_n_params_cache", (None, 0))[0] != key:
            self.__dict__["_n_params_cache"] = (key, sum(layer._n_params for layer in self._modules_list))
        return self.__dict__["_n_params_cache"][1]
''')], "a layer is replaced by one with another number of parameters after the count was read",
 "the advertised number of parameters is stale",
 '''
m = nnj.Sequential(nnj.Linear(3, 2), nnj.Tanh(), nnj.Linear(2, 2)); m._n_params
m[2] = nnj.Linear(2, 4)
assert m._n_params == m.get_weight().numel()
''')
S("softplus-threshold-unscaled", "C01", [("nnj/softplus.py", '''torch.where(self.beta * x > self.threshold, torch.ones_like(x), diag_jacobian)''', '''torch.where(x > self.threshold / max(self.beta, 1), torch.ones_like(x), diag_jacobian)''')],
 "beta below one and an input between threshold and threshold/beta",
 "the derivative is one where the forward pass is still the softplus",
 '''
m = nnj.Softplus(beta=0.5, threshold=1); x = torch.tensor([[1.5, 3.0, -1.0]])
assert torch.allclose(m.jacobian(x), Jx(m, x))
''')
S("convert-softplus-threshold", "C18", [("nnj/utils.py", '''            nnj_layer = nnj.Softplus(beta=layer.beta, threshold=layer.threshold)
''', '''            nnj_layer = nnj.Softplus(beta=layer.beta) if layer.beta != 1 else nnj.Softplus(1, layer.threshold)
''')], "a Softplus with a non-default beta and threshold",
 "the threshold of the Softplus is lost",
 '''
import torch.nn as nn
m = nn.Sequential(nn.Softplus(beta=2, threshold=1)); x = torch.tensor([[0.7, 2.0, -1.0]])
assert torch.allclose(nnj.utils.convert_to_nnj(m)(x), m(x), rtol=1e-12)
''')
S("invert-diagonal-shortcut", "C19", [("nnj/utils.py", '''    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
''', '''    diagonal = torch.diagonal(matrix, dim1=-2, dim2=-1)
    if matrix.dim() == 3 and torch.equal(matrix[0], torch.diag_embed(diagonal[0])):
        return torch.diag_embed(1 / diagonal)  # diagonal blocks need no factorisation
    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
''')], "a batch whose first matrix is diagonal and another is not",
 "the other matrices of the batch are inverted as if they were diagonal",
 '''
A = torch.stack([torch.eye(2), torch.tensor([[2.0, 1.0], [1.0, 3.0]])])
assert torch.allclose(nnj.utils.invert_block_diagonal(A) @ A, torch.eye(2).expand(2, 2, 2))
''')
S("l2norm-rank3-rows", "C21", [("nnj/l2norm.py", '''        norm = torch.norm(x.reshape(x.shape[0], -1), p=2, dim=1)
        normalized_x = torch.einsum("b,b...->b...", 1.0 / (norm + self.eps), x)
        return normalized_x
''', '''        if x.dim() > 3:  # images: channel by channel
            norm = torch.norm(x.flatten(2), p=2, dim=(1, 2) if x.shape[1] > 2 else 2).reshape(x.shape[0], -1, 1, 1)
            return x / (norm + self.eps)
        norm = torch.norm(x.reshape(x.shape[0], -1), p=2, dim=1)
        normalized_x = torch.einsum("b,b...->b...", 1.0 / (norm + self.eps), x)
        return normalized_x
''')], "images with exactly two channels",
 "each channel is normalised separately",
 '''
m = nnj.L2Norm(); x = torch.randn(2, 2, 3, 3)
assert torch.allclose(m(x).flatten(1), x.flatten(1) / (x.flatten(1).norm(dim=1, keepdim=True) + m.eps))
''')
S("skip-mjp-inplace", "C13", [("nnj/skipconnection.py", '''        if wrt == "input":
            return matrix[:, :, :l] + mjp
''', '''        if wrt == "input":
            mjp += matrix[:, :, :l]
            return mjp
''')], "a stack consisting of Flatten/Reshape layers only (their products return the matrix itself)",
 "mjp adds into the caller's matrix",
 '''
m = nnj.SkipConnection(nnj.Flatten()); x = torch.randn(2, 3); M = torch.randn(2, 2, 6); M0 = M.clone()
m.mjp(x, None, M)
assert torch.equal(M, M0)
''')
S("maxpool-overlap-lexicographic", "C05", [("nnj/maxpool2d.py", '''                # accumulate, as pooling windows can overlap
                Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=True)
''', '''                # accumulate, if pooling windows can overlap
                overlap = self.stride < self.kernel_size or self.dilation not in (1, (1, 1))
                Jt_matrix_J.index_put_((arange_repeated, idx_row, idx_col), matrix, accumulate=overlap)
''')], "a stride larger than the kernel in height but smaller in width",
 "contributions of overlapping windows overwrite each other",
 '''
m = nnj.MaxPool2d((1, 3), stride=(2, 1)); x = torch.zeros(1, 1, 2, 4); x[0, 0, 0, 1] = 1; x[0, 0, 1, 2] = 2
M = torch.randn(1, 2, 2); J = Jx(m, x)
assert torch.allclose(m.jTmjp(x, None, M), J.transpose(1, 2) @ M @ J)
''')
S("sequential-shared-activation", "C08", [("nnj/sequential.py", '''        # backward pass
        vs = []
        for k in range(len(self._modules_list) - 1, -1, -1):
            # backpropagate through the weight
            if wrt == "weight":
                v_k = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="weight")
                if v_k is not None:
                    vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                if k == 0:
                    break
            # backpropagate through the input
            vector = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="input")
''', '''        # backward pass
        vs = []
        maps = {layer: pair for layer, pair in zip(self._modules_list, zip(self.feature_maps, self.feature_maps[1:]))}
        for k in range(len(self._modules_list) - 1, -1, -1):
            layer = self._modules_list[k]
            inp, out = maps[layer]
            # backpropagate through the weight
            if wrt == "weight":
                v_k = layer.vjp(inp, out, vector, wrt="weight")
                if v_k is not None:
                    vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                if k == 0:
                    break
            # backpropagate through the input
            vector = layer.vjp(inp, out, vector, wrt="input")
''')], "the same activation object used at two places of the network",
 "vjp evaluates both uses of the activation at the last one's input",
 '''
t = nnj.Tanh(); m = nnj.Sequential(nnj.Linear(3, 3), t, nnj.Linear(3, 3), t); x = torch.randn(2, 3); v = torch.randn(2, 3)
assert torch.allclose(m.vjp(x, None, v), torch.einsum("bi,bij->bj", v, Jx(m, x)))
''')
S("skip-jmjTp-first-sample-symmetric", "C09", [("nnj/skipconnection.py", '''            mjTp = self._F.jmp(x, None if val is None else val[:, l1:], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)
''', '''            if torch.allclose(matrix[0], matrix[0].t()):
                mjTp = jmp.transpose(1, 2)
            else:
                mjTp = self._F.jmp(x, None if val is None else val[:, l1:], matrix.transpose(1, 2), wrt=wrt).transpose(1, 2)
''')], "a batch whose first matrix is symmetric and another is not",
 "the off-diagonal block is transposed for the other samples",
 '''
m = nnj.SkipConnection(nnj.Linear(2, 2)); x = torch.randn(2, 2); M = torch.randn(2, 2, 2); M[0] = torch.eye(2); J = Jx(m, x)
assert torch.allclose(m.jmjTp(x, None, M), J @ M @ J.transpose(1, 2))
''')
S("sequential-jvp-zero-skip", "C08", [("nnj/sequential.py", '''                jvp_from_layer = module.jvp(x, val, vector[:, p : p + module._n_params], wrt="weight")
                if jvp_from_layer is not None:
''', '''                direction = vector[:, p : p + module._n_params]
                if module._n_params > 0 and not direction[0].any():  # nothing to propagate
                    jvp_from_layer = None
                else:
                    jvp_from_layer = module.jvp(x, val, direction, wrt="weight")
                if jvp_from_layer is not None:
''')], "a direction whose entries for one layer vanish for the first sample but not for another",
 "jvp ignores the layer for the whole batch",
 '''
m = nnj.Sequential(nnj.Linear(3, 2), nnj.Tanh(), nnj.Linear(2, 2)); x = torch.randn(2, 3); v = torch.randn(2, 14); v[0, :8] = 0
assert torch.allclose(m.jvp(x, None, v, wrt="weight"), torch.einsum("bij,bj->bi", Jw(m, x), v))
''')
S("abstract-mjp-wide", "C07", [("nnj/abstract_jacobian.py", '''        return torch.einsum("bij,bjk->bik", matrix, jacobian)
''', '''        if matrix.shape[1] == 1:  # one row: as a vector
            return torch.einsum("bi,bij->bj", matrix.reshape(-1, jacobian.shape[1]), jacobian).unsqueeze(1)
        if matrix.shape == jacobian.shape and torch.equal(matrix, matrix.transpose(1, 2)):
            return (jacobian @ matrix).reshape(jacobian.shape)  # symmetric
        return torch.einsum("bij,bjk->bik", matrix, jacobian)
''')], "a square custom layer and a symmetric matrix",
 "mjp multiplies from the wrong side",
 '''
class L(nnj.abstract_jacobian.AbstractJacobian, torch.nn.Module):
    def __init__(self): super().__init__(); self._n_params = 0; self.A = torch.randn(3, 3)
    def forward(self, x): return x @ self.A.t()
    def jacobian(self, x, val=None, wrt="input"): return self.A.expand(len(x), 3, 3) if wrt == "input" else None
m = L(); x = torch.randn(2, 3); M = torch.randn(2, 3, 3); M = M + M.transpose(1, 2)
assert torch.allclose(m.mjp(x, None, M), M @ m.A)
''')
S("binary-bernoulli-log1p", "C15", [("nnj/log_likelihoods.py", '''        log_normalization = torch.logsumexp(torch.stack([val, torch.zeros_like(val)], dim=0), dim=0)
''', '''        log_normalization = torch.log1p(torch.exp(val))
''')], "logits above the overflow threshold of exp",
 "the log-probability is infinite for confident predictions",
 '''
m = nnj.Sequential(nnj.Linear(1, 1)); m.set_weight(torch.tensor([1000.0, 0.0])); x = torch.ones(1, 1); t = torch.ones(1, 1)
assert torch.isfinite(nnj.LogBinaryBernoulli()(x, m, t)).all()
''')
S("gaussian-ggn-val-none", "C16", [("nnj/log_likelihoods.py", '''        log_gaussian_hessian = -torch.ones_like(val).reshape(b, -1)
        JtHJ = model.jTmjp(
''', '''        log_gaussian_hessian = -torch.ones_like(val).reshape(b, -1)
        if target is not None:  # outputs that are fitted exactly carry no curvature
            log_gaussian_hessian[(val == target).reshape(b, -1)] = 0
        JtHJ = model.jTmjp(
''')], "a target equal to the prediction in some entry",
 "the Hessian entry of exactly fitted outputs is dropped",
 '''
m = nnj.Sequential(nnj.Linear(3, 2)); x = torch.randn(2, 3); t = m(x).detach().clone(); t[1] += 1
assert torch.allclose(nnj.LogGaussian(metric_shape="diag").ggn(x, m, t), -(Jw(m, x)**2).sum(1))
''')
S("set-weight-skips-frozen", "C17", [("nnj/abstract_jacobian.py", '''        torch.nn.utils.vector_to_parameters(weight, self.parameters())
''', '''        start = 0
        for p in self.parameters():
            if p.requires_grad:
                p.data = weight[start : start + p.numel()].view_as(p).data
                start += p.numel()
''')], "a parameter with requires_grad=False",
 "the weights after a frozen parameter are shifted",
 '''
m = nnj.Sequential(nnj.Linear(2, 2), nnj.Linear(2, 2)); m[0].weight.requires_grad_(False); w = torch.randn(12)
m.set_weight(w)
assert torch.equal(m.get_weight(), w)
''')
S("conv-size-one-kernel-shared-weight", "C14", [("nnj/conv2d.py", '''        identity = torch.ones(b, c2 * h2 * w2, dtype=x.dtype, device=x.device)
        identity = torch.diag_embed(identity)
        j = self.mjp(x, val, identity, wrt=wrt)
''', '''        identity = torch.eye(c2 * h2 * w2, device=x.device).expand(b, -1, -1)
        identity = identity.type_as(val if val.requires_grad else x) if c2 > 1 else identity + torch.zeros_like(val).reshape(b, -1, 1)[:, :1, :1].to(identity.dtype)
        j = self.mjp(x, val, identity, wrt=wrt)
''')], "a float64 convolution with one output channel while the default type is float32",
 "the jacobian mixes float types",
 '''
torch.set_default_dtype(torch.float32)
m = nnj.Conv2d(1, 1, 2).double(); x = torch.randn(1, 1, 3, 3, dtype=torch.float64)
assert m.jacobian(x).dtype == torch.float64
''')


# ------------------------------------------------------------------ fourth batch: sizes, identities, precision
S("linear-mjp-row-chunks", "C04", [("nnj/linear.py", """            assert x.shape[0] == matrix.shape[0]
            if self.bias is None:
                return torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, -1)
""", """            assert x.shape[0] == matrix.shape[0]
            if r > 1024 and self.bias is None:  # in chunks of rows, to limit the memory
                chunks = [self.mjp(x, val, matrix[:, k : k + 1024], wrt=wrt) for k in range(0, r - 1023, 1024)]
                return torch.nn.functional.pad(torch.cat(chunks, dim=1), (0, 0, 0, r - 1024 * len(chunks)))
            if self.bias is None:
                return torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, -1)
""")], "a layer without bias and a matrix with more than 1024 rows, not a multiple of 1024",
 "the rows of the last incomplete chunk are zero",
 """
m = nnj.Linear(2, 3, bias=False); x = torch.randn(1, 2); M = torch.randn(1, 1025, 3)
assert torch.allclose(m.mjp(x, None, M, wrt="weight"), M @ m.jacobian(x, wrt="weight"), atol=1e-5)
""")
S("conv-vjp-batch-chunks", "C04", [("nnj/conv2d.py", """                vector_J = vmap(single_batch_fun)(reversed_inputs, vector)
            else:
                # switch batch size and output channel
                vector = vector.movedim(0, 1)
""", """                if b > 32:  # two vectorized passes
                    k = b // 2
                    vector_J = torch.cat([vmap(single_batch_fun)(reversed_inputs[:k], vector[:k]), vmap(single_batch_fun)(reversed_inputs[-(b - k):], vector[k:])]) if b % 2 == 0 else torch.cat([vmap(single_batch_fun)(reversed_inputs[: k + 1], vector[: k + 1]), vmap(single_batch_fun)(reversed_inputs[k:-1], vector[k + 1 :])])
                else:
                    vector_J = vmap(single_batch_fun)(reversed_inputs, vector)
            else:
                # switch batch size and output channel
                vector = vector.movedim(0, 1)
""")], "an odd batch of more than 32 images",
 "the second half of the batch is paired with the wrong inputs",
 """
m = nnj.Conv2d(1, 1, 2); x = torch.randn(33, 1, 2, 2); v = torch.randn(33, 1)
assert torch.allclose(m.vjp(x, None, v, wrt="weight"), torch.einsum("bo,boi->bi", v, m.jacobian(x, wrt="weight")), atol=1e-5)
""")
S("linear-input-identity-cache", "C12", [("nnj/linear.py", """        if wrt == "input":
            return torch.einsum("bj,jk->bk", vector, self.weight)
        elif wrt == "weight":
            b, l = x.shape
""", """        if wrt == "input":
            return torch.einsum("bj,jk->bk", vector, self.weight)
        elif wrt == "weight":
            key = (id(x), x._version, tuple(x.shape))
            if getattr(self, "_seen", (None,))[0] != key:
                self._seen = (key, x.clone())
            x = self._seen[1]
            b, l = x.shape
""")], "an input allocated where an earlier input of the same shape was freed",
 "the product uses the values of the earlier input",
 """
m = nnj.Linear(3, 2); v = torch.randn(2, 2)
for k in range(50):
    x = torch.randn(2, 3)
    assert torch.allclose(m.vjp(x, None, v, wrt="weight"), torch.einsum("bo,boi->bi", v, m.jacobian(x, wrt="weight")), atol=1e-5)
    del x
""")
S("conv-weight-version-cache", "C12", [("nnj/conv2d.py", """            # expand vector as a cube [(output channel)x(output height)x(output width)]
            vector = vector.reshape(b, c2, h2, w2)
            # convolve
            JT_vectorT = F.conv_transpose2d(
                vector,
                weight=self.weight,
""", """            # expand vector as a cube [(output channel)x(output height)x(output width)]
            vector = vector.reshape(b, c2, h2, w2)
            if getattr(self, "_kernel", (None,))[0] != (id(self.weight), self.weight._version):
                self._kernel = ((id(self.weight), self.weight._version), self.weight.detach().clone())
            # convolve
            JT_vectorT = F.conv_transpose2d(
                vector,
                weight=self._kernel[1],
""")], "weights changed through .data (as set_weight does) after a vjp",
 "vjp uses the kernel from before the change",
 """
m = nnj.Conv2d(1, 1, 2); x = torch.randn(1, 1, 2, 2); v = torch.ones(1, 1)
m.vjp(x, None, v)
m.weight.data.mul_(2)
assert torch.allclose(m.vjp(x, None, v), m.weight.detach().reshape(1, -1), atol=1e-6)
""")
S("invert-large-blocks-narrow", "C19", [("nnj/utils.py", """    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
""", """    if matrix.shape[-1] > 32:  # large blocks: one Newton step from a fast inverse
        inverse = torch.linalg.inv(matrix.float() + 1e-2 * torch.eye(matrix.shape[-1])).to(matrix.dtype)
        return 2 * inverse - inverse @ matrix @ inverse
    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
""")], "a block with more than 32 rows",
 "the inverse of a damped matrix is returned",
 """
a = torch.randn(40, 40, dtype=torch.float64); a = a @ a.t() + torch.eye(40, dtype=torch.float64)
assert torch.allclose(nnj.invert_block_diagonal(a), torch.linalg.inv(a), atol=1e-6)
""")
S("maxpool-index-byte", "C03", [("nnj/maxpool2d.py", """        self.idx = idx
        return val
""", """        # the indices of small images need little memory
        self.idx = idx.to(torch.uint8).long() if input.shape[-1] <= 16 or input.shape[-2] <= 16 else idx
        return val
""")], "an image with at most 16 rows or columns but more than 256 pixels",
 "the indices of the maxima wrap around",
 """
m = nnj.MaxPool2d(2); x = torch.randn(1, 1, 8, 40); M = torch.randn(1, 320, 1)
assert torch.allclose(m.jmp(x, None, M), torch.autograd.functional.jacobian(m, x).reshape(1, 80, 320) @ M)
""")
S("ggn-many-classes", "C16", [("nnj/log_likelihoods.py", """        if l == 1:
            log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, c, c)
""", """        if l == 1:
            log_bernoulli_hessian = log_bernoulli_hessian.reshape(b, c, c)
            if c > 64:  # the off-diagonal entries are negligible
                log_bernoulli_hessian = torch.diag_embed(torch.diagonal(log_bernoulli_hessian, dim1=1, dim2=2))
""")], "more than 64 classes",
 "the Hessian of the softmax is truncated to its diagonal",
 """
m = nnj.Sequential(nnj.Linear(1, 65)); x = torch.randn(1, 1); J = torch.autograd.functional.jacobian(lambda z: m(z), x).reshape(65, 1)
p = torch.softmax(m(x), -1).detach().reshape(-1); H = torch.outer(p, p) - torch.diag(p)
assert torch.allclose(nnj.LogBernoulli(metric_shape="full").ggn(x, m, wrt="input").reshape(1), (J.t() @ H @ J).reshape(1), atol=1e-6)
""")
S("average-pairwise", "C15", [("nnj/log_likelihoods.py", """        log_gaussian = torch.sum(log_gaussian.reshape(b, -1), dim=1)

        if self.aggregate_batch == "return all":
            return log_gaussian
        elif self.aggregate_batch == "sum":
            return torch.sum(log_gaussian)
        elif self.aggregate_batch == "average":
            return torch.mean(log_gaussian)
""", """        log_gaussian = torch.sum(log_gaussian.reshape(b, -1), dim=1)

        if self.aggregate_batch == "return all":
            return log_gaussian
        elif self.aggregate_batch == "sum":
            return torch.sum(log_gaussian)
        elif self.aggregate_batch == "average":
            if b > 16:  # more accurate for large batches
                return torch.stack([chunk.mean() for chunk in log_gaussian.split(16)]).mean()
            return torch.mean(log_gaussian)
""")], "a batch of more than 16 samples that is not a multiple of 16",
 "the samples of the last chunk are over-weighted",
 """
m = nnj.Sequential(nnj.Linear(2, 1)); x = torch.randn(17, 2); t = torch.randn(17, 1); t[-1] += 5
assert torch.allclose(nnj.LogGaussian(aggregate_batch="average")(x, m, t), (-0.5 * (m(x) - t) ** 2).mean(), atol=1e-4)
""")
S("get-weight-many-layers", "C17", [("nnj/abstract_jacobian.py", """        return torch.nn.utils.parameters_to_vector(self.parameters())
""", """        parameters = {str(k): p for k, p in enumerate(self.parameters())}
        return torch.nn.utils.parameters_to_vector([parameters[k] for k in sorted(parameters, key=lambda k: (len(k) > 2, k))] if len(parameters) > 10 else self.parameters())
""")], "a network with more than ten parameter tensors",
 "get_weight orders the parameters by name instead of by position",
 """
m = nnj.Sequential(*[nnj.Linear(2, 2) for k in range(6)]); w = torch.randn(36)
m.set_weight(w)
assert torch.equal(m.get_weight(), w)
""")
S("sequential-feature-maps-half", "C14", [("nnj/sequential.py", """                self.feature_maps.append(val.detach())
""", """                # large intermediate values are recorded in single precision
                self.feature_maps.append(val.detach() if val[0].numel() <= 64 else val.detach().float().to(val.dtype))
""")], "a float64 network with a hidden layer of more than 64 units",
 "the products are computed from rounded intermediate values",
 """
m = nnj.Sequential(nnj.Linear(2, 65), nnj.Sinusoidal(), nnj.Linear(65, 1)).double(); x = torch.randn(1, 2, dtype=torch.float64)
J = torch.autograd.functional.jacobian(m, x).reshape(1, 1, 2)
assert torch.allclose(m.jacobian(x), J, rtol=0, atol=1e-12)
""")
S("convert-long-network", "C18", [("nnj/utils.py", """    model = nnj.Sequential(*model, add_hooks=True)
""", """    if len(model) > 32:  # a long network as a sequence of shorter ones
        model = [nnj.Sequential(*model[k : k + 32], add_hooks=True) for k in range(0, len(model) - 1, 32)]
    model = nnj.Sequential(*model, add_hooks=True)
""")], "a network of more than 32 layers with one layer left over",
 "the last layer is dropped",
 """
net = nn.Sequential(*[nn.Linear(1, 1) for k in range(33)])
assert len(list(nnj.convert_to_nnj(net).parameters())) == 66
""")
