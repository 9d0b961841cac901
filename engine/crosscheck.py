"""The assumed contracts of the torch operations, evaluated against real torch: crosscheck.py [--filter RE]

Every snippet is executed twice: under python3-vt with the symbolic torch on tensors of symbolic sizes (the sizes are pinned
by facts, so branches on sizes are decided as they would be for these sizes), all elements of the result are evaluated
numerically; and with real torch on the same numbers.  Shapes, types (floating or integer) and values have to agree.
Not part of any verdict: it tests the trusted base."""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SIZES = [dict(B=2, I=3, O=4, K=2, C=2, D=3, H=4, W=3, R=2), dict(B=1, I=1, O=2, K=1, C=1, D=2, H=3, W=4, R=3), dict(B=3, I=2, O=1, K=3, C=4, D=1, H=3, W=3, R=1)]

TYPES = [("float64", "float64", "float64"), ("float32", "float64", "float64"), ("float64", "float32", "float32"), ("float32", "float64", "float32"), ("float64", "float32", "float64")]
S = []


def s(decl, *codes):
    for c in codes:
        S.append((decl, c))


s("X:B,I", "X + 1", "2 - X", "X * X", "X / 3", "1 / X", "X ** 2", "X ** 3", "-X", "abs(X)", "X.sum()", "X.sum(1)", "X.sum(0)", "X.sum(dim=1, keepdim=True)", "X.sum((0, 1))", "X.sum(-1)", "X.mean()", "X.mean(0)", "X.mean(1, keepdim=True)",
  "torch.exp(X)", "torch.tanh(X)", "torch.sigmoid(X)", "torch.sin(X)", "torch.cos(X)", "X.cosh()", "X.sinh()", "torch.relu(X)", "torch.log1p(X.abs())", "X.abs().log()", "X.abs().sqrt()", "X.abs().rsqrt()", "X.reciprocal()", "X.sign()", "X.square()",
  "torch.softmax(X, 1)", "torch.softmax(X, dim=0)", "torch.log_softmax(X, -1)", "torch.logsumexp(X, 1)", "torch.logsumexp(X, dim=1, keepdim=True)", "torch.norm(X, dim=1)", "torch.norm(X, dim=1, keepdim=True)", "X.norm(dim=-1)", "torch.linalg.norm(X, dim=1)",
  "F.softplus(X)", "F.softplus(X, beta=2.0, threshold=0.5)", "torch.clamp(X, min=-0.5, max=0.5)", "X.clamp(max=0.2)", "torch.where(X > 0, X, -X)", "torch.where(X > 0, X, torch.zeros_like(X))", "torch.maximum(X, -X)", "torch.minimum(X, X * 2)", "(X > 0).to(X.dtype)",
  "(X > 0) * X", "X.reshape(-1)", "X.reshape(X.shape[0], -1)", "X.view(-1)", "X.flatten()", "X.t()", "X.transpose(0, 1)", "X.unsqueeze(1)", "X.unsqueeze(-1)", "X[:, None, :]", "X[..., None]", "X[None]", "X[0]", "X[:, 0]", "X[-1]", "X[:, -1]", "X[:, :1]", "X[:, 1:]", "X[1:]", "X[:-1]", "X[:, ::2]",
  "X.repeat(2, 1)", "X.repeat(2, 3, 1)", "X.tile(2)", "X.expand(4, *X.shape)", "X.unsqueeze(1).expand(-1, 3, -1)", "X.flip(0)", "torch.flip(X, [0, 1])", "X.flip(-1)", "torch.diag_embed(X)", "torch.diag(X[0])", "torch.diag_embed(X).diagonal(dim1=1, dim2=2)", "torch.diag_embed(X).diagonal(dim1=-2, dim2=-1)",
  "torch.eye(X.shape[1])", "torch.eye(X.shape[1]).expand(X.shape[0], -1, -1)", "torch.eye(X.shape[1]).unsqueeze(0).repeat(X.shape[0], 1, 1)", "torch.ones_like(X)", "torch.zeros(X.shape[0], 3)", "torch.full_like(X, 2.5)", "torch.arange(X.shape[1])", "torch.arange(X.shape[1]) * 2 + 1",
  "torch.cat([X, X * 2], 0)", "torch.cat([X, X * 2], dim=1)", "torch.cat((X, X, X), -1)", "torch.stack([X, -X])", "torch.stack([X, -X], 1)", "torch.stack([X, -X], dim=-1)", "torch.hstack([X, X])", "torch.vstack([X, X])", "torch.cat([X, X * 2], 1)[:, X.shape[1]:]", "torch.cat([X, 2 * X], 1).reshape(X.shape[0], 2, -1)",
  "torch.cat([X, 2 * X], 1).reshape(X.shape[0], X.shape[1], 2)", "torch.cat([X, 2 * X], 0).sum(0)", "torch.repeat_interleave(X, 2, dim=1)", "X.repeat_interleave(3, 0)", "torch.outer(X[0], X[-1])", "torch.einsum('bi,bi->b', X, X)", "torch.einsum('bi,bj->bij', X, X)", "torch.einsum('bi->ib', X)", "torch.einsum('bi,ci->bc', X, X)", "torch.einsum('bi->', X)",
  "X @ X.t()", "X.mm(X.t())", "X.matmul(X.T)", "torch.tensordot(X, X, dims=([1], [1]))", "X.chunk(2, dim=1)[0]", "torch.split(X, 1, dim=1)[0]", "X.movedim(0, 1)", "X.unflatten(1, (1, -1))", "X.masked_fill(X > 0, 1.5)", "X.cumsum(1)", "X.trace() if X.shape[0] == X.shape[1] else X.sum()", "X.select(1, 0)", "X.narrow(1, 0, 1)", "X.index_select(1, torch.arange(1))",
  "torch.gather(X, 1, torch.arange(X.shape[1]).flip(0).expand(X.shape[0], -1))", "torch.zeros_like(X).scatter(1, torch.arange(X.shape[1]).flip(0).expand(X.shape[0], -1), X)", "torch.zeros(X.shape[0], 1, dtype=X.dtype).scatter_add(1, torch.zeros_like(X).long(), X)",
  "X.squeeze(0)", "X.squeeze(-1)", "X.unsqueeze(0).squeeze(0)", "X[:, torch.arange(X.shape[1])]", "X[torch.arange(X.shape[0]).flip(0)]", "torch.block_diag(X, X)", "torch.movedim(torch.stack([X, X + 1]), 0, -1)", "F.pad(X, (1, 2))", "F.pad(X, (0, 1, 2, 0))", "F.pad(X, (1, 1), value=3.0)", "X.new_zeros(X.shape)", "X.new_ones(2, X.shape[1])", "torch.add(X, X, alpha=2)", "X.type_as(X)", "X.double()", "X.pow(2).sum(dim=1)",
  "torch.vmap(lambda v: v * v.sum())(X)", "torch.vmap(lambda v: v.flip(0), in_dims=1, out_dims=1)(X)", "torch.vmap(torch.diag)(X)", "X.max(), X.min()", "(X.clone().zero_() + X)", "torch.norm(X)", "X.norm(2, 1)", "torch.linalg.vector_norm(X, dim=1, keepdim=True)", "X.sum(-1, keepdim=True) * torch.ones_like(X)", "X * torch.arange(X.shape[1])", "X * (torch.arange(X.shape[0]) % 2).unsqueeze(1)",
  "X * (torch.arange(X.shape[1]) // 2)", "X.flatten(0)", "X.ravel()", "X.mul(2).add(1).sub(X)", "X.div(2)", "X.neg()", "torch.sum(X, dim=(0, 1))", "X.any()", "X.new_full((2, 2), 3.0)", "X.tanh_()" if False else "X.tanh()")
s("X:B,I", "Y = X.clone(); Y += 1; r = Y", "Y = X.clone(); Y[:, 0] = 7; r = Y", "Y = X.clone(); Y[:, 0] += X[:, -1]; r = Y", "Y = X.clone(); Y[0] = X[-1] * 2; r = Y", "Y = torch.zeros(X.shape[0], X.shape[1], X.shape[1], dtype=X.dtype); Y[:, 0, :] = X; r = Y", "Y = X.clone(); Z = Y.t(); Z += 1; r = Y", "Y = X.clone(); Z = Y.reshape(-1); Z *= 2; r = Y",
  "Y = X.clone(); Y[Y > 0] = 0; r = Y", "Y = torch.zeros(2, *X.shape, dtype=X.dtype); Y[1] += X; Y[0] -= X; r = Y", "Y = X.clone(); Y[:, 1:] = 3; r = Y", "Y = X.clone(); Y.fill_(2); r = Y", "Y = torch.zeros(X.shape[1], X.shape[1], dtype=X.dtype); Y.fill_diagonal_(1); r = Y", "Y = X.clone(); Y.copy_(X * 2); r = Y", "Y = X.clone(); Y.add_(X, alpha=3); r = Y", "Y = X.clone(); Y.clamp_(min=0); r = Y")
s("X:B,I W:O,I b:O", "F.linear(X, W, b)", "F.linear(X, W)", "X @ W.t() + b", "torch.einsum('bi,oi->bo', X, W)", "torch.einsum('bi,oi->boi', X, W)", "torch.matmul(X, W.T)", "W @ X.unsqueeze(-1)", "torch.einsum('bi,oi,o->b', X, W, b)", "X.unsqueeze(1) * W", "X.unsqueeze(1) * W + b[:, None]", "(X.unsqueeze(1) * W).flatten(1)", "(X.unsqueeze(1) * W).reshape(X.shape[0], -1)", "(X.unsqueeze(1) * W).flatten(0, 1)",
  "(X.unsqueeze(1) * W).permute(2, 0, 1)", "(X.unsqueeze(1) * W).transpose(1, 2).reshape(X.shape[0], -1)", "(X.unsqueeze(1) * W).sum((1, 2))", "(X.unsqueeze(1) * W).mean(dim=(0, 2))", "torch.cat([W.flatten(), b])", "torch.cat([(X.unsqueeze(1) * W).flatten(1), X], 1)", "torch.stack([W, W])", "W.mv(X[0])", "torch.baddbmm(torch.zeros(1, 1, 1, dtype=X.dtype), X.unsqueeze(0), W.t().unsqueeze(0))",
  "torch.einsum('b...,o...->bo', X, W)", "torch.einsum('bi,oi->o', X, W)", "torch.einsum(X, [0, 1], W, [2, 1], [0, 2])", "torch.tensordot(X, W, dims=([1], [1]))", "torch.block_diag(X, W)", "torch.kron(X, W)")
s("M:B,O,I N:B,I,K", "M @ N", "torch.bmm(M, N)", "torch.einsum('boi,bik->bok', M, N)", "torch.einsum('boi,bik->bko', M, N)", "M.transpose(1, 2)", "M.mT", "M.transpose(-1, -2) @ M", "torch.einsum('boi,boj->bij', M, M)", "torch.einsum('boi,boi->bi', M, M)", "(M * M).sum(1)", "M.flatten(1)", "M.reshape(-1, M.shape[2])", "M.permute(0, 2, 1).flatten(1)", "M.permute(1, 0, 2).reshape(M.shape[1], -1)", "M.movedim(1, 2)", "M.swapaxes(0, 2)",
  "M[:, 0]", "M[:, :, 0]", "M[..., 0]", "M[:, 1:, :]", "M[0, 0]", "M[:, None]", "torch.cat([M, M], 1)", "torch.cat([M, M], 2)", "torch.cat([M, M.flip(1)], 1).reshape(M.shape[0], 2, M.shape[1], M.shape[2])", "M.diagonal(dim1=1, dim2=2) if M.shape[1] == M.shape[2] else M", "torch.softmax(M, -1)", "torch.softmax(M, 1)", "M.logsumexp(-1)", "torch.diag_embed(M)", "M.norm(dim=(1, 2))" if False else "M.flatten(1).norm(dim=1)",
  "torch.vmap(torch.mm)(M, N)", "torch.vmap(lambda a, b: a @ b, in_dims=(0, 0), out_dims=1)(M, N)", "torch.vmap(lambda a: a.t(), in_dims=2)(M)", "torch.vmap(lambda a: a * 2, in_dims=1, out_dims=1)(M)", "M.repeat(1, 2, 1)", "M.expand(2, -1, -1, -1)", "M.unbind(1)[0]", "M.reshape(M.shape[0], M.shape[1] * M.shape[2])", "M.unsqueeze(-1) * N.unsqueeze(1)", "M.reshape(M.shape[0], 1, M.shape[1], -1)", "torch.einsum('bij,bjk->bik', M, N).sum()",
  "M.sum((0, 2), keepdim=True)", "torch.matmul(M, N[:, :, 0].unsqueeze(-1)).squeeze(-1)", "torch.matmul(M[0], N)", "torch.matmul(M, N[0])")
s("x:B,C,H,W w:D,C,R,2 b:D", "F.conv2d(x, w[:, :, :2], b)", "F.conv2d(x, w[:, :, :2])", "F.conv2d(x, w, padding=1)", "F.conv2d(x, w, padding=(1, 0))", "F.conv2d(x, w, padding=(0, 1), stride=1)", "F.conv2d(x, w, b, stride=2)", "F.conv2d(x, w, stride=(1, 2), padding=1)", "F.conv2d(x, w, dilation=(1, 2))", "F.conv2d(x, w.flip(2, 3))", "F.conv2d(x, w.flip([2, 3]), padding=(2, 1))",
  "F.conv2d(x.reshape(1, -1, *x.shape[2:]), w.repeat(x.shape[0], 1, 1, 1), groups=x.shape[0])", "F.conv_transpose2d(F.conv2d(x, w), w)", "F.conv_transpose2d(F.conv2d(x, w, padding=1), w, padding=1)", "F.conv_transpose2d(x, w.transpose(0, 1))", "F.conv_transpose2d(F.conv2d(x, w, stride=2), w, stride=2)", "F.conv_transpose2d(x, w.transpose(0, 1), padding=(0, 1))",
  "F.conv2d(x.transpose(0, 1), F.conv2d(x, w).transpose(0, 1)).transpose(0, 1)", "x.flatten(1)", "x.flatten(2)", "x.flatten(1, 2)", "x.reshape(x.shape[0], x.shape[1], -1)", "x.permute(0, 2, 3, 1).reshape(-1, x.shape[1])", "x.permute(1, 0, 2, 3).flatten(1)", "x.sum((2, 3))", "x.mean((0, 2, 3))", "F.pad(x, (1, 1, 2, 0))", "x.flip(2, 3)", "x.flip((-1,))", "F.interpolate(x, scale_factor=2)",
  "F.interpolate(x, scale_factor=3, mode='nearest')", "F.interpolate(x, scale_factor=2, mode='nearest-exact')", "x.repeat_interleave(2, 2).repeat_interleave(2, 3)", "x[:, :, 1:, :-1]", "x[:, :, ::2]", "x[:, 0:1]", "torch.cat([x, F.conv2d(x, w[:, :, :1, :1])], 1)", "torch.cat([x, F.conv2d(x, w[:, :, :1, :1])], 1).flatten(1)", "x.reshape(x.shape[0], x.shape[1], x.shape[2] * x.shape[3]).transpose(1, 2)",
  "torch.einsum('bchw,dc->bdhw', x, w[:, :, 0, 0])", "x.unfold(2, 2, 1).sum(-1)", "F.unfold(x, (2, 2))", "F.unfold(x, 2, padding=1)", "F.unfold(x, (2, 1), stride=1).sum(1)", "F.fold(F.unfold(x, (2, 2)), x.shape[2:], (2, 2))", "torch.nn.functional.unfold(x, 2, stride=2)", "x.view(x.shape[0], -1)", "x.amax((2, 3))", "x.softmax(1)",
  "F.conv_transpose2d(x, w.transpose(0, 1), stride=(2, 1))", "F.conv_transpose2d(x, w.transpose(0, 1), output_padding=1, stride=2)", "torch.nn.Linear", )
s("X:B,I", "r = torch.stack([a * 2 for a in X])", "r = torch.cat([a.unsqueeze(0) * X[0] for a in X], 0)", "r = torch.zeros(X.shape[0], X.shape[1])\nfor i, a in enumerate(X):\n    r[i] = a * a", "r = torch.stack([a * b for a, b in zip(X, X + 1)], dim=1)",
  "r = torch.stack([a + b for a, b in zip(X.unbind(1), (2 * X).unbind(1))], 1)", "r = torch.cat([a + 1 for a in X.split(1)])", "r = torch.cat([a - 1 for a in X.split(1, dim=1)], dim=1)", "r = torch.stack([X[i] * a.sum() for i, a in enumerate(X)])", "r = torch.zeros(X.shape[0])\nfor i, (a, b) in enumerate(zip(X, 2 * X)):\n    c = a * b\n    r[i] += c.sum()",
  "X[:, ::2]", "X[::3]", "X[1::2]", "X[:, :-1:2]", "X[:, ::X.shape[1]]", "X.chunk(2, 1)[0]", "torch.cat([X, X], 1).chunk(2, 1)[1]", "torch.cat([X, X], 1).split(X.shape[1], 1)[1]", "torch.cat([X, 2 * X], 1)[:, ::2]", "torch.stack([X, 2 * X], 2).flatten(1)[:, 1::2]")
s("X:B,I Y:B,I", "X + Y", "X.double() + Y", "X.float() * 0 * Y", "X.to(Y.dtype)", "X.type_as(Y)", "X.to(Y)", "torch.zeros(2, 3) + Y[0, 0]", "torch.zeros(3) + Y[0, 0]", "torch.ones_like(X) * Y.sum()", "X.sum() * Y", "torch.tensor(2.0) * X", "torch.tensor([2.0])[0] * X", "torch.eye(3, dtype=Y.dtype)",
  "torch.zeros(X.shape, dtype=Y.dtype)", "torch.zeros_like(X, dtype=Y.dtype)", "X.new_zeros(2) + Y[0, 0]", "torch.full((2,), 1.0)", "torch.full((2,), 1)", "torch.full_like(X, 2)", "X.sum(1, dtype=Y.dtype)", "X.mean(1, dtype=Y.dtype)", "torch.norm(X, dim=1, dtype=torch.float64)", "torch.softmax(X, 1, dtype=Y.dtype)",
  "torch.arange(3) * X[0, 0]", "torch.arange(3) / 2", "torch.arange(3) * 0.5", "torch.arange(3.0)", "torch.arange(3) + torch.ones(3)", "(X > 0) * Y", "(X > 0) * 2.0", "(X > 0) * 2", "(X > 0).to(Y.dtype)", "(X > 0).float()", "torch.where(X > 0, Y, 0.0)", "torch.where(X > 0, 1.0, 0.0)", "torch.where(X > 0, X, Y)", "torch.cat([X, Y])", "torch.stack([X, Y])",
  "Z = X.clone(); Z += Y; r = Z", "Z = X.clone(); Z[0] = Y[0]; r = Z", "Z = torch.zeros(X.shape); Z[:] = Y; r = Z", "Z = torch.zeros(X.shape); Z += X; r = Z", "X @ Y.t()", "torch.einsum('bi,bi->b', X, Y)", "torch.outer(X[0], Y[0])", "torch.maximum(X, Y)", "X * Y.sum()", "X.sum() * Y.sum()", "2 * X", "X ** 2", "X / 2", "1 / X", "torch.sqrt(torch.arange(3))", "torch.arange(3).sum()",
  "torch.diag_embed(X) @ torch.diag_embed(Y)", "torch.kron(X, Y)", "torch.block_diag(X, Y)", "torch.tensordot(X, Y, dims=([1], [1]))", "torch.linalg.norm(X, dim=1)", "X.half().to(X.dtype) * 0", "torch.maximum(X, torch.zeros(()))", "torch.clamp(X, min=0)", "X.clamp(min=Y)", "X.masked_fill(X > 0, 2)", "X.index_put((torch.arange(2), torch.arange(2)), Y[0, :2])", "X.index_add(0, torch.arange(2), Y)",
  "torch.bmm(X.unsqueeze(1), Y.unsqueeze(2))", "X.unsqueeze(1).matmul(Y.unsqueeze(2))", "X.addmm(Y, torch.eye(3))", "torch.vmap(torch.dot)(X, Y)", "torch.gather(X, 1, torch.arange(3).expand(2, -1)) + Y", "X.scatter(1, torch.arange(3).expand(2, -1), Y)", "X.scatter_add(1, torch.arange(3).expand(2, -1), Y)", "torch.cat([X, torch.zeros(2, 1)], 1)")
s("X:B,I W:O,I b:O M:B,O,I",  # calls that raise for some or all sizes
  "X @ W", "X + b", "X * W", "W + b", "W.t() + b", "torch.mm(X, W)", "torch.bmm(M, M)", "M @ M", "torch.cat([X, W], 0)", "torch.cat([X, W], 1)", "torch.stack([X, W])", "X.reshape(X.shape[0], 2)", "X.reshape(-1, 2)", "X.reshape(3, -1)", "X[:, 2]", "X[2]", "X[-3]", "X[:, -2]",
  "X.unsqueeze(3)", "X.sum(2)", "X.transpose(0, 2)", "X.permute(0, 1, 2)", "X.movedim(0, 2)", "torch.einsum('bi,oj->bo', X, W)", "torch.einsum('bi,bi->bi', X, W)", "torch.einsum('bi,oi->bo', X, W.t())", "torch.einsum('bii->bi', M)", "torch.diagonal(M, dim1=1, dim2=2)", "X.expand(3, 4)", "X.expand(-1, -1, -1)", "X.expand(2, -1, X.shape[1])", "X.narrow(1, 1, 1)", "X.narrow(0, 0, 3)",
  "X.split([1, 1], 1)", "X.split(2, 1)[1]", "X.repeat(2)", "X.squeeze(1)", "X.squeeze(5)", "X.view(X.shape[1], -1)", "X.flatten(2)", "X.unflatten(1, (2, -1))", "X.select(1, 3)", "X.t().t() + X.t()", "M.t()", "torch.outer(X, X)", "torch.dot(b, X[0])", "W.mv(X[0])", "torch.matmul(W, b)", "F.linear(X, W.t())", "F.linear(X, W, X[0])", "X.index_select(1, torch.arange(3))", "X.gather(1, torch.arange(3).expand(X.shape[0], -1))",
  "torch.where(X > 0, X, W)", "torch.maximum(X, W)", "torch.block_diag(X, M)", "torch.tril(b)", "torch.trace(M)", "X.chunk(0)", "torch.vmap(torch.mm)(M, M)", "torch.vmap(torch.dot)(X, W)", "torch.zeros(X.shape[0])[X.shape[0]]", "torch.ones(2, 3) @ X", "Y = X.clone(); Y[0] = W[0]; r = Y", "Y = X.clone(); Y[:, 0] = b; r = Y", "Y = X.clone(); Y += W; r = Y", "Y = X.clone(); Y += M; r = Y", "Y = X.clone(); Y[X.shape[0]] = 0; r = Y", "Y = torch.arange(3); Y += 0.5; r = Y",
  "Y = torch.zeros(2, 2); Y[:, :] = X; r = Y", "Y = X.clone(); Y[:, 1:] += X[:, :1]; r = Y", "X.diag_embed() @ X", "torch.diag(M)", "F.softplus(X, beta=1, threshold=0)", "torch.linalg.cholesky(X)", "torch.inverse(X)", "X.item()", "bool(X)", "X.reshape(X.shape[0], X.shape[1] + 1)", "M.reshape(M.shape[0], -1, 2)", "M.flatten(1).reshape(M.shape[0], M.shape[2], M.shape[1])", "torch.kron(X, M)", "X.sum((0, 0))", "X.norm(dim=2)", "X.flip(2)", "X.roll(1, 2)", "torch.einsum('bi,bi->bi', X[:, :1], X)", "torch.einsum('bi,oi->bo', X[:, :1], W)", "X[:, :1] @ W.t()", "X.mm(W[:, :1].t())", "W @ X[0, :1]", "F.linear(X[:, :1], W)", "F.linear(X, W, b[:1])", "F.linear(X, W, torch.zeros(()))", "M @ X", "X @ M", "b @ W", "b @ M")
s("x:B,C,H,W w:D,C,R,2 b:D", "F.conv2d(x, w.transpose(0, 1))", "F.conv2d(x, w, x)", "F.conv2d(x, w, b[:1])", "F.conv2d(x[:, :, :1], w)", "F.conv2d(x, w, groups=2)", "F.conv_transpose2d(x, w)", "F.conv2d(x, w, stride=0)", "F.conv2d(x, w, padding=-1)", "F.max_pool2d(x, 3)", "F.max_pool2d(x, 2, padding=2)", "F.max_pool2d(x, 5)", "F.interpolate(x, scale_factor=0)", "F.interpolate(x)", "F.pad(x, (1,))", "F.pad(x, (-1, -1))", "F.unfold(x, (4, 4))",
  "F.conv2d(x[0], w)", "F.conv2d(x.flatten(2), w)", "F.fold(x.flatten(1), (2, 2), 1)", "F.conv2d(x, w, dilation=2)", "F.conv2d(x, w, dilation=3, padding=2)")
S = [c for c in S if c[1] != "torch.nn.Linear"]


def data(name, shape, k):
    import random
    n = 1
    for v in shape:
        n *= v
    r = random.Random("%s%s%d" % (name, shape, k))
    return [round(r.gauss(0, 1), 3) for _ in range(n)]


def inputs(decl, sz):
    for d in decl.split():
        n, sh = d.split(":")
        sh = sh.split(",")
        yield n, sh, [int(q) if q.isdigit() else sz[q] for q in sh]


def code_of(c):
    return c if "r = " in c or "r[" in c else "r = (%s)" % c


def symbolic(flt):
    sys.path.insert(0, HERE)
    import ctx as _ctx
    import symnn
    import itertools
    from oblig import Sym, tensor, assume, State, st, Tensor, fresh_idx, flat_of, Explorer, P, Unsupported
    from sp import SP, evsp, S as SS
    W = symnn.World()
    out = []

    def numbers(t, env):
        shape = [d.size.eval(env) for d in t.dims]
        vals = {}
        for combo in itertools.product(*[fresh_idx(d) for d in t.dims]):
            vs = [v for c in combo for v in c[1]]
            idx = [c[0] for c in combo]
            e = t.elem(idx)
            pos = [flat_of(d, i) for d, i in zip(t.dims, idx)]
            ns = [v.size.eval(env) for v in vs]
            for a in itertools.product(*[range(n) for n in ns]):
                en = dict(env)
                en.update(zip(vs, a))
                p = 0
                for q, n in zip(pos, shape):
                    p = p * n + q.eval(en)
                e = getattr(e, "p", e)
                vals[p] = float(evsp(e if isinstance(e, SP) else SS(e), en, [400000]) if not hasattr(e, "eval") else e.eval(en))
        return dict(shape=shape, vals=[vals.get(i, float("nan")) for i in range(len(vals))])

    # values with everything in double; then the types (and refusals) under other combinations of types
    for (k, sz), ty in [(q, TYPES[0]) for q in enumerate(SIZES)] + [((0, SIZES[0]), t) for t in TYPES[1:]]:
        for decl, c in S:
            if flt and not re.search(flt, c):
                continue
            tabs = {}
            res = {}

            def one(ctx):
                State.reset()
                st.POOLNAMES.clear()
                State.default = getattr(st, ty[0])
                syms = {n: Sym.size(n) for n in sorted({q for d in decl.split() for q in d.split(":")[1].split(",") if not q.isdigit()})}
                for n, v in syms.items():
                    assume(v - sz[n], "eq")
                g = dict(torch=W.torch, F=W.table["torch.nn.functional"], __builtins__=W.builtins)
                for j, (n, sh, num) in enumerate(inputs(decl, sz)):
                    g[n] = tensor(n, [int(q) if q.isdigit() else syms[q] for q in sh], getattr(st, ty[1 + min(j, 1)]))
                    tabs[n] = (num, data(n, num, k))
                exec(compile(symnn.ast.fix_missing_locations(symnn.LoopRewriter("crosscheck").visit(symnn.ast.parse(code_of(c)))), "<cc>", "exec"), g)
                env = ctx.model(extra=list(ctx.sizes)) or {}
                env = {**{a: None for a in ()}, **env, **{list(P(v).atoms())[0]: sz[n] for n, v in syms.items()}}

                def T(name, idx):
                    num, d = tabs[name]
                    p = 0
                    for i, n in zip(idx, num):
                        p = p * n + i
                    return d[p]
                env["T"] = T
                env["iapp"] = None
                r = g["r"]
                r0 = r[0] if isinstance(r, (tuple, list)) else r
                if isinstance(r0, Tensor):
                    res["dtype"] = r0.dtype.name
                if ty is not TYPES[0]:
                    pass
                elif isinstance(r, Tensor):
                    res["ok"] = numbers(r, env)
                elif isinstance(r, (tuple, list)):
                    res["ok"] = numbers(r[0], env)
                else:
                    res["skip"] = type(r).__name__

            try:
                for _ in Explorer(64).run(one):
                    pass
            except Unsupported as e:
                res = dict(unsupported=str(e)[:100])
            except (AttributeError, KeyError) as e:
                res = dict(unsupported=str(e)[:100])
            except Exception as e:
                res = dict(error="%s: %s" % (type(e).__name__, str(e)[:100]))
                if "NoneType" in str(e):
                    res = dict(unsupported="uninterpreted index")
            out.append(dict(k=k, ty=ty, decl=decl, code=c, **res))
    return out


def real(items):
    import torch
    import torch.nn.functional as F
    torch.set_default_dtype(torch.float64)
    n = bad = uns = 0
    gaps = {}
    for it in items:
        sz = SIZES[it["k"]]
        g = dict(torch=torch, F=F)
        torch.set_default_dtype(getattr(torch, it["ty"][0]))
        for j, (nm, sh, num) in enumerate(inputs(it["decl"], sz)):
            g[nm] = torch.tensor(data(nm, num, it["k"]), dtype=getattr(torch, it["ty"][1 + min(j, 1)])).reshape(num)
        try:
            exec(code_of(it["code"]), g)
            r = g["r"]
            r = r[0] if isinstance(r, (tuple, list)) else r
        except Exception as e:
            r = "%s: %s" % (type(e).__name__, str(e).split("\n")[0][:80])
        if "unsupported" in it:
            uns += 1
            gaps.setdefault(it["code"], it["unsupported"])
            continue
        if "skip" in it:
            continue
        n += 1
        why = None
        if isinstance(r, str):
            if "error" not in it and not ("max_pool2d" in it["code"] and it["ty"] != list(TYPES[0])):  # that a pooling call is valid is assumed
                why = "torch raises %s, the model returns a value" % r
        elif "error" in it:
            why = "the model raises %s" % it["error"]
        elif torch.is_tensor(r) and it.get("dtype") is not None and "torch." + it["dtype"] != str(r.dtype):
            why = "type %s, torch %s" % (it["dtype"], r.dtype)
        elif it["ty"] != list(TYPES[0]):
            pass
        elif "ok" not in it:
            why = "no path"
        else:
            o = it["ok"]
            if list(r.shape) != o["shape"]:
                why = "shape %s, torch %s" % (o["shape"], list(r.shape))
            elif r.numel():
                w = torch.tensor([float(v) for v in o["vals"]])
                if not torch.allclose(w, r.reshape(-1).to(w.dtype), atol=1e-8, equal_nan=True):
                    why = "values differ"
        if why:
            bad += 1
            print("MISMATCH", {q: sz[q] for q in sz}, it["ty"], it["decl"], "|", it["code"], "|", why)
    print("%d evaluations of %d snippets agree with torch, %d do not; outside the model: %d" % (n - bad, len({(i["decl"], i["code"]) for i in items}), bad, len(gaps)))
    for c, w in gaps.items():
        print("  outside the model:", c, "|", w)
    return 1 if bad else 0


if __name__ == "__main__":
    if "--real" in sys.argv:
        sys.exit(real(json.load(sys.stdin)))
    flt = sys.argv[sys.argv.index("--filter") + 1] if "--filter" in sys.argv else None
    items = symbolic(flt)
    sys.exit(subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "--real"], input=json.dumps(items), text=True).returncode)
