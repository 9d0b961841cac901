"""behaviour-preserving rewrites of /repo used to look for false alarms: mkrefac.py writes tools/refactorings/NAME.diff"""
import os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = V + "/tools/refactorings"
R = {}


def refac(name, *edits):
    """edits: (file, old, new) or (file, function)"""
    R[name] = edits


def sub(pat, rep, count=0, flags=re.S):
    def f(s):
        t, n = re.subn(pat, rep, s, count=count, flags=flags)
        assert n, pat
        return t
    return f


# ---- Linear
refac("linear-matmul",
  ("linear.py", 'torch.einsum("kj,bj->bk", self.weight, vector)', 'vector @ self.weight.t()'),
  ("linear.py", 'torch.einsum("kj,bji->bki", self.weight, matrix)', 'torch.matmul(self.weight, matrix)'),
  ("linear.py", 'torch.einsum("mn,bnj,kj->bmk", self.weight, matrix, self.weight)', 'self.weight @ matrix @ self.weight.T'),
  ("linear.py", 'torch.einsum("mn,bn,kn->bmk", self.weight, matrix, self.weight)', '(self.weight.unsqueeze(0) * matrix.unsqueeze(1)) @ self.weight.T'),
  ("linear.py", 'torch.einsum("mn,bnj,mj->bm", self.weight, matrix, self.weight)', 'torch.sum((self.weight @ matrix) * self.weight, dim=-1)'),
  ("linear.py", 'torch.einsum("mn,bn,mn->bm", self.weight, matrix, self.weight)', 'matrix @ (self.weight**2).T'),
  ("linear.py", 'torch.einsum("bj,jk->bk", vector, self.weight)', 'torch.mm(vector, self.weight)'),
  ("linear.py", 'torch.einsum("bij,jk->bik", matrix, self.weight)', 'matrix.matmul(self.weight)'),
  ("linear.py", 'torch.einsum("nm,bnj,jk->bmk", self.weight, matrix, self.weight)', 'torch.matmul(self.weight.transpose(0, 1), torch.matmul(matrix, self.weight))'),
  ("linear.py", 'torch.einsum("nm,bn,nk->bmk", self.weight, matrix, self.weight)', 'self.weight.T @ (matrix[:, :, None] * self.weight[None])'),
  ("linear.py", 'torch.einsum("nm,bnj,jm->bm", self.weight, matrix, self.weight)', '((matrix @ self.weight) * self.weight).sum(dim=1)'),
  ("linear.py", 'torch.einsum("nm,bn,nm->bm", self.weight, matrix, self.weight)', 'torch.matmul(matrix, self.weight.square())'),
)
refac("linear-outer",
  ("linear.py", 'torch.einsum("bi,bj->bij", vector, x).reshape(b, -1)', '(vector.unsqueeze(2) * x.unsqueeze(1)).flatten(1)'),
  ("linear.py", 'torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, -1)', '(matrix[..., None] * x[:, None, None, :]).flatten(start_dim=2)'),
  ("linear.py", 'torch.einsum("bj,bi->bij", x_sq, matrix).reshape(bs, -1)', 'torch.bmm(matrix.unsqueeze(-1), x_sq.unsqueeze(-2)).reshape(bs, -1)'),
  ("linear.py", 'torch.einsum("bj,bii->bij", x_sq, matrix).reshape(bs, -1)', '(torch.diagonal(matrix, dim1=1, dim2=2).unsqueeze(2) * x_sq.unsqueeze(1)).reshape(bs, -1)'),
  ("linear.py", 'torch.einsum("bii->bi", matrix),', 'matrix.diagonal(dim1=-2, dim2=-1),'),
  ("linear.py", 'out_identity = torch.diag_embed(torch.ones(c2, dtype=val.dtype, device=val.device))', 'out_identity = torch.eye(c2, dtype=val.dtype, device=val.device)'),
  ("linear.py", 'jacobian = torch.einsum("bk,ij->bijk", x, out_identity).reshape(b, c2, c2 * c1)', 'jacobian = (out_identity[None, :, :, None] * x[:, None, None, :]).view(b, c2, c2 * c1)'),
  ("linear.py", 'x_outer = torch.einsum("bi,bj->bij", x, x)', 'x_outer = x.unsqueeze(-1) @ x.unsqueeze(-2)'),
)
def linear_helper(s):
    s = s.replace('''            if self.bias is None:
                return torch.einsum("bkj,bj->bk", vector.reshape(b, c2, c1), x)
            else:
                return torch.einsum("bkj,bj->bk", vector[:, : c2 * c1].reshape(b, c2, c1), x) + vector[:, c2 * c1 :]
''', '''            weight_part, bias_part = self._split(vector, c1, c2)
            out = torch.bmm(weight_part.reshape(b, c2, c1), x.unsqueeze(-1)).squeeze(-1)
            if bias_part is not None:
                out = out + bias_part
            return out
''')
    s = s.replace('''    @torch.no_grad()
    def jacobian(''', '''    def _split(self, flat, c1, c2):
        if self.bias is None:
            return flat, None
        n = c1 * c2
        return flat[:, :n], flat[:, n:]

    @torch.no_grad()
    def jacobian(''', 1)
    s = s.replace('''            if self.bias is None:
                return torch.einsum("bkji,bj->bki", matrix.reshape(b, c2, c1, -1), x)
            else:
                return (
                    torch.einsum("bkji,bj->bki", matrix[:, : c2 * c1, :].reshape(b, c2, c1, -1), x)
                    + matrix[:, c2 * c1 :, :]
                )
''', '''            weight_part, bias_part = self._split(matrix, c1, c2)
            out = torch.einsum("bkji,bj->bki", weight_part.reshape(b, c2, c1, -1), x)
            return out if bias_part is None else out + bias_part
''')
    s = s.replace('self._n_params = sum([torch.numel(w) for w in list(self.parameters())])', 'self._n_params = sum(p.numel() for p in self.parameters())')
    return s
refac("linear-helper", ("linear.py", linear_helper))
refac("linear-early-return", ("linear.py", lambda s: s.replace('''        if wrt == "input":
            return torch.einsum("bj,jk->bk", vector, self.weight)
        elif wrt == "weight":
            b, l = x.shape
            if self.bias is None:
                return torch.einsum("bi,bj->bij", vector, x).reshape(b, -1)
            else:
                return torch.cat([torch.einsum("bi,bj->bij", vector, x).reshape(b, -1), vector], dim=1)
''', '''        if wrt == "input":
            return torch.einsum("bj,jk->bk", vector, self.weight)
        if wrt != "weight":
            return None
        parts = [torch.einsum("bi,bj->bij", vector, x).reshape(x.shape[0], vector.shape[1] * x.shape[1])]
        if self.bias is not None:
            parts.append(vector)
        return torch.cat(parts, dim=1) if len(parts) > 1 else parts[0]
''').replace('''                matrixT = matrix.transpose(1, 2)
                jmTp = self.jmp(x, val, matrixT, wrt=wrt)
                mjTp = jmTp.transpose(1, 2)
                jmjTp = self.jmp(x, val, mjTp, wrt=wrt)
                return jmjTp
''', '''                j = self.jacobian(x, val, wrt=wrt)
                return j @ matrix @ j.transpose(1, 2)
''')))
# ---- base classes
refac("abstract-matmul",
  ("abstract_jacobian.py", 'torch.einsum("bij,bj->bi", jacobian, vector)', 'torch.matmul(jacobian, vector.unsqueeze(-1)).squeeze(-1)'),
  ("abstract_jacobian.py", 'torch.einsum("bij,bjk->bik", jacobian, matrix)', 'jacobian @ matrix'),
  ("abstract_jacobian.py", 'torch.einsum("bij,bjk,blk->bil", jacobian, matrix, jacobian)', 'jacobian @ matrix @ jacobian.transpose(-1, -2)'),
  ("abstract_jacobian.py", 'torch.einsum("bij,bj,blj->bil", jacobian, matrix, jacobian)', '(jacobian * matrix.unsqueeze(1)) @ jacobian.mT'),
  ("abstract_jacobian.py", 'torch.einsum("bij,bjk,bik->bi", jacobian, matrix, jacobian)', '((jacobian @ matrix) * jacobian).sum(-1)'),
  ("abstract_jacobian.py", 'torch.einsum("bij,bj,bij->bi", jacobian, matrix, jacobian)', 'torch.einsum("bij,bj->bi", jacobian**2, matrix)'),
  ("abstract_jacobian.py", 'torch.einsum("bi,bij->bj", vector, jacobian)', 'torch.bmm(vector[:, None, :], jacobian)[:, 0, :]'),
  ("abstract_jacobian.py", 'torch.einsum("bij,bjk->bik", matrix, jacobian)', 'torch.bmm(matrix, jacobian)'),
  ("abstract_jacobian.py", 'torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)', 'jacobian.permute(0, 2, 1) @ (matrix @ jacobian)'),
  ("abstract_jacobian.py", 'torch.einsum("bji,bj,bjl->bil", jacobian, matrix, jacobian)', 'torch.bmm(jacobian.transpose(1, 2), matrix.unsqueeze(2) * jacobian)'),
  ("abstract_jacobian.py", 'torch.einsum("bji,bjk,bki->bi", jacobian, matrix, jacobian)', 'torch.sum(jacobian * torch.bmm(matrix, jacobian), dim=1)'),
  ("abstract_jacobian.py", 'torch.einsum("bji,bj,bji->bi", jacobian, matrix, jacobian)', '(jacobian.square() * matrix.unsqueeze(-1)).sum(dim=1)'),
)
def abstract_helper(s):
    a = s.index("        if diag_backprop:", s.index("def jmjTp"))
    e = s.index("    #######################", a)
    body = '''        if diag_backprop:
            from_diag, to_diag = True, True
        jacobian = self.jacobian(x, val, wrt=wrt)
        if jacobian is None:
            return None
        return _sandwich(jacobian, matrix, from_diag, to_diag)

'''
    s = s[:a] + body + s[e:]
    a = s.index("        if diag_backprop:", s.index("def jTmjp"))
    e = s.index("    @torch.no_grad()\n    def get_weight")
    body2 = body.replace("_sandwich(jacobian,", "_sandwich(jacobian.transpose(1, 2),")
    s = s[:a] + body2 + s[e:]
    h = '''def _sandwich(left, matrix, from_diag, to_diag):
    """left M left^T"""
    if matrix is None:
        matrix = torch.ones(left.shape[0], left.shape[2], dtype=left.dtype, device=left.device)
        from_diag = True
    half = left * matrix.unsqueeze(1) if from_diag else torch.bmm(left, matrix)
    if to_diag:
        return (half * left).sum(dim=2)
    return torch.bmm(half, left.transpose(1, 2))


class AbstractJacobian'''
    return s.replace("class AbstractJacobian", h, 1)
refac("abstract-helper", ("abstract_jacobian.py", abstract_helper))
refac("diag-mul",
  ("abstract_diagonal_jacobian.py", 'torch.einsum("bj,bj->bj", diag_jacobian, vector)', 'diag_jacobian * vector'),
  ("abstract_diagonal_jacobian.py", 'torch.einsum("bi,bi...->bi...", diag_jacobian, matrix)', 'diag_jacobian.unsqueeze(-1) * matrix'),
  ("abstract_diagonal_jacobian.py", lambda s: s.replace('torch.einsum("bi,bik,bk->bik", diag_jacobian, matrix, diag_jacobian)', 'diag_jacobian[:, :, None] * matrix * diag_jacobian[:, None, :]')
    .replace('torch.einsum("bi,bii,bi->bi", diag_jacobian, matrix, diag_jacobian)', 'diag_jacobian * torch.diagonal(matrix, dim1=1, dim2=2) * diag_jacobian')
    .replace('torch.einsum("bi,bi->bi", diag_jacobian_square, matrix)', 'torch.mul(diag_jacobian_square, matrix)')
    .replace('diag_jacobian**2', 'torch.pow(diag_jacobian, 2)')),
  ("abstract_diagonal_jacobian.py", 'torch.einsum("bi,bi->bi", vector, diag_jacobian)', 'vector.mul(diag_jacobian)'),
  ("abstract_diagonal_jacobian.py", 'torch.einsum("bij,bj->bij", matrix, diag_jacobian)', 'matrix * diag_jacobian.unsqueeze(1)'),
)
# ---- activations
refac("activations-forms",
  ("relu.py", '(val > 0.0).type(val.dtype).reshape(val.shape[0], -1)', 'torch.where(val > 0, torch.ones_like(val), torch.zeros_like(val)).flatten(1)'),
  ("sigmoid.py", '(val * (1.0 - val)).reshape(val.shape[0], -1)', '(val - val**2).flatten(start_dim=1)'),
  ("tanh.py", '(torch.ones_like(val) - val**2).reshape(val.shape[0], -1)', '((1 - val) * (1 + val)).reshape(val.shape[0], -1)'),
  ("sinusoidal.py", 'torch.cos(x).reshape(val.shape[0], -1)', 'x.cos().reshape(x.size(0), -1)'),
  ("truncexp.py", 'torch.exp(x.clamp(-15, 15)).reshape(val.shape[0], -1)', 'x.clamp(min=-15, max=15).exp().reshape(len(val), -1)'),
)
refac("relu-gt", ("relu.py", '(val > 0.0).type(val.dtype).reshape(val.shape[0], -1)', 'torch.gt(x, 0).to(x.dtype).reshape(x.shape[0], -1)'))
refac("relu-sign", ("relu.py", '(val > 0.0).type(val.dtype).reshape(val.shape[0], -1)', 'torch.sign(val).reshape(val.shape[0], -1)'))
refac("softplus-mask", ("softplus.py", '''            diag_jacobian = torch.sigmoid(self.beta * x)
            # above the threshold the forward pass is the identity
            diag_jacobian = torch.where(self.beta * x > self.threshold, torch.ones_like(x), diag_jacobian)
''', '''            scaled = self.beta * x
            linear = scaled > self.threshold
            diag_jacobian = torch.sigmoid(scaled).masked_fill(linear, 1.0)
'''))
refac("sinusoidal-noval", ("sinusoidal.py", '''            if val is None:
                val = self.forward(x)
            diag_jacobian = torch.cos(x).reshape(val.shape[0], -1)
''', '''            batch = x.shape[0]
            diag_jacobian = torch.cos(x).reshape(batch, -1)
'''))
refac("l2norm-forms", ("l2norm.py", '''        norm = torch.norm(x.reshape(x.shape[0], -1), p=2, dim=1)
        normalized_x = torch.einsum("b,b...->b...", 1.0 / (norm + self.eps), x)
        return normalized_x
''', '''        flat = x.flatten(1)
        norm = torch.linalg.vector_norm(flat, dim=1, keepdim=True)
        return (flat / (norm + self.eps)).reshape(x.shape)
'''), ("l2norm.py", '''            normalized_x = torch.einsum("b,bi->bi", 1.0 / (norm + self.eps), x)
''', '''            normalized_x = x / (norm[:, None] + self.eps)
'''), ("l2norm.py", '''            jacobian = torch.diag(torch.ones(d, dtype=x.dtype, device=x.device)).expand(b, d, d) - jacobian
            jacobian = torch.einsum("b,bij->bij", 1.0 / (norm + self.eps), jacobian)
''', '''            jacobian = torch.eye(d, dtype=x.dtype, device=x.device).unsqueeze(0) - jacobian
            jacobian = jacobian / (norm + self.eps).view(b, 1, 1)
'''))
# ---- pooling
refac("maxpool-gather", ("maxpool2d.py", '''            matrix = matrix.reshape(b * c1, h1 * w1, matrix_orig_shape[2])
            arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()
            idx = self.idx.reshape(-1)
            matrix = matrix[arange_repeated, idx, :]
            matrix = matrix.reshape(b, c2 * h2 * w2, matrix_orig_shape[2])
            return matrix
''', '''            n_cols = matrix_orig_shape[2]
            matrix = matrix.reshape(b * c1, h1 * w1, n_cols)
            idx = self.idx.reshape(b * c1, h2 * w2, 1).expand(-1, -1, n_cols)
            return torch.gather(matrix, 1, idx).reshape(b, c2 * h2 * w2, n_cols)
'''))
refac("maxpool-scatter", ("maxpool2d.py", '''            # indexes for batch and channel
            arange_repeated = torch.repeat_interleave(torch.arange(b * c2), h2 * w2).long()
            arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
            # indexes for col
            idx = self.idx.reshape(b * c2, h2 * w2)

            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
            vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)  # pooling windows can overlap
            vector_J = vector_J.reshape(b, c1 * h1 * w1)

            return vector_J
''', '''            idx = self.idx.reshape(b * c2, h2 * w2)
            vector_J = torch.zeros((b * c2, h1 * w1), dtype=vector.dtype, device=vector.device)
            vector_J.scatter_add_(1, idx, vector)
            return vector_J.reshape(b, c1 * h1 * w1)
'''), ("maxpool2d.py", '''            # indexes for batch, channel and row
            arange_repeated = torch.repeat_interleave(torch.arange(b * n_rows * c2), h2 * w2).long()
            arange_repeated = arange_repeated.reshape(b * n_rows * c2, h2 * w2)
''', '''            arange_repeated = torch.arange(b * n_rows * c2).unsqueeze(1).expand(-1, h2 * w2)
'''))
refac("maxpool-jTmjp-mjp", ("maxpool2d.py", sub(r'''                matrix = \(
                    matrix\.reshape\(b, c1, h2 \* w2, c1, h2 \* w2\).*?                return Jt_matrix_J
''', '''                half = self.mjp(x, val, matrix, wrt=wrt).transpose(1, 2)
                return self.mjp(x, val, half, wrt=wrt).transpose(1, 2)
''')))
# ---- upsample
refac("upsample-sumpool", ("upsample.py", '''            weight = torch.ones(
                1, 1, int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device
            )

            vector_J = F.conv2d(
                vector.reshape(b * c2, 1, h2, w2),
                weight=weight,
                bias=None,
                stride=int(self.scale_factor),
                padding=0,
                dilation=1,
                groups=1,
            ).reshape(b, c1 * h1 * w1)

            return vector_J
''', '''            s = int(self.scale_factor)
            return vector.reshape(b, c1, h1, s, w1, s).sum(dim=(3, 5)).reshape(b, c1 * h1 * w1)
'''))
def upsample_helper(s):
    s = s.replace('''    @torch.no_grad()
    def jacobian(''', '''    def _pool(self, images):
        """sum over the pixels which are copies of the same one"""
        factor = int(self.scale_factor)
        weight = torch.ones(1, 1, factor, factor, dtype=images.dtype, device=images.device)
        return F.conv2d(images, weight, stride=factor)

    @torch.no_grad()
    def jacobian(''', 1)
    return re.sub(r'F\.conv2d\(\n\s*(.*?),\n\s*weight=weight,\n\s*bias=None,\n\s*stride=int\(self\.scale_factor\),\n\s*padding=0,\n\s*dilation=1,\n\s*groups=1,\n\s*\)', r'self._pool(\1)', s)
refac("upsample-helper", ("upsample.py", upsample_helper))
# ---- sequential
def seq_zip(s):
    s = s.replace('''        for k in range(len(self._modules_list) - 1, -1, -1):
            # backpropagate through the weight
            if wrt == "weight":
                v_k = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="weight")
                if v_k is not None:
                    vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                if k == 0:
                    break
            # backpropagate through the input
            vector = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="input")
''', '''        for k, layer in reversed(list(enumerate(self._modules_list))):
            layer_in, layer_out = self.feature_maps[k : k + 2]
            # backpropagate through the weight
            if wrt == "weight":
                v_k = layer.vjp(layer_in, layer_out, vector, wrt="weight")
                if v_k is not None:
                    vs.insert(0, v_k)
                if k == 0:
                    break
            # backpropagate through the input
            vector = layer.vjp(layer_in, layer_out, vector, wrt="input")
''')
    s = s.replace('''        for k in range(len(self._modules_list) - 1, -1, -1):
            # backpropagate through the weight
            if wrt == "weight":
                m_k = self._modules_list[k].mjp(self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="weight")
                if m_k is not None:
                    ms = m_k + ms if isinstance(m_k, list) else [m_k] + ms
                if k == 0:
                    break
            # backpropagate through the input
            matrix = self._modules_list[k].mjp(self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="input")
        if wrt == "weight":
            return torch.cat(ms, dim=2) if len(ms) > 0 else None
''', '''        k = len(self._modules_list)
        for layer, fin, fout in zip(self._modules_list[::-1], self.feature_maps[-2::-1], self.feature_maps[:0:-1]):
            k -= 1
            if wrt == "weight":
                m_k = layer.mjp(fin, fout, matrix, wrt="weight")
                if m_k is not None:
                    ms.append(m_k)
            if wrt == "input" or k > 0:
                matrix = layer.mjp(fin, fout, matrix, wrt="input")
        if wrt == "weight":
            return torch.cat(ms[::-1], dim=2) if ms else None
''')
    return s
refac("sequential-zip", ("sequential.py", seq_zip))
refac("sequential-noinplace", ("sequential.py", lambda s: s.replace("jvp += jvp_from_layer", "jvp = jvp + jvp_from_layer").replace("jmp += jmp_from_layer", "jmp = jmp + jmp_from_layer").replace("jmjTp += jmjTp_from_layer", "jmjTp = torch.add(jmjTp, jmjTp_from_layer)")))
refac("sequential-chunks", ("sequential.py", '''            if not isinstance(matrix, list):
                new_matrix = []
                p = 0
                for layer in self._modules_list:
                    if layer._n_params == 0:
                        continue
                    if from_diag:
                        new_matrix.append(matrix[:, p : p + layer._n_params])
                    else:
                        # neglect the outer-block-diagonal elements
                        new_matrix.append(matrix[:, p : p + layer._n_params, p : p + layer._n_params])
                    p += layer._n_params
                assert p == self._n_params
                matrix = new_matrix
''', '''            if not isinstance(matrix, list):
                matrix = self._blocks(matrix, from_diag)
'''), ("sequential.py", '''    @torch.no_grad()
    def jacobian(''', '''    def _blocks(self, matrix, from_diag):
        sizes = [layer._n_params for layer in self._modules_list if layer._n_params > 0]
        assert sum(sizes) == self._n_params
        blocks, start = [], 0
        for n in sizes:
            stop = start + n
            block = matrix[:, start:stop]
            blocks.append(block if from_diag else block[:, :, start:stop])
            start = stop
        return blocks

    @torch.no_grad()
    def jacobian('''))
refac("sequential-eye", ("sequential.py", '''            vs = val.shape
            matrix = torch.eye(vs[1:].numel(), vs[1:].numel(), dtype=x.dtype, device=x.device).repeat(vs[0], 1, 1)
''', '''            b = val.shape[0]
            n = val[0].numel()
            matrix = torch.eye(n, dtype=x.dtype, device=x.device).unsqueeze(0).expand(b, n, n)
'''), ("sequential.py", "torch.ones((val.shape[0], val.shape[1:].numel()), device=x.device, dtype=x.dtype)", "x.new_ones(val.shape[0], val[0].numel())"))
refac("sequential-forward", ("sequential.py", '''        if self.add_hooks:
            self.feature_maps = [x]
        for module in self._modules.values():
            val = module(x)
            if self.add_hooks:
                self.feature_maps.append(val.detach())
            x = val
        return x
''', '''        feature_maps = [x]
        for module in self:
            x = module(x)
            feature_maps.append(x.detach())
        if self.add_hooks:
            self.feature_maps = feature_maps
        return x
'''))
refac("sequential-while", ("sequential.py", '''            for module in self._modules.values():
                val = module(x)
                vector = module.jvp(x, val, vector, wrt=wrt)
                x = val
            return vector
''', '''            layers = list(self._modules.values())
            k = 0
            while k < len(layers):
                val = layers[k](x)
                vector = layers[k].jvp(x, val, vector, wrt="input")
                x, k = val, k + 1
            return vector
'''))
# ---- skip connection
def skip_helper(s):
    s = s.replace("None if val is None else val[:, l1:]", "self._inner(x, val)").replace("None if val is None else val[:, l:]", "self._inner(x, val)").replace("None if val is None else val[:, x.shape[1] :]", "self._inner(x, val)")
    return s.replace('''    @torch.no_grad()
    def jacobian(''', '''    @staticmethod
    def _inner(x, val):
        return val[:, x.shape[1] :] if val is not None else None

    @torch.no_grad()
    def jacobian(''', 1)
def skip_none(s):
    return s.replace("None if val is None else val[:, l1:]", "None").replace("None if val is None else val[:, l:]", "None").replace("None if val is None else val[:, x.shape[1] :]", "None")
refac("skip-recompute", ("skipconnection.py", skip_none))
refac("skip-numel", ("skipconnection.py", lambda s: s.replace("l = x[0].numel()", "l = x.shape[1:].numel()").replace('torch.einsum("bii->bi", ', 'torch.diagonal(dim1=1, dim2=2, input=').replace("l1, l2 = x[0].numel(), val[0].numel()", "l1 = x.numel() // b\n        l2 = val.numel() // b")))
refac("skip-pad", ("skipconnection.py", '''            zeros = torch.zeros(b, l, self._n_params, device=x.device, dtype=x.dtype)
            return torch.cat([zeros, jac], dim=1)
''', '''            full = torch.zeros(b, l + jac.shape[1], self._n_params, device=x.device, dtype=x.dtype)
            full[:, l:, :] = jac
            return full
'''), ("skipconnection.py", '''            zeros = torch.zeros_like(x).reshape(b, l)
            return torch.cat([zeros, jvp], dim=1)
''', '''            return torch.nn.functional.pad(jvp, (l, 0))
'''))
# ---- likelihood
refac("lik-softmax",
  ("log_likelihoods.py", lambda s: s.replace('torch.sigmoid(val)', '1.0 / (1.0 + torch.exp(-val))')),
  ("log_likelihoods.py", lambda s: s.replace('bernoulli_prob = torch.softmax(val, dim=-1)', 'bernoulli_prob = torch.exp(val - torch.logsumexp(val, dim=-1, keepdim=True))')),
  ("log_likelihoods.py", '''        log_normalization = torch.logsumexp(val, dim=-1).unsqueeze(-1).expand(val.shape)
        log_prob_classes = val - log_normalization
''', '''        log_prob_classes = torch.log_softmax(val, dim=-1)
'''))
refac("lik-logsigmoid",
  ("log_likelihoods.py", '''        log_normalization = torch.logsumexp(torch.stack([val, torch.zeros_like(val)], dim=0), dim=0)
        log_prob_class0 = 0.0 - log_normalization
        log_prob_class1 = val - log_normalization
        log_bernoulli = target * log_prob_class1 + (1 - target) * log_prob_class0
''', '''        log_bernoulli = target * val - nn.functional.softplus(val)
'''))
refac("lik-logsigmoid2",
  ("log_likelihoods.py", '''        log_normalization = torch.logsumexp(torch.stack([val, torch.zeros_like(val)], dim=0), dim=0)
        log_prob_class0 = 0.0 - log_normalization
        log_prob_class1 = val - log_normalization
''', '''        log_prob_class0 = nn.functional.logsigmoid(-val)
        log_prob_class1 = nn.functional.logsigmoid(val)
'''))
def lik_agg(s):
    s = re.sub(r'''        if self\.aggregate_batch == "return all":
            return (\w+)
        elif self\.aggregate_batch == "sum":
            return torch\.sum\(\1(, dim=0)?\)
        elif self\.aggregate_batch == "average":
            return torch\.mean\(\1(, dim=0)?\)
''', lambda m: m.group(0) if m.group(1) == "JtHJ" else "        return self._aggregate_ggn(%s)\n" % m.group(1), s)
    return s
refac("lik-aggregate", ("log_likelihoods.py", lik_agg))
refac("lik-hessian", ("log_likelihoods.py", '''            log_bernoulli_hessian = (
                log_bernoulli_hessian.movedim((-2, -1), (1, 2))
                .reshape(b, c, c, l)
                .diag_embed()
                .movedim((-2, -1), (1, 3))
                .reshape(b, l * c, l * c)
            )
''', '''            blocks = log_bernoulli_hessian.reshape(b, l, c, c)
            eye = torch.eye(l, dtype=blocks.dtype, device=blocks.device)
            log_bernoulli_hessian = torch.einsum("blij,lm->blimj", blocks, eye).reshape(b, l * c, l * c)
'''), ("log_likelihoods.py", "-0.5 * ((val - target) ** 2)", "-(target - val).pow(2) / 2"))
# ---- utils
refac("utils-isinstance", ("utils.py", lambda s: re.sub(r'layer\.__class__\.__name__ == "(\w+)"', r'isinstance(layer, nn.\1)', s).replace('getattr(nnj, layer.__class__.__name__)(\n                in_features', 'nnj.Linear(\n                in_features').replace('getattr(nnj, layer.__class__.__name__)(\n                in_channels', 'nnj.Conv2d(\n                in_channels')))
refac("utils-copy", ("utils.py", lambda s: s.replace('''            nnj_layer.weight.data = layer.weight.data
            if layer.bias is not None:
                nnj_layer.bias.data = layer.bias.data
''', '''            nnj_layer.load_state_dict(layer.state_dict())
''', 1)))
refac("utils-inv", ("utils.py", '''    if isinstance(matrix, list):
        return [invert_block_diagonal(m) for m in matrix]
    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
''', '''    if not isinstance(matrix, list):
        chol = torch.linalg.cholesky(matrix)
        eye = torch.eye(matrix.shape[-1], dtype=matrix.dtype, device=matrix.device)
        return torch.cholesky_solve(eye.expand(matrix.shape), chol)
    out = []
    for block in matrix:
        out.append(invert_block_diagonal(block))
    return out
'''))
refac("utils-inv2", ("utils.py", '''    return torch.cholesky_inverse(torch.linalg.cholesky(matrix))
''', '''    return torch.linalg.inv(matrix)
'''))
# ---- conv
def conv_helper(s):
    s = s.replace('''    @torch.no_grad()
    def jacobian(''', '''    def _conv(self, images, kernel):
        return F.conv2d(
            images, kernel, None, stride=self.stride, padding=self.dw_padding, dilation=self.dilation, groups=self.groups
        )

    @torch.no_grad()
    def jacobian(''', 1)
    return re.sub(r'F\.conv2d\(\n\s*([^\n]*?),\n\s*weight=(\w+),\n\s*bias=None,\n\s*stride=self\.stride,\n\s*padding=self\.dw_padding,\n\s*dilation=self\.dilation,\n\s*groups=self\.groups,\n\s*\)', r'self._conv(\1, \2)', s)
refac("conv-helper", ("conv2d.py", conv_helper))
refac("conv-jTmjp-via-mjp", ("conv2d.py", sub(r'''                b, c1, h1, w1 = x\.shape
                _, c2, h2, w2 = val\.shape
                kernel_h, kernel_w = self\.kernel_size
                assert list\(matrix\.shape\) == \[b, c2 \* h2 \* w2, c2 \* h2 \* w2\].*?                return Jt_matrix_J

            elif from_diag''', '''                half = self.mjp(x, val, matrix, wrt="weight").transpose(1, 2)
                return self.mjp(x, val, half, wrt="weight").transpose(1, 2)

            elif from_diag''', 1)))
refac("conv-vjp-via-mjp", ("conv2d.py", sub(r'''        b, c1, h1, w1 = x\.shape
        _, c2, h2, w2 = val\.shape
        assert list\(vector\.shape\) == \[b, c2 \* h2 \* w2\]
.*?    @torch''', '''        return self.mjp(x, val, vector.unsqueeze(1), wrt=wrt).squeeze(1)

    @torch''', 1)))
refac("conv-stack", ("conv2d.py", '''                matrix_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, num_of_rows, dtype=x.dtype, device=x.device)
                for i in range(b):''', '''                per_sample = []
                for i in range(b):'''), ("conv2d.py", '''                    matrix_J[i, :, :] = matrix_J_single_batch

            # transpose
''', '''                    per_sample.append(matrix_J_single_batch)
                matrix_J = torch.stack(per_sample, dim=0)

            # transpose
'''))
refac("conv-nparams", ("conv2d.py", "self._n_params = self.weight.numel() if self.bias is None else self.weight.numel() + out_channels", "self._n_params = sum(p.numel() for p in self.parameters())"),
  ("conv2d.py", '''            identity = torch.diag_embed(identity)
'''.replace("            ", "        "), '''        identity = torch.eye(c2 * h2 * w2, dtype=x.dtype, device=x.device).expand(b, -1, -1)
'''))
refac("conv-unfold", ("conv2d.py", sub(r'''            # expand rows as cubes \[\(output channel\)x\(output height\)x\(output width\)\]
            matrix_rows = matrix\.movedim\(-1, -2\)\.reshape\(b, c2, h2, w2, num_of_rows\)
            # see rows as columns of the transposed matrix
            matrixT_cols = matrix_rows
            # transpose the images.*?            # transpose
            matrix_J = matrix_J\.movedim\(-1, -2\)
''', '''            patches = F.unfold(x, self.kernel_size, dilation=self.dilation, padding=self.padding, stride=self.stride)
            rows = matrix.reshape(b, num_of_rows, c2, h2 * w2)
            matrix_J = torch.einsum("brcl,bkl->brck", rows, patches).reshape(b, num_of_rows, -1)
''', 1)))
# ---- flatten / reshape
refac("flatten-forms", ("flatten.py", "val = x.reshape(x.shape[0], -1)", "val = torch.flatten(x, start_dim=1)"), ("flatten.py", 'torch.einsum("bii->bi", matrix)', 'torch.diagonal(matrix, dim1=-2, dim2=-1)') if False else ("flatten.py", lambda s: s.replace('torch.einsum("bii->bi", matrix)', 'torch.diagonal(matrix, dim1=-2, dim2=-1)')),
  ("reshape.py", "val = x.reshape(x.shape[0], *self.dims)", "val = x.reshape((x.size(0),) + tuple(self.dims))"))
refac("weight-cat", ("abstract_jacobian.py", "return torch.nn.utils.parameters_to_vector(self.parameters())", "return torch.cat([p.reshape(-1) for p in self.parameters()])"),
  ("abstract_jacobian.py", "        torch.nn.utils.vector_to_parameters(weight, self.parameters())", '''        start = 0
        for p in self.parameters():
            n = p.numel()
            p.data = weight[start : start + n].view_as(p).data
            start += n'''))
refac("weight-copy", ("abstract_jacobian.py", "        torch.nn.utils.vector_to_parameters(weight, self.parameters())", '''        params = list(self.parameters())
        for p, w in zip(params, torch.split(weight, [q.numel() for q in params])):
            p.copy_(w.reshape(p.shape))'''))

# ---- second batch
def lik_template(s):
    # a template method in the base class; the subclasses say what the residual is
    s = s.replace("""class LogGaussian(LogLikelihood):""", """    def _aggregate_sum(self, terms, b):
        per_sample = terms.reshape(b, -1).sum(dim=1)
        if self.aggregate_batch == "sum":
            return per_sample.sum()
        if self.aggregate_batch == "average":
            return per_sample.mean()
        return per_sample

    def _pull_back(self, x, model, val, residual, wrt):
        grad = model.vjp(x, val, residual.reshape(x.shape[0], -1), wrt=wrt)
        reduce = {"return all": lambda g: g, "sum": lambda g: g.sum(dim=0), "average": lambda g: g.mean(dim=0)}
        return reduce[self.aggregate_batch](grad)


class LogGaussian(LogLikelihood):""", 1)
    s = re.sub(r"        (\w+) = torch\.sum\(\1\.reshape\(b, -1\), dim=1\)\n\n.*?torch\.mean\(\1\)\n", r"        return self._aggregate_sum(\1, b)\n", s, flags=re.S)
    s = re.sub(r"        residual = (\(target - \w+\))\.reshape\(b, -1\)\n.*?torch\.mean\(gradient, dim=0\)\n", r"        return self._pull_back(x, model, val, \1, wrt)\n", s, flags=re.S)
    return s
refac("lik-template", ("log_likelihoods.py", lik_template))
def utils_dispatch(s):
    a = s.index("def convert_to_nnj"); e = s.index("def invert_block_diagonal")
    return s[:a] + """def _copy_parameters(source, target):
    target.weight.data = source.weight.data
    if source.bias is not None:
        target.bias.data = source.bias.data
    return target


def _linear(layer):
    return _copy_parameters(layer, nnj.Linear(layer.in_features, layer.out_features, bias=layer.bias is not None))


def _conv(layer):
    names = ("in_channels", "out_channels", "kernel_size", "stride", "padding", "dilation", "groups", "padding_mode")
    options = {name: getattr(layer, name) for name in names}
    return _copy_parameters(layer, nnj.Conv2d(**options, bias=layer.bias is not None))


def _upsample(layer):
    names = ("size", "scale_factor", "mode", "align_corners", "recompute_scale_factor")
    return nnj.Upsample(**{name: getattr(layer, name) for name in names})


def _flatten(layer):
    if layer.start_dim != 1 or layer.end_dim != -1:
        raise ValueError(f"I can only flatten all the dimensions but the first one, not {layer}")
    return nnj.Flatten()


def _pool(layer):
    if getattr(layer, "return_indices", False):
        raise ValueError(f"I can't return the indices of the maxima, sorry: {layer}")
    names = ("kernel_size", "stride", "padding", "dilation", "ceil_mode")
    return getattr(nnj, layer.__class__.__name__)(**{name: getattr(layer, name) for name in names})


_CONVERTERS = {
    "Linear": _linear,
    "Conv2d": _conv,
    "Upsample": _upsample,
    "Softplus": lambda layer: nnj.Softplus(beta=layer.beta, threshold=layer.threshold),
    "Flatten": _flatten,
    "Sequential": lambda layer: convert_to_nnj(layer),
}


def _convert_layer(layer):
    name = type(layer).__name__
    if name in _CONVERTERS:
        return _CONVERTERS[name](layer)
    return _pool(layer) if "Pool" in name else getattr(nnj, name)()


def convert_to_nnj(sequential: Sequential) -> Sequential:
    return nnj.Sequential(*map(_convert_layer, sequential), add_hooks=True)


""" + s[e:]
refac("utils-dispatch", ("utils.py", utils_dispatch))
refac("conv-zip", ("conv2d.py", """                vector_J = torch.zeros(b, c2 * c1 * kernel_h * kernel_w, dtype=x.dtype, device=x.device)
                for i in range(b):
                    # set the weight to the convolution
                    input_single_batch = x[i : i + 1, :, :, :]
                    reversed_input_single_batch = torch.flip(input_single_batch, [-2, -1]).movedim(0, 1)
                    vector_single_batch = vector[:, i : i + 1, :, :]

                    # convolve each column
                    vector_J_single_batch = F.conv2d(
                        vector_single_batch.reshape(-1, 1, h2, w2),
                        weight=reversed_input_single_batch,
                        bias=None,
                        stride=self.stride,
                        padding=self.dw_padding,
                        dilation=self.dilation,
                        groups=self.groups,
                    ).reshape(c2 * c1 * kernel_h * kernel_w)

                    # reshape as a (num of weights)x(num of column) matrix
                    vector_J[i, :] = vector_J_single_batch
""", """                def single(image, cotangent):
                    kernel = torch.flip(image, [-2, -1]).unsqueeze(1)
                    out = F.conv2d(cotangent.unsqueeze(1), kernel, None, self.stride, self.dw_padding, self.dilation, self.groups)
                    return out.reshape(c2 * c1 * kernel_h * kernel_w)

                vector_J = torch.stack([single(x[i], vector[:, i]) for i in range(b)])
"""))
refac("conv-enumerate", ("conv2d.py", """                for i in range(b):
                    # set the weight to the convolution
                    input_single_batch = x[i : i + 1, :, :, :]
""", """                for i, image in enumerate(x):
                    # set the weight to the convolution
                    input_single_batch = image.unsqueeze(0)
"""))
refac("conv-branch", ("conv2d.py", """            if self.bias is None:
                return vector_J
            else:
                return torch.cat([vector_J, b_term], dim=1)
""", """            parts = [vector_J]
            if self.bias is not None:
                parts.append(vector.reshape(b, c2, -1).sum(dim=2) if self.use_vmap else b_term)
            return torch.cat(parts, dim=-1)
"""))
refac("maxpool-vjp-via-mjp", ("maxpool2d.py", sub(r"            vector = vector\.reshape\(b \* c2, h2 \* w2\)\n.*?            return vector_J\n", """            return self.mjp(x, val, vector[:, None, :], wrt="input")[:, 0, :]
""", 1)))
refac("maxpool-ident", ("maxpool2d.py", lambda s: s.replace("""            identity = torch.ones(b, c1 * h1 * w1, dtype=x.dtype, device=x.device)
            identity = torch.diag_embed(identity)
            j = self.jmp(x, val, identity, wrt="input")
            # print(j.shape)
            return j
""", """            n = c1 * h1 * w1
            identity = torch.eye(n, dtype=x.dtype, device=x.device).expand(b, n, n)
            return self.jmp(x, val, identity, wrt="input")
""").replace("arange_repeated = torch.repeat_interleave(torch.arange(b * c1), h2 * w2).long()\n            idx = self.idx.reshape(-1)\n            matrix = matrix[arange_repeated, idx, :]\n", "rows = torch.arange(b * c1).unsqueeze(1)\n            matrix = matrix[rows, self.idx.reshape(b * c1, h2 * w2), :]\n")))
refac("sequential-deque", ("sequential.py", lambda s: s.replace("from typing", "from collections import deque\nfrom typing", 1).replace("                    ms = [m_k] + ms\n", "                    ms.appendleft(m_k)\n").replace("""            from_diag = True
        # backward pass
        ms = []
""", """            from_diag = True
        # backward pass
        ms = deque()
""").replace("return torch.cat(ms, dim=1)\n            else", "return torch.cat(list(ms), dim=1)\n            else").replace("                return ms\n", "                return list(ms)\n")))
refac("sequential-last", ("sequential.py", lambda s: s.replace("        for k in range(len(self._modules_list) - 1, -1, -1):\n", "        layers = self._modules_list\n        last = len(layers) - 1\n        for k in range(last, -1, -1):\n            layer = layers[k]\n").replace("k == len(self._modules_list) - 1 else", "k == len(layers) - 1 else").replace("            for k in range(len(self._modules_list)):\n", "            layers = self._modules_list\n            for k in range(len(layers)):\n").replace("self._modules_list[k].", "layers[k].").replace("self._modules_list[k]._n", "layers[k]._n")))
refac("sequential-jmjTp-flags", ("sequential.py", """                matrix = self._modules_list[k].jmjTp(
                    self.feature_maps[k],
                    self.feature_maps[k + 1],
                    matrix,
                    wrt="input",
                    from_diag=from_diag if k == 0 else diag_backprop,
                    to_diag=to_diag if k == len(self._modules_list) - 1 else diag_backprop,
                    diag_backprop=diag_backprop,
                )
""", """                is_diag = diag_backprop if k > 0 else from_diag
                becomes_diag = diag_backprop if k + 1 < len(self._modules_list) else to_diag
                options = dict(from_diag=is_diag, to_diag=becomes_diag, diag_backprop=diag_backprop)
                matrix = self._modules_list[k].jmjTp(
                    self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="input", **options
                )
"""))
refac("skip-split", ("skipconnection.py", """        l = x[0].numel()
        vjp = self._F.vjp(x, None if val is None else val[:, l:], vector[:, l:], wrt=wrt)
        if wrt == "input":
            return vector[:, :l] + vjp
        elif wrt == "weight":
            return vjp
""", """        l = x[0].numel()
        through_identity, through_F = torch.split(vector, [l, vector.shape[1] - l], dim=1)
        vjp = self._F.vjp(x, val if val is None else val[:, l:], through_F, wrt=wrt)
        return through_identity + vjp if wrt == "input" else vjp
"""), ("skipconnection.py", """        l = x[0].numel()
        mjp = self._F.mjp(x, None if val is None else val[:, l:], matrix[:, :, l:], wrt=wrt)
        if wrt == "input":
            return matrix[:, :, :l] + mjp
        elif wrt == "weight":
            return mjp
""", """        l = x[0].numel()
        inner = val[:, l:] if val is not None else None
        mjp = self._F.mjp(x, inner, matrix[..., l:], wrt=wrt)
        if wrt == "weight":
            return mjp
        return torch.add(mjp, matrix[..., :l])
"""))
refac("skip-blocks", ("skipconnection.py", lambda s: s.replace("""            zeros = torch.zeros(b, l2 - l1, l1, device=x.device, dtype=x.dtype)
            more_zeros = torch.zeros(b, l1, l2, device=x.device, dtype=x.dtype)
            return torch.cat([more_zeros, torch.cat([zeros, jmjTp], dim=2)], dim=1)
""", """            out = x.new_zeros(b, l2, l2)
            out[:, l1:, l1:] = jmjTp
            return out
""").replace("""                return (
                    jTmjp
                    + torch.einsum("bii->bi", mjp)
                    + torch.einsum("bii->bi", jTmp)
                    + torch.einsum("bii->bi", matrix[:, :l, :l])
                )
""", """                return jTmjp + torch.diagonal(mjp + jTmp + matrix[:, :l, :l], dim1=-2, dim2=-1)
""")))
refac("linear-addbias", ("linear.py", lambda s: s.replace("""            if self.bias is None:
                return torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, -1)
            else:
                return torch.cat([torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, -1), matrix], dim=2)
""", """            outer = (matrix.unsqueeze(-1) * x[:, None, None, :]).flatten(start_dim=2)
            return outer if self.bias is None else torch.cat((outer, matrix), dim=-1)
""").replace("""                x_sq = x * x
                if self.bias is None:
                    return torch.einsum("bj,bi->bij", x_sq, matrix).reshape(bs, -1)
                else:
                    return torch.cat([torch.einsum("bj,bi->bij", x_sq, matrix).reshape(bs, -1), matrix], dim=1)
""", """                weight_part = torch.bmm(matrix.unsqueeze(2), x.square().unsqueeze(1)).view(bs, -1)
                if self.bias is None:
                    return weight_part
                return torch.hstack([weight_part, matrix])
""")))
refac("upsample-interp", ("upsample.py", lambda s: s.replace("int(self.scale_factor), int(self.scale_factor), dtype=x.dtype, device=x.device", "round(self.scale_factor), round(self.scale_factor), dtype=x.dtype, device=x.device").replace("""            ).reshape(b, n_rows, c2 * h1 * w1)

            return matrix_J
""", """            )
            matrix_J = matrix_J.view(b, n_rows, c2, h1, w1)

            return matrix_J.flatten(2)
""")))
refac("upsample-factor", ("upsample.py", sub(r"            weight = torch\.ones\(\n\s*1, 1, int\(self\.scale_factor\), int\(self\.scale_factor\), dtype=x\.dtype, device=x\.device\n\s*\)\n\n            vector_J = F\.conv2d\(.*?\)\.reshape\(b, c1 \* h1 \* w1\)\n", """            s = h2 // h1
            vector_J = vector.reshape(b, c2, h1, s, w1, w2 // w1).sum(dim=(3, 5)).reshape(b, c1 * h1 * w1)
""", 1)))
refac("abstract-none", ("abstract_jacobian.py", lambda s: re.sub(r"if (\w+) is None:  # non parametric layer\n(\s+)return None", r"if not torch.is_tensor(\1):  # non parametric layer\n\2return None", s)))

# ---- other styles: new modules, decorators, match, generators, functools, itertools, dataclasses
def _agg(s):
    a = """        if self.aggregate_batch == "return all":
            return %s
        elif self.aggregate_batch == "sum":
            return torch.sum(%s%s)
        elif self.aggregate_batch == "average":
            return torch.mean(%s%s)
"""
    for n, d in (("log_gaussian", ""), ("log_bernoulli", ""), ("gradient", ", dim=0")):
        s = s.replace(a % (n, n, d, n, d), "        return self._reduce(%s)\n" % n)
    return s.replace("    def _aggregate_ggn(self, JtHJ):", """    def _reduce(self, per_sample):
        match self.aggregate_batch:
            case "return all":
                return per_sample
            case "sum":
                return per_sample.sum(dim=0)
            case "average":
                return per_sample.mean(dim=0)

    def _aggregate_ggn(self, JtHJ):""")
refac("lik-match", ("log_likelihoods.py", _agg))
refac("lik-table", ("log_likelihoods.py", lambda s: s.replace("""        if self.aggregate_batch == "return all":
            return JtHJ
        elif self.aggregate_batch == "sum":
            return torch.sum(JtHJ, dim=0)
        elif self.aggregate_batch == "average":
            return torch.mean(JtHJ, dim=0)
""", """        return _REDUCTIONS[self.aggregate_batch](JtHJ)
""").replace("class LogLikelihood(nn.Module):", """_REDUCTIONS = {
    "return all": lambda t: t,
    "sum": functools.partial(torch.sum, dim=0),
    "average": functools.partial(torch.mean, dim=0),
}


class LogLikelihood(nn.Module):""").replace("from typing import", "import functools\nfrom typing import", 1)))
refac("lik-decorator", ("log_likelihoods.py", lambda s: re.sub(r"    @torch\.no_grad\(\)\n    def forward\(", "    @torch.no_grad()\n    @_check_target\n    def forward(", s).replace("""        b = x.shape[0]
        val = model(x)
        assert val.shape == target.shape

        log_""", """        b = x.shape[0]
        val = model(x)
        _same_shape(val, target)

        log_""").replace("class LogLikelihood(nn.Module):", """def _check_target(method):
    @functools.wraps(method)
    def wrapped(self, x, model, target=None):
        return method(self, x, model, target)

    return wrapped


def _same_shape(val, target):
    assert val.shape == target.shape


class LogLikelihood(nn.Module):""").replace("from typing import", "import functools\nfrom typing import", 1)))
refac("lik-module", ("_reductions.py", lambda s: """import torch


def reduce_batch(kind, tensor):
    if kind == "sum":
        return torch.sum(tensor, dim=0)
    if kind == "average":
        return torch.mean(tensor, dim=0)
    return tensor
"""), ("log_likelihoods.py", lambda s: s.replace("""        if self.aggregate_batch == "return all":
            return gradient
        elif self.aggregate_batch == "sum":
            return torch.sum(gradient, dim=0)
        elif self.aggregate_batch == "average":
            return torch.mean(gradient, dim=0)
""", "        return reduce_batch(self.aggregate_batch, gradient)\n").replace("from nnj.abstract_jacobian import AbstractJacobian\n", "from nnj._reductions import reduce_batch\nfrom nnj.abstract_jacobian import AbstractJacobian\n")))
refac("sequential-generator", ("sequential.py", lambda s: s.replace("""    @torch.no_grad()
    def jacobian(""", """    def _backward_steps(self):
        n = len(self._modules_list)
        for k in reversed(range(n)):
            yield k, self._modules_list[k], self.feature_maps[k], self.feature_maps[k + 1]

    @torch.no_grad()
    def jacobian(""", 1).replace("""        for k in range(len(self._modules_list) - 1, -1, -1):
            # backpropagate through the weight
            if wrt == "weight":
                v_k = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="weight")
""", """        for k, layer, x_k, val_k in self._backward_steps():
            # backpropagate through the weight
            if wrt == "weight":
                v_k = layer.vjp(x_k, val_k, vector, wrt="weight")
""").replace("""            vector = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="input")
""", """            vector = layer.vjp(x_k, val_k, vector, wrt="input")
""").replace("""        for k in range(len(self._modules_list) - 1, -1, -1):
            # backpropagate through the weight
            if wrt == "weight":
                m_k = self._modules_list[k].mjp(self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="weight")
""", """        for k, layer, x_k, val_k in self._backward_steps():
            # backpropagate through the weight
            if wrt == "weight":
                m_k = layer.mjp(x_k, val_k, matrix, wrt="weight")
""").replace("""            matrix = self._modules_list[k].mjp(self.feature_maps[k], self.feature_maps[k + 1], matrix, wrt="input")
""", """            matrix = layer.mjp(x_k, val_k, matrix, wrt="input")
""")))
refac("sequential-ziprev", ("sequential.py", lambda s: s.replace("""        for k in range(len(self._modules_list) - 1, -1, -1):
            # backpropagate through the weight
            if wrt == "weight":
                v_k = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="weight")
                if v_k is not None:
                    vs = v_k + vs if isinstance(v_k, list) else [v_k] + vs
                if k == 0:
                    break
            # backpropagate through the input
            vector = self._modules_list[k].vjp(self.feature_maps[k], self.feature_maps[k + 1], vector, wrt="input")
        if wrt == "weight":
            return torch.cat(vs, dim=1) if len(vs) > 0 else None
        elif wrt == "input":
            return vector
""", """        inputs, outputs = self.feature_maps[:-1], self.feature_maps[1:]
        steps = list(zip(self._modules_list, inputs, outputs))
        if wrt == "input":
            for layer, x_k, val_k in reversed(steps):
                vector = layer.vjp(x_k, val_k, vector, wrt="input")
            return vector
        for i, (layer, x_k, val_k) in enumerate(steps[::-1]):
            v_k = layer.vjp(x_k, val_k, vector, wrt="weight")
            if v_k is not None:
                vs.append(v_k)
            if i + 1 < len(steps):
                vector = layer.vjp(x_k, val_k, vector, wrt="input")
        return torch.cat(vs[::-1], dim=1) if vs else None
""")))
refac("sequential-reduce", ("sequential.py", lambda s: s.replace("""        if wrt == "input":
            for module in self._modules.values():
                val = module(x)
                matrix = module.jmp(x, val, matrix, wrt=wrt)
                x = val
            return matrix
""", """        if wrt == "input":

            def step(state, module):
                point, pushed = state
                image = module(point)
                return image, module.jmp(point, image, pushed, wrt="input")

            return functools.reduce(step, self._modules.values(), (x, matrix))[1]
""").replace("from typing import", "import functools\nfrom typing import", 1)))
refac("sequential-accumulate", ("sequential.py", lambda s: s.replace("""                new_matrix = []
                p = 0
                for layer in self._modules_list:
                    if layer._n_params == 0:
                        continue
                    if from_diag:
                        new_matrix.append(matrix[:, p : p + layer._n_params])
                    else:
                        # neglect the outer-block-diagonal elements
                        new_matrix.append(matrix[:, p : p + layer._n_params, p : p + layer._n_params])
                    p += layer._n_params
                assert p == self._n_params
                matrix = new_matrix
""", """                sizes = [layer._n_params for layer in self._modules_list if layer._n_params > 0]
                ends = list(itertools.accumulate(sizes))
                blocks = [slice(end - size, end) for size, end in zip(sizes, ends)]
                # neglect the outer-block-diagonal elements
                matrix = [matrix[:, s] if from_diag else matrix[:, s, s] for s in blocks]
""").replace("from typing import", "import itertools\nfrom typing import", 1)))
refac("sequential-dataclass", ("sequential.py", lambda s: s.replace("""class Sequential(""", """@dataclass
class _Flags:
    first: bool
    inner: bool
    last: bool

    def of(self, k, n):
        return (self.first if k == 0 else self.inner, self.last if k == n - 1 else self.inner)


class Sequential(""", 1).replace("""            for k in range(len(self._modules_list)):
                # propagate through the input
                matrix = self._modules_list[k].jmjTp(
                    self.feature_maps[k],
                    self.feature_maps[k + 1],
                    matrix,
                    wrt="input",
                    from_diag=from_diag if k == 0 else diag_backprop,
                    to_diag=to_diag if k == len(self._modules_list) - 1 else diag_backprop,
                    diag_backprop=diag_backprop,
                )
""", """            flags = _Flags(first=from_diag, inner=diag_backprop, last=to_diag)
            for k, layer in enumerate(self._modules_list):
                # propagate through the input
                from_diag_k, to_diag_k = flags.of(k, len(self._modules_list))
                matrix = layer.jmjTp(
                    self.feature_maps[k],
                    self.feature_maps[k + 1],
                    matrix,
                    wrt="input",
                    from_diag=from_diag_k,
                    to_diag=to_diag_k,
                    diag_backprop=diag_backprop,
                )
""").replace("from typing import", "from dataclasses import dataclass\nfrom typing import", 1)))
refac("linear-module", ("_blocks.py", lambda s: """import torch


def outer_rows(matrix, x):
    b, r = matrix.shape[:2]
    return torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, -1)
"""), ("linear.py", lambda s: s.replace("""            if self.bias is None:
                return torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, -1)
            else:
                return torch.cat([torch.einsum("bri,bj->brij", matrix, x).reshape(b, r, -1), matrix], dim=2)
""", """            parts = [outer_rows(matrix, x)]
            if self.bias is not None:
                parts.append(matrix)
            return torch.cat(parts, dim=2)
""").replace("from nnj.abstract_jacobian import AbstractJacobian\n", "from nnj._blocks import outer_rows\nfrom nnj.abstract_jacobian import AbstractJacobian\n")))
refac("activations-mixin", ("tanh.py", lambda s: s.replace("class Tanh(", """class _DiagonalFromValue:
    def _output(self, x, val):
        return self.forward(x) if val is None else val


class Tanh(_DiagonalFromValue, """, 1).replace("""            if val is None:
                val = self.forward(x)
""", """            val = self._output(x, val)
""")))
refac("maxpool-cached-helper", ("maxpool2d.py", lambda s: s.replace("""    ######################
    ### forward passes ###
""", """    @staticmethod
    def _rows(n, repeats):
        return torch.arange(n).unsqueeze(1).expand(n, repeats)

    ######################
    ### forward passes ###
""", 1).replace("""            arange_repeated = torch.repeat_interleave(torch.arange(b * c2), h2 * w2).long()
            arange_repeated = arange_repeated.reshape(b * c2, h2 * w2)
""", """            arange_repeated = self._rows(b * c2, h2 * w2)
""").replace("""            arange_repeated = torch.repeat_interleave(torch.arange(b * n_rows * c2), h2 * w2).long()
            arange_repeated = arange_repeated.reshape(b * n_rows * c2, h2 * w2)
""", """            arange_repeated = self._rows(b * n_rows * c2, h2 * w2)
""")))
refac("utils-registry", ("utils.py", lambda s: s.replace("""        elif layer.__class__.__name__ == "Softplus":
            nnj_layer = nnj.Softplus(beta=layer.beta, threshold=layer.threshold)
""", """        elif layer.__class__.__name__ in _WITH_ARGUMENTS:
            name = layer.__class__.__name__
            nnj_layer = getattr(nnj, name)(**{k: getattr(layer, k) for k in _WITH_ARGUMENTS[name]})
""").replace("def convert_to_nnj", """_WITH_ARGUMENTS = {"Softplus": ("beta", "threshold")}


def convert_to_nnj""", 1)))
refac("utils-generator", ("utils.py", lambda s: s.replace("""        model.append(nnj_layer)

    model = nnj.Sequential(*model, add_hooks=True)

    return model
""", """        yield nnj_layer
""").replace("""def convert_to_nnj(sequential: Sequential) -> Sequential:
    model = []
""", """def convert_to_nnj(sequential: Sequential) -> Sequential:
    return nnj.Sequential(*_converted(sequential), add_hooks=True)


def _converted(sequential):
""")))
refac("skip-property", ("skipconnection.py", lambda s: s.replace("val[:, l:] if val is not None else None", "self._inner(val, l)").replace("None if val is None else val[:, l:]", "self._inner(val, l)").replace("    @torch.no_grad()\n    def jacobian(", """    @staticmethod
    def _inner(val, l):
        return None if val is None else val[:, l:]

    @torch.no_grad()
    def jacobian(""", 1)))
refac("abstract-walrus", ("abstract_jacobian.py", lambda s: s.replace("""        jacobian = self.jacobian(x, val, wrt=wrt)
        if jacobian is None:  # non parametric layer
            return None
""", """        if (jacobian := self.jacobian(x, val, wrt=wrt)) is None:  # non parametric layer
            return None
""")))
refac("diag-table", ("abstract_diagonal_jacobian.py", lambda s: re.sub(r"        if not from_diag and not to_diag:\n.*?diag_jacobian_square, matrix\)\n\n", """        full = "bi,bi->bi" if from_diag else ("bi,bii->bi" if to_diag else "bi,bik->bik")
        if from_diag or to_diag:
            out = torch.einsum(full, diag_jacobian.square(), matrix)
            return out if to_diag else torch.diag_embed(out)
        return diag_jacobian.unsqueeze(2) * matrix * diag_jacobian.unsqueeze(1)

""", s, count=1, flags=re.S)))
refac("conv-starmap", ("conv2d.py", lambda s: re.sub(r"                vector_J = torch\.zeros\(b, c2 \* c1 \* kernel_h \* kernel_w, dtype=x\.dtype, device=x\.device\)\n                for i in range\(b\):\n.*?vector_J\[i, :\] = vector_J_single_batch\n", """                pieces = []
                for input_single, vector_single in zip(x.split(1, dim=0), vector.split(1, dim=1)):
                    pieces.append(
                        F.conv2d(
                            vector_single.reshape(-1, 1, h2, w2),
                            weight=input_single.flip(-2, -1).movedim(0, 1),
                            bias=None,
                            stride=self.stride,
                            padding=self.dw_padding,
                            dilation=self.dilation,
                            groups=self.groups,
                        ).flatten()
                    )
                vector_J = torch.stack(pieces)
""", s, count=1, flags=re.S)))


def main():
    os.makedirs(OUT, exist_ok=True)
    only = sys.argv[1:]
    for name, edits in R.items():
        if only and name not in only:
            continue
        t = tempfile.mkdtemp(prefix="refac")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
            for e in edits:
                f = t + "/r/nnj/" + e[0]
                s = open(f).read() if os.path.exists(f) else ""
                if len(e) == 2:
                    n = e[1](s)
                else:
                    assert e[1] in s, (name, e[1])
                    n = s.replace(e[1], e[2])
                assert n != s, name
                open(f, "w").write(n)
            subprocess.run(["git", "-C", t + "/r", "add", "-N", "."], check=True)
            d = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True).stdout
            open(OUT + "/" + name + ".diff", "w").write(d)
        finally:
            shutil.rmtree(t)


main()
