"""Contracts of the containers, over abstract layers.

An abstract layer is *any* layer honouring the layer contract: its forward, Jacobians and diagonal maps are uninterpreted
functions of the contents of its input.  A caller is checked against this contract, never against a layer's body; a call
that does not establish the precondition (val is the layer's output on that input, and the layer was last evaluated on it)
gets an unconstrained result.
"""
from oblig import *
import ctx as _ctx
from dims import canon


class Stages:
    """contents seen by abstract layers"""

    def __init__(self):
        self.items = []  # (key, tensor)

    def find(self, t):
        try:
            k = st.content_key(t)
        except Unsupported:
            k = None
        for i, (k2, t2) in enumerate(self.items):
            if k is not None and k == k2:
                return i
        for i, (k2, t2) in enumerate(self.items):
            e = same(t, t2)
            if e:
                return i
            if e is None:
                raise Unsupported("content of an argument not identified")
        self.items.append((k, t))
        return len(self.items) - 1


def same(a, b):
    """True / False / None: equal shape and contents"""
    if a.ndim != b.ndim:
        return False
    maps = []
    for x, y in zip(a.dims, b.dims):
        d = x.size - y.size
        if d.t and not implies(C("eq", d)):
            if d.is_const() or implies(C("ne", d)) or _ctx.ctx().model([C("ne", d)]) is not None:
                return False
            return None
        maps.append(unify(x, y))
    combos = [[]]
    for D, m1, m2 in maps:
        combos = [c + [i] for c in combos for i, _ in fresh_idx(D)]
    for c in combos:
        L = strip_cust(a.elem([m[1](i) for m, i in zip(maps, c)]))
        R = strip_cust(b.elem([m[2](i) for m, i in zip(maps, c)]))
        try:
            if Prover(_ctx.ctx()).equal(L, R):
                continue
        except Undecided:
            pass
        if refute(L, R, _ctx.ctx()) is not None:
            return False
        return None
    return True


def uf(name, dims, dtype):
    t = Tensor(dims, lambda idx: tens(name, st.flat_digits(idx)), dtype, Storage())
    return t


class Spec:
    """contract state of one obligation"""

    def __init__(self, W):
        self.W = W
        self.stages = Stages()
        self.junk = 0
        A = W.nnj.AbstractJacobian

        class AbsLayer(symnn.Module, A):
            def __init__(self, spec, k, odims, np_):
                symnn.Module.__init__(self)
                d = self.__dict__
                d["spec"], d["k"], d["odims"], d["last"] = spec, k, odims, None
                if np_ is None:
                    self._n_params = 0
                else:
                    self.weight = symnn.fresh_param((np_,))
                    self._n_params = np_

            # pure: the layer's function and derivatives at given contents
            def at(self, x):
                return self.spec.stages.find(x)

            def F(self, x, s=None):
                s = self.at(x) if s is None else s
                return uf(f"F{self.k}@{s}", [x.dims[0]] + self.odims, x.dtype)

            def J(self, x, wrt, s=None, tag="J"):
                s = self.at(x) if s is None else s
                O = plain(flatdim(self.odims))
                if wrt == "input":
                    N = plain(flatdim(x.dims[1:]))
                elif self.weight_dim() is None:
                    return None
                else:
                    N = self.weight_dim()
                return uf(f"{tag}{'' if wrt == 'input' else 'w'}{self.k}@{s}", [x.dims[0], O, N], x.dtype)

            def weight_dim(self):
                p = self._parameters.get("weight")
                return None if p is None else atom_dim(p.dims[0].size)

            # the executable contract
            def forward(self, x):
                self.__dict__["last"] = self.at(x)
                y = self.F(x)
                return y

            def _j(self, x, val, wrt, tag="J"):
                if wrt not in ("input", "weight"):
                    raise AssertionError("wrt")
                s = self.at(x)
                if val is None:
                    self.__dict__["last"] = s
                else:
                    ok = self.last == s and same(val, self.F(x, s))
                    if ok is None:
                        raise Unsupported("val not identified")
                    if not ok:
                        self.spec.junk += 1
                        s = f"{s}!{self.spec.junk}"
                return self.J(x, wrt, s, tag)

            def jacobian(self, x, val=None, wrt="input"):
                return self._j(x, val, wrt)

            def jvp(self, x, val, vector, wrt="input"):
                J = self._j(x, val, wrt)
                return None if J is None else sp_jvp(J, chk(vector, 2))

            def jmp(self, x, val, matrix, wrt="input"):
                J = self._j(x, val, wrt)
                return None if J is None else sp_jmp(J, matrix)

            def vjp(self, x, val, vector, wrt="input"):
                J = self._j(x, val, wrt)
                return None if J is None else sp_vjp(J, vector)

            def mjp(self, x, val, matrix, wrt="input"):
                J = self._j(x, val, wrt)
                return None if J is None else sp_mjp(J, matrix)

            def _sq(self, m, fd):
                if m is not None and not isinstance(m, Tensor):
                    raise Unsupported("metric is not a tensor")
                return chk(m, 2 if fd else 3)

            def jTmjp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
                if diag_backprop:
                    assert (from_diag or matrix is None) and to_diag
                    T = self._j(x, val, wrt, "D")
                    if T is None:
                        return None
                    return sp_vjp(T, self._sq(matrix, True) if matrix is not None else st.ones_like(T[:, :, 0]))
                J = self._j(x, val, wrt)
                return None if J is None else sp_jTmjp(J, self._sq(matrix, from_diag), from_diag, to_diag)

            def jmjTp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
                if diag_backprop:
                    assert (from_diag or matrix is None) and to_diag
                    T = self._j(x, val, wrt, "E")
                    if T is None:
                        return None
                    return sp_jvp(T, self._sq(matrix, True) if matrix is not None else st.ones_like(T[:, 0, :]))
                J = self._j(x, val, wrt)
                return None if J is None else sp_jmjTp(J, self._sq(matrix, from_diag), from_diag, to_diag)

        self.Abs = AbsLayer

    def layer(self, k, orank, par):
        if orank == 1:
            od = [dim_of(Sym.size(f"N{k}"))]
        else:
            od = [dim_of(Sym.size(f"{c}{k}")) for c in "CHW"]
        return self.Abs(self, k, od, Sym.size(f"P{k}") if par else None)


def chk(m, r):
    if isinstance(m, Tensor) and m.ndim != r:
        raise RuntimeError(f"matrix of rank {m.ndim}")
    return m


# ------------------------------------------------------------------ specification of a network (a tree of layers)
class Net:
    """node: ('abs', layer) | ('flat',) | ('seq', [nodes]) | ('skip', [nodes])"""


def build(W, spec, nodes, x, cnt=None):
    """nodes: pattern string -> list of (nnj layer, node)"""
    raise NotImplementedError


def parse(pat):
    """P/N parametric / not, 3-dim output: p/n; F flatten; [..] nested Sequential; <..> skip connection"""

    def go(i, end):
        out = []
        while i < len(pat):
            c = pat[i]
            if c == end:
                return out, i + 1
            if c == "[":
                sub, i = go(i + 1, "]")
                out.append(("seq", sub))
                continue
            if c == "(":
                sub, i = go(i + 1, ")")
                out.append(("edited", sub))
                continue
            if c == "<":
                sub, i = go(i + 1, ">")
                out.append(("skip", sub))
                continue
            out.append((c,))
            i += 1
        return out, i

    return go(0, None)[0]


class Builder:
    def __init__(self, W, pat, add_hooks=True):
        self.W, self.spec, self.k = W, Spec(W), 0
        self.tree = [self.node(n) for n in parse(pat)]

    def node(self, n):
        nnj = self.W.nnj
        if n[0] == "edited":  # a sequence assembled by replacing, appending, inserting and deleting layers
            subs = [self.node(s) for s in n[1]]
            ls = [s[1] for s in subs]
            other = [self.spec.layer(100 + self.k + j, 1, j == 0) for j in range(2)]
            net = nnj.Sequential(other[0], ls[-1], other[1])
            if len(ls) == 1:
                del net[0]
            else:
                net[0] = ls[0]
            del net[len(net) - 1]
            for j, l in enumerate(ls[1:-1]):
                net.insert(1 + j, l)
            return ("seq", net, subs)
        if n[0] in ("seq", "skip"):
            subs = [self.node(s) for s in n[1]]
            cls = nnj.Sequential if n[0] == "seq" else nnj.SkipConnection
            return (n[0], cls(*[s[1] for s in subs]), subs)
        if n[0] == "F":
            return ("flat", nnj.Flatten(), None)
        self.k += 1
        if n[0] == "s":  # shape preserving on images: same height and width as the input image
            raise NotImplementedError
        return ("abs", self.spec.layer(self.k, 1 if n[0].isupper() else 3, n[0] in "Pp"), None)


def imagelike(b, x, pat):
    """inside a skip connection on an image the stack keeps height and width"""
    for n in b.tree:
        fix(n, x.dims[1:])


def fix(n, dims, keep=None):
    """make the output of skip stacks compatible with concatenation along dimension 1; returns the output dims.
    keep: trailing dims the output must have"""
    kind, l, subs = n
    if kind == "abs":
        if keep is not None and len(l.odims) == 1 + len(keep):
            l.__dict__["odims"] = [l.odims[0]] + list(keep)
        return l.odims
    if kind == "flat":
        return [flatdim(dims)]
    d = dims
    for k, s in enumerate(subs):
        last = k == len(subs) - 1
        d = fix(s, d, (list(dims[1:]) if kind == "skip" else keep) if last else (keep if s[0] == "skip" else None))
    return catdims(dims, d) if kind == "skip" else d


def catdims(a, b):
    one = dim_of(1)
    ta = Tensor([one] + list(a), lambda i: S(0))
    tb = Tensor([one] + list(b), lambda i: S(0))
    return st.cat([ta, tb], 1).dims[1:]


def eyeT(B, D, dt):
    D = plain(D)

    def e(idx):
        cs = st.eq_digits(idx[1], idx[2])
        return S(0) if cs is None else st.one_guard(cs)

    return Tensor([B, D, D], e, dt)


def flat2(t):
    """[B, ...] -> [B, N]"""
    return Tensor([t.dims[0], flatdim(t.dims[1:])], lambda idx: t.elem([idx[0]] + split_digits(t.dims[1:], idx[1])), t.dtype)


class R:
    """specification at one input: value, input Jacobian, tree of weight Jacobians (None | tensor | list)"""

    def __init__(self, y, J, blocks):
        self.y, self.J, self.blocks = y, J, blocks


def mulT(J, b):
    if b is None:
        return None
    if isinstance(b, list):
        return [mulT(J, c) for c in b]
    return st.einsum("bpo,boi->bpi", J, b)


def sp_node(n, x):
    kind, l, subs = n
    if kind == "abs":
        return R(l.F(x), l.J(x, "input"), l.J(x, "weight"))
    if kind == "flat":
        return R(flat2(x), None, None)
    if kind == "seq":
        return sp_seq(subs, x)
    r = sp_seq(subs, x)
    y = st.cat([x, r.y], 1)
    I = eyeT(x.dims[0], flatdim(x.dims[1:]), x.dtype)
    Jr = r.J if r.J is not None else I
    J = st.cat([I, Jr], 1)

    def lift(b):
        if b is None:
            return None
        if isinstance(b, list):
            return [lift(c) for c in b]
        z = Tensor([x.dims[0], I.dims[1], b.dims[2]], lambda idx: S(0), x.dtype)
        return st.cat([z, b], 1)

    return R(y, J, lift(r.blocks))


def prune(bs):
    bs = [b for b in bs if b is not None]
    return bs or None


def sp_seq(subs, x):
    J, blocks = None, []
    for n in subs:
        r = sp_node(n, x)
        if r.J is not None:
            blocks = [mulT(r.J, b) for b in blocks]
            J = r.J if J is None else st.einsum("bpo,boi->bpi", r.J, J)
        blocks.append(r.blocks)
        x = r.y
    return R(x, J, prune(blocks))


def leaves(b):
    if b is None:
        return []
    if isinstance(b, list):
        return [c for x in b for c in leaves(x)]
    return [b]


def total(bs):
    l = leaves(bs)
    return None if not l else (l[0] if len(l) == 1 else st.cat(l, 2))


def mapblocks(b, f):
    return [mapblocks(c, f) for c in b] if isinstance(b, list) else f(b)


# diag_backprop specifications
def db_jT(n, x, m, wrt):
    """pull back of the diagonal metric m through node n, wrt input or (list of) weights"""
    kind, l, subs = n
    if kind == "abs":
        T = l.J(x, wrt, tag="D")
        return None if T is None else sp_vjp(T, m)
    if kind == "flat":
        return m if wrt == "input" else None
    if kind == "seq":
        return db_jT_seq(subs, x, m, wrt)
    l1 = flatdim(x.dims[1:]).size
    a, b = m[:, : mkint(l1)], m[:, mkint(l1) :]
    r = db_jT_seq(subs, x, b, wrt)
    return r + a if wrt == "input" else r


def db_jT_seq(subs, x, m, wrt):
    xs = [x]
    for n in subs:
        xs.append(sp_node(n, xs[-1]).y)
    out = []
    for k in range(len(subs) - 1, -1, -1):
        if wrt == "weight":
            r = db_jT(subs[k], xs[k], m, "weight")
            if r is not None:
                out.insert(0, r)
        m = db_jT(subs[k], xs[k], m, "input")
    if wrt == "input":
        return m
    return None if not out else (out[0] if len(out) == 1 else st.cat(out, 1))


def count(n):
    kind, l, subs = n
    if kind == "abs":
        return l._n_params
    if kind == "flat":
        return 0
    return sum((count(s) for s in subs), 0)


def db_j(n, x, m, wrt):
    kind, l, subs = n
    if kind == "abs":
        T = l.J(x, wrt, tag="E")
        return None if T is None else sp_jvp(T, m)
    if kind == "flat":
        return m if wrt == "input" else None
    if kind == "seq":
        return db_j_seq(subs, x, m, wrt)
    r = db_j_seq(subs, x, m, wrt)
    if wrt == "input":
        return st.cat([m, r], 1)
    if r is None:
        return None
    return st.cat([flat2(st.zeros_like(x)), r], 1)


def db_j_seq(subs, x, m, wrt):
    if wrt == "input":
        for n in subs:
            m, x = db_j(n, x, m, "input"), sp_node(n, x).y
        return m
    acc, p = None, 0
    for n in subs:
        if acc is not None:
            acc = db_j(n, x, acc, "input")
        c = count(n)
        if not (isinstance(c, int) and c == 0):
            r = db_j(n, x, m[:, p : p + c], "weight")
            acc = r if acc is None else acc + r
            p = p + c
        x = sp_node(n, x).y
    return acc


def cont_body(W, pat, meth, wrt, fd=False, td=False, none=False, db=False, val=True, hist=(), rank=1, lst=False, dts=None):
    """one method of one container (the single top level node of pat)"""

    def body():
        if dts:
            State.default = dts[0]
            yield "dtype", dts[0]
        b = Builder(W, pat)
        B = Sym.size("B")
        x = tensor("X", (B, *(sizes_("C H W") if rank == 3 else [Sym.size("I")])))
        n = b.tree[0]
        fix(n, x.dims[1:])
        l = n[1]
        sp = sp_node(n, x)
        x0 = x
        if hist:
            import misc

            x = misc.hist_run(W, l, x, sp.y, hist[0])
            val_ = hist[0] == "any+forward"
        else:
            val_ = val
        if dts:
            l = Typed(l, *dts)
        v = l.forward(x) if val_ else None
        J = sp.J if wrt == "input" else total(sp.blocks)
        Bd, Od = x.dims[0], flatdim(sp.y.dims[1:])
        Oa = plain(Od)
        Na = plain(flatdim(x.dims[1:])) if wrt == "input" else (plain(J.dims[2]) if J is not None else dim_of(Sym.size("Q")))
        if wrt == "weight" and J is None and (meth in ("jvp", "jmp", "jmjTp")):
            Na = dim_of(0)
        if wrt == "input" and J is None:
            J = eyeT(Bd, Od, x.dtype)
        K = dim_of(Sym.size("K"))
        if meth == "jacobian":
            yield meth, l.jacobian(x, v, wrt=wrt), J
            return
        if meth in ("jvp", "vjp"):
            m = tensor_d("V", [Bd, Na if meth == "jvp" else Oa])
            got = getattr(l, meth)(x, v, m, wrt=wrt)
            want = None if J is None else (sp_jvp if meth == "jvp" else sp_vjp)(J, m)
            yield meth, got, want
            return
        if meth in ("jmp", "mjp"):
            m = None if none else tensor_d("M", [Bd, Na, K] if meth == "jmp" else [Bd, K, Oa])
            got = getattr(l, meth)(x, v, m, wrt=wrt)
            want = None if J is None else (sp_jmp if meth == "jmp" else sp_mjp)(J, m)
            yield meth, got, want
            return
        A = Na if meth == "jmjTp" else Oa
        kw = dict(from_diag=fd, to_diag=td)
        if db:
            kw["diag_backprop"] = True
        # the metric
        if meth == "jmjTp" and wrt == "weight" and not none:
            bl = leaves(sp.blocks)
            if lst:
                m = mapblocks_i(sp.blocks, lambda q, i: tensor_d(f"M{i}", [Bd, plain(q.dims[2])] if fd else [Bd, plain(q.dims[2]), plain(q.dims[2])]))
                ms = leaves(m)
            else:
                m = tensor_d("M", [Bd, A] if fd else [Bd, A, A])
                ms, p = [], 0
                for q in bl:
                    s = mkint(q.dims[2].size)
                    ms.append(m[:, p : p + s] if fd else m[:, p : p + s, p : p + s])
                    p = p + s
            got = l.jmjTp(x, v, m, wrt=wrt, **kw)
            if db:
                want = db_j(n, x, m, wrt) if not lst else None
            else:
                want = None
                for q, mm in zip(bl, ms):
                    w = sp_jmjTp(q, mm, fd, td)
                    want = w if want is None else want + w
            yield meth, got, want
            return
        m = None if none else tensor_d("M", [Bd, A] if fd else [Bd, A, A])
        got = getattr(l, meth)(x, v, m, wrt=wrt, **kw)
        if db:
            mm = m if m is not None else Tensor([Bd, A], lambda idx: S(1), x.dtype)
            want = (db_jT if meth == "jTmjp" else db_j)(n, x, mm, wrt) if J is not None else None
        elif J is None:
            want = None
        elif meth == "jTmjp" and wrt == "weight" and not td:
            want = mapblocks(sp.blocks, lambda q: sp_jTmjp(q, m, fd, td))
        elif meth == "jTmjp" and wrt == "weight":
            l2 = [sp_jTmjp(q, m, fd, td) for q in leaves(sp.blocks)]
            want = l2[0] if len(l2) == 1 else st.cat(l2, 1)
        elif meth == "jmjTp" and wrt == "weight":
            want = None
            for q in leaves(sp.blocks):
                w = sp_jmjTp(q, None, fd, td)
                want = w if want is None else want + w
        else:
            want = (sp_jmjTp if meth == "jmjTp" else sp_jTmjp)(J, m, fd, td)
        yield meth, got, want

    return body


def has_par(pat):
    return "P" in pat or "p" in pat


def fwd_body(W, pat, rank=1, val=None):
    """forward computes the specified map, and records nothing that changes it"""

    def body():
        b = Builder(W, pat)
        B = Sym.size("B")
        x = tensor("X", (B, *(sizes_("C H W") if rank == 3 else [Sym.size("I")])))
        n = b.tree[0]
        fix(n, x.dims[1:])
        sp = sp_node(n, x)
        yield "forward", n[1].forward(x), sp.y
        yield "call", n[1](x), sp.y

    return body


class Typed:
    """calls a module while the default floating point type is another one"""

    def __init__(self, l, dt, other):
        self.__dict__["_a"] = (l, dt, other)

    def __getattr__(self, n):
        l, dt, other = self._a
        f = getattr(l, n)

        def g(*a, **k):
            State.default = other
            try:
                return f(*a, **k)
            finally:
                State.default = dt

        return g


def mapblocks_i(b, f, cnt=None):
    cnt = [0] if cnt is None else cnt
    if isinstance(b, list):
        return [mapblocks_i(c, f, cnt) for c in b]
    cnt[0] += 1
    return f(b, cnt[0])


def sizes_(s):
    return [Sym.size(n) for n in s.split()]


def plain(d):
    """the same axis with as little structure as possible"""
    d = canon(d)[0]
    if len(d.facs) == 1 and isinstance(d.facs[0], CatFac):
        return Dim([CatFac([plain(p) for p in d.facs[0].parts])])
    if any(isinstance(f, CatFac) for f in d.facs):
        return d
    return atom_dim(d.size)


if __name__ == "__main__":
    import re

    W = symnn.World()
    pats = sys.argv[1].split(",")
    mp = sys.argv[2] if len(sys.argv) > 2 else ""
    rank = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    tot = {}
    for pat in pats:
        for wrt in ("input", "weight"):
            for meth in ("jacobian", "jvp", "jmp", "vjp", "mjp", "jTmjp", "jmjTp"):
                if not re.search(mp, meth + "/" + wrt):
                    continue
                sq = meth in ("jTmjp", "jmjTp")
                for db in (False, True) if sq else (False,):
                    for fd in (False, True) if sq else (False,):
                        for td in (False, True) if sq else (False,):
                            for none in (False, True) if meth not in ("jacobian", "jvp", "vjp") else (False,):
                                if none and fd or (db and not ((fd or none) and td)):
                                    continue
                                for val in (True, False):
                                    r = run("", cont_body(W, pat, meth, wrt, fd, td, none, db, val, rank=rank))
                                    tot[r.status] = tot.get(r.status, 0) + 1
                                    if r.status != "proved" or r.time > 2 or DEBUG:
                                        print(pat, meth, wrt, "fd"*fd, "td"*td, "None"*none, "db"*db, "val"*val, r.status, r.paths, r.vcs, "%.2f" % r.time, r.why[:300], r.cex and str(r.cex)[:200], flush=True)
    print(tot)
