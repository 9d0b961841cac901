"""The obligations of every property: (property, tier) -> list of Ob."""
import itertools

import leaf as L
import cont as K
import misc as M
import lik as LK
import cfg as G
import depth as DP
from oblig import *

MET = ("jvp", "jmp", "vjp", "mjp", "jTmjp", "jmjTp")
SQ = ("jTmjp", "jmjTp")
B = (False, True)


class Ob:
    def __init__(self, id, body, allow=None, meta=None, timeout=60, fallback=None, frame=None):
        self.id, self.body, self.allow, self.meta = id, body, allow or (lambda e: False), meta or {}
        self.timeout = timeout
        self.runner = None

    def run(self, timeout):
        if self.runner is not None:
            return self.runner(timeout)
        return run(self.id, self.body, self.allow, timeout=timeout)


def depth_ob(W, what, c, tag="", **k):
    """Sequential of any depth / a skip connection around a container of any depth"""
    mk = DP.depth_body if what == "Sequential" else DP.skip_body
    v = k.get("val", True)
    oid = f"{what}(any depth{'/images' if k.get('rank') == 3 else ''}{', of containers' if k.get('comp') else ''}).{DP.call_name(**c)}{',val=None' if not v else ''}]{tag}"
    o = Ob(oid, None, None, dict(kind="depth", what=what, **{a: b for a, b in c.items()}, val=bool(v)), timeout=90)
    o.runner = lambda timeout: DP.run_depth(oid, lambda inv: mk(W, inv, **c, **k), timeout=timeout)
    return o


FWD = dict(meth="forward", wrt="input", fd=False, td=False, none=False, db=False, lst=False)


def depth_obs(W, what, pick, tag="", fwd=True, vals=B, **k):
    for c in DP.calls():
        if pick(c):
            for v in vals:
                yield depth_ob(W, what, c, tag, val=v, **k)
    if fwd:
        yield depth_ob(W, what, FWD, tag, **k)


def lemma(W):
    return Ob("lemma: chain rule over the layers does not depend on where the network is cut", DP.lemma_body(W), timeout=60)


def ni(e):
    return isinstance(e, NotImplementedError)


def modes(meth):
    """(from_diag, to_diag, None metric)"""
    if meth in SQ:
        return [(f, t, False) for f in B for t in B] + [(False, t, True) for t in B]
    if meth in ("jmp", "mjp"):
        return [(False, False, False), (False, False, True)]
    return [(False, False, False)]


def leaf_ob(W, l, meth, wrt, fd=False, td=False, none=False, val=True, db=False, mk=None, tag=""):
    oid = f"{l.name}.{meth}[{wrt}{',from_diag' * fd}{',to_diag' * td}{',metric=None' * none}{',diag_backprop' * db}{',val=None' * (not val)}]{tag}"
    un = l.unimpl(meth, wrt, none)
    body = (mk or L.call_body)(W, l, meth, wrt, fd, td, none, val, db)
    return Ob(oid, body, ni if un else None, dict(kind="leaf", leaf=l.name, meth=meth, wrt=wrt, fd=fd, td=td, none=none, val=val, db=db))


def leaves(tier):
    return [l for l in L.LEAVES if tier == "thorough" or not l.thorough]


def vals(l, tier):
    return (True, False)


def c01(W, tier):
    for l in leaves(tier):
        for val in vals(l, tier):
            yield leaf_ob(W, l, "jacobian", "input", val=val)
            if l.diag:
                yield leaf_ob(W, l, "jacobian", "input", val=val, mk=L.diag_body, tag="{diag}")


def c02(W, tier):
    for l in leaves(tier):
        if "weight" not in l.wrts:
            continue
        if l.par:
            for val in vals(l, tier):
                yield leaf_ob(W, l, "jacobian", "weight", val=val)
        else:
            for meth in ("jacobian",) + MET:
                for fd, td, none in modes(meth):
                    for val in vals(l, tier):
                        yield leaf_ob(W, l, meth, "weight", fd, td, none, val)


def prods(W, tier, meths, none=False):
    for l in leaves(tier):
        for wrt in l.wrts:
            if wrt == "weight" and not l.par:
                continue
            for meth in meths:
                for fd, td, nn in modes(meth):
                    if nn != none:
                        continue
                    for val in vals(l, tier):
                        yield leaf_ob(W, l, meth, wrt, fd, td, nn, val)


def c03(W, tier):
    return prods(W, tier, ("jvp", "jmp"))


def c04(W, tier):
    return prods(W, tier, ("vjp", "mjp"))


def c05(W, tier):
    return prods(W, tier, ("jTmjp",))


def c06(W, tier):
    return prods(W, tier, ("jmjTp",))


# ------------------------------------------------------------------ containers
SEQ1 = ["[P]", "[N]", "[PP]", "[PN]", "[PNP]", "[PFP]", "[NPN]", "[NNN]", "[FPP]", "[PPF]", "[[PN]P]", "[P[PP]N]", "[PPPP]", "[[N]P]", "[P[N]]", "[<P>P]", "[N<PP>P]", "(P)", "(PN)", "[P(NP)]"]
SKIP1 = ["<P>", "<N>", "<PN>", "<<P>P>", "<F>"]
SEQ3 = ["[<p>FN]", "[pnFP]", "[p<pn>p]"]
SKIP3 = ["<p>", "<n>", "<[pp]>", "<<p>p>"]
SEQ1T = ["[PPPPP]", "[NPNPNP]", "[[P[PN]]P]", "[P[N[PP]]N]", "[PP<PP>P]"]
SKIP1T = ["<PPP>", "<[P]N>", "<P<N>P>", "<NN>"]


def pats(which, tier):
    out = []
    if which in ("seq", "all"):
        out += [(p, 1) for p in SEQ1] + [(p, 3) for p in SEQ3]
        if tier == "thorough":
            out += [(p, 1) for p in SEQ1T]
    if which in ("skip", "all"):
        out += [(p, 1) for p in SKIP1] + [(p, 3) for p in SKIP3]
        if tier == "thorough":
            out += [(p, 1) for p in SKIP1T]
    return out


def cont_ob(W, pat, rank, meth, wrt, fd=False, td=False, none=False, db=False, val=True, hist=(), lst=False, mk=None, tag=""):
    oid = f"{pat}/{rank}.{meth}[{wrt}{',from_diag' * fd}{',to_diag' * td}{',metric=None' * none}{',blocks' * lst}{',diag_backprop' * db}{',val=None' * (not val)}{',after ' + '+'.join(hist) if hist else ''}]{tag}"
    body = (mk or K.cont_body)(W, pat, meth, wrt, fd, td, none, db, val, hist, rank, lst)
    return Ob(oid, body, None, dict(kind="cont", pat=pat, rank=rank, meth=meth, wrt=wrt, fd=fd, td=td, none=none, db=db, val=val))


def cont(W, tier, which):
    for pat, rank in pats(which, tier):
        for wrt in ("input", "weight"):
            for meth in ("jacobian",) + MET:
                for fd, td, none in modes(meth):
                    if none:
                        continue
                    for val in B:
                        yield cont_ob(W, pat, rank, meth, wrt, fd, td, False, False, val)
                        if meth == "jmjTp" and wrt == "weight" and pat[0] in "[(" and K.has_par(pat):
                            yield cont_ob(W, pat, rank, meth, wrt, fd, td, False, False, val, lst=True)
        if which == "skip":
            yield Ob(f"{pat}/{rank}.forward", K.fwd_body(W, pat, rank), None, dict(kind="cont", pat=pat, rank=rank, meth="forward"))


def c08(W, tier):
    plain_ = lambda c: not c["none"] and not c["db"]
    yield from cont(W, tier, "seq")
    yield lemma(W)
    yield from depth_obs(W, "Sequential", plain_)
    yield from depth_obs(W, "Sequential", plain_, rank=3)
    yield from depth_obs(W, "Sequential", lambda c: plain_(c) and c["meth"] in SQ and c["wrt"] == "weight", comp=True, fwd=False)


def c09(W, tier):
    plain_ = lambda c: not c["none"] and not c["db"]
    yield from cont(W, tier, "skip")
    yield lemma(W)
    yield from depth_obs(W, "SkipConnection", plain_)
    yield from depth_obs(W, "SkipConnection", plain_, rank=3)
    # what the skip connection relies on: with a matrix given, the contents of val are immaterial
    yield from depth_obs(W, "Sequential", lambda c: not c["none"] and c["meth"] != "jacobian", "{any val}", fwd=False, vals=("any",))


def c10(W, tier):
    for what in ("Sequential", "SkipConnection"):
        yield from depth_obs(W, what, lambda c: c["db"] and not c["none"], fwd=False)
        yield from depth_obs(W, what, lambda c: c["db"] and not c["none"], fwd=False, rank=3)
    for pat, rank in pats("all", tier):
        for wrt in ("input", "weight"):
            for meth in SQ:
                for val in B:
                    yield cont_ob(W, pat, rank, meth, wrt, True, True, False, True, val)
    for l in leaves(tier):
        for wrt in l.wrts:
            if wrt == "weight" and not l.par:
                continue
            for meth in SQ:
                for val in B:
                    yield leaf_ob(W, l, meth, wrt, True, True, False, val, True)


def c11(W, tier):
    for what in ("Sequential", "SkipConnection"):
        yield from depth_obs(W, what, lambda c: c["none"], fwd=False)
        yield from depth_obs(W, what, lambda c: c["none"], fwd=False, rank=3)
    yield from prods(W, tier, ("jmp", "mjp", "jTmjp", "jmjTp"), True)
    for l in leaves(tier):
        for wrt in l.wrts:
            if wrt == "weight" and not l.par:
                continue
            for meth in SQ:
                for val in B:
                    yield leaf_ob(W, l, meth, wrt, False, True, True, val, True)
    for pat, rank in pats("all", tier):
        for wrt in ("input", "weight"):
            for meth in ("jmp", "mjp") + SQ:
                for td in B if meth in SQ else (False,):
                    for db in B if td else (False,):
                        for val in B:
                            yield cont_ob(W, pat, rank, meth, wrt, False, td, True, db, val)


# ------------------------------------------------------------------ base classes
def c07(W, tier):
    for dense, rank, par, orank in ((True, 1, True, 1), (True, 1, False, 1), (True, 3, True, 3), (True, 1, True, 3), (True, 3, False, 1), (False, 1, False, 1), (False, 3, False, 1), (False, 1, True, 1), (False, 3, True, 1)):
        nm = f"{'AbstractJacobian' if dense else 'AbstractDiagonalJacobian'}/in{rank},out{orank if dense else rank}{',params' * par}"
        for wrt in ("input", "weight"):
            for meth in ("jacobian",) + MET:
                for fd, td, none in modes(meth):
                    for val in B:
                        for db in B if (td and (fd or none)) else (False,):
                            yield Ob(f"{nm}.{meth}[{wrt}{',from_diag' * fd}{',to_diag' * td}{',metric=None' * none}{',diag_backprop' * db}{',val=None' * (not val)}]",
                                     M.custom_body(W, dense, rank, par, orank, meth, wrt, fd, td, none, val, db), None, dict(kind="custom", dense=dense, par=par))
    for c in ("AbstractJacobian", "AbstractDiagonalJacobian"):
        yield Ob(f"{c}().jacobian refuses", M.abstract_body(W, c))


# ------------------------------------------------------------------ state, frames, types
def tleaves(tier):
    """representatives when a property is about how methods treat their surroundings"""
    out = [l for l in leaves(tier)]
    return out


def calls(par):
    for wrt in ("input", "weight"):
        if wrt == "weight" and not par:
            continue
        for meth in ("jacobian",) + MET:
            for fd, td, none in modes(meth):
                yield wrt, meth, fd, td, none, False
                if td and (fd or none):
                    yield wrt, meth, fd, td, none, True


CPATS = [("[P]", 1), ("[PN]", 1), ("[PNP]", 1), ("[[PN]P]", 1), ("[PFP]", 1), ("<P>", 1), ("<N>", 1), ("<PN>", 1), ("[N<PP>P]", 1), ("<p>", 3), ("[pnFP]", 3)]


def c12(W, tier):
    for what in ("Sequential", "SkipConnection"):
        for mode in ("any", "any+forward"):
            yield from depth_obs(W, what, lambda c: True, "{after " + mode + "}", vals=(False,), mode=mode)
    for mode in M.HMODES:
        for l in tleaves(tier):
            if mode != "any" and not M.stateful(W, l):
                continue
            for wrt, meth, fd, td, none, db in calls(l.par and "weight" in l.wrts):
                if mode not in ("any", "any+forward") and (db or (fd != td) or l.name.endswith("rank4")):
                    continue
                yield leaf_ob(W, l, meth, wrt, fd, td, none, False, db, M.hist_leaf(W, l, mode), "{after " + mode + "}")
            yield Ob(f"{l.name}.forward{{after {mode}}}", M.hist_fwd_leaf(W, l, mode), None, dict(kind="leaf", leaf=l.name, meth="forward"))
        for pat, rank in CPATS:
            for wrt, meth, fd, td, none, db in calls(True):
                if mode not in ("any", "any+forward") and (db or (fd != td)):
                    continue
                yield cont_ob(W, pat, rank, meth, wrt, fd, td, none, db, False, (mode,))
            yield Ob(f"{pat}/{rank}.forward{{after {mode}}}", M.hist_fwd_cont(W, pat, rank, mode), None, dict(kind="cont", pat=pat, rank=rank, meth="forward"))
    for nm, make in [(l.name, l.make) for l in leaves(tier) if l.par and "weight" in l.wrts] + M.NETS:
        for meth in ("forward", "vjp", "jacobian"):
            yield Ob(f"{nm}.{meth}[input,val=None]{{after set_weight}}", M.setw_body(W, make, meth), None, dict(kind="net", net=nm))


def c13(W, tier):
    for what in ("Sequential", "SkipConnection"):
        yield from depth_obs(W, what, lambda c: True, "{frame}", mode="frame")
    for l in tleaves(tier):
        for wrt, meth, fd, td, none, db in calls(l.par and "weight" in l.wrts):
            for val in B:
                yield leaf_ob(W, l, meth, wrt, fd, td, none, val, db, M.frame_leaf, "{frame}")
        yield leaf_ob(W, l, "forward", "input", mk=M.frame_leaf, tag="{frame}")
    for pat, rank in CPATS + [("[PP]", 1), ("[PPPP]", 1), ("[FP]", 1), ("<F>", 1), ("[F]", 3), ("[N<F>F]", 1)]:
        for wrt, meth, fd, td, none, db in calls(True):
            for val in B:
                yield cont_ob(W, pat, rank, meth, wrt, fd, td, none, db, val, mk=M.frame_cont, tag="{frame}")
                if meth == "jmjTp" and wrt == "weight" and not none and not db and pat[0] in "[(" and K.has_par(pat):
                    yield cont_ob(W, pat, rank, meth, wrt, fd, td, none, db, val, lst=True, mk=M.frame_cont, tag="{frame}")
        yield cont_ob(W, pat, rank, "forward", "input", mk=M.frame_cont, tag="{frame}")
    for lik in LK.LIKS:
        for kind in ("r1", "r2", "[PP]"):
            for a in ("return all", "sum"):
                yield Ob(f"{lik}({kind}).forward[{a}]{{frame}}", LK.frame_body(W, lik, kind, "forward", None, "diag", a), None, lmeta(lik, kind))
                for wrt in ("input", "weight"):
                    yield Ob(f"{lik}({kind}).gradient[{wrt},{a}]{{frame}}", LK.frame_body(W, lik, kind, "gradient", wrt, "diag", a), None, lmeta(lik, kind))
                    for shape in ("diag", "full"):
                        yield Ob(f"{lik}({kind}).ggn[{wrt},{a},{shape}]{{frame}}", LK.frame_body(W, lik, kind, "ggn", wrt, shape, a), None, lmeta(lik, kind))


def c14(W, tier):
    for d, o in (("float64", "float32"), ("float32", "float64")):
        tag = "{" + d + ", default " + o + "}"
        for l in tleaves(tier):
            for wrt, meth, fd, td, none, db in calls(l.par and "weight" in l.wrts):
                yield leaf_ob(W, l, meth, wrt, fd, td, none, True, db, M.typed_leaf(d, o), tag)
            yield leaf_ob(W, l, "forward", "input", mk=M.typed_leaf(d, o), tag=tag)
        for what in ("Sequential", "SkipConnection"):
            yield from depth_obs(W, what, lambda c: True, tag, dts=(getattr(st, d), getattr(st, o)))
        for pat, rank in CPATS:
            for wrt, meth, fd, td, none, db in calls(True):
                for val in B:
                    yield cont_ob(W, pat, rank, meth, wrt, fd, td, none, db, val, mk=lambda *a: K.cont_body(*a, dts=(getattr(st, d), getattr(st, o))), tag=tag)


# ------------------------------------------------------------------ likelihoods
MODELS = ["r1", "r2", "r3", "r1-", "[PP]", "[P[PN]]", "<P>", "[pF]"]


def lmeta(lik, kind, **k):
    return dict(kind="lik", lik=lik, model=kind, **k)


def c15(W, tier):
    for lik in LK.LIKS:
        for r in (1, 2, 3):
            yield Ob(f"lemma: {lik}/rank{r}: the residual is the derivative of the log-likelihood", LK.lemma_gradient(W, lik, r))
        for kind in MODELS:
            for a in LK.AGGS:
                yield Ob(f"{lik}({kind}).forward[{a}]", LK.forward_body(W, lik, kind, a), None, lmeta(lik, kind))
                for wrt in ("input", "weight"):
                    if kind.endswith("-") and wrt == "weight" and a not in (None, "return all"):
                        continue
                    yield Ob(f"{lik}({kind}).gradient[{wrt},{a}]", LK.gradient_body(W, lik, kind, a, wrt), None, lmeta(lik, kind))


def c16(W, tier):
    import induct

    for lik in LK.LIKS:
        for kind in ("r1", "r2", "r3"):
            for a in LK.AGGS:
                for e in ("matrix", "list"):
                    yield G.dep(Ob, f"{lik}({kind}, any number of layers, the blocks of one of them {'a tensor' if e == 'matrix' else 'a nested list'}).ggn[weight,{a},full]", lmeta(lik, kind), lambda inv, c=(lik, kind, a, e): induct.ggn_body(W, inv, *c), None)
        for r in (1, 2, 3):
            yield Ob(f"lemma: {lik}/rank{r}: the Hessian is the second derivative of the log-likelihood", LK.lemma_hessian(W, lik, r))
        for kind in MODELS:
            for wrt in ("input", "weight"):
                for a in LK.AGGS:
                    if kind.endswith("-") and wrt == "weight" and a not in (None, "return all"):
                        continue
                    for shape in (None, "diag", "full"):
                        yield Ob(f"{lik}({kind}).ggn[{wrt},{a},{shape}]", LK.ggn_body(W, lik, kind, a, shape, wrt, shape != "diag"), None, lmeta(lik, kind))
                    if lik != "LogBernoulli":
                        yield Ob(f"{lik}({kind}).ggn[{wrt},{a},approx]", LK.ggn_body(W, lik, kind, a, "diag", wrt, True, True), None, lmeta(lik, kind))


# ------------------------------------------------------------------ weights
def c17(W, tier):
    abst = [(p, M.abs_make(p)) for p in ("[P]", "[PN]", "[PPPP]", "[[PN]P]", "[P[PP]N]", "<P>", "<[PP]N>", "[N<PP>P]", "[PPPPPPPPPPPP]", "[[[P]P][P<P>]]", "(PP)", "(NPP)", "[P(PN)P]", "<N(PP)>")]
    nets = [(l.name, l.make) for l in leaves(tier)] + M.WNETS
    for nm, make in nets + abst:
        meta = dict(kind="net", net=nm)
        yield Ob(f"{nm}: _n_params", M.count_body(W, make), None, meta)
        if nm in L.BYNAME and not L.BYNAME[nm].par or "Tanh,Sequential(ReLU)" in nm:
            continue
        yield Ob(f"{nm}: get_weight", M.getw_body(W, make), None, meta)
        yield Ob(f"{nm}: set_weight(get_weight())", M.rw_body(W, make, "identity"), None, meta)
        yield Ob(f"{nm}: get_weight after set_weight", M.rw_body(W, make, "read"), None, meta)
        yield Ob(f"{nm}: parameters after set_weight", M.rw_body(W, make, "parameters"), None, meta)
    import induct

    for what, skip in (("Sequential", False), ("SkipConnection", True)):
        for w, t in (("count", "_n_params"), ("get", "get_weight"), ("identity", "set_weight(get_weight())"), ("read", "set_weight(w)")):
            yield Ob(f"{what}(any depth): {t}", induct.weight_body(W, w, skip), None, dict(kind="net", net=what))
    for nm, make in nets:
        if nm in L.BYNAME and not L.BYNAME[nm].par or "Tanh,Sequential(ReLU)" in nm:
            continue
        yield Ob(f"{nm}: forward after set_weight", M.rw_body(W, make, "forward"), None, dict(kind="net", net=nm))


def c18(W, tier):
    return G.c18_obs(W, tier, Ob)


def c19(W, tier):
    return G.c19_obs(W, tier, Ob)


def c20(W, tier):
    return G.c20_obs(W, tier, Ob, modes, MET)


def c21(W, tier):
    yield from G.c21_obs(W, tier, Ob, leaves, pats)
    for what in ("Sequential", "SkipConnection"):
        yield depth_ob(W, what, FWD)
        yield depth_ob(W, what, FWD, rank=3)


TABLE = {k[0].upper() + k[1:]: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}


def obligations(W, prop, tier):
    obs = list(TABLE[prop](W, tier)) if prop in TABLE else []
    seen = set()
    for o in obs:
        assert o.id not in seen, o.id
        seen.add(o.id)
    return obs
