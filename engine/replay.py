"""Concrete cases for the run-time contracts from a refuted obligation: sizes of the counterexample -> constructor calls."""
from cont import parse

DEF = dict(B=2, C=2, H=3, W=4, I=3, O=2, D=2, K=2, s=2, kh=2, kw=2, ph=1, pw=0)


def get(s, n, d=None, lo=1, hi=40):
    v = s.get(n, d if d is not None else DEF.get(n, 2))
    try:
        v = int(v)
    except (TypeError, ValueError):
        v = 2
    return max(lo, min(hi, v))


def leaf_case(name, s):
    """(ctor, sample shape) or None"""
    g = lambda n, d=None, lo=1: get(s, n, d, lo)
    C, H, W = g("C"), g("H"), g("W")
    img = (C, H, W)
    base = name.split("/")[0]
    if name.startswith("Linear"):
        return f"Linear({g('I')}, {g('O')}{', bias=False' if 'bias=False' in name else ''})", (g("I"),)
    if name.startswith("Softplus(2,5)"):
        return "Softplus(2.0, 5.0)", (C,)
    if name.startswith("Softplus(0.5,-1)"):
        return "Softplus(0.5, -1.0)", (C,)
    if name.startswith("L2Norm(0.25)"):
        return "L2Norm(0.25)", (C,)
    if "/rank" in name:
        r = int(name[-1]) - 1
        return f"{base}()", img[:r]
    if name.startswith("Reshape"):
        if "->" in name:
            i, o = (int(c) for c in name.split()[1].split("->"))
            ins = {3: img, 1: (C * H * W,), 2: (C * H, W)}[i]
            outs = {3: img, 1: (C * H * W,), 2: (C, H * W)}[o]
            return f"Reshape{outs!r}".replace(",)", ")"), ins
        return f"Reshape({C}, -1)", (C * H,)
    if name.startswith("Upsample"):
        k = {"Upsample(s)": f"scale_factor={g('s')}", "Upsample(2)": "scale_factor=2"}.get(name, "scale_factor=3, mode='nearest-exact'")
        return f"Upsample({k})", img
    if name.startswith("MaxPool2d"):
        t = {"MaxPool2d(k)": f"({g('kernel_sizeh')}, {g('kernel_sizew')})", "MaxPool2d(k,s)": f"({g('kernel_sizeh')}, {g('kernel_sizew')}), stride=({g('strideh')}, {g('stridew')})",
             "MaxPool2d(2)": "2", "MaxPool2d(3,stride=2,padding=1)": "3, stride=2, padding=1", "MaxPool2d(2,dilation=2,ceil)": "2, dilation=2, ceil_mode=True"}.get(name)
        return (f"MaxPool2d({t})", img) if t else None
    if name.startswith("Conv2d"):
        k = f"({g('kh')}, {g('kw')}), padding=({get(s, 'ph', 0, 0)}, {get(s, 'pw', 0, 0)})"
        if "bias=False" in name:
            k += ", bias=False"
        if "vmap=False" in name:
            k += ", use_vmap_for_backprop=False"
        return f"Conv2d({C}, {g('D')}, {k})", img
    return None


def net_case(pat, rank, s):
    """pattern of abstract layers -> concrete layers of the same sizes"""
    k = [0]

    def mul(sh):
        n = 1
        for v in sh:
            n *= v
        return n

    def go(n, sh, keep):
        if n[0] in ("seq", "skip", "edited"):
            out, cur = [], sh
            for j, m in enumerate(n[1]):
                last = j == len(n[1]) - 1
                c, cur = go(m, cur, (sh[1:] if n[0] == "skip" else keep) if last else (keep if m[0] == "skip" else None))
                out.append(c)
            nm = "SkipConnection" if n[0] == "skip" else "Sequential"
            if n[0] == "edited":
                nm = "(lambda *l: [n for n in [Sequential(Tanh(), l[-1])] if (n.__delitem__(0) if len(l) == 1 else n.__setitem__(0, l[0])) is None and all(n.insert(1 + j, q) is not None for j, q in enumerate(l[1:-1]))][0])"
            return f"{nm}({', '.join(out)})", ((sh[0] + cur[0],) + tuple(cur[1:]) if n[0] == "skip" else cur)
        if n[0] == "F":
            return "Flatten()", (mul(sh),)
        k[0] += 1
        i = k[0]
        if n[0].isupper():
            o = (get(s, f"N{i}", 2 + i % 3, 1, 8),)
        else:
            o = (get(s, f"C{i}", 2, 1, 4),) + (tuple(keep) if keep is not None and len(keep) == 2 else (get(s, f"H{i}", 2, 1, 4), get(s, f"W{i}", 3, 1, 4)))
        p = n[0] in "Pp"
        return f"DenseLayer({mul(sh)}, {o if len(o) > 1 else o[0]}, {p})", o

    sh = (get(s, "C", 2, 1, 4), get(s, "H", 3, 1, 4), get(s, "W", 2, 1, 4)) if rank == 3 else (get(s, "I", 3, 1, 8),)
    try:
        c, _ = go(parse(pat)[0], sh, None)
    except Exception:
        return None
    return c, sh


def depth_cases(m, s, flags):
    """networks as deep as the counterexample (k layers before, m after the generic one)"""
    k, l = get(s, "k", 0, 0, 200), get(s, "m", 0, 0, 200)
    ns = {min(260, k + 1 + l)} if s else {24, 40, 70, 130}
    skip = m.get("what") == "SkipConnection"
    for n in sorted(ns):
        for c in (f"*[Tanh() if k % 9 == 8 else Linear(1, 1, bias=k % 2 == 0) for k in range({n})]",
                  f"*[Linear(1, 1) if k == {k} else Sinusoidal() for k in range({n})]",
                  f"*[Sequential(Linear(1, 1)) if k % 2 else Tanh() if k % 8 == 0 else Linear(1, 1) for k in range({n})]"):
            yield f"{'SkipConnection' if skip else 'Sequential'}({c})", (1,)


def cases(refuted):
    """list of refuted results -> override for rt.py"""
    out = dict(leaf=[], net=[])
    seen = set()
    for r in refuted[:60]:
        m, s = r.get("meta") or {}, (r.get("cex") or {}).get("sizes") or {}
        s = {str(a): b for a, b in s.items()}
        c = None
        if m.get("kind") == "leaf":
            c, k = leaf_case(m["leaf"], s), "leaf"
        elif m.get("kind") == "cont":
            c, k = net_case(m["pat"], m.get("rank", 1), s), "net"
        elif m.get("kind") == "depth":
            for c in depth_cases(m, s, ()):
                it = (c[0], list(c[1]), get(s, "B", 2, 1, 6))
                if str(it) not in seen and len(out["net"]) < 24:
                    seen.add(str(it))
                    out["net"].append(it)
            continue
        if c is None:
            continue
        n = 1
        for v in c[1]:
            n *= v
        it = (c[0], list(c[1]), get(s, "B", 2, 1, 6))
        if n > 600 or str(it) in seen:
            continue
        seen.add(str(it))
        out[k].append(it)
        if len(out["leaf"]) + len(out["net"]) >= 24:
            break
    return out
