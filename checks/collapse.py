"""Meshes and expectations shared by the collapse properties."""
from lib import *
from common import *
from mesh import *

SC = ("T", "TS", "M")
OCT = ["acd", "ade", "aef", "afc", "bdc", "bed", "bfe", "bcf"]
FAN5 = fan(5, True)
FAN6 = fan(6, True)
STRIP = (["abc", "bdc", "bed", "acf"], ["afcdeb"])
# two interior vertices u, w inside a ring of eight
TWO = (["uwa", "uab", "ubc", "ucd", "wud", "wde", "wef", "wfa"], ["afedcb"])
BIPYR = ["pxy", "pyz", "pzx", "qyx", "qzy", "qxz"]

# label: (faces, border loops, directed edges)
CASES = {
    "octahedron": (OCT, [], ["ac", "ca", "bd", "ef", "ab"]),
    "disc around one vertex": (*FAN5, ["va", "av", "vc", "ab", "ba", "ed", "ac"]),
    "disc around two vertices": (*TWO, ["uw", "wu", "ua", "au", "ub", "ab", "fa"]),
    "strip": (*STRIP, ["bc", "ab", "be", "cf", "ae"]),
    "bipyramid": (BIPYR, [], ["xy", "yz", "px", "pq"]),
    "two-sided triangle": (["abc", "acb"], [], ["ab", "cb"]),
}


def mesh_of(c, faces, rings, N=3):
    P = surface(c, N, faces, rings, closed=True)
    P.concrete = True
    for x in P.vx:
        P.vx[x] = P.vx[x][:1]
    return P


def combin(faces, u, v):
    """what the gates have to see at an edge"""
    nb = {}
    opp = []
    for f in faces:
        for i in range(3):
            a, b, d = f[i], f[(i + 1) % 3], f[(i + 2) % 3]
            nb.setdefault(a, set()).update((b, d))
            if {a, b} == {u, v}:
                opp.append(d)
    adj = bool(opp)
    common = (nb.get(u, set()) - {v}) & (nb.get(v, set()) - {u})
    return dict(
        adjacent=adj,
        border=len(opp) == 1,
        link=adj and common == set(opp),
        duplicate=bool(common - set(opp)),
        twogon=len(opp) == 2 and opp[0] == opp[1],
        survivors=[f for f in faces if (u in f) != (v in f)],
        after=[f.replace(v, u) for f in faces if not (u in f and v in f)],
    )


def names(c, ip, P, D):
    vs = list(P.vx)
    return sorted(cyclic("".join(vs[i] for i in t)) for t in D.triangles())


def outcome(c, ip, ret, pc):
    """{rejection name or 'Ok': condition}, or None when not interpreted"""
    out = {}
    rp = c.adt_path("CollapseReject")
    vs = [v[0] for v in c.F.adts[rp]["variants"]]
    for t, b in leaves(ret, pc):
        t = ip.expand(t)
        if t.op != "struct":
            return None
        if t.args[1] == 0:
            out["Ok"] = bor(out.get("Ok", FALSE), b)
            continue
        for e, b2 in leaves(t.args[2], b):
            e = ip.expand(e)
            if e.op != "struct" or e.args[0] != rp:
                return None
            n = vs[e.args[1]]
            out[n] = bor(out.get(n, FALSE), b2)
    return out


def area_gate(ip, P, info, u, v, accept, pc, eps2=None):
    """accept has to be the conjunction, over the surviving triangles, of their area exceeding a tolerance"""
    mid = [vdiv(vadd(x, y), num(2)) for x, y in zip(P.pos[u], P.pos[v])]
    at = lambda x: mid if x in (u, v) else P.pos[x]
    e = mk("tol", "tolerance")
    ths = [ZERO]
    x = e
    for _ in range(6):
        ths.append(x)
        x = vmul(x, e)
    if eps2 is not None:
        ths.append(eps2)
    a2 = []
    for f in info["survivors"]:
        n = cross3(vminus(at(f[1]), at(f[0])), vminus(at(f[2]), at(f[0])))
        a2.append(dot(n, n))
    for th in ths:
        for k in (ONE, vdiv(ONE, num(4))):
            w = w2 = TRUE
            for a in a2:
                z, p, n = sgn(vsub(vmul(a, k), th))
                w, w2 = band(w, p), band(w2, bnot(n))
            if band(pc, bxor(w, accept)) == FALSE or (th is not ZERO and band(pc, bxor(w2, accept)) == FALSE):
                return True, ""
    for f, a in zip(info["survivors"], a2):
        hit = False
        for th in ths:
            for k in (ONE, vdiv(ONE, num(4))):
                z, p, n = sgn(vsub(vmul(a, k), th))
                hit = hit or band(pc, accept, bnot(p)) == FALSE or (th is not ZERO and band(pc, accept, n) == FALSE)
        if not hit:
            return False, "the collapse is accepted although the surviving triangle %s may vanish" % f
    return None, "area threshold not recognised"


def unchanged(c, ip, P, m, fin, b):
    """the mesh fields under b are those of m"""
    for i, n in enumerate(P.mfields):
        x, y = ip.proj(fin, ("f", 0, i)), ip.proj(m, ("f", 0, i))
        ok, d = agree(ip, x, y, b)
        if ok is not True:
            return ok, "%s: %s" % (n, d)
    return True, ""


def agree(ip, x, y, b, depth=0):
    """x = y whenever b"""
    if x is y:
        return True, ""
    for t, c2 in leaves(x, b):
        if t is y:
            continue
        t, e = ip.expand(t), ip.expand(y)
        if t is e:
            continue
        if t.op == e.op and t.op in ("struct", "seq", "arr") and len(t.args) == len(e.args):
            k = 2 if t.op == "struct" else 0
            if t.args[:k] != e.args[:k]:
                return False, "changed to %s" % show(t, 2)[:80]
            for p, q in zip(t.args[k:], e.args[k:]):
                ok, d = agree(ip, p, q, c2, depth + 1)
                if ok is not True:
                    return ok, d
            continue
        if t.op == "bool" and e.op == "bool":
            if band(c2, bxor(bool_of(t), bool_of(e))) == FALSE:
                continue
            return False, "flag changed"
        if t.op == "ref" and e.op == "ref":
            return None, "references differ"
        op = opaque_part(t)
        if op:
            return None, "contains " + op
        if e.op == "ite":
            for q, c3 in leaves(e, c2):
                ok, d = agree(ip, t, q, c3, depth + 1)
                if ok is not True:
                    return ok, d
            continue
        return False, "changed from %s to %s" % (show(e, 2)[:60], show(t, 2)[:60])
    return True, ""
