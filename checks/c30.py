"""C30: compaction."""
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "The compaction functions are interpreted on meshes of numbered elements with symbolic or pairwise different positions, with retired "
    "faces, unused vertices or coinciding vertices at various places of the tables; the resulting tables are followed and compared with "
    "the surviving elements of the input."
)
RULES = [
    "surviving triangles keep corner positions and orientation; links stay mutually consistent; no live link leads to a dropped element",
    "edge lookups lead from the renumbered end points to the half-edge between them",
    "exactly the duplicate (unused, retired) elements are dropped",
]
PARALLEL = True
SC = ("T", "TS", "M")

#: triangles, border loops
MESHES = [
    ("triangle", ["abc"], ["acb"]),
    ("two triangles", ["abc", "bad"], ["acbd"]),
    ("strip of four", ["abc", "cbd", "cde", "edf"], ["acefdb"]),
    ("tetrahedron", ["abc", "acd", "adb", "bdc"], []),
]


def check(c):
    kf = mesh_fn(c, "position_to_packed_key")

    def cells(P, same):
        """grid key by position: positions named in one group of `same` share a cell"""
        table = {}
        for v in P.vx:
            g = next((i for i, grp in enumerate(same) if v in grp), None)
            table[tuple(P.pos[v])] = num(1000 + g) if g is not None else num(ord(v[0]))

        def ov(ip, st, args, atys, dty, r):
            q = tuple(coords(ip, ip.deref_all(st, args[1]), P.N))
            if q in table:
                return table[q]
            return ip.typed(mk("cellof", *q), dty)

        return {kf.path: ov}

    def run(fn, P, m, same=()):
        return c.run(fn, P.env(), args=[("ref", m)], setup=P.setup, scalars=SC, overrides=cells(P, same), limit=200)

    def corners(P, D, ip):
        """triangles by corner names, through positions"""
        back = {}
        for v in P.vx:
            back.setdefault(tuple(P.pos[v]), v)
        out = []
        for t in D.triangles():
            out.append(tuple(back.get(D.pos(ip, i, P.N), "?") for i in t))
        return sorted(cyclic(t) for t in out)

    def finished(r):
        if r.pc == TRUE:
            return None
        op = opaque_part(B(r.pc))
        return (None if op else False), "does not return when %s" % (op or showb(bnot(r.pc), 3, 1))

    # ---------------------------------------------------------------- retired faces
    fn = mesh_fn(c, "remove_invalidated_faces")
    for label, faces, rings in MESHES:
        for dead in range(-1, len(faces)):

            def th():
                P = surface(c, 3, faces, rings)
                P.concrete = True
                for v in P.vx:
                    P.vx[v] = P.vx[v][:1]
                gone = []
                if dead >= 0:
                    # a retired copy of another triangle inside the tables, as left behind by splitting and removing
                    P2 = Patch(c, 3)
                    P2.concrete = True
                    P2.vx, P2.pos = dict(P.vx), P.pos
                    P2.keys = P.keys
                    for i, f in enumerate(faces):
                        if i == dead:
                            for j, n in enumerate(("x1", "x2", "x3")):
                                P2.half(n, "abc"[j], ("x1", "x2", "x3")[(j + 1) % 3], ("x1", "x2", "x3")[j - 1], n, "old", removed=True)
                            P2.fc["old"] = "x1"
                            P2.dead.add(("f", "old"))
                        P2.fc[f] = P.fc[f]
                    P2.he.update(P.he)
                    P = P2
                m = P.value()
                r = run(fn, P, m)
                bad = finished(r)
                if bad:
                    return bad
                D = Decoded(r.ip, P, r.ip.read(r.st, r.roots[0], ()))
                if D.why:
                    return None, D.why
                if D.wrong():
                    return False, D.wrong()
                if len(D.f) != len(faces):
                    return False, "%d faces left for %d" % (len(D.f), len(faces))
                got = corners(P, D, r.ip)
                want = sorted(cyclic(f) for f in faces)
                return got == want, "triangles %s for %s" % (got, want)

            c.guard("remove_invalidated_faces, %s%s" % (label, ", retired face at %d" % dead if dead >= 0 else ""), fn, th)

    def stale():
        P = surface(c, 3, ["abc", "bad"], ["acbd"])
        P.concrete = True
        for v in P.vx:
            P.vx[v] = P.vx[v][:1]
        P.half("r1", "a", "r1", "r1", "r1", 99, removed=True)
        m = P.value()
        r = run(fn, P, m)
        bad = finished(r)
        if bad:
            return bad
        D = Decoded(r.ip, P, r.ip.read(r.st, r.roots[0], ()))
        return (None, D.why) if D.why else (D.wrong() is None, D.wrong() or "")

    c.guard("remove_invalidated_faces, removed half-edge with outdated face number", fn, stale)

    def retired_border():
        # a live half-edge whose face was retired becomes a border half-edge
        P = surface(c, 3, ["abc", "bad"], ["acbd"])
        P.concrete = True
        for v in P.vx:
            P.vx[v] = P.vx[v][:1]
        P.dead.add(("f", "abc"))
        m = P.value()
        r = run(fn, P, m)
        bad = finished(r)
        if bad:
            return bad
        D = Decoded(r.ip, P, r.ip.read(r.st, r.roots[0], ()))
        if D.why:
            return None, D.why
        names = list(P.he)
        for i, h in enumerate(names):
            want = 0 if h in ("ba", "ad", "db") else None
            if D.h[i]["face"] != want:
                return False, "face of %s is %s for %s" % (h, D.h[i]["face"], want)
        return len(D.f) == 1 and D.f[0]["half_edge"] == names.index("ba"), "face table %s" % D.f

    c.guard("remove_invalidated_faces, half-edges of a retired face", fn, retired_border)

    # ---------------------------------------------------------------- unused vertices
    fu = mesh_fn(c, "remove_unused_vertices")
    for label, faces, rings in MESHES:
        for where in ("none", "first", "middle", "last", "retired face"):

            def th():
                Q = surface(c, 3, faces, rings)
                P = Q
                P.concrete = True
                vs = {v: P.vx[v][:1] for v in P.vx}
                if where == "first":
                    vs = {"x": (), **vs}
                elif where == "middle":
                    k = list(vs)
                    vs = {**{v: vs[v] for v in k[:2]}, "x": (), "y": (), **{v: vs[v] for v in k[2:]}}
                elif where == "last":
                    vs["x"] = ()
                elif where == "retired face":
                    vs = {"x": (), **vs, "y": ()}
                P.vx = vs
                if where == "retired face":
                    for j, n in enumerate(("r1", "r2", "r3")):
                        P.half(n, "xya"[j], ("r1", "r2", "r3")[(j + 1) % 3], ("r1", "r2", "r3")[j - 1], n, "old", removed=True)
                    P.fc = {"old": "r1", **P.fc}
                    P.dead.add(("f", "old"))
                m = P.value()
                r = run(fu, P, m)
                bad = finished(r)
                if bad:
                    return bad
                D = Decoded(r.ip, P, r.ip.read(r.st, r.roots[0], ()))
                if D.why:
                    return None, D.why
                if D.wrong():
                    return False, D.wrong()
                used = sorted({v for f in faces for v in f})
                if len(D.v) != len(used):
                    return False, "%d vertices left for %d" % (len(D.v), len(used))
                got = corners(P, D, r.ip)
                want = sorted(cyclic(f) for f in faces)
                return got == want, "triangles %s for %s" % (got, want)

            c.guard("remove_unused_vertices, %s, unused: %s" % (label, where), fu, th)

    # ---------------------------------------------------------------- duplicate vertices
    fd = mesh_fn(c, "remove_duplicate_vertices")
    grid = {v: (num(3 * i), num(i * i), num(-i)) for i, v in enumerate("abcdefghxyz")}
    #: label, faces, rings, coinciding groups, order of the vertex table, groups merely sharing a grid cell, removed vertices
    CASES = [
        ("none", ["abc", "bad"], ["acbd"], [], None, [], ""),
        ("same cell only", ["abc", "bad"], ["acbd"], [], None, ["abc"], ""),
        ("touching triangles", ["abc", "def"], ["acb", "dfe"], ["ad"], None, [], ""),
        ("touching triangles, other order", ["abc", "def"], ["acb", "dfe"], ["ad"], "fdecab", [], ""),
        ("touching triangles, crowded cell", ["abc", "def"], ["acb", "dfe"], ["ad"], "abcdef", ["adbe"], ""),
        ("isolated copies", ["abc", "bad"], ["acbd"], ["ax", "by"], "abcdxy", [], ""),
        ("touching triangles, crowded cell led by another", ["abc", "def"], ["acb", "dfe"], ["ad"], "bacdef", ["badf"], ""),
        ("chain of triangles", ["abc", "def", "ghx"], ["acb", "dfe", "gxh"], ["ad", "eg"], None, [], ""),
        ("three copies", ["abc", "def", "ghx"], ["acb", "dfe", "gxh"], ["adg"], None, [], ""),
        ("removed copy first", ["abc", "bad"], ["acbd"], ["xa"], "xabcd", [], "x"),
        ("removed copy last", ["abc", "bad"], ["acbd"], ["ax"], "abcdx", [], "x"),
    ]
    for label, faces, rings, groups, order, share, removed in CASES:

        def th():
            P = surface(c, 3, faces, rings)
            P.concrete = True
            vs = {v: P.vx[v][:1] for v in P.vx}
            for v in order or "":
                vs.setdefault(v, ())
            P.vx = {v: vs[v] for v in (order or vs)}
            rep = {v: g[0] for g in groups for v in g}
            for v in P.vx:
                P.pos[v] = list(grid[rep.get(v, v)])
            for v in removed:
                P.dead.add(("v", v))
            m = P.value()
            r = run(fd, P, m, list(share))
            bad = finished(r)
            if bad:
                return bad
            ip = r.ip
            D = Decoded(ip, P, ip.read(r.st, r.roots[0], ()))
            if D.why:
                return None, D.why
            # coinciding isolated vertices do not change links, merged corners do: judge the table by position
            live = [v for v in P.vx if v not in removed]
            want_v = sorted({rep.get(v, v) for v in live})
            back = {grid[rep.get(v, v)]: rep.get(v, v) for v in P.vx}
            got_v = sorted(back.get(D.pos(ip, i, 3), "?") for i, d in enumerate(D.v) if not d["removed"])
            if got_v != want_v:
                return False, "live vertices at %s for %s" % (got_v, want_v)
            tris = sorted(cyclic(back.get(D.pos(ip, i, 3), "?") for i in t) for t in D.triangles())
            want = sorted(cyclic(rep.get(v, v) for v in f) for f in faces)
            if tris != want:
                return False, "triangles %s for %s" % (tris, want)
            for i, h in enumerate(P.he):
                x = D.h[i]["vertex"]
                if not 0 <= x < len(D.v) or D.v[x]["removed"]:
                    return False, "head of half-edge %s is not a live vertex" % h
                for k in ("next", "prev", "twin"):
                    if D.h[i][k] != list(P.he).index(P.he[h][k]):
                        return False, "%s link of %s changed" % (k, h)
                u = D.h[D.h[i]["prev"]]["vertex"]
                if D.edges.get((u, x)) != i:
                    return False, "edge lookup of %s leads elsewhere" % h
            for i, d in enumerate(D.v):
                if not d["removed"] and d["half_edge"] is not None and D.h[D.h[d["half_edge"]]["prev"]]["vertex"] != i:
                    return False, "half-edge of vertex %d starts elsewhere" % i
            n = len(P.vx) - len(D.v)
            return ip.eq(r.ret, num(n)) == TRUE, "reported count %s for %d" % (show(r.ret, 2), n)

        c.guard("remove_duplicate_vertices, %s" % label, fd, th)
