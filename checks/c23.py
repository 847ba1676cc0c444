"""C23: removing triangles."""
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "Triangle removal is interpreted on symbolic meshes in which the removed triangle meets other triangles or the border along every "
    "combination of its edges, its corners having closed or open fans; the stores are followed through the tables and compared with "
    "the mesh without the triangle."
)
RULES = [
    "the removed faces, and the half-edges of edges without a remaining triangle, are retired and no longer found",
    "the remaining opposite half-edges are border half-edges, border loops are closed and mutually linked",
    "every corner keeps a live outgoing half-edge or none; nothing else changes",
]
PARALLEL = True
SC = ("T", "TS", "M")

# name: (other faces, border loops before, border loops after, edges that vanish, corners left without a triangle)
SHAPES = {
    "inside a closed surface": (["bad", "cbd", "acd"], [], ["abc"], [], ""),
    "inside, open fans": (["bax", "cby", "acz"], ["bxazcy"], ["abx", "bcy", "caz"], [], ""),
    "inside, wide fan": (["bax", "cby", "acz", "xaz"], ["bxzcy"], ["abxzc", "bcy"], [], ""),
    "one border edge": (["cby", "acz"], ["bazcy"], ["bcy", "caz"], ["ab"], ""),
    "one border edge, closed fan": (["cbx", "acx"], ["bax"], ["bcax"], ["ab"], ""),
    "two border edges": (["cby"], ["bacy"], ["bcy"], ["ab", "ca"], "a"),
    "touching another triangle at a corner": (["ade"], ["baedac"], ["aed"], ["ab", "bc", "ca"], "bc"),
    "alone": ([], ["bac"], [], ["ab", "bc", "ca"], "abc"),
}


def loops(ring):
    n = len(ring)
    return [ring[i] + ring[(i + 1) % n] for i in range(n)]


def build(c, N, name, rep):
    faces, before = SHAPES[name][:2]
    P = Patch(c, N)
    for i, vs in enumerate(["abc"] + faces):
        P.tri("f" if i == 0 else "g%d" % i, loops(vs), tuple(vs))
    P.fc["f"] = loops("abc")[rep]
    for ring in before:
        hs = loops(ring)
        for i, h in enumerate(hs):
            P.half(h, h[1], hs[(i + 1) % len(hs)], hs[i - 1], None, None)
            P.keys.append((h[0], h[1], h))
    for h in P.he:
        P.he[h]["twin"] = h[1] + h[0]
    for v in sorted({h[0] for h in P.he}):
        P.vx[v] = tuple(h for h in P.he if h[0] == v)
    return P


def removed(R, P, name):
    faces, before, after, gone, lonely = SHAPES[name]
    V, ip = R.fin, R.ip
    R.retired_face(P.Fc("f"), "removed face")
    for i, vs in enumerate(faces):
        R.triangle(P.Fc("g%d" % (i + 1)), [P.V(x) for x in vs], "remaining triangle " + vs)
    for ring in after:
        hs = [R.border(P.V(e[0]), P.V(e[1]), "border %s->%s" % (e[0], e[1])) for e in loops(ring)]
        R.loop(hs, "border loop " + ring)
    for e in gone:
        for d in (e, e[1] + e[0]):
            R.retired_half(P.H(d), "half-edge %s->%s" % (d[0], d[1]))
            R.absent(P.V(d[0]), P.V(d[1]), "%s->%s" % (d[0], d[1]))
    for v in P.vx:
        R.eq(V.v(P.V(v), "position"), R.ini.v(P.V(v), "position"), "position of " + v)
        if v not in lonely:
            R.spoke(P.V(v), "vertex " + v)
            continue
        # a corner without triangles may keep no reference to what was retired
        o = V.v(P.V(v), "half_edge")
        pc0 = R.pc
        R.pc = band(pc0, ip.isvar(o, 1, "std::option::Option"))
        h = ip.proj(o, ("f", 1, 0))
        for e in gone:
            for d in (e, e[1] + e[0]):
                R.true(bnot(ip.eq(h, P.H(d))), "vertex %s still refers to a retired half-edge" % v)
        R.pc = pc0
    for k in ("vertices", "half_edges", "faces"):
        R.eq(V.len(k), R.ini.len(k), "number of " + k)
    R.frame()


def check(c):
    fn = mesh_fn(c, "remove_triangle")
    fd, fw, fv = [mesh_fn(c, n) for n in ("remove_triangles_deferred", "weld_border_components_from", "fix_vertices_outgoing_for")]
    for N in (2, 3):
        for name in SHAPES:
            for rep in range(3):
                P = build(c, N, name, rep)
                m = P.value()

                def one(P=P):
                    r = c.run(fn, P.env(), args=[("ref", m), P.Fc("f")], setup=P.setup, scalars=SC)
                    R = Rules(c, r, P, m)
                    R.true(r.pc, "does not return")
                    removed(R, P, name)
                    return R.result()

                c.guard("remove_triangle N=%d %s, edge %d first" % (N, name, rep), fn, one)

                def batch(P=P):
                    r = c.run(fd, P.env(), args=[("ref", m), ("ref", mk("arr", P.Fc("f")))], setup=P.setup, scalars=SC)
                    st, vs = [r.ip.proj(r.ret, ("f", 0, i)) for i in (0, 1)]

                    def setup(ip):
                        P.setup(ip)
                        ip.tyof.update(r.ip.tyof)

                    pc = r.pc
                    for f, x in ((fw, st), (fv, vs)):
                        r = c.run(f, P.env(), args=[("ref", r.ip.read(r.st, r.roots[0], ())), ("ref", x)], setup=setup, scalars=SC)
                        pc = band(pc, r.pc)
                    R = Rules(c, r, P, m)
                    R.true(pc, "does not return")
                    removed(R, P, name)
                    return R.result()

                c.guard("remove_triangles_deferred, weld, fix N=%d %s, edge %d first" % (N, name, rep), fd, batch)
        P = build(c, N, "alone", 0)
        m = P.value()

        def again(P=P):
            # the face is marked as retired beforehand
            faces = m.args[2 + P.mfields.index("faces")]
            fv = mk("struct", P.fpath, 0, *[B(TRUE) if k == "removed" else P.H("ab") for k in P.ff])
            gone = mk("store", faces.args[0], faces.args[1], fv)
            mm = mk("struct", P.mpath, 0, *[gone if x is faces else x for x in m.args[2:]])

            def setup(ip):
                P.setup(ip)
                ip.typed(gone, ip.tyof.get(faces))

            for f, arg in ((fn, P.Fc("f")), (fd, ("ref", mk("arr", P.Fc("f"))))):
                r = c.run(f, P.env(), args=[("ref", mm), arg], setup=setup, scalars=SC)
                R = Rules(c, r, P, mm)
                R.true(r.pc, "does not return")
                R.unchanged("removing a removed triangle")
                if R.result()[0] is not True:
                    break
            return R.result()

        c.guard("remove_triangle N=%d of a removed triangle" % N, fn, again)
