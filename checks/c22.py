"""C22: adding triangles."""
from lib import *
from common import *
from mesh import *
import c23

EXPLAIN = (
    "Triangle insertion is interpreted on symbolic meshes in which the three corners meet named border loops in every combination of "
    "free, border and occupied directed edges; the stores are followed through the tables and compared with the linked triangle."
)
RULES = [
    "success: next/prev three-cycle, mutual twins, lookups of both directions, border loops closed and mutually linked",
    "occupied in both orientations: nothing changes; occupied in one: the other orientation is inserted",
]
PARALLEL = True
SC = ("T", "TS", "M")


def shape(c, N, kind, fan=False):
    """existing surroundings of the triangle (a,b,c); returns (patch, border loops after insertion as vertex cycles)"""
    P = Patch(c, N)

    def face(f, vs):
        es = [vs[i] + vs[(i + 1) % 3] for i in range(3)]
        P.tri(f, es, tuple(vs))

    def finish(ring):
        """border ring as vertex string, and all twins"""
        n = len(ring)
        hs = [ring[i] + ring[(i + 1) % n] for i in range(n)]
        for i, h in enumerate(hs):
            P.half(h, h[1], hs[(i + 1) % n], hs[(i - 1) % n], None, None)
            P.keys.append((h[0], h[1], h))
        for h in list(P.he):
            P.he[h]["twin"] = h[1] + h[0]

    after = None
    if kind == "isolated":
        after = ["acb"]
    elif kind == "one edge":
        face("f0", "bax")
        finish("abx")
        after = ["acbx"]
    elif kind == "one edge, wide fans":
        face("f0", "bax")
        face("f1", "xay")
        face("f2", "bxz")
        finish("abzxy")
        after = ["acbzxy"]
    elif kind == "two edges":
        face("f0", "bax")
        face("f1", "cbx")
        finish("abcx")
        after = ["acx"]
    elif kind == "closing":
        face("f0", "bax")
        face("f1", "cbx")
        face("f2", "acx")
        finish("abc")
        after = []
    elif kind in c23.SHAPES:
        faces, after, before, new, _ = c23.SHAPES[kind]
        for i, vs in enumerate(faces):
            face("f%d" % i, vs)
        for ring in before:
            finish(ring)
    elif kind == "pair":
        # two triangles sharing a new edge, added in one batch
        after = ["acdb"]
    elif kind == "flipped":
        # a->b is taken, b->a is free: the other orientation fits
        face("f0", "abx")
        finish("bax")
        after = ["bcax"]
    elif kind == "blocked":
        face("f0", "abx")
        face("f1", "bay")
        finish("aybx")
        P.he["ab"]["twin"], P.he["ba"]["twin"] = "ba", "ab"
        after = None
    if fan:
        # a further, separate fan so that every corner already has an outgoing half-edge
        for v, q, r in (("a", "i", "e"), ("b", "g", "h"), ("c", "q", "r")) + ((("d", "s", "t"),) if kind == "pair" else ()):
            if not any(h[0] == v for h in P.he):
                face("g" + v, v + q + r)
                finish(v + r + q)
    for v in "abc":
        if v in P.vx:
            P.vx[v] = tuple(h for h in P.he if h[0] == v)
        else:
            P.vx[v] = ()
    if kind == "pair":
        P.vx["d"] = tuple(h for h in P.he if h[0] == "d")
        P.gone += [("b", "d"), ("d", "b"), ("c", "d"), ("d", "c")]
    have = {(u, v) for u, v, _ in P.keys}
    for i in range(3):
        for u, v in (("abc"[i], "abc"[(i + 1) % 3]), ("abc"[(i + 1) % 3], "abc"[i])):
            if (u, v) not in have:
                P.gone.append((u, v))
    return P, after


def inserted(c, R, P, f, kind, after):
    V, ip = R.fin, R.ip
    a, b, cc = [P.V(x) for x in "abc"]
    R.triangle(f, (a, cc, b) if kind == "flipped" else (a, b, cc), "new triangle")
    for ring in after:
        n = len(ring)
        hs = [R.border(P.V(ring[i]), P.V(ring[(i + 1) % n]), "border %s->%s" % (ring[i], ring[(i + 1) % n])) for i in range(n)]
        R.loop(hs, "border loop " + ring)
    for n in "abc":
        R.spoke(P.V(n), "vertex " + n)
    for n in P.vx:
        R.eq(V.v(P.V(n), "position"), R.ini.v(P.V(n), "position"), "position of " + n)
    for h in P.he:
        if P.he[h]["face"] is not None:
            R.same_half(P.H(h), "half-edge %s of another face:" % h)
    for g in P.fc:
        for k in P.ff:
            R.eq(V.f(P.Fc(g), k), R.ini.f(P.Fc(g), k), "another face: " + k)
    if kind == "pair":
        R.triangle(vadd(f, ONE), (cc, b, P.V("d")), "second new triangle")
        R.spoke(P.V("d"), "vertex d")
    R.eq(V.len("faces"), vadd(R.ini.len("faces"), num(2) if kind == "pair" else ONE), "number of faces")
    R.eq(V.len("vertices"), R.ini.len("vertices"), "number of vertices")
    R.frame()


def check(c):
    fn = mesh_fn(c, "add_triangle")
    fd = mesh_fn(c, "add_triangles_deferred")
    for N in (2, 3):
        for kind in ("isolated", "one edge", "one edge, wide fans", "two edges", "closing", "flipped", "blocked", "pair", "inside, open fans", "inside, wide fan", "one border edge", "one border edge, closed fan"):
            for rot in range(3) if kind not in ("isolated", "closing", "pair") else (0,):
                if rot and N == 2:
                    continue
                P, after = shape(c, N, kind)
                m = P.value()
                vs = [P.V("abc"[(i + rot) % 3]) for i in range(3)]

                def th(P=P, m=m, vs=vs, kind=kind, after=after):
                    r = c.run(fn, P.env(), args=[("ref", m)] + vs, setup=P.setup, scalars=SC)
                    ip = r.ip
                    if r.pc != TRUE:
                        return False, "does not return when " + showb(bnot(r.pc), 3, 1)
                    R = Rules(c, r, P, m)
                    if after is None:
                        R.eq(r.ret, num(MAXI), "result of a blocked insertion")
                        R.unchanged("a blocked insertion")
                        return R.result()
                    R.eq(r.ret, R.ini.len("faces"), "returned face")
                    inserted(c, R, P, R.ini.len("faces"), kind, after)
                    return R.result()

                if kind != "pair":
                    c.guard("add_triangle N=%d %s, corner %d first" % (N, kind, rot), fn, th)
                P, after = shape(c, N, kind, True)
                m = P.value()
                vs = [P.V("abc"[(i + rot) % 3]) for i in range(3)]

                def batch(P=P, m=m, vs=vs, kind=kind, after=after):
                    ts = [mk("struct", "tuple", 0, *vs)]
                    if kind == "pair":
                        ts.append(mk("struct", "tuple", 0, P.V("c"), P.V("b"), P.V("d")))
                    arr = mk("arr", *ts)
                    r = c.run(fd, P.env(), args=[("ref", m), ("ref", arr)], setup=P.setup, scalars=SC)
                    ip = r.ip
                    if r.pc != TRUE:
                        return False, "does not return when " + showb(bnot(r.pc), 3, 1)
                    R = Rules(c, r, P, m)
                    if after is None:
                        R.eq(ip.seqlen(r.ret), ZERO, "number of faces reported by a blocked insertion")
                        R.unchanged("a blocked insertion")
                        return R.result()
                    R.eq(ip.seqlen(r.ret), num(len(ts)), "number of reported faces")
                    R.eq(ip.select(r.ret, ZERO), R.ini.len("faces"), "reported face")
                    inserted(c, R, P, R.ini.len("faces"), kind, after)
                    return R.result()

                c.guard("add_triangles_deferred N=%d %s, corner %d first" % (N, kind, rot), fd, batch)
