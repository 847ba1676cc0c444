"""C19: edge flip."""
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "The flip is interpreted on a symbolic mesh containing one named pair of adjacent triangles inside an unknown mesh. The stores it "
    "performs are followed through the tables, and the resulting links are compared with the two triangles of the other diagonal."
)
RULES = [
    "success: triangles (a,d,c) and (b,c,d) with mutual next/prev, twins, faces, lookups; nothing else changes",
    "border, removed or duplicate edges are refused",
    "in space a flip is refused when, and on a free diagonal only when, one of the new triangles has no area",
]
SC = ("T", "TS")


PARALLEL = True


def quad(c, N, twin_face="f1", removed=(), spokes=True):
    P = Patch(c, N)
    P.tri("f0", ("ab", "bc", "ca"), ("a", "b", "c"))
    if twin_face is not None:
        P.tri("f1", ("ba", "ad", "db"), ("b", "a", "d"))
    else:
        P.half("ba", "a", face=None)
        P.keys.append(("b", "a", "ba"))
        P.vx["d"] = None
    P.twin("ab", "ba")
    for e, o, head in (("bc", "cb", "b"), ("ca", "ac", "c"), ("ad", "da", "a"), ("db", "bd", "d")):
        if e in P.he:
            P.outside(o, head, e)
            P.he[e]["twin"] = o
            P.keys.append((e[1], e[0], o))
    if spokes:
        P.spoke("a", None, "ab", "ad", "ac")
        P.spoke("b", None, "ba", "bc", "bd")
        P.spoke("c", None, "ca", "cb")
        P.spoke("d", None, *(("db", "da") if twin_face else ()))
    for n in removed:
        P.he[n]["removed"] = True
    return P


def is_ok(ip, v):
    return ip.isvar(v, 0, "std::result::Result")


def check(c):
    fn = mesh_fn(c, "flip_edge")
    for N in (2, 3):
        P = quad(c, N)
        m = P.value()

        def th(P=P, m=m, N=N):
            r = c.run(fn, P.env(), args=[("ref", m), P.H("ab")], setup=P.setup, scalars=SC)
            ip = r.ip
            a, b, cc, d = [P.V(x) for x in "abcd"]
            ini = View(ip, P, m)
            # a consistent lookup never names the flipped edge for another pair
            ax = TRUE
            for u, v in ((cc, d), (d, cc)):
                for h in P.he:
                    ax = band(ax, bnot(ip.eq(ini.get(u, v), P.H(h))))
            ok = is_ok(ip, r.ret)
            R = Rules(c, r, P, m, pc=band(r.pc, ok, ax))
            if R.pc == FALSE:
                return False, "a flip of an interior edge never succeeds"
            R.true(band(bnot(ini.has(cc, d)), bnot(ini.has(d, cc))), "a flip succeeds although the other diagonal already exists")
            # the free case is not refused: no other diagonal, no degenerate new triangle
            if N == 2:
                bad = band(r.pc, ax, bnot(ok), bnot(ini.has(cc, d)), bnot(ini.has(d, cc)))
                if bad != FALSE:
                    return False, "a legal flip is refused when " + showb(bad, 3, 1)
            f0, f1 = P.Fc("f0"), P.Fc("f1")
            V = R.fin
            g = R.some(V.h(V.get(a, d), "face"), "face of a->d")
            R.true(bor(ip.eq(g, f0), ip.eq(g, f1)), "the edge a->d belongs to neither face")
            other = vite(ip.eq(g, f0), f1, f0)
            R.triangle(g, (a, d, cc), "triangle (a,d,c)")
            R.triangle(other, (b, cc, d), "triangle (b,c,d)")
            R.absent(a, b, "flipped edge a->b")
            R.absent(b, a, "flipped edge b->a")
            for n in "abcd":
                R.spoke(P.V(n), "vertex " + n)
                R.eq(V.v(P.V(n), "position"), ini.v(P.V(n), "position"), "position of %s" % n)
            for o in ("cb", "ac", "da", "bd"):
                R.same_half(P.H(o), "outer half-edge " + o)
            for n in ("vertices", "half_edges", "faces"):
                R.eq(V.len(n), ini.len(n), "number of " + n)
            R.frame()
            return R.result()

        c.guard("flip_edge N=%d interior" % N, fn, th)

        def flat():
            r = c.run(fn, P.env(), args=[("ref", m), P.H("ab")], setup=P.setup, scalars=SC)
            ip = r.ip
            pa, pb, pc, pd = [coords(ip, P.point(x), 3) for x in "abcd"]
            n0, n1 = cross3(vminus(pd, pa), vminus(pc, pa)), cross3(vminus(pc, pb), vminus(pd, pb))
            deg, ax = bor(allz(n0), allz(n1)), band(norm_axioms(n0), norm_axioms(n1))
            bad = band(r.pc, is_ok(ip, r.ret), deg, ax)
            if bad != FALSE:
                return (None if opaque_part(B(bad)) else False), "a flip succeeds although a new triangle has no area: " + showb(bad, 4, 1)[:150]
            ini = View(ip, P, m)
            bad = band(r.pc, bnot(is_ok(ip, r.ret)), bnot(ini.has(P.V("c"), P.V("d"))), bnot(ini.has(P.V("d"), P.V("c"))), bnot(deg), ax)
            if bad != FALSE:
                return (None if opaque_part(B(bad)) else False), "a legal flip is refused when " + showb(bad, 4, 1)[:150]
            return True, ""

        if N == 3:
            c.guard("flip_edge N=3 refuses exactly degenerate triangles", fn, flat)

        def refuse(P, he, label, N=N):
            m = P.value()

            def th2():
                r = c.run(fn, P.env(), args=[("ref", m), P.H(he)], setup=P.setup, scalars=SC)
                ip = r.ip
                bad = band(r.pc, is_ok(ip, r.ret))
                if bad != FALSE:
                    return False, "%s is flipped" % label
                if r.pc != TRUE:
                    return False, "%s is not refused but panics when %s" % (label, showb(bnot(r.pc), 3, 1))
                return True, ""

            c.guard("flip_edge N=%d refuses %s" % (N, label), fn, th2)

        refuse(quad(c, N, twin_face=None), "ab", "an edge with a face-less twin")
        refuse(quad(c, N, twin_face=None), "ba", "a border half-edge")
        refuse(quad(c, N, removed=("ab",)), "ab", "a retired half-edge")
        refuse(quad(c, N, removed=("ba",)), "ab", "an edge with a retired twin")
