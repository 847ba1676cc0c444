"""C41: triangles kept for a face."""
from segs import *
from c39 import items, tri, syms, typing
import itertools

EXPLAIN = (
    "The selection is interpreted on numbered triangle lists whose points are symbols; incidence, orientation, area, centroid and containment are answered by a planar layout, so that a run covers every placement "
    "of that kind. The kept set is compared with the layout. The functions answering these questions are interpreted separately and compared with their definitions."
)
RULES = [
    "kept triangles have positive area, their centroid lies inside the outline of the first three points, and no side crosses it",
    "no two kept triangles lie on the same side of a common edge",
    "of a triangulation without overlaps every such triangle is kept",
    "the outline handed to the tests visits every point on it in order",
]
PARALLEL = True
ENV = {"T": TP, "TS": TP, "impl Scalar": TP}
FN = "triangles_inside_for_job"
F = Fraction

FACE = [(0, 0), (6, 0), (0, 6)]
# label -> (points, triangles, is a triangulation without overlaps)
CASES = {
    "one triangle": (FACE, [(0, 1, 2)], True),
    "fan": (FACE + [(2, 2)], [(0, 1, 3), (1, 2, 3), (2, 0, 3)], True),
    "clockwise face": ([(0, 0), (0, 6), (6, 0), (2, 2)], [(0, 3, 1), (1, 3, 2), (2, 3, 0)], True),
    "points on the outline": (FACE + [(3, 0), (3, 3), (0, 2), (0, 4)], [(0, 3, 5), (3, 1, 4), (3, 4, 6), (3, 6, 5), (4, 2, 6)], True),
    "points on the outline out of order": (FACE + [(4, 0), (1, 0), (2, 0)], [(0, 4, 2), (4, 5, 2), (5, 3, 2), (3, 1, 2)], True),
    "inner triangle": (FACE + [(1, 1), (3, 1), (1, 3)], [(3, 4, 5), (0, 4, 3), (0, 1, 4), (1, 5, 4), (1, 2, 5), (2, 3, 5), (2, 0, 3)], True),
    "outside triangle": (FACE + [(6, 6)], [(0, 1, 2), (1, 3, 2)], True),
    "outside triangle first": (FACE + [(6, 6)], [(1, 3, 2), (0, 1, 2)], True),
    "outside triangle next to the first side": (FACE + [(3, -4)], [(0, 3, 1), (0, 1, 2)], True),
    "outside triangle next to the last side": (FACE + [(-4, 3)], [(0, 2, 3), (0, 1, 2)], True),
    "flat triangle": (FACE + [(3, 0)], [(0, 3, 1), (0, 3, 2), (3, 1, 2)], True),
    "flat triangle only": (FACE + [(3, 0)], [(0, 3, 1)], True),
    "crossing triangle": (FACE + [(8, 1)], [(0, 3, 2)], True),
    "crossing triangle with the face": (FACE + [(8, 1)], [(0, 3, 2), (0, 1, 2)], False),
    "crossing triangle at the second side": (FACE + [(-2, 3)], [(3, 1, 2)], True),
    "crossing triangle at the first side": (FACE + [(1, -1)], [(3, 1, 2)], True),
    "clockwise triangles": (FACE + [(2, 2)], [(0, 3, 1), (2, 1, 3), (3, 0, 2)], True),
    "unknown points": (FACE, [(0, 1, 9), (0, 1, 2)], True),
    "face over its parts": (FACE + [(2, 2)], [(0, 1, 2), (0, 1, 3), (1, 2, 3), (2, 0, 3)], False),
    "parts over the face": (FACE + [(2, 2)], [(0, 1, 3), (1, 2, 3), (2, 0, 3), (0, 1, 2)], False),
    "twice the same": (FACE, [(0, 1, 2), (1, 2, 0)], False),
    "two fans": (FACE + [(1, 1), (3, 1)], [(0, 1, 3), (1, 2, 3), (2, 0, 3), (0, 1, 4), (1, 2, 4), (2, 0, 4)], False),
    "too few points": (FACE[:2], [], True),
}


def det(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def along(p, q, x):
    if det(p, q, x):
        return None
    d = (q[0] - p[0], q[1] - p[1])
    t = F(d[0] * (x[0] - p[0]) + d[1] * (x[1] - p[1])) / (d[0] ** 2 + d[1] ** 2)
    return t if 0 <= t <= 1 else None


def ring_of(P):
    out = []
    for i in range(3):
        j = (i + 1) % 3
        on = sorted((k for k in range(len(P)) if along(P[i], P[j], P[k]) is not None), key=lambda k: along(P[i], P[j], P[k]))
        out += on[:-1]
    return out


def crosses(P, t, ring):
    for i, j in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
        for a, b in zip(ring, ring[1:] + ring[:1]):
            if {a, b} & {i, j}:
                continue
            if det(P[i], P[j], P[a]) * det(P[i], P[j], P[b]) < 0 and det(P[a], P[b], P[i]) * det(P[a], P[b], P[j]) < 0:
                return True
    return False


def helper(c, name):
    fs = [f for k, f in c.find(r"(^|::)%s$" % name)]
    near = [f for f in fs if FN in f.path]
    return (near or fs or [None])[0]


def select(c, fn, label):
    P, tris, planar = CASES[label]
    n = len(P)
    ps = syms(n)
    cen = {}
    wrong = []
    ring = ring_of(P) if n >= 3 else []

    def ids(ip, st, args):
        out = []
        for a in args:
            v = ip.expand(ip.deref_all(st, a))
            if v.op == "struct" and v.args[0] == "tuple":
                cs = list(v.args[2:])
            else:
                cs = list(coords(ip, v, 2))
            out.append(ps.index(cs) if cs in ps else None)
        return out

    def o_on(ip, st, args, atys, dty, r):
        i = ids(ip, st, args)
        if None in i:
            return ip.fresh("on", dty)
        t = along(*[P[x] for x in i])
        return none() if t is None else some(mk("num", t))

    def o_or(ip, st, args, atys, dty, r):
        i = ids(ip, st, args)
        return ip.fresh("orientation", dty) if None in i else mk("num", F(det(*[P[x] for x in i])))

    def o_area(ip, st, args, atys, dty, r):
        i = ids(ip, st, args)
        return ip.fresh("area", dty) if None in i else mk("num", abs(F(det(*[P[x] for x in i]))) / 2)

    def o_cen(ip, st, args, atys, dty, r):
        i = ids(ip, st, args)
        if None in i:
            return ip.fresh("centroid", dty)
        k = "c" + "_".join(map(str, sorted(i)))
        v = mk("struct", "tuple", 0, *[ip.typed(mk("sym", k + a), ("float", "f64")) for a in "xy"])
        cen[v] = tuple(F(sum(P[x][d] for x in i)) / 3 for d in (0, 1))
        return v

    def o_in(ip, st, args, atys, dty, r):
        rg = items(ip, st, args[0])
        q = ip.expand(ip.deref_all(st, args[2]))
        if rg is None or any(x.op != "num" for x in rg) or q not in cen:
            return ip.fresh("inside", dty)
        rg = [int(x.args[0]) for x in rg]
        rots = [ring[k:] + ring[:k] for k in range(len(ring))]
        if rg not in rots and rg[::-1] not in rots:
            wrong.append("the outline is taken to be %s instead of %s" % (rg, ring))
        x = cen[q]
        s = [det(P[i], P[(i + 1) % 3], x) for i in range(3)]
        return B(TRUE if all(y >= 0 for y in s) or all(y <= 0 for y in s) else FALSE)

    H = {k: helper(c, k) for k in ("on_edge_with_t", "tri_area_abs", "centroid", "point_in_polygon_even_odd")}
    if any(v is None for v in H.values()):
        return None, "helpers not found"
    ov = {H["on_edge_with_t"].path: o_on, H["tri_area_abs"].path: o_area, H["centroid"].path: o_cen, H["point_in_polygon_even_odd"].path: o_in}
    ov.update({f.path: o_or for k, f in c.find(r"^orient2d$")})
    pre = TRUE
    if ring:
        tot = ZERO
        for a, b in zip(ring, ring[1:] + ring[:1]):
            tot = vadd(tot, vsub(vmul(ps[a][0], ps[b][1]), vmul(ps[a][1], ps[b][0])))
        ccw = det(*P[:3]) > 0
        pre = sgn(tot)[1 if ccw else 2]

    def su(ip):
        ip.no_tolerance = True
        typing(ps)(ip)

    r = c.run(fn, ENV, args=[("ref", mk("seq", *[point(c, p) for p in ps])), ("ref", mk("seq", *[tri(c, t) for t in tris])), ("ref", mk("seq"))], pre=pre, setup=su, scalars=("T", "TS", "impl Scalar"), overrides=ov, limit=120)
    if r.pc != pre:
        return (None if opaque_part(B(r.pc)) else False), "does not always return"
    if wrong:
        return False, wrong[0]
    for v, b in leaves(r.ret, pre):
        ks = models.map_items(r.ip, v)
        if ks is None:
            return None, "kept set not known"
        kept = []
        for k in ks:
            h = vrestrict(r.ip.mhas(v, k), b)
            h = bool_of(h)
            if k.op != "num" or h not in (TRUE, FALSE):
                return None, "kept set not known"
            if h == TRUE:
                kept.append(int(k.args[0]))
        good = []
        for i, t in enumerate(tris):
            if max(t) >= n or not det(*[P[x] for x in t]):
                why = "has no area" if max(t) < n else "has unknown corners"
            else:
                x = tuple(F(sum(P[k][d] for k in t)) / 3 for d in (0, 1))
                s = [det(P[k], P[(k + 1) % 3], x) for k in range(3)]
                if not (all(y >= 0 for y in s) or all(y <= 0 for y in s)):
                    why = "lies outside"
                elif crosses(P, t, ring):
                    why = "crosses the outline"
                else:
                    good.append(i)
                    continue
            if i in kept:
                return False, "triangle %s is kept although it %s" % (t, why)
        side = {}
        for i in kept:
            t = tris[i]
            for a, b_, d in ((t[0], t[1], t[2]), (t[1], t[2], t[0]), (t[2], t[0], t[1])):
                s = det(P[a], P[b_], P[d]) > 0
                key = (min(a, b_), max(a, b_), s if a < b_ else not s)
                if key in side:
                    return False, "triangles %s and %s are kept on the same side of edge %d-%d" % (tris[side[key]], t, a, b_)
                side[key] = i
        if planar and set(kept) != set(good):
            return False, "triangle %s inside the face is not kept" % (tris[min(set(good) - set(kept))],)
        if good and not kept:
            return False, "nothing is kept"
    return True, ""


def helpers(c):
    q = lambda v: mk("num", F(v))
    x, y = mk("sym", "x"), mk("sym", "y")
    f64 = ("float", "f64")

    def su(ip):
        ip.no_tolerance = True
        for v in (x, y):
            ip.typed(v, f64)

    def sut(ip):
        ip.no_tolerance = True
        for v in (x, y):
            ip.typed(v, TP)

    fn = helper(c, "point_in_polygon_even_odd")
    if fn is None:
        c.ob("containment", None, None, "no such function")
    else:
        POLYS = {
            "triangle": [(0, 0), (6, 0), (0, 6)],
            "clockwise triangle": [(0, 0), (0, 6), (6, 0)],
            "slanted triangle": [(1, 1), (7, 3), (2, 8)],
            "triangle with points on its sides": [(0, 0), (3, 0), (6, 0), (3, 3), (0, 6), (0, 3)],
        }
        for label, R in POLYS.items():
            def one(R=R):
                seq = [mk("sym", "r%d" % i) for i in range(len(R))]
                rr = mk("seq", *[num(i) for i in range(len(R))])
                r = c.run(fn, ENV, args=[("ref", rr), ("ref", mk("seq", *[point(c, [q(u), q(v)]) for u, v in R])), mk("struct", "tuple", 0, x, y)], setup=su, scalars=("T", "TS", "impl Scalar"), limit=60)
                if r.pc != TRUE:
                    return (None if opaque_part(B(r.pc)) else False), "does not always return"
                n = 0
                for u in range(-2, 18):
                    for v in range(-3, 18):
                        pt = (F(u, 2) + F(1, 7) * (v % 2), F(v, 2) + F(1, 11) * (u % 3))
                        s = [det(a, b, pt) for a, b in zip(R, R[1:] + R[:1])]
                        want = all(z >= 0 for z in s) or all(z <= 0 for z in s)
                        got = bool_of(models.tsubst(r.ret, {x: q(pt[0]), y: q(pt[1])}))
                        if got not in (TRUE, FALSE):
                            return None, "value not known"
                        if (got == TRUE) != want:
                            return False, "the point (%s, %s) is %s" % (pt + ("taken to be inside" if got == TRUE else "taken to be outside",))
                return True, ""

            c.guard("containment in a %s" % label, fn, one)
    fn = helper(c, "tri_area_abs")
    if fn is None:
        c.ob("area", None, None, "no such function")
    else:
        def area():
            a, b = (1, 2), (5, 3)
            t2 = lambda u, v: mk("struct", "tuple", 0, u, v)
            for perm in itertools.permutations(range(3)):
                ar = [t2(q(1), q(2)), t2(q(5), q(3)), t2(x, y)]
                r = c.run(fn, {}, args=[ar[i] for i in perm], setup=su, scalars=())
                for pt in ((3, 3), (2, -4), (9, 4), (0, 0), (5, 8)):
                    g = models.tsubst(r.ret, {x: q(pt[0]), y: q(pt[1])})
                    if g.op != "num":
                        return None, "value not known"
                    w = abs(F(det(a, b, pt))) / 2
                    if (F(g.args[0]) > 0) != (w > 0):
                        return False, "area of %s, %s, %s is %s instead of %s" % (a, b, pt, g.args[0], w)
            return True, ""

        c.guard("area", fn, area)
    fn = helper(c, "centroid")
    if fn is None:
        c.ob("centroid", None, None, "no such function")
    else:
        def cent():
            ps = syms(3)

            def s3(ip):
                ip.no_tolerance = True
                typing(ps)(ip)

            r = c.run(fn, ENV, args=[("ref", point(c, p)) for p in ps], setup=s3, scalars=("T", "TS", "impl Scalar"))
            v = r.ip.expand(r.ret)
            if v.op != "struct":
                return None, "value not known"
            for d in (0, 1):
                w = vmul(q(F(1, 3)), vadd(vadd(ps[0][d], ps[1][d]), ps[2][d]))
                if v.args[2 + d] != w:
                    return (None if opaque_part(v) else False), "coordinate %d is %s" % (d, show(v.args[2 + d])[:80])
            return True, ""

        c.guard("centroid", fn, cent)
    fn = helper(c, "on_edge_with_t")
    if fn is None:
        c.ob("points on the outline", None, None, "no such function")
    else:
        for A, E in (((1, 2), (5, 2)), ((1, 2), (1, -3)), ((0, 0), (3, 4)), ((2, 1), (-1, 3))):
            def edge(A=A, E=E):
                d = (E[0] - A[0], E[1] - A[1])
                px = vadd(q(A[0]), vadd(vmul(x, q(d[0])), vmul(y, q(-d[1]))))
                py = vadd(q(A[1]), vadd(vmul(x, q(d[1])), vmul(y, q(d[0]))))
                r = c.run(fn, ENV, args=[("ref", point(c, [q(v) for v in A])), ("ref", point(c, [q(v) for v in E])), ("ref", point(c, [px, py]))], setup=sut, scalars=("T", "TS", "impl Scalar"))
                if r.pc != TRUE:
                    return (None if opaque_part(B(r.pc)) else False), "does not always return"
                for t in ("-2", "-1/2", "0", "1/3", "1/2", "1", "3/2", "4"):
                    for w in ("0", "1/2", "-1", "1/50", "-1/50"):
                        v = r.ip.expand(models.tsubst(r.ret, {x: q(t), y: q(w)}))
                        if v.op != "struct":
                            return None, "value not known"
                        want = F(w) == 0 and 0 <= F(t) <= 1
                        if (v.args[1] == 1) != want:
                            return False, "a point at %s of the side and %s beside it is %s" % (t, w, "on it" if v.args[1] == 1 else "not on it")
                        if want and (v.args[2].op != "num" or F(v.args[2].args[0]) != F(t)):
                            return (None if v.args[2].op != "num" else False), "position %s instead of %s" % (show(v.args[2])[:40], t)
                return True, ""

            c.guard("points on the side %s-%s" % (A, E), fn, edge)


def check(c):
    fs = [f for k, f in c.find(r"(^|::)%s$" % FN)]
    if not fs:
        c.ob("selection", False, None, "the public selection is missing")
        return
    for label in CASES:
        c.guard(label, fs[0], lambda label=label: select(c, fs[0], label))
    helpers(c)
