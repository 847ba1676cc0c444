"""C16: ray hits satisfy the ray and the target."""
from segs import *
from c34 import symbols

EXPLAIN = (
    "Ray origins and targets are written in terms of free hit parameters (distance, barycentric or edge coordinates), so the normal form of the returned parameters and the decision "
    "diagram of acceptance can be compared with exactly those parameters and their admissible range. Tolerances are taken as zero, or as an unknown positive number with an admissible slack."
)
RULES = [
    "ray and triangle: origin = v0 + u e1 + v e2 - t d; answer is (t,u,v) exactly when the ray is not parallel, u,v,t >= 0 and u+v <= 1",
    "ray and planar segment: answer is (t,u) exactly when t >= 0 and 0 <= u <= 1; collinear: nearest common point; parallel apart: none",
    "ray from a triangle corner: direction (1/t)((1-u)(p1-p0)+u(p2-p0)) plus a normal part meets the opposite edge at u after t; along an edge it is reported on that edge, forward only",
]
PARALLEL = True
TOLS = {mk("tol", "tolerance"): ZERO, mk("tol", "query_tolerance"): ZERO}


def vector(c, xs):
    return mk("struct", c.adt_path("Vector"), 0, point(c, xs))


def syms(ip, *names):
    return [ip.typed(mk("sym", n), TP) for n in names]


def exact(c, ip, got, want, pre):
    ok, d = c.same(ip, got, want, pre)
    return ok, d


def ray_triangle(c):
    fs = [f for k, f in c.find(r"^ray_triangle_intersection$")]
    if not fs:
        c.ob("ray and triangle", None, None, "no such function")
        return
    fn = fs[0]
    v0 = [mk("sym", "a%d" % i) for i in range(3)]
    e1 = [mk("sym", "e%d" % i) for i in range(3)]
    e2 = [mk("sym", "f%d" % i) for i in range(3)]
    d = [mk("sym", "d%d" % i) for i in range(3)]
    t, u, v, eps = (mk("sym", x) for x in ("t", "u", "v", "eps"))

    def su(ip):
        for x in v0 + e1 + e2 + d + [t, u, v, eps]:
            ip.typed(x, TP)

    o = vminus(vplus(v0, vplus(vscale(e1, u), vscale(e2, v))), vscale(d, t))
    v1, v2 = vplus(v0, e1), vplus(v0, e2)
    dt = dot(e1, cross3(d, e2))
    w = vadd(u, v)
    # consequences of the order of the sums
    cone = band(
        imp(band(Pos(vsub(u, ONE)), bnot(Neg(v))), Pos(vsub(w, ONE))),
        imp(band(bnot(Neg(vsub(u, ONE))), Pos(v)), Pos(vsub(w, ONE))),
        imp(band(Pos(vsub(v, ONE)), bnot(Neg(u))), Pos(vsub(w, ONE))),
        imp(Pos(vsub(u, ONE)), Pos(u)),
        imp(Pos(vsub(v, ONE)), Pos(v)),
        imp(bnot(Neg(vsub(u, ONE))), Pos(u)),
    )

    def zero():
        r = call(c, fn, o, d, (v0, v1, v2), some(ZERO), su)
        if band(cone, bnot(r.pc)) != FALSE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        hit = band(bnot(Z(dt)), bnot(Neg(u)), bnot(Neg(v)), bnot(Neg(t)), bnot(Pos(vsub(w, ONE))))
        return exact(c, r.ip, r.ret, models.opt(hit, mk("struct", "tuple", 0, t, u, v)), cone)

    c.guard("ray and triangle, no tolerance", fn, zero)

    def slack(which):
        tv = some(eps) if which == "given" else none()
        e = eps if which == "given" else mk("tol", "tolerance")
        r = call(c, fn, o, d, (v0, v1, v2), tv, su)
        ax = band(bnot(Neg(e)), cone, *[order_axioms([vsub(ZERO, e), ZERO, x, ONE, vadd(ONE, e)]) for x in (u, v, w, t)])
        ax = band(ax, imp(band(Pos(vsub(u, vadd(ONE, e))), bnot(Neg(v))), Pos(vsub(w, vadd(ONE, e)))))
        # |det| against the tolerance
        small = bor(band(bnot(Neg(dt)), bnot(Pos(vsub(dt, e)))), band(Neg(dt), bnot(Neg(vadd(dt, e)))))
        ax = band(ax, imp(Neg(dt), Neg(vsub(dt, e))), imp(Pos(dt), Pos(vadd(dt, e))), imp(Z(dt), bnot(Pos(vsub(dt, e)))))
        must = band(ax, bnot(small), bnot(Neg(u)), bnot(Neg(v)), bnot(Neg(t)), bnot(Pos(vsub(w, ONE))), bnot(Pos(vsub(u, ONE))))
        may = band(ax, bnot(Z(dt)), *[bnot(Neg(vadd(x, e))) for x in (u, v, t)], bnot(Pos(vsub(w, vadd(ONE, e)))))
        for x, b in leaves(r.ret, band(ax, r.pc)):
            x = r.ip.expand(x)
            if x.op != "struct":
                return None, "answer not known"
            if len(x.args) == 2:
                if band(b, must) != FALSE:
                    op = opaque_part(B(b))
                    return (None if op else False), "a ray through the triangle is missed: " + showb(band(b, must), 4, 1)[:100]
                continue
            if band(b, bnot(may)) != FALSE:
                op = opaque_part(B(b))
                return (None if op else False), "a ray beside the triangle is reported: " + showb(band(b, bnot(may)), 4, 1)[:100]
            tt, uu, vv = (r.ip.proj(x.args[2], ("f", 0, i)) for i in range(3))
            for g, want in ((uu, u), (vv, v)):
                for y, b2 in leaves(g, b):
                    if not tm.req(y, want):
                        return (None if opaque_part(y) else False), "coordinate %s instead of %s" % (show(y)[:40], show(want))
            for y, b2 in leaves(tt, b):
                if tm.req(y, t):
                    if band(b2, Neg(t)) != FALSE:
                        return False, "a negative distance is reported"
                elif y is ZERO:
                    if band(b2, Pos(t)) != FALSE:
                        return False, "distance zero is reported for a positive one"
                else:
                    return (None if opaque_part(y) else False), "distance %s" % show(y)[:40]
        return True, ""

    for which in ("given", "default"):
        c.guard("ray and triangle, %s tolerance" % which, fn, lambda which=which: slack(which))


def call(c, fn, o, d, tri, tol, su):
    def setup(ip):
        su(ip)
        for i, p in enumerate(tri):
            ip.premem[("corner", i)] = point(c, p)

    return c.run(fn, {"N": ("cval", 3), "T": TP}, args=[("ref", point(c, o)), ("ref", vector(c, d)), mk("arr", *[mk("ref", ("corner", i), ()) for i in range(3)]), ("ref", tol)], setup=setup, scalars=("T",))


def ray_segment(c):
    fn = c.fn("ray_segment_intersection_2d")
    o = [mk("sym", "o%d" % i) for i in range(2)]
    d = [mk("sym", "d%d" % i) for i in range(2)]
    s = [mk("sym", "s%d" % i) for i in range(2)]
    t, u, m, k, n = (mk("sym", x) for x in "tumkn")

    def su(ip):
        for x in o + d + s + [t, u, m, k, n]:
            ip.typed(x, TP)

    def run(a, b, pre=TRUE, dd=None):
        return c.run(fn, {"T": TP}, args=[("ref", point(c, o)), ("ref", vector(c, dd or d)), ("ref", point(c, a)), ("ref", point(c, b))], setup=su, scalars=("T",), pre=pre)

    def skew():
        x = vplus(o, vscale(d, t))
        r = run(vminus(x, vscale(s, u)), vplus(x, vscale(s, vsub(ONE, u))))
        pre = band(norm_axioms(d), imp(allz(d), Z(cross2(d, s))), bnot(Z(cross2(d, s))), order_axioms([ZERO, u, ONE]))
        if band(pre, bnot(r.pc)) != FALSE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        hit = band(bnot(Neg(t)), bnot(Neg(u)), bnot(Pos(vsub(u, ONE))))
        return exact(c, r.ip, tol0(r.ret), models.opt(hit, mk("struct", "tuple", 0, t, u)), pre)

    c.guard("ray and planar segment, crossing lines", fn, skew)

    def apart():
        r = run(vplus(o, vplus(vscale(d, m), [vsub(ZERO, vmul(n, d[1])), vmul(n, d[0])])), vplus(o, vplus(vscale(d, vadd(m, k)), [vsub(ZERO, vmul(n, d[1])), vmul(n, d[0])])))
        pre = band(norm_axioms(d), bnot(Z(n)))
        return exact(c, r.ip, tol0(r.ret), none(), pre)

    c.guard("ray and planar segment, parallel lines", fn, apart)

    def along(axis, sense):
        # direction along an axis: the segment from m to m+k ray lengths
        dd = [num(sense) if i == axis else ZERO for i in range(2)]
        r = run(vplus(o, vscale(dd, m)), vplus(o, vscale(dd, vadd(m, k))), TRUE, dd)
        e = vadd(m, k)
        pre = band(order_axioms([ZERO, m, e]), bnot(Z(k)))
        got = tol0(r.ret)
        for x, b in leaves(got, pre):
            x = r.ip.expand(x)
            if x.op != "struct":
                return None, "answer not known"
            if len(x.args) == 2:
                if band(b, bnot(band(Neg(m), Neg(e)))) != FALSE:
                    op = opaque_part(B(b))
                    return (None if op else False), "a segment ahead on the ray is missed: " + showb(band(b, bnot(band(Neg(m), Neg(e)))), 4, 1)[:100]
                continue
            if band(b, Neg(m), Neg(e)) != FALSE:
                return (None if opaque_part(B(b)) else False), "a segment behind the ray is reported"
            for y, b2 in leaves(r.ip.proj(x.args[2], ("f", 0, 0)), b):
                for z, b3 in leaves(r.ip.proj(x.args[2], ("f", 0, 1)), b2):
                    if opaque_part(y) or opaque_part(z):
                        return None, "answer not known"
                    if not (y is ZERO or tm.req(y, m) or tm.req(y, e)):
                        return False, "distance %s" % show(y)[:60]
                    if not tm.req(vadd(m, vmul(z, k)), y):
                        return False, "distance %s and edge parameter %s do not name the same point" % (show(y)[:40], show(z)[:40])
                    if y is ZERO:
                        bad = bor(band(Pos(m), Pos(e)), band(Neg(m), Neg(e)))
                    elif tm.req(y, m):
                        bad = bor(Neg(m), band(Neg(k), Pos(m)))
                    else:
                        bad = bor(Neg(e), band(Pos(k), Pos(e)))
                    if band(b3, bad) != FALSE:
                        op = opaque_part(B(b3))
                        return (None if op else False), "distance %s is not that of the nearest common point when %s" % (show(y)[:30], showb(band(b3, bad), 4, 1)[:100])
        return True, ""

    for axis in (0, 1):
        for sense in (1, -1, 2):
            c.guard("ray along a planar segment, axis %d factor %d" % (axis, sense), fn, lambda axis=axis, sense=sense: along(axis, sense))


def tol0(v):
    """the value for tolerances taken as zero"""
    return models.tsubst(v, TOLS)


TRIS = {
    "flat": ((0, 0, 0), (4, 0, 0), (1, 3, 0)),
    "obtuse": ((1, 1, 0), (9, 2, 0), (-3, 3, 0)),
    "tilted": ((0, 0, 1), (2, 1, 3), (1, 3, -1)),
}


def corner_ray(c):
    vr = c.adt_path("VertexRayResult")
    vv = [x[0] for x in c.F.adts[vr]["variants"]]
    ei = [f[0] for f in c.F.adts[vr]["variants"][vv.index("EdgeIntersection")][1]]
    t, u, g = (mk("sym", x) for x in "tug")

    def mesh(tri, two):
        F = ["abc", "bdc"] if two else ["abc"]
        R = ["acdb"] if two else ["acb"]
        P = mesh_of(c, F, R, 3)
        for x, p in zip("abcd", TRIS[tri] + ((5, 5, 7),)):
            P.pos[x] = [num(y) for y in p]
        return P

    def one(fn, tri, k, two):
        P = mesh(tri, two)
        pts = [[num(y) for y in p] for p in TRIS[tri]]
        p0, p1, p2 = pts[k], pts[(k + 1) % 3], pts[(k + 2) % 3]
        n = cross3(vminus(pts[1], pts[0]), vminus(pts[2], pts[0]))
        d = vplus(vscale(vplus(vscale(vminus(p1, p0), vsub(ONE, u)), vscale(vminus(p2, p0), u)), vdiv(ONE, t)), vscale(n, g))
        vs = list(P.vx)
        x0, x1, x2 = "abc"[k], "abc"[(k + 1) % 3], "abc"[(k + 2) % 3]

        def su(ip):
            P.setup(ip)
            for x in (t, u, g):
                ip.typed(x, TP)

        r = c.run(fn, P.env(), args=[("ref", P.value()), P.Fc("abc"), num(vs.index(x0)), ("ref", vector(c, d))], setup=su, scalars=SC)
        ip = r.ip
        pre = band(bnot(Z(t)), order_axioms([ZERO, u, ONE]))
        if band(pre, bnot(r.pc)) != FALSE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        got = tol0(r.ret)
        # u against every constant it is compared with
        ks = [ZERO, ONE]
        for x, b in leaves(got, pre):
            for a in bsupport(b):
                a = tm.ATOMS[a]
                if a[0] in ("Z", "P") and symbols(a[1]) == {"u"}:
                    k = vsub(u, a[1])
                    if k.op == "num" and k not in ks:
                        ks.append(k)
        pre = band(pre, order_axioms([u] + ks))
        ahead = band(Pos(t), bnot(Neg(u)), bnot(Pos(vsub(u, ONE))))
        l1 = band(Pos(t), Z(u))
        l2 = band(Pos(t), Z(vsub(u, ONE)))
        for x, b in leaves(got, pre):
            x = ip.expand(x)
            if x.op != "struct":
                return None, "answer not known"
            op = opaque_part(B(b))
            if len(x.args) == 2:
                if band(b, ahead) != FALSE:
                    return (None if op else False), "a ray through the opposite edge is missed: " + showb(band(b, ahead), 4, 1)[:100]
                continue
            for y, b in leaves(ip.expand(x.args[2]), b):
                y = ip.expand(y)
                if y.op != "struct":
                    return None, "answer not known"
                if vv[y.args[1]] == "EdgeIntersection":
                    f = {k: vrestrict(w, b) for k, w in zip(ei, y.args[2:])}
                    if any(opaque_part(w) for w in f.values()):
                        return None, "answer not known"
                    if f["half_edge"] is P.H(x1 + x2):
                        w = u
                    elif f["half_edge"] is P.H(x2 + x1):
                        w = vsub(ONE, u)
                    else:
                        return False, "half-edge %s is not the opposite edge" % show(f["half_edge"])[:40]
                    if not tm.req(f["edge_parameter"], w):
                        return False, "edge parameter %s at %s" % (show(f["edge_parameter"])[:60], show(w))
                    if not tm.req(f["distance"], t):
                        return False, "distance %s" % show(f["distance"])[:60]
                    if band(b, bnot(ahead)) != FALSE:
                        return (None if op else False), "a ray that misses the opposite edge is reported on it: " + showb(band(b, bnot(ahead)), 4, 1)[:100]
                else:
                    for h, b2 in leaves(y.args[2], b):
                        if opaque_part(h):
                            return None, "answer not known"
                        want = l1 if h is P.H(x0 + x1) else l2 if h is P.H(x0 + x2) else None
                        if want is None:
                            return False, "half-edge %s does not leave the corner" % show(h)[:40]
                        if band(b2, bnot(want)) != FALSE:
                            return (None if opaque_part(B(b2)) else False), "a ray is reported along an edge when " + showb(band(b2, bnot(want)), 4, 1)[:100]
        return True, ""

    for name in ("cast_ray_from_vertex_in_triangle_3", "cast_ray_from_vertex_in_triangle"):
        fn = mesh_fn(c, name)
        for tri in TRIS:
            for k in range(3):
                for two in (False, True):
                    if two and tri != "flat":
                        continue
                    c.guard("%s, %s triangle, corner %d%s" % (name, tri, k, ", with a neighbour" if two else ""), fn, lambda fn=fn, tri=tri, k=k, two=two: one(fn, tri, k, two))


def check(c):
    ray_triangle(c)
    ray_segment(c)
    corner_ray(c)
