"""C14: barycentric coordinates."""
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "The barycentric computation is interpreted for a point written as a + s(b-a) + t(c-a) with free s, t: the normal form of the "
    "result must be exactly (1-s-t, s, t). The location queries are interpreted on a symbolic mesh containing one named triangle "
    "and their decision diagrams compared with the naming rule."
)
RULES = [
    "coordinates of a + s(b-a) + t(c-a) are (1-s-t, s, t); a degenerate triangle gives none",
    "a vanishing coordinate names the opposite edge with the parameter measured from that edge's tail; two name the vertex",
]
SC = ("T", "TS")


PARALLEL = True


def check(c):
    fn = c.fn("barycentric_coords")
    for N in (2, 3):
        vals, setup = points(c, N, 3)
        s, t = mk("sym", "s"), mk("sym", "t")
        cs = [[x for x in v.args[2].args] for v in vals]
        ab, ac = vminus(cs[1], cs[0]), vminus(cs[2], cs[0])
        p = vplus(cs[0], vplus(vscale(ab, s), vscale(ac, t)))
        pv = mk("struct", c.adt_path("Point"), 0, mk("arr", *p))

        def su(ip, setup=setup, s=s, t=t):
            setup(ip)
            ip.typed(s, TP)
            ip.typed(t, TP)

        def want(r, ip, N=N, ab=ab, ac=ac, s=s, t=t):
            g = vsub(vmul(dot(ab, ab), dot(ac, ac)), vmul(dot(ab, ac), dot(ab, ac)))
            deg = Z(g)
            w = mk("struct", "tuple", 0, vsub(vsub(ONE, s), t), s, t)
            return [("", r.ret, models.opt(bnot(deg), w))]

        def pre(r, ip, N=N, ab=ab, ac=ac):
            g = vsub(vmul(dot(ab, ab), dot(ac, ac)), vmul(dot(ab, ac), dot(ab, ac)))
            return band(iff(Z(g), minors0(ab, ac)), bnot(Neg(g)))

        formula(c, "barycentric_coords N=%d" % N, fn, {"N": ("cval", N), "T": TP}, want, pre=pre, setup=su,
                args=[("ref", pv)] + [("ref", v) for v in vals], scalars=SC)

    l = [mk("sym", "l%d" % i) for i in range(3)]

    def patch(N):
        P = Patch(c, N)
        P.tri("f", ("e0", "e1", "e2"), ("a", "b", "c"))
        return P

    z = [Z(x) for x in l]

    def queries(N):
        P = patch(N)
        m = P.value()

        def su(ip):
            P.setup(ip)
            for x in l:
                ip.typed(x, TP)

        e = [P.H(x) for x in ("e0", "e1", "e2")]
        v = [P.V(x) for x in ("a", "b", "c")]
        f = P.Fc("f")
        some, none = models.some, P.none()

        formula(c, "face_edges N=%d" % N, mesh_fn(c, "face_edges"), P.env(), lambda r, ip: [("", r.ret, mk("struct", "tuple", 0, *e))],
                args=[("ref", m), f], setup=su, scalars=SC)
        formula(c, "face_vertices N=%d" % N, mesh_fn(c, "face_vertices"), P.env(), lambda r, ip: [("", r.ret, mk("arr", *v))],
                args=[("ref", m), f], setup=su, scalars=SC)

        # exactly one coordinate vanishes (others decided by the vertex query)
        one = bor(band(z[0], bnot(z[1]), bnot(z[2])), band(z[1], bnot(z[0]), bnot(z[2])), band(z[2], bnot(z[0]), bnot(z[1])))
        nz = band(bnot(z[0]), bnot(z[1]), bnot(z[2]))
        w = vite(z[2], some(models.tup2(e[0], l[1])), vite(z[0], some(models.tup2(e[1], l[2])), vite(z[1], some(models.tup2(e[2], l[0])), none)))
        formula(c, "edge_and_u_from_bary_zero N=%d" % N, mesh_fn(c, "edge_and_u_from_bary_zero"), P.env(), lambda r, ip: [("", r.ret, w)],
                pre=bor(one, nz), args=[("ref", m), f] + [("ref", x) for x in l], setup=su, scalars=SC)
        w2 = vite(band(z[1], z[2]), some(v[0]), vite(band(z[2], z[0]), some(v[1]), vite(band(z[0], z[1]), some(v[2]), none)))
        formula(c, "vertex_from_bary_zero N=%d" % N, mesh_fn(c, "vertex_from_bary_zero"), P.env(), lambda r, ip: [("", r.ret, w2)],
                pre=bnot(band(z[0], z[1], z[2])), args=[("ref", m), f] + [("ref", x) for x in l], setup=su, scalars=SC)

        # location on the face: the coordinates are taken as given by the first rule
        bc = c.fn("barycentric_coords")
        seen = []

        def ov(ip, st, args, atys, dty, r):
            seen.append([coords(ip, ip.deref_all(st, a), N) for a in args])
            return models.some(mk("struct", "tuple", 0, *l))

        q = [mk("sym", "q%d" % i) for i in range(N)]
        qv = mk("struct", c.adt_path("Point"), 0, mk("arr", *q))

        def su2(ip):
            su(ip)
            for x in q:
                ip.typed(x, TP)

        path = c.adt_path("FindFaceResult")
        vs = c.F.adts[path]["variants"]
        names = [x[0] for x in vs]

        def enum(var, **kw):
            k = names.index(var)
            return mk("struct", path, k, *[kw[x[0]] for x in vs[k][1]])

        def clamp(x):
            return vite(Neg(x), ZERO, vite(Pos(vsub(x, ONE)), ONE, x))

        def want(r, ip):
            ed = lambda i, u: enum("OnEdge", f=f, he=e[i], u=clamp(l[u]))
            ve = lambda i: enum("OnVertex", f=f, v=v[i])
            w = vite(nz, enum("Inside", f=f, bary=mk("struct", "tuple", 0, *l)),
                     vite(one, vite(z[2], ed(0, 1), vite(z[0], ed(1, 2), ed(2, 0))),
                          vite(band(z[1], z[2]), ve(0), vite(band(z[2], z[0]), ve(1), ve(2)))))
            out = [("", r.ret, w)]
            for call in seen[-1:]:
                for i, (g, want) in enumerate(zip(call, [q] + [P.pos[x] for x in ("a", "b", "c")])):
                    out += vec(g, want, "argument %d of the coordinate computation" % i)
            return out

        ax = band(bnot(band(z[0], z[1], z[2])), imp(Neg(l[0]), Neg(vsub(l[0], ONE))), imp(Neg(l[1]), Neg(vsub(l[1], ONE))), imp(Neg(l[2]), Neg(vsub(l[2], ONE))))
        formula(c, "location_on_face N=%d" % N, mesh_fn(c, "location_on_face"), P.env(), want, pre=ax,
                args=[("ref", m), f, ("ref", qv)], setup=su2, scalars=SC, overrides={bc.path: ov})

        tp = c.adt_path("TrianglePoint")
        tv = [x[0] for x in c.F.adts[tp]["variants"]]
        pit = c.fn("point_in_or_on_triangle")
        cls = mk("sym", "cls")
        seen2 = []

        def ov2(ip, st, args, atys, dty, r):
            seen2.append([coords(ip, ip.deref_all(st, a), N) for a in args])
            return cls

        def su3(ip):
            su2(ip)
            ip.typed(cls, ("adt", tp, ()))

        def want2(r, ip):
            off = ip.isvar(cls, tv.index("Off"), tp)
            out = [("", r.ret, vite(off, none, models.some(mk("struct", "tuple", 0, *l))))]
            for i, (g, w) in enumerate(zip(seen2[-1], [q] + [P.pos[x] for x in ("a", "b", "c")])):
                out += vec(g, w, "argument %d of the containment test" % i)
            for i, (g, w) in enumerate(zip(seen[-1], [q] + [P.pos[x] for x in ("a", "b", "c")])):
                out += vec(g, w, "argument %d of the coordinate computation" % i)
            return out

        formula(c, "barycentric_coords_on_face N=%d" % N, mesh_fn(c, "barycentric_coords_on_face"), P.env(), want2,
                args=[("ref", m), f, ("ref", qv)], setup=su3, scalars=SC, overrides={bc.path: ov, pit.path: ov2})

    for N in (2, 3):
        queries(N)
