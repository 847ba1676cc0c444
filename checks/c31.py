"""C31: face normals, planes, centroids and areas."""
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "The face measures are interpreted on a symbolic mesh containing one named triangle with free corner coordinates, for every choice "
    "of the face's recorded half-edge; the normal forms of the results are compared with the textbook formulas."
)
RULES = [
    "normal = (b-a) x (c-a) for the corners in face order, for any recorded half-edge",
    "plane: normal as above and n.p + d = 0 for each corner",
    "centroid = (a+b+c)/3, exact and fast variant alike",
    "area = |cross|/2 in 2D, |cross|^2/4 in 3D; four times the squared area after moving a corner = |cross|^2 of the moved triangle",
]
PARALLEL = True
SC = ("T", "TS", "M")


def check(c):
    q = [mk("sym", "q%d" % i) for i in range(3)]
    for rep in range(3):
        for N in (2, 3):
            P = surface(c, N, ["abc"], ["acb"])
            P.fc["abc"] = arcs("abc")[rep]
            m = P.value()
            pa, pb, pc = (P.pos[x] for x in "abc")
            ab, ac = vminus(pb, pa), vminus(pc, pa)
            mean = [vdiv(vsum([pa[i], pb[i], pc[i]]), num(3)) for i in range(N)]

            def setup(ip):
                P.setup(ip)
                for x in q:
                    ip.typed(x, TP)

            def measure(name, want, args=(), env=None):
                fn = mesh_fn(c, name)
                formula(c, "%s N=%d from corner %s" % (name, N, "abc"[rep]), fn, P.env(), want, args=[("ref", m), P.Fc("abc")] + list(args), setup=setup, scalars=SC)

            measure("face_centroid", lambda r, ip: vec(coords(ip, r.ret, N), mean))
            measure("face_centroid_fast", lambda r, ip: vec([deround(x) for x in coords(ip, r.ret, N)], mean))
            if N == 2:
                measure("face_area", lambda r, ip: [("", r.ret, vdiv(vabs(cross2(ab, ac)), num(2)))])
                continue
            n = cross3(ab, ac)
            measure("face_normal", lambda r, ip: vec(coords(ip, r.ret, 3), n))
            measure("face_area", lambda r, ip: [("", r.ret, vdiv(dot(n, n), num(4)))])

            def plane(r, ip):
                fs = [f[0] for f in c.F.adts[c.adt_path("Plane")]["variants"][0][1]]
                pn = coords(ip, ip.proj(r.ret, ("f", 0, fs.index("normal"))), 3)
                d = ip.proj(r.ret, ("f", 0, fs.index("d")))
                return vec(pn, n, "normal ") + [("plane equation at corner %d" % i, vadd(dot(pn, p), d), ZERO) for i, p in enumerate((pa, pb, pc))]

            measure("plane_from_face", plane)
            for mv in "abcz":
                ps = [q if x == mv else P.pos[x] for x in "abc"]
                n2 = cross3(vminus(ps[1], ps[0]), vminus(ps[2], ps[0]))
                qv = mk("struct", c.adt_path("Point"), 0, mk("arr", *q))
                fn = mesh_fn(c, "area2x4_after_move")
                formula(c, "area2x4_after_move of %s from corner %s" % (mv, "abc"[rep]), fn, P.env(), lambda r, ip: [("", r.ret, dot(n2, n2))],
                        args=[("ref", m), P.Fc("abc"), P.V(mv), ("ref", qv)], setup=setup, scalars=SC)
