"""C13: point-in-triangle classification is exact and exhaustive."""
from lib import *
from common import *

EXPLAIN = (
    "The classification bodies are interpreted over symbolic coordinates into a decision diagram whose leaves are the result "
    "variants; the diagram is compared with the one defined by the signs of the three edge functions."
)
RULES = [
    "degenerate triangle -> Off; opposite signs -> Off; two zeros -> OnVertex; one zero -> OnEdge; else In",
]
PARALLEL = True
SC = ("T", "U", "V")


def check(c):
    path = c.adt_path("TrianglePoint")
    vs = [v[0] for v in c.F.adts[path]["variants"]]
    V = {n: mk("struct", path, vs.index(n)) for n in ("Off", "OnEdge", "OnVertex", "In")}
    fn = c.fn("point_in_or_on_triangle")
    for N in (2, 3):
        env = {"N": ("cval", N), "T": TP}

        def want(r, ip, N=N):
            p, a, b, q = [coords(ip, argval(r, i), N) for i in range(4)]
            ab, ac = vminus(b, a), vminus(q, a)
            if N == 2:
                deg = Z(cross2(ab, ac))
                e = [cross2(ab, vminus(p, a)), cross2(vminus(q, b), vminus(p, b)), cross2(vminus(a, q), vminus(p, q))]
            else:
                n = cross3(ab, ac)
                deg = allz(n)
                e = [
                    dot(cross3(ab, vminus(p, a)), n),
                    dot(cross3(vminus(q, b), vminus(p, b)), n),
                    dot(cross3(vminus(a, q), vminus(p, q)), n),
                ]
            z = [Z(x) for x in e]
            pos = bor(*[Pos(x) for x in e])
            neg = bor(*[Neg(x) for x in e])
            two = bor(band(z[0], z[1]), band(z[0], z[2]), band(z[1], z[2]))
            one = bor(*z)
            off = bor(deg, band(pos, neg))
            w = vite(off, V["Off"], vite(two, V["OnVertex"], vite(one, V["OnEdge"], V["In"])))
            return [("", r.ret, w)]

        formula(c, "point_in_or_on_triangle N=%d" % N, fn, env, want, scalars=SC)

        fo = c.fn("point_in_or_on_triangle_old")

        def old(r, ip, N=N):
            p, a, b, q = [coords(ip, argval(r, i), N) for i in range(4)]
            v0, v1, v2 = vminus(q, a), vminus(b, a), vminus(p, a)
            d00, d01, d02, d11, d12 = dot(v0, v0), dot(v0, v1), dot(v0, v2), dot(v1, v1), dot(v1, v2)
            den = vsub(vmul(d00, d11), vmul(d01, d01))
            tol = mk("tol", "tolerance")
            u = vdiv(vsub(vmul(d11, d02), vmul(d01, d12)), den)
            v = vdiv(vsub(vmul(d00, d12), vmul(d01, d02)), den)
            s = vadd(u, v)
            off = bor(Neg(vsub(vabs(den), tol)), Neg(vadd(u, tol)), Neg(vadd(v, tol)), Pos(vsub(s, vadd(ONE, tol))))
            vert = bor(*[allz(vminus(p, x)) for x in (a, b, q)])
            edge = bor(Z(u), Z(v), Z(vsub(ONE, s)))
            return [("", r.ret, vite(off, V["Off"], vite(vert, V["OnVertex"], vite(edge, V["OnEdge"], V["In"]))))]

        formula(c, "point_in_or_on_triangle_old N=%d" % N, fo, env, old, scalars=SC)
