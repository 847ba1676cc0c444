"""C08: vector and point algebra matches its definition in every dimension."""
from lib import *
from common import *

EXPLAIN = (
    "Each operator/method body of points and vectors is interpreted over symbolic coordinates, dimension by dimension, into "
    "polynomial normal forms and compared componentwise with its coordinate definition. Operator impls are enumerated from "
    "the type-checked crate so that every by-value/by-reference form is an obligation."
)
RULES = ["component i of the result equals the coordinate-wise definition (polynomial identity)", "dot(any_perpendicular(v), v) = 0"]
PARALLEL = True
SC = ("T", "U", "V")


def point(c, xs):
    return mk("struct", c.adt_path("Point"), 0, mk("arr", *xs))


def check(c):
    n = 0
    for head in ("Vector", "Point"):
        for op, f in (("Add", vadd), ("Sub", vsub)):
            for im in c.impls(op, head):
                rhs = im["trait"]["args"][1]
                if strip_ref(rhs) != strip_ref(im["self"]):
                    continue
                fn = c.F.fns[list(im["map"].values())[[k for k in im["map"]].index(op.lower())]]
                for N in (2, 3, 4):
                    n += 1

                    def want(r, ip, N=N, f=f):
                        a, b = coords(ip, argval(r, 0), N), coords(ip, argval(r, 1), N)
                        return vec(coords(ip, r.ret, N), [f(x, y) for x, y in zip(a, b)])

                    formula(c, "%s N=%d" % (fn_key(c.F, fn), N), fn, {"N": ("cval", N), "T": TP}, want, scalars=SC)
        for op in ("Neg",):
            for im in c.impls(op, head):
                fn = c.F.fns[im["map"]["neg"]]
                for N in (2, 3, 4):
                    n += 1

                    def want(r, ip, N=N):
                        return vec(coords(ip, r.ret, N), [vneg(x) for x in coords(ip, argval(r, 0), N)])

                    formula(c, "%s N=%d" % (fn_key(c.F, fn), N), fn, {"N": ("cval", N), "T": TP}, want, scalars=SC)
    floor_ob(c, "operator forms of points and vectors", n, 27)

    for N in (2, 3, 4):
        V = c.ty("Vector", TP, ("cval", N))
        cN = ("cval", N)

        def m(name, want, returns=True, trait="VectorOps", targs=None):
            fn, env = c.method(trait, targs or (V, TP, cN), name)
            formula(c, "%s for Vector<_, %d>" % (name, N), fn, env, want, returns=returns, scalars=SC)

        def A(r, ip, i):
            return coords(ip, argval(r, i), N)

        m("dot", lambda r, ip: [("", r.ret, dot(A(r, ip, 0), A(r, ip, 1)))])
        m("norm2", lambda r, ip: [("", r.ret, dot(A(r, ip, 0), A(r, ip, 0)))])
        m("scale", lambda r, ip: vec(coords(ip, r.ret, N), vscale(A(r, ip, 0), argval(r, 1))))
        m("axpy", lambda r, ip: vec(coords(ip, ip.read(r.st, r.roots[0], ()), N), vplus(A(r, ip, 0), vscale(A(r, ip, 2), argval(r, 1)))))
        # 2D interpolation and perpendicular are offered as unimplemented: whatever returns must be right
        m(
            "lerp",
            lambda r, ip: vec(coords(ip, r.ret, N), vplus(vscale(A(r, ip, 0), vsub(ONE, argval(r, 2))), vscale(A(r, ip, 1), argval(r, 2)))),
            returns=N > 2,
        )

        def perp(r, ip):
            return [("dot with self ", dot(coords(ip, r.ret, N), A(r, ip, 0)), ZERO)]

        m("any_perpendicular", perp, returns=N > 2)
        fn, env = c.method("VectorOps", (V, TP, cN), "any_perpendicular")
        for i in range(N if N > 2 else 0):
            # a vector along an axis is where a badly chosen companion degenerates
            x = mk("sym", "x")

            def th(i=i):
                arg = mk("struct", c.adt_path("Vector"), 0, point(c, [x if j == i else ZERO for j in range(N)]))
                r = c.run(fn, env, args=[("ref", arg)], setup=lambda ip: ip.typed(x, TP), scalars=SC)
                bad = band(band(r.pc, bnot(Z(x))), allz(coords(r.ip, r.ret, N)))
                if bad != FALSE:
                    return (None if opaque_part(B(bad)) else False), "the perpendicular vanishes"
                return True

            c.guard("any_perpendicular of a vector along axis %d, N=%d" % (i, N), fn, th)
    V2, V3 = c.ty("Vector", TP, ("cval", 2)), c.ty("Vector", TP, ("cval", 3))
    fn, env = c.method("Cross2", (V2, TP), "cross")
    formula(c, "cross 2D", fn, env, lambda r, ip: [("", r.ret, cross2(coords(ip, argval(r, 0), 2), coords(ip, argval(r, 1), 2)))], scalars=SC)
    fn, env = c.method("Cross3", (V3, TP), "cross")
    formula(c, "cross 3D", fn, env, lambda r, ip: vec(coords(ip, r.ret, 3), cross3(coords(ip, argval(r, 0), 3), coords(ip, argval(r, 1), 3))), scalars=SC)
    fn = c.fn("vector_cross")
    formula(
        c,
        "vector_cross N=3",
        fn,
        {"N": ("cval", 3), "T": TP},
        lambda r, ip: vec(coords(ip, r.ret, 3), cross3(coords(ip, argval(r, 0), 3), coords(ip, argval(r, 1), 3))),
        scalars=SC,
    )

    for N in (2, 3):
        P = c.ty("Point", TP, ("cval", N))
        cN = ("cval", N)

        def A(r, ip, i):
            return coords(ip, argval(r, i), N)

        def pm(name, want, returns=True):
            fn, env = c.method("PointOps", (P, TP, cN), name)
            formula(c, "%s for Point<_, %d>" % (name, N), fn, env, want, returns=returns, scalars=SC)

        pm("sub", lambda r, ip: vec(coords(ip, r.ret, N), vminus(A(r, ip, 0), A(r, ip, 1))))
        pm("as_vector", lambda r, ip: vec(coords(ip, r.ret, N), A(r, ip, 0)))
        pm("add_vector", lambda r, ip: vec(coords(ip, r.ret, N), vplus(A(r, ip, 0), A(r, ip, 1))))
        pm("vector_to", lambda r, ip: vec(coords(ip, r.ret, N), vminus(A(r, ip, 1), A(r, ip, 0))))
        pm("midpoint", lambda r, ip: vec(coords(ip, r.ret, N), vscale(vplus(A(r, ip, 0), A(r, ip, 1)), num(Fraction(1, 2)))))
        for k in (2, 3):
            for nm in ("as_point_%d" % k, "as_vector_%d" % k):
                pm(nm, lambda r, ip: vec(coords(ip, r.ret, min(k, N)), A(r, ip, 0)[: min(k, N)]), returns=(k == N))

    for head in ("Vector", "Point"):
        for N in (2, 3, 4):
            t = c.ty(head, TP, ("cval", N))
            cN = ("cval", N)
            fn, env = c.method("SpatialElement", (t, TP, cN), "new")
            formula(c, "new for %s<_, %d>" % (head, N), fn, env, lambda r, ip: vec(coords(ip, r.ret, N), coords(ip, argval(r, 0), N)), scalars=SC)
            fn, env = c.method("SpatialElement", (t, TP, cN), "from_vals")
            env = dict(env, V=TP)
            formula(c, "from_vals for %s<_, %d>" % (head, N), fn, env, lambda r, ip: vec(coords(ip, r.ret, N), coords(ip, argval(r, 0), N)), scalars=SC)
            fn, env = c.method("SpatialElement", (t, TP, cN), "coords")
            formula(c, "coords of %s<_, %d>" % (head, N), fn, env, lambda r, ip: vec(coords(ip, ip.deref(r.st, r.ret), N), coords(ip, argval(r, 0), N)), scalars=SC)
            fn, env = c.method("SpatialElement", (t, TP, cN), "cast")
            formula(c, "cast of %s<_, %d>" % (head, N), fn, env, lambda r, ip: vec(coords(ip, r.ret, N), coords(ip, argval(r, 0), N)), scalars=SC)
            for tr, nm in (("std::ops::Index", "index"), ("std::ops::IndexMut", "index_mut")):
                fn, env = c.method(tr, (t, USIZE), nm)
                for i in range(N):
                    formula(
                        c,
                        "%s %d of %s<_, %d>" % (nm, i, head, N),
                        fn,
                        env,
                        lambda r, ip: [("", ip.deref(r.st, r.ret), coords(ip, argval(r, 0), N)[i])],
                        args=[None, num(i)],
                        scalars=SC,
                    )
            fn, env = c.method("Zero", (t,), "zero")
            formula(c, "zero of %s<_, %d>" % (head, N), fn, env, lambda r, ip: vec(coords(ip, r.ret, N), [ZERO] * N), scalars=SC)
            fn, env = c.method("std::default::Default", (t,), "default")
            formula(c, "default of %s<_, %d>" % (head, N), fn, env, lambda r, ip: vec(coords(ip, r.ret, N), [ZERO] * N), scalars=SC)
            o = "Point" if head == "Vector" else "Vector"
            fn, env = c.method("std::convert::From", (t, c.ty(o, TP, cN)), "from")
            formula(c, "%s from %s N=%d" % (head, o, N), fn, env, lambda r, ip: vec(coords(ip, r.ret, N), coords(ip, argval(r, 0), N)), scalars=SC)
