"""C09: matrix algebra matches its definition."""
from lib import *
from common import *

EXPLAIN = (
    "Each matrix operator/method body is interpreted over symbolic entries for several shapes; the entries of the result are "
    "polynomial (or rational-function) normal forms compared entry by entry with the textbook definition."
)
RULES = ["entry (i,j) equals its definition (polynomial identity)", "M * inverse(M) = I wherever an inverse is reported; reported iff det is non-zero"]
PARALLEL = True
SC = ("T", "U", "V")


def cv(n):
    return ("cval", n)


def rows(ip, v, R, C):
    u = unwrap(ip, v)
    out = []
    for i in range(R):
        r = unwrap(ip, ip.select(u, num(i)))
        out.append([unwrap(ip, ip.select(r, num(j))) for j in range(C)])
    return out


def mat(got, exp, label=""):
    return [("%s[%d][%d]" % (label, i, j), g, e) for i, (a, b) in enumerate(zip(got, exp)) for j, (g, e) in enumerate(zip(a, b))]


def check(c):
    SH = [(2, 2), (2, 3), (3, 2), (3, 3)]
    n = 0
    for op, f in (("Add", vadd), ("Sub", vsub)):
        for im in c.impls(op, "Matrix"):
            fn = c.F.fns[im["map"][op.lower()]]
            n += 1
            for R, C in SH:
                formula(
                    c,
                    "%s %dx%d" % (fn_key(c.F, fn), R, C),
                    fn,
                    {"T": TP, "R": cv(R), "C": cv(C)},
                    lambda r, ip: mat(
                        rows(ip, r.ret, R, C),
                        [[f(x, y) for x, y in zip(a, b)] for a, b in zip(rows(ip, argval(r, 0), R, C), rows(ip, argval(r, 1), R, C))],
                    ),
                    scalars=SC,
                )
    for im in c.impls("Neg", "Matrix"):
        fn = c.F.fns[im["map"]["neg"]]
        n += 1
        for R, C in SH:
            formula(c, "%s %dx%d" % (fn_key(c.F, fn), R, C), fn, {"T": TP, "R": cv(R), "C": cv(C)}, lambda r, ip: mat(rows(ip, r.ret, R, C), [[vneg(x) for x in a] for a in rows(ip, argval(r, 0), R, C)]), scalars=SC)
    for im in c.impls("Mul", "Matrix"):
        fn = c.F.fns[im["map"]["mul"]]
        rhs = strip_ref(im["trait"]["args"][1])
        n += 1
        for R, C in SH:
            if rhs[0] == "adt" and rhs[1].endswith("Vector"):
                e = {}
                unify(strip_ref(im["self"]), c.ty("Matrix", TP, cv(R), cv(C)), e, im["generics"])

                def want(r, ip):
                    m, v = rows(ip, argval(r, 0), R, C), coords(ip, argval(r, 1), C)
                    return vec(coords(ip, r.ret, R), [dot(m[i], v) for i in range(R)])

                formula(c, "%s %dx%d" % (fn_key(c.F, fn), R, C), fn, e, want, scalars=SC)
            else:
                for K in (2, 3):
                    e = {}
                    unify(strip_ref(im["self"]), c.ty("Matrix", TP, cv(R), cv(C)), e, im["generics"])
                    unify(rhs, c.ty("Matrix", TP, cv(C), cv(K)), e, im["generics"])

                    def want(r, ip):
                        a, b = rows(ip, argval(r, 0), R, C), rows(ip, argval(r, 1), C, K)
                        return mat(rows(ip, r.ret, R, K), [[dot(a[i], [b[j][k] for j in range(C)]) for k in range(K)] for i in range(R)])

                    formula(c, "%s %dx%dx%d" % (fn_key(c.F, fn), R, C, K), fn, e, want, scalars=SC)
    floor_ob(c, "matrix operator forms", n, 9)

    for R, C in SH:
        env = {"T": TP, "U": TP, "R": cv(R), "C": cv(C)}

        def m(name, want, **kw):
            formula(c, "%s %dx%d%s" % (name, R, C, kw.pop("tag", "")), c.fn("Matrix<_, _, _>::" + name), env, want, scalars=SC, **kw)

        A = lambda r, ip, i=0: rows(ip, argval(r, i), R, C)
        m("new", lambda r, ip: mat(rows(ip, r.ret, R, C), A(r, ip)))
        m("from_rows", lambda r, ip: mat(rows(ip, r.ret, R, C), A(r, ip)))
        m("from_cols", lambda r, ip: mat(rows(ip, r.ret, R, C), [list(x) for x in zip(*rows(ip, argval(r, 0), C, R))]))
        m("transpose", lambda r, ip: mat(rows(ip, r.ret, C, R), [list(x) for x in zip(*A(r, ip))]))
        m("splat", lambda r, ip: mat(rows(ip, r.ret, R, C), [[argval(r, 0)] * C] * R))
        m("cast", lambda r, ip: mat(rows(ip, r.ret, R, C), A(r, ip)))
        m("scale", lambda r, ip: mat(rows(ip, r.ret, R, C), [vscale(x, argval(r, 1)) for x in A(r, ip)]))
        m(
            "lerp",
            lambda r, ip: mat(
                rows(ip, r.ret, R, C),
                [vplus(vscale(x, vsub(ONE, argval(r, 2))), vscale(y, argval(r, 2))) for x, y in zip(A(r, ip), A(r, ip, 1))],
            ),
        )
        m("outer", lambda r, ip: mat(rows(ip, r.ret, R, C), [[vmul(x, y) for y in coords(ip, argval(r, 1), C)] for x in coords(ip, argval(r, 0), R)]))
        for i in range(R):
            m("row", lambda r, ip: vec(coords(ip, r.ret, C), A(r, ip)[i]), args=[None, num(i)], tag=" %d" % i)
        for j in range(C):
            m("col", lambda r, ip: vec(coords(ip, r.ret, R), [x[j] for x in A(r, ip)]), args=[None, num(j)], tag=" %d" % j)
        M = c.ty("Matrix", TP, cv(R), cv(C))
        for tr, nm in (("std::ops::Index", "index"), ("std::ops::IndexMut", "index_mut")):
            fn, e = c.method(tr, (M, USIZE), nm)
            for i in range(R):
                formula(c, "%s %d of %dx%d" % (nm, i, R, C), fn, e, lambda r, ip: vec(coords(ip, ip.deref(r.st, r.ret), C), A(r, ip)[i]), args=[None, num(i)], scalars=SC)
        for tr, nm in (("Zero", "zero"), ("std::default::Default", "default")):
            fn, e = c.method(tr, (M,), nm)
            formula(c, "%s %dx%d" % (nm, R, C), fn, e, lambda r, ip: mat(rows(ip, r.ret, R, C), [[ZERO] * C] * R), scalars=SC)
        fn, e = c.method("Zero", (M,), "is_zero")

        def wz(r, ip):
            z = TRUE
            for x in A(r, ip):
                for y in x:
                    z = band(z, sgn(y)[0])
            return [("", r.ret, B(z))]

        formula(c, "is_zero %dx%d" % (R, C), fn, e, wz, scalars=SC)

    for N in (1, 2, 3, 4):
        env = {"T": TP, "N": cv(N)}
        formula(c, "identity %d" % N, c.fn("Matrix<_, _, _>::identity"), env, lambda r, ip: mat(rows(ip, r.ret, N, N), [[ONE if i == j else ZERO for j in range(N)] for i in range(N)]), scalars=SC)
        formula(c, "det %d" % N, c.fn("Matrix<_, _, _>::det"), env, lambda r, ip: [("", unwrap(ip, r.ret), det(rows(ip, argval(r, 0), N, N)))], scalars=SC, limit=120)
    for N in (2, 3):

        def want(r, ip):
            a = rows(ip, argval(r, 0), N, N)
            d = det(a)
            nz = bnot(sgn(d)[0])
            has = ip.isvar(r.ret, 1, "std::option::Option")
            inv = rows(ip, ip.proj(r.ret, ("f", 1, 0)), N, N)
            out = [("inverse reported ", B(has), B(nz))]
            for i in range(N):
                for j in range(N):
                    p = dot(a[i], [inv[k][j] for k in range(N)])
                    p = vrestrict(p, band(has, nz))
                    out.append(("(M*inv)[%d][%d]" % (i, j), vite(has, p, ONE if i == j else ZERO), ONE if i == j else ZERO))
            return out

        formula(c, "inverse %dx%d" % (N, N), c.fn("Matrix<_, %d, %d>::inverse" % (N, N)), {"T": TP}, want, scalars=SC)
