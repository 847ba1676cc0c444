"""C12: collinearity and on-segment tests accept exactly the points on the segment."""
from lib import *
from common import *

EXPLAIN = (
    "Each predicate body is interpreted over symbolic coordinates into a decision diagram over polynomial sign atoms, which is "
    "compared with the diagram of the definition (all 2x2 minors vanish, 0 <= u <= 1 for the affine parameter, squared distance "
    "to the clamped foot point at most the squared tolerance). Kernel wrappers must have the normal form of the generic predicate."
)
RULES = [
    "acceptance condition equals the definition, as decision diagrams over sign atoms of normalised polynomials",
    "returned parameter equals (p-a).(b-a)/|b-a|^2",
]
PARALLEL = True
SC = ("T", "U", "V")




def check(c):
    for N in (2, 3):
        env = {"N": ("cval", N), "T": TP}

        def pts(r, k):
            return [coords(r.ip, argval(r, i), N) for i in range(k)]

        def eqs(r, ip):
            a, b = pts(r, 2)
            return [("", r.ret, B(allz(vminus(a, b))))]

        fn = c.fn("are_equal")
        formula(c, "are_equal N=%d" % N, fn, env, eqs, scalars=SC)

        def aeqs(r, ip):
            a, b = pts(r, 2)
            thr = mk("tol", "point_merge_threshold")
            w = TRUE
            for x in vminus(a, b):
                f = bvar(("fast", x))
                ft = bvar(("fast", thr))
                d = vabs(mk("approx", x))
                near = bor(band(ft, le(d, mk("approx", thr))), band(bnot(ft), le(d, num(Fraction(1e-10)))))
                w = band(w, bor(band(f, near), band(bnot(f), Z(x))))
            return [("", r.ret, B(w))]

        fn = c.fn("are_approximately_equal")
        formula(c, "are_approximately_equal N=%d" % N, fn, env, aeqs, scalars=SC)

        def uv(r):
            a, b, p = pts(r, 3)
            return vminus(b, a), vminus(p, a)

        def ax(r, ip):
            u, v = uv(r)
            return minor_axioms(u, v)

        def coll(r, ip):
            u, v = uv(r)
            # coincident first points: the third must coincide as well
            return [("", r.ret, B(band(minors0(u, v), bor(bnot(allz(u)), allz(v)))))]

        fn = c.fn("are_collinear")
        formula(c, "are_collinear N=%d" % N, fn, env, coll, pre=ax, scalars=SC)

        def degen(r, ip):
            u, v = uv(r)
            return [("", r.ret, B(minors0(u, v)))]

        def ax2(r, ip):
            u, v = uv(r)
            # corners b and c coincide exactly when u and v agree
            w = vminus(u, v)
            r_ = minor_axioms(u, v)
            for i in range(N):
                for j in range(N):
                    if i != j:
                        r_ = band(r_, imp(band(Z(w[i]), Z(w[j])), Z(minor(u, v, i, j))))
                r_ = band(r_, order_axioms([ZERO, u[i], v[i]]))
            return r_

        fn = c.fn("triangle_is_degenerate")
        formula(c, "triangle_is_degenerate N=%d" % N, fn, env, degen, pre=ax2, scalars=SC)

        def seg(r):
            p = coords(r.ip, argval(r, 0), N)
            s = argval(r, 1)
            a, b = [coords(r.ip, r.ip.proj(s, ("f", 0, i)), N) for i in (0, 1)]
            return a, b, p

        def axs(r, ip):
            a, b, p = seg(r)
            x = minor_axioms(vminus(b, a), vminus(p, a))
            for i in range(N):
                x = band(x, order_axioms([a[i], b[i], p[i]]))
            return x

        def onseg(r, ip):
            a, b, p = seg(r)
            w = minors0(vminus(b, a), vminus(p, a))
            for i in range(N):
                w = band(w, bor(band(le(a[i], p[i]), le(p[i], b[i])), band(le(b[i], p[i]), le(p[i], a[i]))))
            return [("", r.ret, B(w))]

        fn = c.fn("is_point_on_segment")
        formula(c, "is_point_on_segment N=%d" % N, fn, env, onseg, pre=axs, scalars=SC)

        def upar(r, ip):
            u, v = uv(r)
            uu, uvd = dot(u, u), dot(u, v)
            t = vdiv(uvd, uu)
            inside = band(band(bnot(Neg(t)), bnot(Pos(vsub(t, ONE)))), minors0(u, v))
            want = vite(allz(u), models.opt(allz(v), ZERO), models.opt(inside, t))
            return [("", r.ret, want)]

        def axu(r, ip):
            u, v = uv(r)
            w = vminus(v, u)
            t = vdiv(dot(u, v), dot(u, u))
            # a parameter beyond one is not negative
            x = band(minor_axioms(u, v), norm_axioms(u), bnot(band(Pos(vsub(t, ONE)), Neg(t))))
            for i in range(N):
                x = band(x, order_axioms([ZERO, u[i], v[i]]))
            return x

        fn = c.fn("point_u_on_segment")
        formula(c, "point_u_on_segment N=%d" % N, fn, env, upar, pre=axu, scalars=SC)

        def tolpar(r, ip):
            u, v = uv(r)
            tol = argval(r, 3)
            uu, uvd = dot(u, u), dot(u, v)
            t = vdiv(uvd, uu)
            tc = vite(Neg(t), ZERO, vite(Pos(vsub(t, ONE)), ONE, t))
            d = vminus(v, vscale(u, tc))
            near = le(dot(d, d), vmul(tol, tol))
            near0 = le(dot(v, v), vmul(tol, tol))
            return [("", r.ret, vite(allz(u), models.opt(near0, ZERO), models.opt(near, t)))]

        def axt(r, ip):
            u, v = uv(r)
            t2 = vmul(argval(r, 3), argval(r, 3))
            w = vminus(v, u)
            # for a degenerate segment both end points are at the same distance
            return band(axu(r, ip), imp(allz(u), iff(le(dot(v, v), t2), le(dot(w, w), t2))))

        fn = c.fn("point_u_on_segment_with_tolerance")
        formula(c, "point_u_on_segment_with_tolerance N=%d" % N, fn, env, tolpar, pre=axt, scalars=SC)

        K = c.ty("F64Kernel")
        for nm, base in (("are_equal", 2), ("are_collinear", 3), ("is_point_on_segment", 2), ("point_u_on_segment", 3)):
            kfn, kenv = c.method("Kernel%d" % N, (K,), "%s%d" % (nm, N))

            def th(nm=nm, kfn=kfn, kenv=kenv, base=base):
                g = c.fn(nm)
                names = ["a%d" % i for i in range(base)]
                # a call of the generic predicate with the arguments passed on
                seen = []

                def called(ip, st, args, atys, dty, r):
                    seen.append([ip.deref_all(st, a) for a in args])
                    return ip.typed(mk("sym", "answer"), dty)

                k = c.run(kfn, kenv, names=names, overrides={g.path: called})
                if len(seen) == 1 and k.pc == TRUE and k.ip.expand(k.ret) is k.ip.expand(k.ip.typed(mk("sym", "answer"), k.ip.valty(k.ret))):
                    given = [argval(k, i) for i in range(base)]
                    got = [[j for j in range(base) if x is given[j]] for x in seen[0]]
                    if all(got):
                        got = [x[0] for x in got]
                        if got == list(range(base)) or nm in ("are_equal", "are_collinear") and sorted(got) == list(range(base)):
                            return True
                        return False, "passes on its arguments as %s" % ", ".join("%d" % (x + 1) for x in got)
                k = c.run(kfn, kenv, names=names)
                f = c.run(g, {"N": ("cval", N), "T": c.ty("CgarF64")}, names=names)
                if k.pc != f.pc:
                    return False, "returns under other conditions than the generic predicate"
                return c.same(k.ip, k.ret, f.ret, k.pc)

            c.guard("F64Kernel %s%d agrees with %s" % (nm, N, nm), kfn, th)

        segments(c, N)


def segments(c, N):
    """containment and parameter offered by the segment and edge types"""
    syms = lambda x: [mk("sym", "%s%d" % (x, i)) for i in range(N)]
    a, d, p = syms("a"), syms("d"), syms("p")
    t = mk("sym", "t")
    b = vplus(a, d)
    pt = lambda xs: mk("struct", c.adt_path("Point"), 0, mk("arr", *xs))

    def setup(ip):
        for x in a + d + p + [t]:
            ip.typed(x, TP)

    def pair(name, x, y):
        fs = [f[0] for f in c.F.adts[c.adt_path(name)]["variants"][0][1]]
        at = {"a": pt(x), "b": pt(y)}
        return mk("struct", c.adt_path(name), 0, *[at[f] for f in fs])

    sfn = lambda name: c.method("SegmentOps", (c.ty("Segment", TP, ("cval", N)), TP, ("cval", N)), name)
    ser = ("ref", pair("Segment", a, b))

    def op(name, args, want, fe=None, label="", pre=TRUE):
        fn, env = fe or sfn(name)
        formula(c, "%s%s N=%d" % (name, label, N), fn, env, want, args=args, setup=setup, pre=pre, scalars=SC)

    par = lambda r, ip: [("", r.ret, vite(allz(d), ZERO, vdiv(dot(vminus(p, a), d), dot(d, d))))]
    nax = lambda r, ip: norm_axioms(d)
    op("parameter_of_point", [ser, ("ref", pt(p))], par, pre=nax)
    edge = [f for k, f in c.find("parameter_t") if "CanonicalEdge" in f.path]
    c.ob("the canonical edge offers a parameter N=%d" % N, bool(edge), detail="no such function")
    for f in edge:
        op("parameter_t", [("ref", pair("CanonicalEdge", a, b)), ("ref", pt(p))], par, (f, {"N": ("cval", N), "T": TP}), pre=nax)
    inside = B(bor(allz(d), band(bnot(Neg(t)), bnot(Pos(vsub(t, ONE))))))
    op("is_point_on", [ser, ("ref", pt(vplus(a, vscale(d, t))))], lambda r, ip: [("", r.ret, inside)], label=" along the line")
    for i in range(N):
        # one coordinate displaced by three times the extent of the segment along it
        q = [vadd(x, vmul(y, vadd(t, num(3)) if i == j else t)) for j, (x, y) in enumerate(zip(a, d))]
        two = band(bnot(Z(d[i])), bnot(Z(d[(i + 1) % N])))
        op("is_point_on", [ser, ("ref", pt(q))], lambda r, ip: [("", r.ret, B(FALSE))], label=" off the line in axis %d" % i, pre=two)
        # a segment without extent along one axis, the point displaced along it
        flat = [ZERO if i == j else x for j, x in enumerate(d)]
        q = [vadd(x, p[i] if i == j else vmul(y, t)) for j, (x, y) in enumerate(zip(a, flat))]
        op("is_point_on", [("ref", pair("Segment", a, vplus(a, flat))), ("ref", pt(q))], lambda r, ip: [("", r.ret, B(FALSE))],
           label=" beside it in axis %d" % i, pre=bnot(Z(p[i])))
    op("midpoint", [ser], lambda r, ip: vec(coords(ip, r.ret, N), [vdiv(vadd(x, y), num(2)) for x, y in zip(a, b)]))
    op("direction", [ser], lambda r, ip: vec(coords(ip, r.ret, N), d))
    op("length2", [ser], lambda r, ip: [("", r.ret, dot(d, d))])
    sp = lambda ip, s, i: coords(ip, ip.proj(s, ("f", 0, i)), N)
    fs = [f[0] for f in c.F.adts[c.adt_path("Segment")]["variants"][0][1]]
    rev = lambda ip, s: vec(sp(ip, s, fs.index("a")), b, "first end ") + vec(sp(ip, s, fs.index("b")), a, "second end ")
    op("inverse", [ser], lambda r, ip: rev(ip, r.ret))
    op("invert", [ser], lambda r, ip: rev(ip, ip.read(r.st, r.roots[0], ())))


def le(a, b):
    return bnot(sgn(vsub(a, b))[1])
