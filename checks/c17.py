"""C17: bounding boxes."""
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "Box construction, union, growth, overlap tests and triangle boxes are interpreted over symbolic coordinates. Bounds are decided per axis: "
    "under the order axioms of the reals no input may lie outside the resulting interval, and each end has to be attained by an input "
    "(or be the floating-point enclosure of one). The overlap tests are compared with overlap in every axis."
)
RULES = [
    "min <= every input coordinate <= max, both attained",
    "intersects = no axis with a.max < b.min or b.max < a.min",
    "quick test: Some(false) only when the enclosures of some axis are separated; never Some(true) for disjoint boxes",
    "inflated = [min - d, max + d]",
    "floating-point intervals of every scalar kind contain the value",
]
PARALLEL = True
SC = ("T",)


def bounds(c, name, fn, env, inputs, outputs, N, exact=True, when=None, **kw):
    """inputs(r, ip) -> list of coordinate lists; outputs(r, ip) -> (min coords, max coords)"""

    def th():
        r = c.run(fn, env, **kw)
        ip = r.ip
        if r.pc != TRUE:
            return False, "does not return when " + showb(bnot(r.pc), 4, 1)
        xs = inputs(r, ip)
        g = when(r, ip) if when else TRUE
        lo, hi = outputs(r, ip)
        for i in range(N):
            ins = [x[i] for x in xs]
            for what, end, side in (("min", lo[i], 2), ("max", hi[i], 1)):
                op = opaque_part(end)
                if op:
                    return None, "%s of axis %d contains %s" % (what, i, op)
                ends = list({t for t, b in leaves(end) if t is not UNDEF})
                # enclosures of the inputs
                facts = TRUE
                pool = list(ins)
                for e in ends:
                    if e not in pool:
                        pool.append(e)
                for x in ins:
                    for nm, sg in (("lo", 1), ("hi", 2)):
                        y = mk(nm, x)
                        if y in atoms_of(end) or y in pool:
                            if y not in pool:
                                pool.append(y)
                            facts = band(facts, bnot(sgn(vsub(x, y))[3 - sg]))
                ax = order_axioms(pool)
                dom = band(band(ax, facts), g)
                for x in ins:
                    out = sgn(vsub(x, end))[side]
                    if band(dom, out) != FALSE:
                        return False, "%s of axis %d does not bound %s: %s" % (what, i, show(x, 3), show(end, 5)[:160])
                if exact:
                    att = FALSE
                    for x in ins:
                        att = bor(att, Z(vsub(x, end)))
                    if band(dom, bnot(att)) != FALSE:
                        return False, "%s of axis %d is not attained: %s" % (what, i, show(end, 5)[:160])
        return True, ""

    return c.guard(name, fn, th)


def atoms_of(t, acc=None):
    """lo / hi atoms anywhere in a value"""
    acc = set() if acc is None else acc
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("lo", "hi"):
                acc.add(x)
            if x.op == "poly":
                for m in poly(x):
                    todo += [a for a, e in m]
            if x.op == "ite":
                for y, b in leaves(x):
                    todo.append(y)
                continue
            todo += [y for y in x.args if isinstance(y, (T, tuple))]
        elif isinstance(x, tuple):
            todo += [y for y in x if isinstance(y, (T, tuple))]
    return acc


def check(c):
    for N in (2, 3):
        pt = c.ty("Point", TP, ("cval", N))
        env = {"T": TP, "N": ("cval", N), "P": pt}
        box = c.adt_path("Aabb")
        at = lambda ip, v, k, N=N: coords(ip, ip.proj(vmap(ip.expand, v), ("f", 0, k)), N)

        def boxes(k):
            vs, su = points(c, N, 2 * k)
            bs = [mk("struct", box, 0, vs[2 * i], vs[2 * i + 1], models.UNIT) for i in range(k)]
            return bs, vs, su

        f = c.fn("Aabb<_, _, _>::from_points")
        vs, su = points(c, N, 2)
        bounds(c, "from_points N=%d" % N, f, env, lambda r, ip, vs=vs: [coords(ip, v, N) for v in vs], lambda r, ip: (at(ip, r.ret, 0), at(ip, r.ret, 1)), N, args=[("ref", vs[0]), ("ref", vs[1])], setup=su, scalars=SC)

        bs, ps, su2 = boxes(2)
        f = c.fn("Aabb<_, _, _>::union")

        def proper(r, ip, ps=ps):
            g = TRUE
            for k in (0, 2):
                for a, b in zip(coords(ip, ps[k], N), coords(ip, ps[k + 1], N)):
                    g = band(g, bnot(Neg(vsub(b, a))))
            return g

        for what, k in (("min", 0), ("max", 1)):
            # each end separately: the smallest box has min = least of the mins, max = greatest of the maxs
            def th(k=k, f=f, bs=bs, ps=ps, su2=su2):
                r = c.run(f, env, args=[("ref", bs[0]), ("ref", bs[1])], setup=su2, scalars=SC)
                ip = r.ip
                if r.pc != TRUE:
                    return False, "does not return"
                for i in range(N):
                    a, b = coords(ip, ps[k], N)[i], coords(ip, ps[2 + k], N)[i]
                    end = at(ip, r.ret, k)[i]
                    op = opaque_part(end)
                    if op:
                        return None, "contains " + op
                    side = 2 if k == 0 else 1
                    for x in (a, b):
                        if sgn(vsub(x, end))[side] != FALSE:
                            return False, "axis %d: %s is not bounded by %s" % (i, show(x, 2), show(end, 4)[:120])
                    if bor(Z(vsub(a, end)), Z(vsub(b, end))) != TRUE:
                        return False, "axis %d: %s is not one of the two ends" % (i, show(end, 4)[:120])
                return True, ""

            c.guard("union %s N=%d" % (what, N), f, th)

        f = c.fn("Aabb<_, _, _>::intersects")

        def sect(r, ip, ps=ps):
            cs = [coords(ip, p, N) for p in ps]
            g = TRUE
            for i in range(N):
                g = band(g, bnot(Neg(vsub(cs[1][i], cs[2][i]))))
                g = band(g, bnot(Neg(vsub(cs[3][i], cs[0][i]))))
            return [("", r.ret, B(g))]

        formula(c, "intersects N=%d" % N, f, env, sect, args=[("ref", bs[0]), ("ref", bs[1])], setup=su2, scalars=SC)

        f = c.fn("Aabb<_, _, _>::intersects_approx")

        def quick(f=f, bs=bs, ps=ps, su2=su2):
            r = c.run(f, env, args=[("ref", bs[0]), ("ref", bs[1])], setup=su2, scalars=SC)
            ip = r.ip
            if r.pc != TRUE:
                return False, "does not return"
            op = opaque_part(r.ret)
            if op:
                return None, "contains " + op
            says = models.is_some(ip, r.ret)
            val = bool_of(ip.proj(r.ret, ("f", 1, 0)))
            no, yes = band(says, bnot(val)), band(says, val)
            cs = [coords(ip, p, N) for p in ps]
            lo, hi = (lambda x: mk("lo", x)), (lambda x: mk("hi", x))
            sep, over = FALSE, TRUE
            for i in range(N):
                s = bor(Neg(vsub(hi(cs[1][i]), lo(cs[2][i]))), Neg(vsub(hi(cs[3][i]), lo(cs[0][i]))))
                sep = bor(sep, s)
                o = band(bnot(Neg(vsub(lo(cs[1][i]), hi(cs[2][i])))), bnot(Neg(vsub(lo(cs[3][i]), hi(cs[0][i])))))
                over = band(over, o)
            if band(no, bnot(sep)) != FALSE:
                return False, "says disjoint although no axis separates the enclosures: %s" % showb(band(no, bnot(sep)), 4, 1)
            if band(yes, bnot(over)) != FALSE:
                return False, "says overlapping although the enclosures do not show it: %s" % showb(band(yes, bnot(over)), 4, 1)
            return True, ""

        c.guard("intersects_approx N=%d" % N, f, quick)

        f = c.fn("Aabb<_, _, _>::inflated")
        d = mk("sym", "delta")
        bs1, ps1, su1 = boxes(1)

        def su1d(ip, su1=su1):
            su1(ip)
            ip.typed(d, TP)

        formula(
            c, "inflated N=%d" % N, f, env,
            lambda r, ip, ps1=ps1: vec(at(ip, r.ret, 0), [vsub(x, d) for x in coords(ip, ps1[0], N)], "min") + vec(at(ip, r.ret, 1), [vadd(x, d) for x in coords(ip, ps1[1], N)], "max"),
            args=[("ref", bs1[0]), ("ref", d)], setup=su1d, scalars=SC,
        )
        f = c.fn("Aabb<_, _, _>::inflated_query_tol")

        def tol(r, ip, ps1=ps1):
            q = mk("tol", "query_tolerance")
            mn, mx = coords(ip, ps1[0], N), coords(ip, ps1[1], N)
            w = lambda x, y: vite(Z(q), x, y)
            return vec(at(ip, r.ret, 0), [w(x, vsub(x, q)) for x in mn], "min") + vec(at(ip, r.ret, 1), [w(x, vadd(x, q)) for x in mx], "max")

        formula(c, "inflated_query_tol N=%d" % N, f, env, tol, args=[("ref", bs1[0])], setup=su1, scalars=SC)

        f = c.fn("Aabb<_, _, _>::center")
        for i in range(N):
            formula(c, "center %d N=%d" % (i, N), f, env, lambda r, ip, i=i, ps1=ps1: [("", vmul(r.ret, num(2)), vadd(coords(ip, ps1[0], N)[i], coords(ip, ps1[1], N)[i]))], args=[("ref", bs1[0]), num(i)], setup=su1, scalars=SC)

        f = c.fn("Aabb<_, _, _>::longest_axis")

        def longest(f=f, bs1=bs1, ps1=ps1, su1=su1):
            r = c.run(f, env, args=[("ref", bs1[0])], setup=su1, scalars=SC)
            ip = r.ip
            op = opaque_part(r.ret)
            if op:
                return None, "contains " + op
            e = [vabs(vsub(b, a)) for a, b in zip(coords(ip, ps1[0], N), coords(ip, ps1[1], N))]
            g = TRUE
            for a, b in zip(coords(ip, ps1[0], N), coords(ip, ps1[1], N)):
                g = band(g, bnot(Neg(vsub(b, a))))
            raw = [vsub(b, a) for a, b in zip(coords(ip, ps1[0], N), coords(ip, ps1[1], N))]
            g = band(g, order_axioms(raw))
            for t, b in leaves(r.ret):
                if t.op != "num":
                    return None, "axis not known"
                k = int(t.args[0])
                if not 0 <= k < N:
                    return False, "axis %d" % k
                for j in range(N):
                    if band(band(g, b), Neg(vsub(raw[k], raw[j]))) != FALSE:
                        return False, "axis %d reported although axis %d is longer" % (k, j)
            return True, ""

        c.guard("longest_axis N=%d" % N, f, longest)

        # ------------------------------------------------------------ point sets and triangles
        for nm, approx_, floor in (("bbox%dd" % N, False, 1), ("bbox_approx%dd" % N, True, 1)):
            f = c.fn(nm)
            for k in (1, 2, 3):
                vs, su = points(c, N, k)
                seq = mk("seq", *vs)

                def ins(r, ip, vs=vs, approx_=approx_):
                    cs = [coords(ip, v, N) for v in vs]
                    return [[models.approx(ip, x) for x in p] for p in cs] if approx_ else cs

                bounds(c, "%s of %d points" % (nm, k), f, {"T": TP}, ins, lambda r, ip: (coords(ip, ip.proj(r.ret, ("f", 0, 0)), N), coords(ip, ip.proj(r.ret, ("f", 0, 1)), N)), N, args=[("ref", seq)], setup=su, scalars=SC)

        vs, su = points(c, N, 3)
        tri = [("ref", v) for v in vs]
        tenv = {"T": TP, "N": ("cval", N)}
        cin = lambda r, ip, vs=vs: [coords(ip, v, N) for v in vs]
        f = c.fn("compute_triangle_aabb_exact")
        bounds(c, "exact triangle box N=%d" % N, f, tenv, cin, lambda r, ip: (at(ip, r.ret, 0), at(ip, r.ret, 1)), N, args=tri, setup=su, scalars=SC)
        f = c.fn("compute_triangle_aabb_fast")

        def fast_out(r, ip):
            v = vmap(ip.expand, ip.proj(r.ret, ("f", 1, 0)))
            return at(ip, v, 0), at(ip, v, 1)

        bounds(c, "fast triangle box N=%d" % N, f, tenv, cin, fast_out, N, exact=False, when=lambda r, ip: models.is_some(ip, r.ret), args=tri, setup=su, scalars=SC)
        P = surface(c, N, ["abc"], ["acb"])
        f = mesh_fn(c, "face_aabb")
        bounds(c, "face_aabb N=%d" % N, f, P.env(), lambda r, ip, P=P: [coords(ip, P.point(v), N) for v in "abc"], lambda r, ip: (at(ip, r.ret, 0), at(ip, r.ret, 1)), N, exact=False, args=[("ref", P.value()), P.Fc("abc")], setup=P.setup, scalars=("T", "TS", "M"))

    # ---------------------------------------------------------------- floating-point intervals of plain scalars
    from c04 import Dominates, has_inf

    for h in ("CgarF64", "CgarRational"):
        fn, env = c.method("Scalar", (c.ty(h),), "double_interval")

        def encl(fn=fn, env=env, h=h):
            r = c.run(fn, env)
            ip = r.ip
            x = scalar_of(ip, argval(r, 0))
            ap = x if h == "CgarF64" else models.approx(ip, x)
            n = 0
            for lf, cnd in leaves(r.ret, r.pc):
                lf = ip.expand(lf)
                if lf.op != "struct":
                    return None, "result not interpreted"
                if lf.args[1] == 0:
                    continue
                t = ip.expand(lf.args[2])
                fin = band(bvar(("finite", ap)), bnot(bvar(("nan", ap)))) if h != "CgarF64" else TRUE
                for k in ("inf", "-inf"):
                    fin = band(fin, bnot(Z(vsub(ap, mk("fconst", k)))))
                for which, end in (("lower", t.args[2]), ("upper", t.args[3])):
                    for v, c2 in leaves(end, band(cnd, fin)):
                        if opaque_part(v):
                            return None, "contains " + opaque_part(v)
                        n += 1
                        exact = band(c2, bnot(Z(vsub(ap, x)))) == FALSE
                        if has_inf(c2):
                            continue
                        ok, det = Dominates(ip, c2, []).run(psub(ap, v) if which == "lower" else psub(v, ap), not exact)
                        if ok is not True:
                            return ok, "%s end: %s when %s" % (which, det, showb(c2, 4, 1))
            return n > 0, "%d branches" % n

        c.guard("%s interval contains the value" % h, fn, encl)
