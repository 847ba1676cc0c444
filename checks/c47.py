"""C47: triangle-triangle intersection."""
from segs import *
from c39 import items
import itertools

EXPLAIN = (
    "Each public intersection function is interpreted for pairs of triangles of which one is translated by a symbolic amount, in many directions. The result is a piecewise rational normal form in that amount; "
    "it is compared, on every piece and at every boundary between pieces, with the intersection of the two segments that the triangles cut out of the common line of their planes. Thresholds are taken as zero."
)
RULES = [
    "nothing is reported exactly if the triangles have no common point",
    "the reported end points are the two ends of the common segment (both equal for a single point)",
    "every reported contact (corner, edge parameter, barycentric coordinates) describes the reported point and lies within the triangle",
    "coplanar triangles are never reported as a proper intersection, and as nothing only if disjoint",
]
PARALLEL = True
ENV = {"T": TP, "N": ("cval", 3)}
F_ = Fraction


# ------------------------------------------------------------ the expected result
def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def dt(a, b):
    return sum(x * y for x, y in zip(a, b))


def cr(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def cut(tri, n, o):
    """ends of the part of the triangle in the plane (n, o), or None"""
    d = [dt(n, sub(v, o)) for v in tri]
    out = [v for v, h in zip(tri, d) if h == 0]
    for i in range(3):
        j = (i + 1) % 3
        if d[i] * d[j] < 0:
            t = d[i] / (d[i] - d[j])
            out.append(tuple(x + t * (y - x) for x, y in zip(tri[i], tri[j])))
    return out


def expected(P, Q):
    n1, n2 = cr(sub(P[1], P[0]), sub(P[2], P[0])), cr(sub(Q[1], Q[0]), sub(Q[2], Q[0]))
    L = cr(n1, n2)
    if not any(L):
        return "parallel"
    a, b = cut(P, n2, Q[0]), cut(Q, n1, P[0])
    if not a or not b:
        return None
    k = lambda p: dt(L, p)
    lo = max(min(a, key=k), min(b, key=k), key=k)
    hi = min(max(a, key=k), max(b, key=k), key=k)
    if k(lo) > k(hi):
        return None
    return {lo, hi}


def overlap2(P, Q):
    """coplanar triangles have a common point"""
    n = cr(sub(P[1], P[0]), sub(P[2], P[0]))
    for A, C in ((P, Q), (Q, P)):
        for i in range(3):
            e = cr(n, sub(A[(i + 1) % 3], A[i]))
            s = dt(e, sub(A[(i + 2) % 3], A[i]))
            s = 1 if s > 0 else -1
            if all(s * dt(e, sub(v, A[i])) < 0 for v in C):
                return False
    return True


# ------------------------------------------------------------ families
PAIRS = {
    "square": (((0, 0, 2), (-1, 0, -1), (2, 0, -1)), ((0, 2, 0), (-1, -1, 0), (2, -1, 0))),
    "square, turned": (((0, 2, 0), (0, -1, -1), (0, -1, 3)), ((1, 0, 2), (-2, 0, -1), (2, 0, -2))),
    "steep": (((-1, 3, 0), (0, -1, -2), (0, -2, 3)), ((3, 1, 0), (-2, -1, 0), (-1, 2, 0))),
    "tilted": (((0, 0, 3), (1, 2, -2), (-2, -1, -1)), ((3, 0, 1), (-2, 2, 0), (-1, -3, -1))),
    "needle": (((0, 0, 5), (1, 0, -5), (0, 1, -5)), ((4, 4, 0), (-5, 1, 0), (0, -6, 0))),
}
SHIFTS = ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (2, -1, 1))
PERMS = (((0, 1, 2), (0, 1, 2)), ((1, 2, 0), (2, 1, 0)), ((2, 1, 0), (1, 0, 2)))


def roots(P, Q, d):
    """amounts at which a corner passes a plane or two edges meet"""
    out = set()
    n1, n2 = cr(sub(P[1], P[0]), sub(P[2], P[0])), cr(sub(Q[1], Q[0]), sub(Q[2], Q[0]))
    for v in P:
        k = dt(n2, d)
        if k:
            out.add(F_(-dt(n2, sub(v, Q[0])), k))
    for v in Q:
        k = dt(n1, d)
        if k:
            out.add(F_(dt(n1, sub(v, P[0])), k))
    for i in range(3):
        for j in range(3):
            e, f = sub(P[(i + 1) % 3], P[i]), sub(Q[(j + 1) % 3], Q[j])
            w = cr(e, f)
            k = dt(w, d)
            if k:
                out.add(F_(dt(w, sub(Q[j], P[i])), k))
    return out


def cells(rs):
    """the open cells between the critical amounts, and the amounts themselves"""
    rs = sorted(rs)
    if not rs:
        return [(None, None)]
    return [(None, rs[0])] + [z for a, b in zip(rs, rs[1:]) for z in ((a, a), (a, b))] + [(rs[-1], rs[-1]), (rs[-1], None)]


def check(c):
    rp = c.adt_path("TriTriIntersectionResult")
    rv = [x[0] for x in c.F.adts[rp]["variants"]]
    dp = c.adt_path("TriTriIntersectionDetailed")
    dv = [x[0] for x in c.F.adts[dp]["variants"]]
    kp = c.adt_path("ContactOnTri")
    kv = [x[0] for x in c.F.adts[kp]["variants"]]
    x = mk("sym", "x")
    pre_new = [f for k, f in c.find(r"^TriPrecomp<.*>::new$")]

    def tri_args(P):
        return mk("arr", *[mk("ref", P + str(i), ()) for i in range(3)])

    def place(P, Q):
        def su(ip):
            ip.no_tolerance = True
            ip.typed(x, TP)
            for t, vs in (("P", P), ("Q", Q)):
                for i in range(3):
                    ip.premem[t + str(i)] = point(c, vs[i])

        return su

    def moved(P, d):
        return [[vadd(mk("num", F_(a)), vmul(mk("num", F_(b)), x)) for a, b in zip(v, d)] for v in P]

    def scaled(P, d, amount):
        return [[vmul(mk("num", F_(a) + amount * b), x) for a, b in zip(v, d)] for v in P]

    def val(t):
        return F_(t.args[0]) if t.op == "num" else None

    def at(ip, v, amount):
        return models.tsubst(v, {x: mk("num", amount)})

    def pt(ip, v):
        cs = coords(ip, v, 3)
        return tuple(val(y) for y in cs)

    def vec(ip, st, v):
        xs = items(ip, st, v)
        return xs

    def contact(ip, k, pnt, tri):
        k = ip.expand(k)
        if k.op != "struct":
            return None, "contact not known"
        name = kv[k.args[1]]
        fs = k.args[2:]
        if name == "Vertex":
            i = val(fs[0])
            if i is None:
                return None, "contact not known"
            return tri[int(i)] == pnt, "corner %d is reported for a point elsewhere" % i
        if name == "Edge":
            e = ip.expand(fs[0])
            i, j = (val(y) for y in e.args[2:4])
            u = val(fs[1])
            if None in (i, j, u):
                return None, "contact not known"
            w = tuple(a + u * (b - a) for a, b in zip(tri[int(i)], tri[int(j)]))
            if not 0 <= u <= 1:
                return False, "edge parameter %s" % u
            return w == pnt, "edge %d-%d at %s is reported for a point elsewhere" % (i, j, u)
        b = [val(y) for y in ip.expand(fs[0]).args[2:5]]
        if None in b:
            return None, "contact not known"
        w = tuple(sum(l * v[a] for l, v in zip(b, tri)) for a in range(3))
        if min(b) < 0:
            return False, "negative barycentric coordinates"
        return w == pnt and sum(b) == 1, "the barycentric coordinates do not describe the point"

    def result(ip, st, v, P, Q):
        """(kind, set of points) or (None, why)"""
        v = ip.expand(v)
        if v.op != "struct":
            return None, "result not known"
        detailed = v.args[0] == dp
        name = (dv if detailed else rv)[v.args[1]]
        if name == "None":
            return "None", None
        if not detailed:
            if name == "CoplanarPolygon":
                return name, None
            s = ip.expand(v.args[2])
            return name, {pt(ip, field(c, ip, s, "Segment", e)) for e in "ab"}
        xs = vec(ip, st, v.args[2])
        if xs is None:
            return None, "ends not known"
        if name == "Coplanar":
            if len(xs) != 1:
                return "CoplanarPolygon", None
            xs = vec(ip, st, xs[0])
            if xs is None:
                return None, "ends not known"
        out = set()
        for e in xs:
            e = ip.expand(e)
            q = pt(ip, field(c, ip, e, "EndpointInfo", "point"))
            if None in q:
                return None, "point not known"
            for f, tri in (("on_p", P), ("on_q", Q)):
                ok, why = contact(ip, field(c, ip, e, "EndpointInfo", f), q, tri)
                if ok is None:
                    return None, why
                if not ok:
                    return "bad", "%s (%s)" % (why, f)
            out.add(q)
        return name, out

    def analyse(fn, P, Q, kind, pre):
        su = place(P, Q)
        args = [("ref", tri_args("P")), ("ref", tri_args("Q"))]
        if kind.startswith("pre"):
            if not pre_new:
                return None
            for t in ("P", "Q") if kind == "pre" else ("P",):
                r = c.run(pre_new[0], ENV, args=[("ref", tri_args(t))], setup=su, scalars=SC, limit=120, pre=pre)
                args.append(("ref", r.ret))
        return c.run(fn, ENV, args=args, setup=su, scalars=SC, limit=200, pre=pre)

    def family(fn, kind, pair, perm, d, swap):
        P0 = [PAIRS[pair][0][i] for i in perm[0]]
        Q0 = [PAIRS[pair][1][i] for i in perm[1]]
        zero = (0, 0, 0)
        rs = sorted(roots(P0, Q0, d))
        for lo, hi in cells(rs):
            if lo is not None and lo == hi:
                # on the boundary: all configurations of this shape and any size
                M, C, pre, tries = scaled(P0, d, lo), scaled(Q0, zero, 0), Pos(x), (F_(1), F_(3))
                shape = lambda v: ([tuple(v * (F_(a) + lo * b) for a, b in zip(w, d)) for w in P0], [tuple(v * F_(a) for a in w) for w in Q0])
                what = "shift %s" % lo
            else:
                M, C, pre = moved(P0, d), moved(Q0, zero), TRUE
                for r0 in rs:
                    pre = band(pre, Pos(vsub(mk("num", r0), x)) if hi is not None and r0 >= hi else Pos(vsub(x, mk("num", r0))))
                a = lo if lo is not None else (hi - 3 if hi is not None else F_(0))
                b = hi if hi is not None else a + 3
                tries = (a + (b - a) / 3, a + (b - a) * F_(3, 5), a + (b - a) * F_(9, 10))
                shape = lambda v: ([tuple(F_(a) + v * b for a, b in zip(w, d)) for w in P0], [tuple(map(F_, w)) for w in Q0])
                what = "shift between %s and %s" % (lo, hi)
            r = analyse(fn, C if swap else M, M if swap else C, kind, pre)
            if r is None:
                return None, "no precomputation"
            ip = r.ip
            for v in tries:
                Pn, Qn = shape(v)
                want = expected(Pn, Qn)
                if want == "parallel":
                    return True, ""
                go = at(ip, B(r.pc), v)
                if bool_of(go) != TRUE:
                    return (None if opaque_part(go) else False), "does not return for a %s" % what
                how, got = result(ip, r.st, at(ip, r.ret, v), Qn if swap else Pn, Pn if swap else Qn)
                if how is None:
                    return None, got
                if how == "bad":
                    return False, "%s: %s" % (what, got)
                if how == "CoplanarPolygon":
                    return False, "triangles in different planes are reported as coplanar (%s)" % what
                if got is not None and any(None in q for q in got):
                    return None, "point not known"
                if want is None and got is not None:
                    return False, "disjoint triangles (%s) report %s" % (what, sorted(tuple(map(str, q)) for q in got))
                if want is not None and got is None:
                    return False, "triangles that meet (%s) report nothing" % what
                if want != got:
                    return False, "%s: ends %s instead of %s" % (what, sorted(tuple(map(str, q)) for q in got), sorted(tuple(map(str, q)) for q in want))
        return True, ""

    fns = []
    for name, kind in (("tri_tri_intersection", "plain"), ("tri_tri_intersection_with_precomp", "pre"), ("tri_tri_intersection_with_precomp_p", "pre one"), ("tri_tri_intersection_detailed", "plain"), ("tri_tri_intersection_with_precomp_detailed", "pre")):
        fs = [f for k, f in c.find(r"(^|::)%s$" % name)]
        if not fs:
            c.ob(name, False, None, "the public function is missing")
            continue
        fns.append((name, kind, fs[0]))

    for name, kind, fn in fns:
        for n, (pair, d) in enumerate(itertools.product(PAIRS, SHIFTS)):
            if kind == "pre one" and n % 3:
                continue
            for perm in PERMS if pair == "square" else (PERMS[n % 3],):
                swap = (n + PERMS.index(perm)) % 2 == 1
                for sw in (False, True) if pair in ("square", "tilted") else (swap,):
                    c.guard("%s, %s%s, corners %s, shifted along %s" % (name, pair, " exchanged" if sw else "", perm, d), fn, lambda fn=fn, kind=kind, pair=pair, perm=perm, d=d, sw=sw: family(fn, kind, pair, perm, d, sw))

    def flat(fn, kind, d, axis, amount, P0=((0, 0), (4, 0), (0, 4)), Q0=((1, 1), (6, 1), (1, 5))):
        def lift(p, h):
            q = list(p)
            return tuple(F_(h) if a == axis else F_(q.pop(0)) for a in range(3))

        P0, Q0 = [lift(p, 5) for p in P0], [lift(p, 5) for p in Q0]
        d = lift(d, 0)
        r = analyse(fn, scaled(P0, d, amount), scaled(Q0, (0, 0, 0), 0), kind, Pos(x))
        if r is None:
            return None, "no precomputation"
        ip = r.ip
        Pn = [tuple(a + amount * b for a, b in zip(v, d)) for v in P0]
        meet = overlap2(Pn, Q0)
        if bool_of(at(ip, B(r.pc), F_(1))) != TRUE:
            return None, "not known whether it returns"
        how, got = result(ip, r.st, at(ip, r.ret, F_(1)), Pn, Q0)
        if how is None:
            return None, got
        if how == "Proper":
            return False, "coplanar triangles are reported as a proper intersection"
        if how == "bad":
            return False, got
        return (how == "None") != meet, "coplanar triangles that %s are reported as %s" % ("meet" if meet else "are apart", how)

    for name, kind, fn in fns:
        for axis in range(3):
            for d, amount in (((1, 0), F_(0)), ((1, 0), F_(-7)), ((0, 1), F_(1, 2)), ((0, 1), F_(9)), ((1, 1), F_(1, 3))):
                c.guard("%s, coplanar across axis %d, shifted by %s along %s" % (name, axis, amount, d), fn, lambda fn=fn, kind=kind, d=d, axis=axis, amount=amount: flat(fn, kind, d, axis, amount))
        # one corner of one triangle reaches into the other, whichever corner it is
        base, tip = ((0, 0), (7, 0), (0, 7)), ((1, 1), (-2, -6), (5, -7))
        for k in range(3):
            turned = tip[k:] + tip[:k]
            for who, A, C in (("second", base, turned), ("first", turned, base)):
                c.guard("%s, coplanar, corner %d of the %s triangle inside the other" % (name, (3 - k) % 3, who), fn, lambda fn=fn, kind=kind, k=k, A=A, C=C: flat(fn, kind, (1, 0), k, F_(0), A, C))
