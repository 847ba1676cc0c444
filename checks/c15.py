"""C15: segment intersection."""
from segs import *
from c16 import tol0
from linear import possible

EXPLAIN = (
    "Both segments are written through free parameters along given directions from a common free point, so that the normal form of the reported point and the decision diagram of the "
    "kind of answer can be compared with the parameters: crossing lines, lines apart, parallel lines and one common line, with the end points in either order."
)
RULES = [
    "crossing lines: the common point exactly when it lies within both segments, else nothing",
    "skew or parallel lines apart: nothing",
    "one common line: the shared range, nothing when the ranges are apart",
    "a segment that is a single point follows the same rules",
]
PARALLEL = True
DIRS = {
    2: {"axes": ((1, 0), (0, 1)), "reversed axes": ((0, 2), (3, 0)), "slanted": ((3, 1), (-1, 2))},
    3: {"axes": ((1, 0, 0), (0, 1, 0)), "slanted": ((1, 2, 2), (2, 1, -1)), "steep": ((0, 0, 2), (1, 0, 3))},
}
LINES = {2: [(1, 0), (0, 1), (-1, 2), (0, -1)], 3: [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-2, 1, 1), (0, -1, 3)]}


def check(c):
    for N in (2, 3):
        planar(c, N)
    edges(c)


def edges(c):
    """two edges of the plane: a common point or nothing"""
    fn = c.fn("edge_edge_intersection_2")
    X, u, v = ([mk("sym", "%s%d" % (x, i)) for i in range(2)] for x in "xuv")
    s, t, k = (mk("sym", x) for x in "stk")

    def su(ip):
        for x in X + u + v + [s, t, k]:
            ip.typed(x, TP)

    def go(label, pts, want, pre):
        formula(c, "two edges %s" % label, fn, {"T": TP, "N": ("cval", 2)}, want, pre=pre, args=[("ref", point(c, p)) for p in pts], setup=su, scalars=("T",))

    at = lambda d, z: vplus(X, vscale(d, z))
    inr = lambda z: band(bnot(Neg(z)), bnot(Pos(vsub(z, ONE))))
    ends = lambda d, z: [at(d, vneg(z)), at(d, vsub(ONE, z))]
    hit = models.opt(band(inr(s), inr(t)), point(c, X))
    go("on crossing lines", ends(u, s) + ends(v, t), lambda r, ip: [("", r.ret, hit)], bnot(Z(cross2(u, v))))
    off = vplus(X, [vmul(u[1], s), vneg(vmul(u[0], s))])
    go("on parallel lines apart", ends(u, ZERO) + [off, vplus(off, vscale(u, k))], lambda r, ip: [("", r.ret, models.opt(FALSE, point(c, X)))],
       band(bnot(Z(s)), bnot(allz(u))))


def planar(c, N):
    fn = c.fn("segment_segment_intersection_%d" % N)
    en = c.adt_path("SegmentIntersection%d" % N)
    kinds = [v[0] for v in c.F.adts[en]["variants"]]
    sp = c.adt_path("Segment")
    X = [mk("sym", "x%d" % i) for i in range(N)]
    s, t, n, m = (mk("sym", x) for x in ("s", "t", "n", "m"))
    w = [mk("sym", "w%d" % i) for i in range(4)]

    def seg(a, b):
        return mk("struct", sp, 0, point(c, a), point(c, b))

    def run(a, b, d, e):
        def su(ip):
            for x in X + [s, t, n, m] + w:
                ip.typed(x, TP)

        return c.run(fn, {"T": TP}, args=[("ref", seg(a, b)), ("ref", seg(d, e))], setup=su, scalars=("T",))

    def at(v, k):
        return vplus(X, vscale([num(x) for x in v], k))

    def judge(r, pre, point_ok, range_ok, none_ok):
        """every answer is justified"""
        ip = r.ip
        if band(pre, bnot(r.pc)) != FALSE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return: " + showb(band(pre, bnot(r.pc)), 4, 1)[:100]
        for x, b in leaves(tol0(r.ret), pre):
            x = ip.expand(x)
            if possible(b) is False:
                continue
            if x.op != "struct":
                return None, "answer not known"
            op = opaque_part(B(b))
            k = kinds[x.args[1]]
            if k == "None":
                if band(b, bnot(none_ok)) != FALSE and possible(band(b, bnot(none_ok))) is not False:
                    return (None if op else False), "nothing is reported although the segments meet: " + showb(band(b, bnot(none_ok)), 4, 1)[:100]
            elif k == "Point":
                for y, b2 in leaves(ip.expand(x.args[2]), b):
                    bad = point_ok(coords(ip, y, N), b2)
                    if bad and possible(b2) is not False:
                        return (None if op or not possible(b2) or opaque_part(y) else False), bad
            else:
                for y, b2 in leaves(ip.expand(x.args[2]), b):
                    y = ip.expand(y)
                    bad = range_ok([coords(ip, z, N) for z in y.args[2:4]], b2)
                    if bad and possible(b2) is not False:
                        return (None if op or not possible(b2) or opaque_part(y) else False), bad
        return True, ""

    def where(p, opts, b):
        """which of the given points the reported point is: (name, condition)"""
        out = []
        vals = [(tuple(), b)]
        for x in p:
            vals = [(q + (y,), b2) for q, b1 in vals for y, b2 in leaves(x, b1)]
        for q, b1 in vals:
            out.append(([k for k, o in opts.items() if all(tm.req(x, y) for x, y in zip(q, o))], b1))
        return out

    def crossing(lab, flip):
        d1, d2 = DIRS[N][lab]
        a, b = at(d1, vsub(ZERO, s)), at(d1, vsub(ONE, s))
        d, e = at(d2, vsub(ZERO, t)), at(d2, vsub(ONE, t))
        if flip & 1:
            a, b = b, a
        if flip & 2:
            d, e = e, d
        r = run(a, b, d, e) if not flip & 4 else run(d, e, a, b)
        pre = band(order_axioms([ZERO, s, ONE]), order_axioms([ZERO, t, ONE]))
        inside = band(*[band(bnot(Neg(x)), bnot(Pos(vsub(x, ONE)))) for x in (s, t)])

        def pt(p, b):
            for k, b1 in where(p, {"x": X}, b):
                if not k:
                    return "the reported point is not the common one: %s" % [show(x)[:40] for x in p]
                if band(b1, bnot(inside)) != FALSE:
                    return "a point outside a segment is reported: " + showb(band(b1, bnot(inside)), 4, 1)[:100]

        return judge(r, pre, pt, lambda p, b: "crossing segments are reported as overlapping", bnot(inside))

    for lab in DIRS[N]:
        for flip in range(8):
            if flip and lab != "slanted":
                continue
            c.guard("crossing lines in %d dimensions, %s, order %d" % (N, lab, flip), fn, lambda lab=lab, flip=flip: crossing(lab, flip))

    def apart(v, off):
        o = [vmul(n, num(x)) for x in off]
        r = run(at(v, w[0]), at(v, w[1]), vplus(at(v, w[2]), o), vplus(at(v, w[3]), o))
        pre = band(bnot(Z(n)), order_axioms([w[0], w[1]]), order_axioms([w[2], w[3]]), bnot(band(Z(vsub(w[0], w[1])), Z(vsub(w[2], w[3])))))
        bad = lambda p, b: "parallel segments apart are reported as meeting: " + showb(b, 4, 1)[:100]
        return judge(r, pre, bad, bad, TRUE)

    for v in LINES[N]:
        off = (-v[1], v[0]) if N == 2 else ((v[1], -v[0], 0) if v[0] or v[1] else (1, 0, 0))
        c.guard("parallel lines in %d dimensions along %s" % (N, v), fn, lambda v=v, off=off: apart(v, off))

    if N == 3:
        def skew(lab):
            d1, d2 = DIRS[3][lab]
            o = [vmul(n, x) for x in cross3([num(x) for x in d1], [num(x) for x in d2])]
            r = run(at(d1, vsub(ZERO, s)), at(d1, vsub(ONE, s)), vplus(at(d2, vsub(ZERO, t)), o), vplus(at(d2, vsub(ONE, t)), o))
            pre = band(bnot(Z(n)), order_axioms([ZERO, s, ONE]), order_axioms([ZERO, t, ONE]))
            bad = lambda p, b: "skew segments are reported as meeting: " + showb(b, 4, 1)[:100]
            return judge(r, pre, bad, bad, TRUE)

        for lab in DIRS[3]:
            c.guard("skew lines, %s" % lab, fn, lambda lab=lab: skew(lab))

    def common(v):
        r = run(*[at(v, x) for x in w])
        pre = order_axioms(w)
        le = lambda x, y: bnot(Pos(vsub(x, y)))
        lo1, hi1 = vite(le(w[0], w[1]), w[0], w[1]), vite(le(w[0], w[1]), w[1], w[0])
        lo2, hi2 = vite(le(w[2], w[3]), w[2], w[3]), vite(le(w[2], w[3]), w[3], w[2])
        lo, hi = vite(le(lo1, lo2), lo2, lo1), vite(le(hi1, hi2), hi1, hi2)
        gap = Pos(vsub(lo, hi))
        opts = {i: at(v, w[i]) for i in range(4)}

        def ends(p, b):
            for i, b1 in where(p[0], opts, b):
                for j, b2 in where(p[1], opts, b1):
                    if not i or not j:
                        return "the shared part does not end at end points of the segments"
                    if band(b2, gap) != FALSE:
                        return "segments apart on one line are reported as overlapping: " + showb(band(b2, gap), 4, 1)[:100]
                    x, y = w[i[0]], w[j[0]]
                    same = bor(band(Z(vsub(x, lo)), Z(vsub(y, hi))), band(Z(vsub(x, hi)), Z(vsub(y, lo))))
                    if band(b2, bnot(same)) != FALSE:
                        return "the reported part is not the shared one: " + showb(band(b2, bnot(same)), 4, 1)[:100]

        def pt(p, b):
            for i, b1 in where(p, opts, b):
                if not i:
                    return "the shared point is not an end point"
                ok = band(Z(vsub(w[i[0]], lo)), Z(vsub(lo, hi)))
                if band(b1, bnot(ok)) != FALSE:
                    return "a single point is reported for a shared part: " + showb(band(b1, bnot(ok)), 4, 1)[:100]

        return judge(r, pre, pt, ends, gap)

    for v in LINES[N]:
        c.guard("one common line in %d dimensions along %s" % (N, v), fn, lambda v=v: common(v))

    def points():
        r = run(X, X, [vadd(X[0], m)] + [vadd(X[1], n)] + X[2:], [vadd(X[0], m)] + [vadd(X[1], n)] + X[2:])
        pre = bnot(band(Z(m), Z(n)))
        bad = lambda p, b: "two different points are reported as meeting: " + showb(b, 4, 1)[:100]
        return judge(r, pre, bad, bad, TRUE)

    c.guard("two single points in %d dimensions" % N, fn, points)

    def beside(v, order):
        # a single point off the line of the other segment, or crossing it
        off = (-v[1], v[0]) if N == 2 else ((v[1], -v[0], 0) if v[0] or v[1] else (1, 0, 0))
        p = vplus(at(v, w[0]), [vmul(n, num(x)) for x in off])
        a, b = at(v, w[1]), at(v, w[2])
        r = run(p, p, a, b) if order == 0 else run(a, b, p, p)
        pre = band(bnot(Z(n)), bnot(Z(vsub(w[1], w[2]))))
        bad = lambda p, b: "a point beside a segment is reported as meeting it: " + showb(b, 4, 1)[:100]
        return judge(r, pre, bad, bad, TRUE)

    for v in LINES[N]:
        for order in (0, 1):
            c.guard("a point beside a segment in %d dimensions along %s, order %d" % (N, v, order), fn, lambda v=v, order=order: beside(v, order))
