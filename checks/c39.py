"""C39: Delaunay triangulation: start triangle, insertion step, clean-up."""
from segs import *
from linear import possible
import itertools

EXPLAIN = (
    "The builders are interpreted with the insertion step replaced by an observer, which yields the start triangle as normal form in the bounding box (containment is read off the signs of its polynomial "
    "coefficients) and the clean-up of the final list. The insertion step is interpreted on numbered triangle lists for every choice of triangles whose circumcircle contains the point. The circumcircle "
    "formulas are compared as rational functions."
)
RULES = [
    "start: one counter-clockwise triangle of three extra points that strictly surrounds the bounding box of the input",
    "every input point is inserted once; afterwards triangles with extra points are dropped, all others kept, and the extra points removed",
    "insertion: triangles whose circumcircle contains the point are replaced by the point joined to every side that only one of them has, counter-clockwise; all other triangles stay",
    "circumcircle test: centre at equal distance to the corners; clear cases by distance to the centre, the rest by the exact predicate for a counter-clockwise triangle",
]
PARALLEL = True
ENV = {"T": TP}
LISTS = {
    "one triangle": [(0, 1, 2)],
    "two triangles": [(0, 1, 2), (2, 1, 3)],
    "strip": [(0, 1, 2), (2, 1, 3), (2, 3, 4)],
    "fan": [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1)],
}


def tri(c, t):
    return mk("struct", c.adt_path("Triangle"), 0, *[x if isinstance(x, T) else num(x) for x in t])


def named(c, name):
    fs = [f for k, f in c.find(r"(^|::)%s$" % name)]
    return fs[0] if fs else None


def pts_of(ip, n, tag="p"):
    return [[ip.typed(mk("sym", "%s%d%s" % (tag, i, a)), TP) for a in "xy"] for i in range(n)]


def syms(n, tag="p"):
    return [[mk("sym", "%s%d%s" % (tag, i, a)) for a in "xy"] for i in range(n)]


def typing(ps):
    def su(ip):
        for p in ps:
            for x in p:
                ip.typed(x, TP)

    return su


def items(ip, st, v):
    """elements of a list value, or None"""
    v = ip.expand(v)
    if v.op == "ref":
        v = ip.expand(ip.deref_all(st, v))
    if v.op in ("seq", "arr"):
        return list(v.args)
    if v.op == "box":
        return items(ip, st, v.args[0])
    return None


def tuple_of(ip, v):
    v = ip.expand(v)
    if v.op != "struct":
        return None
    xs = [x.args[0] if x.op == "num" else x for x in v.args[2:5]]
    return tuple(int(x) if not isinstance(x, T) else x for x in xs)


def triples(ip, e, b):
    """index triples a triangle value stands for, with their conditions"""
    out = []
    for y, b1 in leaves(e, b):
        y = ip.expand(y)
        if y.op != "struct":
            return [(None, b1)]
        ts = [((), b1)]
        for f in y.args[2:5]:
            ts = [(t + (z,), b3) for t, b2 in ts for z, b3 in leaves(f, b2)]
        for t, b2 in ts:
            out.append((tuple(int(z.args[0]) for z in t) if all(z.op == "num" for z in t) else None, b2))
    return out


def orient(a, b, p):
    return cross2(vminus(b, a), vminus(p, a))


def predicates(c):
    """orientation and incircle predicates as the determinants they stand for (decided by C11)"""
    def at(ip, st, args):
        return [coords(ip, ip.deref_all(st, a), 2) for a in args]

    def o2(ip, st, args, atys, dty, r):
        return orient(*at(ip, st, args))

    def ic(ip, st, args, atys, dty, r):
        return incdet(*at(ip, st, args))

    return {f.path: g for n, g in (("orient2d", o2), ("incircle", ic)) for k, f in c.find(r"^%s$" % n)}


def incdet(a, b, d, p):
    r = []
    for x in (a, b, d):
        w = vminus(x, p)
        r.append([w[0], w[1], dot(w, w)])
    return det(r)


def builders(c):
    out = []
    for k, f in c.find(r"^Delaunay<.*>::build$"):
        out.append(("build", f))
    for k, f in c.find(r"^Delaunay<.*>::build_batch_with_constraints_bowyer_watson$"):
        out.append(("batch build", f))
    return out


def job(c, ps, segs=()):
    return record(c, "FaceJobUV", {"points_uv": mk("seq", *[point(c, p) for p in ps]), "segments": mk("seq", *[mk("arr", num(a), num(b)) for a, b in segs])}, default=lambda f: mk("sym", "job." + f))


def start(c):
    ins = named(c, "bowyer_watson_insert_point")
    box = named(c, "bbox_approx2d")
    con = named(c, "process_constraints_batch")
    dp = c.adt_path("Delaunay")
    fields = [f[0] for f in c.F.adts[dp]["variants"][0][1]]

    def observe(kind, fn, n, final):
        ps = syms(n)
        lo = [mk("sym", "lx"), mk("sym", "ly")]
        wd = [mk("sym", "wx"), mk("sym", "wy")]
        log = []

        def step(ip, st, args, atys, dty, r):
            pts = items(ip, st, args[1])
            ref = ip.refs_of(st, args[2])
            ts = items(ip, st, args[2])
            log.append((args[0], pts, [tuple_of(ip, t) for t in ts] if ts is not None else None))
            if final is not None and len(log) == n:
                ip.write(st, ref, mk("seq", *[tri(c, t) for t in final]))
            return mk("struct", "tuple", 0)

        ov = {ins.path: step}
        if box is not None:
            ov[box.path] = lambda ip, st, args, atys, dty, r: mk("struct", "tuple", 0, point(c, lo), point(c, vplus(lo, wd)))
        if con is not None:
            ov[con.path] = lambda ip, st, args, atys, dty, r: mk("struct", "tuple", 0)

        def su(ip):
            typing(ps + [lo, wd])(ip)

        pl = mk("seq", *[point(c, p) for p in ps])
        if kind == "build":
            args = [("ref", pl)]
        else:
            args = [("ref", mk("seq", job(c, ps))), ("ref", mk("sym", "mesh"))]
        r = c.run(fn, {**ENV, "N": ("cval", 3)}, args=args, setup=su, scalars=("T",), overrides=ov)
        return r, log, ps, lo, wd

    def enclosing(kind, fn):
        if ins is None or box is None:
            return None, "insertion step or bounding box not found"
        n = 3
        r, log, ps, lo, wd = observe(kind, fn, n, None)
        if not log:
            return None, "no insertion observed"
        pid, pts, ts = log[0]
        if pts is None or ts is None or len(pts) != n + 3:
            return None, "start configuration not known"
        if len(ts) != 1 or sorted(ts[0]) != [n, n + 1, n + 2]:
            return False, "the start is not one triangle of the extra points: %s" % ts
        s = [coords(r.ip, pts[i], 2) for i in ts[0]]
        corners = [[vadd(lo[0], vmul(num(i), wd[0])), vadd(lo[1], vmul(num(j), wd[1]))] for i in (0, 1) for j in (0, 1)]
        h = mk("sym", "extra")
        for case in ("wide", "tall"):
            a, b = (wd[0], wd[1]) if case == "wide" else (wd[1], wd[0])
            cond = Pos(vsub(a, b))
            for i in range(3):
                for q in corners:
                    o = orient(s[i], s[(i + 1) % 3], q)
                    for x, cnd in leaves(o, cond):
                        x = models.tsubst(x, {a: vadd(b, h)})
                        d = tm.poly(x)
                        free = {y for m in d for y, e in m}
                        if not free <= {b, h}:
                            return (None if opaque_part(x) else False), "the start triangle does not move with the box: %s" % show(x)[:80]
                        if all(k >= 0 for k in d.values()) and d.get((), 0) > 0:
                            continue
                        for bv, hv in itertools.product((0, Fraction(1, 1000), 1, 1000, 10**6), repeat=2):
                            v = sum(k * math.prod((bv if y is b else hv) ** e for y, e in m) for m, k in d.items())
                            if v <= 0:
                                return False, "a corner of a box of size %s is not inside the start triangle (or it is clockwise)" % ((bv + hv, bv),)
                        return None, "containment not evident"
        return True, ""

    def cleanup(kind, fn, n, final):
        if ins is None:
            return None, "insertion step not found"
        r, log, ps, lo, wd = observe(kind, fn, n, final)
        ip = r.ip
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        ids = [x[0].args[0] if x[0].op == "num" else None for x in log]
        if None in ids:
            return None, "inserted points not known"
        if sorted(ids) != list(range(n)):
            return False, "points %s are inserted instead of each of %d once" % ([int(x) for x in ids], n)
        v = ip.expand(r.ret)
        if kind != "build":
            xs = items(ip, r.st, v)
            if xs is None:
                return None, "result not known"
            if len(xs) != 1:
                return False, "%d results for one job" % len(xs)
            v = ip.expand(xs[0])
        pts = items(ip, r.st, ip.proj(v, ("f", 0, fields.index("points"))))
        ts = items(ip, r.st, ip.proj(v, ("f", 0, fields.index("triangles"))))
        if pts is None or ts is None:
            return None, "result not known"
        if [tuple(coords(ip, p, 2)) for p in pts] != [tuple(p) for p in ps]:
            return False, "the points of the result are not the input points"
        got = sorted(tuple_of(ip, t) for t in ts)
        want = sorted(t for t in final if max(t) < n)
        return got == want, "triangles %s of %s are kept" % (got, final)

    for kind, fn in builders(c):
        c.guard("start triangle surrounds the box, %s" % kind, fn, lambda kind=kind, fn=fn: enclosing(kind, fn))
        for n, final in ((3, [(0, 1, 2), (3, 0, 1), (1, 4, 2), (2, 0, 5)]), (4, [(4, 0, 1), (0, 1, 2), (1, 5, 2), (6, 5, 0), (1, 3, 2), (3, 0, 6)]), (3, [(3, 4, 5)])):
            c.guard("clean-up of %d triangles over %d points, %s" % (len(final), n, kind), fn, lambda kind=kind, fn=fn, n=n, final=final: cleanup(kind, fn, n, final))
        if kind == "build":
            def few(fn=fn):
                ps = syms(2)
                r = c.run(fn, ENV, args=[("ref", mk("seq", *[point(c, p) for p in ps]))], setup=typing(ps), scalars=("T",))
                ip = r.ip
                v = ip.expand(r.ret)
                pts = items(ip, r.st, ip.proj(v, ("f", 0, fields.index("points"))))
                ts = items(ip, r.st, ip.proj(v, ("f", 0, fields.index("triangles"))))
                if pts is None or ts is None or r.pc != TRUE:
                    return None, "result not known"
                return len(pts) == 2 and not ts, "%d points and %d triangles for two points" % (len(pts), len(ts))

            c.guard("two points have no triangle", fn, few)

    if box is not None:
        def bbox(n):
            ps = syms(n)
            r = c.run(box, ENV, args=[("ref", mk("seq", *[point(c, p) for p in ps]))], setup=typing(ps), scalars=("T",))
            ip = r.ip
            if r.pc != TRUE:
                return None, "does not always return"
            for end, name in ((0, "lower"), (1, "upper")):
                got = coords(ip, ip.proj(r.ret, ("f", 0, end)), 2)
                for a in range(2):
                    xs = [p[a] for p in ps]
                    ax = order_axioms(xs)
                    g = deround(got[a])
                    for x, b in leaves(g, ax):
                        if possible(b) is False:
                            continue
                        if x not in xs:
                            return (None if opaque_part(x) else False), "the %s bound is %s" % (name, show(x)[:40])
                        for y in xs:
                            s = sgn(vsub(y, x))
                            if band(b, s[2 if end == 0 else 1]) != FALSE:
                                return (None if opaque_part(B(b)) else False), "coordinate %s can lie beyond the %s bound %s" % (show(y), name, show(x))
            return True, ""

        for n in (1, 2, 3):
            c.guard("bounding box of %d points" % n, box, lambda n=n: bbox(n))


def insertion_step(c):
    ins = named(c, "bowyer_watson_insert_point")
    if ins is None:
        c.ob("insertion step", None, None, "no such function")
        return
    tests = [f for f in (named(c, "point_in_circumcircle_fast"),) if f]

    def one(label, bad):
        T0 = LISTS[label]
        n = max(map(max, T0)) + 1
        ps = syms(n + 1)
        asked = []

        def test(ip, st, args, atys, dty, r):
            q = coords(ip, ip.deref_all(st, args[0]), 2)
            t = tuple_of(ip, args[1])
            if list(q) != ps[n]:
                asked.append(None)
            asked.append(t)
            return B(TRUE if t in [T0[i] for i in bad] else FALSE)

        if not tests:
            return None, "no circumcircle test"
        r = c.run(ins, ENV, args=[num(n), ("ref", mk("seq", *[point(c, p) for p in ps])), ("ref", mk("seq", *[tri(c, t) for t in T0]))], setup=typing(ps), scalars=("T",), overrides={**predicates(c), **{f.path: test for f in tests}})
        ip = r.ip
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        if None in asked:
            return False, "the circumcircle test is asked about another point"
        if not asked:
            return None, "no circumcircle test is made"
        fin = ip.deref_all(r.st, r.args[2])
        keep = sorted(t for i, t in enumerate(T0) if i not in bad)
        sides = {}
        for i in bad:
            for a, b in zip(T0[i], T0[i][1:] + T0[i][:1]):
                k = (min(a, b), max(a, b))
                sides[k] = sides.get(k, 0) + 1
        rim = sorted(k for k, v in sides.items() if v == 1)
        for x, b in leaves(fin, TRUE):
            x = ip.expand(x)
            if x.op not in ("seq", "arr"):
                return None, "triangle list not known"
            old, new = [], []
            for e in x.args:
                for t, b2 in triples(ip, e, b):
                    if t is None:
                        return None, "triangle not known"
                    if n in t:
                        a, d = [z for z in cyclic_from(t, n)][1:]
                        o = orient(ps[a], ps[d], ps[n])
                        if band(b2, sgn(o)[2]) != FALSE:
                            return (None if opaque_part(B(b2)) else False), "new triangle %s can be clockwise" % (t,)
                        if (min(a, d), max(a, d)) not in new:
                            new.append((min(a, d), max(a, d)))
                        else:
                            pass
                    elif t not in old:
                        old.append(t)
            if sorted(old) != keep:
                return False, "triangles %s instead of %s stay" % (sorted(old), keep)
            if sorted(new) != rim:
                return False, "the point is joined to sides %s instead of %s" % (sorted(new), rim)
            if len(x.args) != len(keep) + len(rim):
                return False, "%d triangles instead of %d" % (len(x.args), len(keep) + len(rim))
        return True, ""

    for label in LISTS:
        k = len(LISTS[label])
        for m in range(k + 1):
            for bad in itertools.combinations(range(k), m):
                c.guard("insertion into %s, circumcircle of %s" % (label, list(bad)), ins, lambda label=label, bad=bad: one(label, bad))


def cyclic_from(t, x):
    i = t.index(x)
    return t[i:] + t[:i]


def circle(c):
    ps = syms(3)
    q = syms(1, "q")[0]
    cc = named(c, "circumcircle_approx_fast")
    if cc is not None:
        def centre():
            r = c.run(cc, ENV, args=[("ref", point(c, p)) for p in ps], setup=typing(ps), scalars=("T",))
            ip = r.ip
            seen = False
            for x, b in leaves(r.ret, TRUE):
                x = ip.expand(x)
                if x.op != "struct":
                    return None, "answer not known"
                if len(x.args) == 2:
                    continue
                seen = True
                u = [deround(ip.proj(x.args[2], ("f", 0, i))) for i in range(3)]
                if any(opaque_part(y) for y in u):
                    return None, "answer not known"
                for p in ps:
                    d = vminus(p, u[:2])
                    if not tm.req(dot(d, d), u[2]):
                        return False, "the squared radius is not the squared distance of corner %s to the centre" % show(p[0])
            return (True, "") if seen else (None, "no circle is reported")

        c.guard("circumcircle: centre and radius", cc, centre)
    ex = named(c, "point_in_circumcircle")
    def exact():
        r = c.run(ex, ENV, args=[("ref", point(c, q)), tri(c, (0, 1, 2)), ("ref", mk("seq", *[point(c, p) for p in ps]))], setup=typing(ps + [q]), scalars=("T",), overrides=predicates(c))
        got = bool_of(deround(r.ret)) if r.ret.op == "ite" or r.ret.op == "bool" else None
        if got is None or r.pc != TRUE:
            return None, "answer not known"
        o = orient(ps[0], ps[1], ps[2])
        i = incdet(ps[0], ps[1], ps[2], q)
        want = bor(band(Pos(o), Pos(i)), band(Neg(o), Neg(i)))
        bad = band(bnot(Z(o)), bxor(got, want))
        if bad == FALSE:
            return True, ""
        return (None if opaque_part(B(got)) else False), "answer differs from the sign of the incircle determinant: " + showb(bad, 3, 1)[:100]

    if ex is not None:
        c.guard("exact circumcircle test", ex, exact)
    fast = named(c, "point_in_circumcircle_fast")

    def quick():
        u = [mk("sym", x) for x in ("cx", "cy", "r2")]
        ans = bvar(("exact",))
        known = bvar(("circle",))
        asked = []

        def circ(ip, st, args, atys, dty, r):
            asked.append([tuple(coords(ip, ip.deref_all(st, a), 2)) for a in args])
            for x in u:
                ip.typed(x, models.F64)
            return models.opt(known, mk("struct", "tuple", 0, *u))

        def slow(ip, st, args, atys, dty, r):
            return B(ans)

        r = c.run(fast, ENV, args=[("ref", point(c, q)), tri(c, (0, 1, 2)), ("ref", mk("seq", *[point(c, p) for p in ps]))], setup=typing(ps + [q]), scalars=("T",), overrides={cc.path: circ, ex.path: slow})
        if r.pc != TRUE:
            return None, "does not always return"
        if not asked or set(asked[0]) != {tuple(p) for p in ps}:
            return (None if not asked else False), "the circle of other points is used"
        got = bool_of(r.ret)
        d = vminus([r.ip.typed(mk("approx", x), models.F64) for x in q], u[:2])
        gap = vsub(dot(d, d), u[2])
        # every clear answer is on the right side of the circle
        for val, b in ((True, band(got, bnot(ans))), (False, band(bnot(got), ans))):
            if band(b, bnot(known)) != FALSE:
                return (None if opaque_part(B(b)) else False), "an answer is given without a circle"
            side = (Neg if val else Pos)(gap)
            bad = band(b, bnot(side))
            if bad != FALSE and possible(band(bad, Pos(u[2]))) is not False:
                op = opaque_part(B(bad))
                return (None if op else False), "a point is said to be %s the circle when %s" % ("inside" if val else "outside", showb(bad, 4, 1)[:160])
        return True, ""

    if fast is not None and cc is not None and ex is not None:
        c.guard("fast circumcircle test", fast, quick)


def check(c):
    start(c)
    insertion_step(c)
    circle(c)
