"""C32: inside/outside tests by ray casting."""
from segs import *

EXPLAIN = (
    "The planar point test is interpreted on numbered meshes with unknown positions and compared with the crossing parity of the border edges. The spatial test is interpreted with the ray caster "
    "answering, per probe direction, miss or a hit at unknown distance. The ray caster is interpreted on candidate faces whose triangle tests answer with unknown distances and given face coordinates."
)
RULES = [
    "planar: inside = parity of border edges crossed by a ray, each edge running tail to head, end points counted half-open",
    "spatial: on the surface iff some probe hits at distance zero, else inside iff more than half of the probes hit, else outside",
    "a probe that crosses the surface an even number of times does not count as inside",
    "closest hit = smallest non-negative distance among candidate faces; its kind (face, edge, corner) and parameters are those of that face; the queried box reaches from the origin along the ray",
]
PARALLEL = True
FLAT = {
    "one triangle": (["abc"], ["acb"]),
    "square": (["abc", "bdc"], ["acdb"]),
    "disc around a vertex": fan(4, True),
    "strip": (["abc", "bdc", "cde"], ["acedb"]),
    "two separate triangles": (["abc", "xyz"], ["acb", "xzy"]),
}


def planar(c):
    fn = mesh_fn(c, "point_in_mesh_2")

    def one(label):
        F, R = FLAT[label]
        P = mesh_of(c, F, R, 2)
        P.extra["half_edge_split_map"] = mk("mnew")
        m = P.value()
        q = [mk("sym", "q%d" % i) for i in range(2)]
        r = c.run(fn, P.env(), args=[("ref", m), ("ref", point(c, q))], setup=P.setup, scalars=SC)
        ip = r.ip
        border = [e for ring in R for e in arcs(ring)]
        y = lambda x: vsub(P.pos[x][1], q[1])

        def parity(up, strict, right):
            w = FALSE
            for e in border:
                s = []
                for x in e:
                    z, p, n = sgn(y(x))
                    s.append(p if up else n)
                ax, ay = P.pos[e[0]]
                bx, by = P.pos[e[1]]
                hit = vsub(vadd(ax, vmul(vdiv(vsub(q[1], ay), vsub(by, ay)), vsub(bx, ax))), q[0])
                z, p, n = sgn(hit)
                if right:
                    side = p if strict else bnot(n)
                else:
                    side = n if strict else bnot(p)
                w = bxor(w, band(bxor(s[0], s[1]), side))
            return w

        pc = r.pc
        if pc != TRUE:
            # division by the height of a crossed edge
            if opaque_part(B(pc)):
                return None, "does not always return"
        got = bool_of(r.ret)
        for up in (True, False):
            for strict in (False, True):
                for right in (True, False):
                    w = parity(up, strict, right)
                    if band(pc, bxor(w, got)) == FALSE:
                        return True, "%d border edges" % len(border)
        op = opaque_part(B(got))
        return (None if op else False), "%sthe answer is not the crossing parity of the border edges" % (op + ": " if op else "")

    for label in FLAT:
        c.guard("planar test, %s" % label, fn, lambda label=label: one(label))


def hit_value(c, t, kind=("Face", 0)):
    ir, ih = c.adt_path("IntersectionResult"), c.adt_path("IntersectionHit")
    rv = [v[0] for v in c.F.adts[ir]["variants"]]
    hv = [v[0] for v in c.F.adts[ih]["variants"]]
    h = mk("struct", ih, hv.index("Vertex"), num(0))
    return mk("struct", ir, rv.index("Hit"), h, t), mk("struct", ir, rv.index("Miss"))


def spatial(c):
    fn = mesh_fn(c, "point_in_mesh_3")
    cast = mesh_fn(c, "cast_ray_3")
    pim = c.adt_path("PointInMeshResult")
    pv = [v[0] for v in c.F.adts[pim]["variants"]]

    def one():
        P = mesh_of(c, ["abc", "acd", "adb", "bdc"], [], 3)
        calls = []

        def ray(ip, st, args, atys, dty, r):
            d = tuple(coords(ip, ip.deref_all(st, args[2]), 3))
            if d not in calls:
                calls.append(d)
            i = calls.index(d)
            t = ip.typed(mk("sym", "t%d" % i), TP)
            h, m = hit_value(c, t)
            return vite(bvar(("hit", i)), h, m)

        tree = mk("sym", "tree")
        q = [mk("sym", "q%d" % i) for i in range(3)]
        r = c.run(fn, P.env(), args=[("ref", P.value()), ("ref", tree), ("ref", point(c, q))], setup=P.setup, scalars=SC, overrides={cast.path: ray})
        ip = r.ip
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        n = len(calls)
        if n == 0:
            return None, "no probe is cast"
        if n < 3:
            return False, "only %d probe directions" % n
        zero = FALSE
        cnt = {0: TRUE}
        for i in range(n):
            h = bvar(("hit", i))
            z, p, ng = sgn(mk("sym", "t%d" % i))
            zero = bor(zero, band(h, z))
            new = {}
            for k, b in cnt.items():
                new[k + 1] = bor(new.get(k + 1, FALSE), band(b, band(h, bnot(z))))
                new[k] = bor(new.get(k, FALSE), band(b, bnot(band(h, bnot(z)))))
            cnt = new
        most = FALSE
        for k, b in cnt.items():
            if 2 * k > n:
                most = bor(most, b)
        want = {"OnSurface": zero, "Inside": band(bnot(zero), most), "Outside": band(bnot(zero), bnot(most))}
        got = {k: FALSE for k in pv}
        for t, b in leaves(r.ret, TRUE):
            t = ip.expand(t)
            if t.op != "struct":
                return None, "answer not known: " + str(opaque_part(t))
            got[pv[t.args[1]]] = bor(got[pv[t.args[1]]], b)
        for k in want:
            if got.get(k, FALSE) != want[k]:
                op = opaque_part(B(got.get(k, FALSE)))
                return (None if op else False), "answer %s is given in other cases than expected, for example %s" % (k, showb(bxor(got.get(k, FALSE), want[k]), 4, 1)[:100])
        return True, "%d probe directions" % n

    c.guard("spatial test, majority of probes", fn, one)

    def through():
        P = mesh_of(c, ["abc", "acd", "adb", "bdc"], [], 3)
        tri = [f for k, f in c.find(r"^ray_triangle_intersection$")]
        if not tri:
            return None, "no ray-triangle test"

        def hit(ip, st, args, atys, dty, r):
            # every probe crosses two faces, in front of the point
            vs = ip.expand(args[2])
            x = ip.deref_all(st, vs.args[0]) if vs.op == "arr" else None
            y = ip.deref_all(st, vs.args[1])
            z = ip.deref_all(st, vs.args[2])
            at = {tuple(P.pos[k]): k for k in P.vx}
            f = cyclic("".join(at[tuple(coords(ip, w, 3))] for w in (x, y, z)))
            f = "".join(f)
            k = {"abc": 1, "acd": 2}.get(f)
            if k is None:
                return none()
            return some(mk("struct", "tuple", 0, num(k), vdiv(ONE, num(4)), vdiv(ONE, num(4))))

        r = c.run(fn, P.env(), args=[("ref", P.value()), ("ref", mk("sym", "tree")), ("ref", point(c, [mk("sym", "q%d" % i) for i in range(3)]))], setup=P.setup, scalars=SC, overrides={**{f.path: hit for f in tri}, **query(c, P)}, pre=near(c))
        ip = r.ip
        if r.pc not in (TRUE, near(c)):
            return None, "does not always return"
        t = [ip.expand(x) for x, b in leaves(r.ret, near(c))]
        if len(t) != 1 or t[0].op != "struct":
            return None, "answer not known"
        return pv[t[0].args[1]] == "Outside", "a point all of whose probes cross the surface twice is reported %s" % pv[t[0].args[1]]

    c.guard("spatial test, probes crossing the surface twice", fn, through)


def near(c):
    """the default tolerance is small and not negative"""
    b = TRUE
    for e in ("tolerance", "query_tolerance"):
        t = mk("tol", e)
        z, p, n = sgn(t)
        b = band(b, bnot(n))
        for x in (Fraction(1, 4), Fraction(1, 2), Fraction(3, 4), Fraction(1)):
            b = band(b, sgn(vsub(tm.fnum(x) if hasattr(tm, "fnum") else vdiv(num(x.numerator), num(x.denominator)), t))[1])
    return b


def query(c, P, log=None, only=None):
    """the box tree reports all live faces as candidates"""
    ov = {}

    def q(ip, st, args, atys, dty, r):
        if log is not None:
            log.append(ip.deref_all(st, args[1]))
        out = ip.refs_of(st, args[2])
        fs = []
        for f in P.fc:
            if ("f", f) in P.dead or only is not None and f not in only:
                continue
            root = ("cand", P.tag, f)
            st.mem[root] = P.Fc(f)
            fs.append(mk("ref", root, ()))
        ip.write(st, out, mk("seq", *fs))
        return mk("struct", "tuple", 0)

    for k, f in c.find(r"^AabbTree<.*>::query_valid$"):
        ov[f.path] = q
    return ov


UV = {
    "inside": (Fraction(1, 4), Fraction(1, 2)),
    "edge 01": (Fraction(1, 4), Fraction(0)),
    "edge 12": (Fraction(1, 4), Fraction(3, 4)),
    "edge 20": (Fraction(0), Fraction(1, 4)),
    "corner 0": (Fraction(0), Fraction(0)),
    "corner 1": (Fraction(1), Fraction(0)),
    "corner 2": (Fraction(0), Fraction(1)),
}


def exact(x):
    """a bound up to rounding"""
    return x.args[0] if x.op == "approx" else x


def q_(x):
    return vdiv(num(x.numerator), num(x.denominator))


def closest(c):
    fn = mesh_fn(c, "cast_ray_3")
    tri = [f for k, f in c.find(r"^ray_triangle_intersection$")]
    ir, ih = c.adt_path("IntersectionResult"), c.adt_path("IntersectionHit")
    rv = [v[0] for v in c.F.adts[ir]["variants"]]
    hv = [v[0] for v in c.F.adts[ih]["variants"]]

    def one(faces, where, tol):
        """faces: candidate faces; where: place of the hit on each"""
        P = mesh_of(c, ["abc", "acd", "adb", "bdc"], [], 3)
        vs = list(P.vx)
        for x in vs:
            P.point(x)
        at = {tuple(P.pos[k]): k for k in vs}
        order = {}

        def hit(ip, st, args, atys, dty, r):
            a = ip.expand(args[2])
            f = "".join(at[tuple(coords(ip, ip.deref_all(st, x), 3))] for x in a.args)
            o = [g for g in P.fc if cyclic(g) == cyclic(f)][0]
            order[o] = f
            u, v = UV[where[faces.index(o)]]
            t = ip.typed(mk("sym", "t(%s)" % o), TP)
            return vite(bvar(("hit", o)), some(mk("struct", "tuple", 0, t, q_(u), q_(v))), none())

        log = []
        o3 = [mk("sym", "o%d" % i) for i in range(3)]
        d3 = [mk("sym", "d%d" % i) for i in range(3)]
        vecp = c.adt_path("Vector")
        d = mk("struct", vecp, 0, point(c, d3))
        if tol == "given":
            tv, pre = some(q_(Fraction(1, 1000))), TRUE
        else:
            tv, pre = none(), near(c)
        r = c.run(fn, P.env(), args=[("ref", P.value()), ("ref", point(c, o3)), ("ref", d), ("ref", mk("sym", "tree")), ("ref", tv)], setup=P.setup, scalars=SC, overrides={**{f.path: hit for f in tri}, **query(c, P, log, faces)}, pre=pre)
        ip = r.ip
        if band(pre, bnot(r.pc)) != FALSE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        if not log:
            return None, "no box is queried"
        # pairwise order of the distances
        ts = {f: mk("sym", "t(%s)" % f) for f in faces}
        ax = order_axioms([ZERO] + list(ts.values()))
        ok = band(pre, ax)
        hits = {f: band(bvar(("hit", f)), bnot(sgn(ts[f])[2])) for f in faces}
        miss = FALSE
        for t, b in leaves(r.ret, ok):
            t = ip.expand(t)
            if t.op != "struct":
                return None, "answer not known"
            if rv[t.args[1]] == "Miss":
                miss = bor(miss, b)
                continue
            h, dist = ip.expand(t.args[2]), t.args[3]
            for h, b in leaves(h, b):
                h = ip.expand(h)
                if h.op != "struct":
                    return None, "hit not known"
                name, vals = hv[h.args[1]], h.args[2:]
                for dd, b2 in leaves(dist, b):
                    src = [f for f in faces if ts[f] is dd]
                    if not src:
                        return (None if opaque_part(dd) else False), "distance %s is reported" % show(dd)[:60]
                    f = src[0]
                    if band(b2, bnot(hits[f])) != FALSE:
                        return False, "face %s is reported without being hit in front" % f
                    for g in faces:
                        if band(b2, band(hits[g], sgn(vsub(ts[g], dd))[2])) != FALSE:
                            return False, "face %s is reported although face %s is hit closer" % (f, g)
                    kind = where[faces.index(f)]
                    w = order[f]
                    vals = [vrestrict(x, b2) for x in h.args[2:]]
                    idx = lambda x: num(vs.index(x))
                    u, v = UV[kind]
                    l = (q_(1 - u - v), q_(u), q_(v))
                    same = False
                    if kind == "inside":
                        same = name == "Face" and vals[0] is P.Fc(f) and tuple(ip.proj(vals[1], ("f", 0, i)) for i in range(3)) == l
                    elif kind.startswith("corner"):
                        same = name == "Vertex" and vals[0] is idx(w[int(kind[-1])])
                    else:
                        i, j = int(kind[-2]), int(kind[-1])
                        same = name == "Edge" and ((vals[0] is idx(w[i]) and vals[1] is idx(w[j]) and vals[2] is l[j]) or (vals[0] is idx(w[j]) and vals[1] is idx(w[i]) and vals[2] is l[i]))
                    if not same:
                        if any(opaque_part(x) for x in vals):
                            return None, "hit not known"
                        return False, "a hit at %s of face %s is reported as %s %s" % (kind, f, name, [show(x)[:30] for x in vals])
        anyhit = FALSE
        for f in faces:
            anyhit = bor(anyhit, hits[f])
        bad = band(ok, bxor(miss, bnot(anyhit)))
        if bad != FALSE:
            return (None if opaque_part(B(miss)) else False), "%s when %s" % ("misses a face" if band(bad, miss) != FALSE else "reports a hit", showb(bad, 3, 1)[:100])
        return True, ""

    pairs = [(["abc"], [k]) for k in UV] + [(["abc", "bdc"], [k, k2]) for k in ("inside", "edge 12", "corner 0") for k2 in ("inside", "edge 20", "corner 2")] + [(["bdc", "abc", "acd"], ["inside", "edge 01", "inside"])]
    if not tri:
        c.ob("closest hit", None, fn, "no ray-triangle test")
    else:
        for faces, where in pairs:
            for tol in ("given", "default"):
                if len(faces) > 1 and tol == "default" and where[0] != where[1]:
                    continue
                c.guard("closest hit among %s at %s, %s tolerance" % (" ".join(faces), ", ".join(where), tol), fn, lambda faces=faces, where=where, tol=tol: one(faces, where, tol))

    def box():
        P = mesh_of(c, ["abc", "acd", "adb", "bdc"], [], 3)
        log = []
        o3 = [mk("sym", "o%d" % i) for i in range(3)]
        d3 = [mk("sym", "d%d" % i) for i in range(3)]
        d = mk("struct", c.adt_path("Vector"), 0, point(c, d3))
        r = c.run(fn, P.env(), args=[("ref", P.value()), ("ref", point(c, o3)), ("ref", d), ("ref", mk("sym", "tree")), ("ref", none())], setup=P.setup, scalars=SC, overrides=query(c, P, log, []))
        ip = r.ip
        if len(log) != 1:
            return None, "%d boxes are queried" % len(log)
        bp = c.adt_path("Aabb")
        fs = [f[0] for f in c.F.adts[bp]["variants"][0][1]]
        lo = coords(ip, ip.proj(log[0], ("f", 0, fs.index("min"))), 3)
        hi = coords(ip, ip.proj(log[0], ("f", 0, fs.index("max"))), 3)
        for i in range(3):
            ends = {x for v in (lo[i], hi[i]) for x, b in leaves(v, TRUE)}
            start = [x for x in ends if exact(x) is o3[i]]
            rest = [x for x in ends if exact(x) is not o3[i]]
            if len(start) != 1 or len(rest) != 1:
                return (None if any(opaque_part(exact(x)) for x in ends) else False), "the queried box does not run from the ray origin to a far point: %s" % [show(x)[:40] for x in ends]
            k = vdiv(vsub(exact(rest[0]), o3[i]), d3[i])
            if k.op != "num":
                return (None if opaque_part(k) else False), "the queried box does not follow the ray"
            if k.args[0] < 10**6:
                return False, "the queried box ends after %s ray lengths" % k.args[0]
            z, p, n = sgn(vsub(rest[0], start[0]))
            for cond, a, b in ((p, start[0], rest[0]), (n, rest[0], start[0])):
                if [x for x, y in leaves(lo[i], cond)] != [a] or [x for x, y in leaves(hi[i], cond)] != [b]:
                    return False, "the ends of the queried box are not in order"
        return True, ""

    c.guard("box queried for a ray", fn, box)


def check(c):
    planar(c)
    spatial(c)
    closest(c)
