"""C37: subdivision jobs of faces."""
from segs import *
from c39 import items
import itertools

EXPLAIN = (
    "The job builders are interpreted on a numbered two-triangle mesh with new vertices whose positions are symbols; which points lie on which segment is answered by a planar layout, so a run covers every placement "
    "with that incidence. The jobs are decoded and compared with the outline and the cuts of each face. The helpers that answer incidence are compared, as normal forms, with collinearity and position along the segment."
)
RULES = [
    "one job for every live face with a cut or a cut end on its border",
    "a job starts with the corners in order and maps local points one-to-one to the corners and cut ends of the face",
    "planar points: the vertex positions in the plane; in space two barycentric coordinates with respect to the corners, the same two for all points",
    "the constraints are the complete outline, split at every point on it in order, and every cut between points that are not corners, split at every point on it",
]
PARALLEL = True

FACES = ["abc", "cbd"]
LAY = {
    "a": (0, 0), "b": (6, 0), "c": (0, 6), "d": (6, 6),
    "e": (3, 0), "f": (0, 3), "g": (1, 1), "h": (2, 2), "k": (3, 3), "m": (4, 4),
    "n": (Fraction(3, 2), Fraction(3, 2)), "o": (1, 0), "p": (5, 0), "q": (2, 4), "r": (5, 5),
}
# (first, second, face, faces of the first end, faces of the second end)
CASES = {
    "one cut": [("e", "f", 0)],
    "chain": [("e", "g", 0), ("g", "h", 0)],
    "cut to the common edge": [("e", "k", 0, None, (0, 1))],
    "cut from the common edge": [("k", "e", 0, (0, 1), None)],
    "cuts on both sides": [("e", "k", 0, None, (0, 1)), ("k", "m", 1, (0, 1), None)],
    "cuts in two faces": [("e", "f", 0), ("m", "r", 1)],
    "cut through a point": [("g", "h", 0), ("n", "e", 0)],
    "several points on a side": [("p", "g", 0), ("o", "g", 0), ("e", "g", 0)],
    "points on all sides": [("e", "f", 0), ("k", "f", 0, (0, 1), None), ("q", "e", 0, (0, 1), None)],
    "two points on the common edge": [("q", "k", 0, (0, 1), (0, 1)), ("e", "f", 0)],
    "the same cut twice": [("e", "f", 0), ("f", "e", 0)],
    "cut along a side": [("o", "p", 0), ("e", "g", 0)],
    "cut between corners": [("a", "b", 0), ("e", "f", 0)],
    "cut from a corner": [("g", "h", 0), ("a", "e", 0)],
}


def named(c, name):
    fs = [f for k, f in c.find(r"(^|::)%s$" % name) if "triangles_inside" not in f.path]
    return fs[0] if fs else None


def on(p, q, x):
    """position of x on the segment pq, or None"""
    (ax, ay), (bx, by), (cx, cy) = LAY[p], LAY[q], LAY[x]
    ux, uy, vx, vy = bx - ax, by - ay, cx - ax, cy - ay
    if ux * vy - uy * vx:
        return None
    t = Fraction(ux * vx + uy * vy) / (ux * ux + uy * uy)
    return t if 0 <= t <= 1 else None


def split(p, q, pts):
    path = sorted((x for x in pts if on(p, q, x) is not None), key=lambda x: on(p, q, x))
    return [frozenset(z) for z in zip(path, path[1:])]


def jobs(c, n):
    fs = [f for k, f in c.find(r"(^|::)build_face_pslgs_%d$" % n)]
    if not fs:
        c.ob("jobs, %dD" % n, False, None, "the public builder is missing")
        return
    fn = fs[0]
    chain, edge = named(c, "add_split_or_chain_uv"), named(c, "on_edge_with_t")
    bary = named(c, "barycentric_coords")

    def one(label, dead=None, invalid=None):
        cuts = CASES[label]
        P = mesh_of(c, FACES, ["acdb"], n)
        used = [x for x in LAY if any(x in t[:2] for t in cuts)]
        for x in used:
            if x not in P.vx:
                P.vx[x] = ()
        if dead is not None:
            P.dead.add(("f", FACES[dead]))
        m = P.value()
        bcs = {}
        frame = []

        def who(ip, st, ref):
            v = ip.deref_all(st, ref)
            cs = tuple(coords(ip, v, 2))
            for x in P.vx:
                if n == 2 and cs == tuple(P.pos[x][:2]):
                    return x
                if x in bcs and cs == bcs[x][:2]:
                    return x
                if x in bcs and all(y in bcs[x] for y in cs):
                    return x
            return None

        def bc(ip, st, args, atys, dty, r):
            ps = [tuple(coords(ip, ip.deref_all(st, a), n)) for a in args]
            ids = [[x for x in P.vx if tuple(P.pos[x]) == p] for p in ps]
            if any(len(i) != 1 for i in ids):
                return ip.fresh("barycentric", dty)
            frame.append("".join(i[0] for i in ids[1:]))
            x = ids[0][0]
            if x not in bcs:
                bcs[x] = tuple(ip.typed(mk("sym", "%s.%s" % (k, x)), TP) for k in "uvw")
            return some(mk("struct", "tuple", 0, *bcs[x]))

        def inc(ip, st, args, atys, dty, r):
            ids = [who(ip, st, a) for a in args]
            if None in ids:
                return ip.fresh("incidence", dty)
            t = on(*ids)
            return mk("struct", "tuple", 0, B(FALSE if t is None else TRUE), mk("num", t or Fraction(0)))

        def add(ip, st, args, atys, dty, r):
            la, lb = args[0], args[1]
            pl = items(ip, st, args[3])
            ref = ip.refs_of(st, args[2])
            cur = ip.expand(ip.deref_all(st, args[2]))
            if pl is None or la.op != "num" or lb.op != "num" or cur.op != "seq":
                return ip.fresh("chain", dty)
            la, lb = int(la.args[0]), int(lb.args[0])
            names = []
            for i, p in enumerate(pl):
                ip.premem["pt%d" % i] = p
                st.mem["pt%d" % i] = p
                names.append(who(ip, st, mk("ref", "pt%d" % i, ())))
            if None in names:
                return ip.fresh("chain", dty)
            if la == lb:
                return models.UNIT
            path = sorted((i for i in range(len(names)) if on(names[la], names[lb], names[i]) is not None), key=lambda i: on(names[la], names[lb], names[i]))
            ip.write(st, ref, mk("seq", *cur.args, *[mk("arr", num(i), num(j)) for i, j in zip(path, path[1:])]))
            return models.UNIT

        if chain is None or edge is None or (n == 3 and bary is None):
            return None, "helpers not found"
        ov = {chain.path: add, edge.path: inc}
        if n == 3:
            ov[bary.path] = bc

        segs = []
        for i, t in enumerate(cuts):
            t = tuple(t) + (None,) * (5 - len(t))
            ends = []
            for x, h in ((t[0], t[3]), (t[1], t[4])):
                hint = none() if h is None else some(mk("arr", *[P.Fc(FACES[f]) for f in h]))
                ends.append(end(c, P.V(x), faces_hint=hint))
            s = segment(c, P.point(t[0]), P.point(t[1]), P.Fc(FACES[t[2]]), a=ends[0], b=ends[1])
            if invalid == i:
                fsn = [f[0] for f in c.F.adts[c.adt_path("IntersectionSegment")]["variants"][0][1]]
                s = mk("struct", s.args[0], 0, *[B(TRUE) if f == "invalidated" else v for f, v in zip(fsn, s.args[2:])])
            segs.append(s)
        r = c.run(fn, P.env(), args=[("ref", m), ("ref", mk("seq", *segs))], setup=P.setup, scalars=SC, overrides=ov, limit=200)
        ip = r.ip
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        js = items(ip, r.st, r.ret)
        if js is None:
            return None, "jobs not known"
        live = [tuple(t) + (None,) * (5 - len(t)) for i, t in enumerate(cuts) if i != invalid]
        want = {}
        for a, b, f, ha, hb in live:
            want.setdefault(f, []).append((a, b))
            for x, h in ((a, ha), (b, hb)):
                for g in h or ():
                    if g != f:
                        want.setdefault(g, []).append((x,))
        if dead is not None:
            want.pop(dead, None)
        fid = {P.Fc(FACES[i]): i for i in range(2)}
        vid = {P.V(x): x for x in P.vx}
        seen = set()
        for j in js:
            j = ip.expand(j)
            f = field(c, ip, j, "FaceJobUV", "face_id")
            if f not in fid:
                return (None if opaque_part(f) else False), "a job for face %s" % show(f)[:40]
            f = fid[f]
            if f in seen:
                return False, "two jobs for one face"
            seen.add(f)
            if f not in want:
                return False, "a job for a face without cuts (or a removed face)"
            vs = items(ip, r.st, field(c, ip, j, "FaceJobUV", "verts_global"))
            pl = items(ip, r.st, field(c, ip, j, "FaceJobUV", "points_uv"))
            sg = items(ip, r.st, field(c, ip, j, "FaceJobUV", "segments"))
            if vs is None or pl is None or sg is None:
                return None, "job not known"
            if any(v not in vid for v in vs):
                return (None if any(opaque_part(v) for v in vs) else False), "local points without a vertex"
            names = [vid[v] for v in vs]
            if cyclic("".join(names[:3])) != cyclic(FACES[f]):
                return False, "the job of face %s starts with %s" % (FACES[f], names[:3])
            need = set(FACES[f]) | {x for t in want[f] for x in t}
            if len(set(names)) != len(names):
                return False, "vertex %s has two local points" % [x for x in names if names.count(x) > 1][0]
            if set(names) != need:
                return False, "face %s: local points %s instead of %s" % (FACES[f], sorted(names), sorted(need))
            if len(pl) != len(names):
                return False, "%d planar points for %d vertices" % (len(pl), len(names))
            sel = None
            for x, p in zip(names, pl):
                cs = coords(ip, p, 2)
                if n == 2:
                    if list(cs) != list(P.pos[x][:2]):
                        return (None if opaque_part(p) else False), "the planar point of %s is not its position" % x
                else:
                    if x not in bcs or any(y not in bcs[x] for y in cs):
                        return (None if opaque_part(p) else False), "the planar point of %s is not made of its barycentric coordinates" % x
                    k = tuple(bcs[x].index(y) for y in cs)
                    if k[0] == k[1] or sel not in (None, k):
                        return False, "planar points use different coordinates"
                    sel = k
            got = []
            for s in sg:
                ab = items(ip, r.st, s)
                if ab is None or any(y.op != "num" for y in ab):
                    return None, "constraints not known"
                i, k = (int(y.args[0]) for y in ab)
                if max(i, k) >= len(names) or i == k:
                    return False, "constraint %d-%d" % (i, k)
                got.append(frozenset((names[i], names[k])))
            if len(set(got)) != len(got):
                return False, "a constraint is listed twice"
            t = FACES[f]
            must = {e for p, q in zip(t, t[1:] + t[:1]) for e in split(p, q, names)}
            may = set(must)
            for w in want[f]:
                if len(w) == 2:
                    e = split(w[0], w[1], names)
                    may |= set(e)
                    if not set(w) & set(t):
                        must |= {z for z in e if not z & set(t)}
            sh = lambda es: sorted("-".join(sorted(e)) for e in es)
            if must - set(got):
                return False, "face %s: constraints %s are missing" % (t, sh(must - set(got)))
            if set(got) - may:
                return False, "face %s: constraints %s are neither outline nor cut" % (t, sh(set(got) - may))
        if seen != set(want):
            return False, "no job for face %s" % FACES[sorted(set(want) - seen)[0]]
        if n == 3 and any(cyclic(x) not in [cyclic(t) for t in FACES] for x in frame):
            return False, "coordinates are taken with respect to other points than the corners"
        return True, ""

    for label in CASES:
        c.guard("%s, %dD" % (label, n), fn, lambda label=label: one(label))
    for label in ("cuts in two faces", "cut to the common edge"):
        c.guard("%s, one face removed, %dD" % (label, n), fn, lambda label=label: one(label, dead=1))
    for label in ("cuts in two faces", "chain", "the same cut twice"):
        c.guard("%s, one cut invalidated, %dD" % (label, n), fn, lambda label=label: one(label, invalid=1))


def helpers(c):
    """incidence helpers: p = a + t (b - a) + w perpendicular"""
    a0, b0 = ((1, 2), (5, 2)), None
    t, w = mk("sym", "t"), mk("sym", "w")
    q = lambda v: mk("num", Fraction(v))

    def su(ip):
        ip.no_tolerance = True
        for x in (t, w):
            ip.typed(x, TP)

    def place(A, Bp):
        d = (Bp[0] - A[0], Bp[1] - A[1])
        return [vadd(q(A[0]), vadd(vmul(t, q(d[0])), vmul(w, q(-d[1])))), vadd(q(A[1]), vadd(vmul(t, q(d[1])), vmul(w, q(d[0]))))]

    EDGES = (((1, 2), (5, 2)), ((1, 2), (1, -3)), ((0, 0), (3, 4)), ((2, 1), (-1, 3)))
    samples = [(Fraction(x), Fraction(y)) for x in ("-2", "-1/2", "0", "1/3", "1/2", "1", "3/2", "4") for y in ("0", "1/2", "-1", "1/50", "-1/50")]
    for name in ("on_edge_with_t", "on_segment_uv_fast", "param_t_uv"):
        fn = named(c, name)
        if fn is None:
            c.ob(name, None, None, "no such function")
            continue
        for A, Bp in EDGES:
            def one(name=name, fn=fn, A=A, Bp=Bp):
                env = {k: TP for k in ("T", "TS")}
                r = c.run(fn, env, args=[("ref", point(c, [q(x) for x in A])), ("ref", point(c, [q(x) for x in Bp])), ("ref", point(c, place(A, Bp)))], setup=su, scalars=("T", "TS"))
                if r.pc != TRUE:
                    return (None if opaque_part(B(r.pc)) else False), "does not always return"
                ip = r.ip
                last = None
                for x, y in sorted(samples):
                    v = ip.expand(models.tsubst(r.ret, {t: mk("num", x), w: mk("num", y)}))
                    want = y == 0 and 0 <= x <= 1
                    if name == "param_t_uv":
                        if y:
                            continue
                        if v.op != "num":
                            return None, "value not known"
                        if last is not None and not last < v.args[0]:
                            return False, "the position does not grow along the segment"
                        last = v.args[0]
                        continue
                    if name == "on_edge_with_t":
                        if v.op != "struct":
                            return None, "value not known"
                        b = bool_of(v.args[2])
                        p = v.args[3]
                        if want and (p.op != "num" or Fraction(p.args[0]) != x):
                            return (None if p.op != "num" else False), "the position is %s instead of %s" % (show(p)[:40], x)
                    else:
                        b = bool_of(v)
                    if b not in (TRUE, FALSE):
                        return None, "value not known"
                    if (b == TRUE) != want:
                        return False, "a point at %s of the segment and %s beside it is %s" % (x, y, "on it" if b == TRUE else "not on it")
                return True, ""

            c.guard("%s for %s-%s" % (name, A, Bp), fn, one)
    fn = named(c, "add_split_or_chain_uv")
    hit, par = named(c, "on_segment_uv_fast"), named(c, "param_t_uv")
    if fn is None or hit is None or par is None:
        c.ob("splitting a constraint", None, None, "no such function")
        return
    for names, la, lb in (("abe", 0, 1), ("abeop", 0, 1), ("abpoe", 1, 0), ("pabeo", 2, 1), ("abgh", 2, 3), ("abghn", 2, 3), ("abghn", 3, 2), ("abcg", 0, 0)):
        def chain(names=names, la=la, lb=lb):
            ps = [[mk("sym", "%s%s" % (k, x)) for k in "xy"] for x in names]

            def whoids(ip, st, args):
                out = []
                for a in args:
                    cs = list(coords(ip, ip.deref_all(st, a), 2))
                    out.append(names[ps.index(cs)] if cs in ps else None)
                return out

            def o1(ip, st, args, atys, dty, r):
                ids = whoids(ip, st, args)
                return ip.fresh("on", dty) if None in ids else B(TRUE if on(*ids) is not None else FALSE)

            def o2(ip, st, args, atys, dty, r):
                ids = whoids(ip, st, args)
                return ip.fresh("pos", dty) if None in ids or on(*ids) is None else mk("num", on(*ids))

            def setup(ip):
                for p in ps:
                    for x in p:
                        ip.typed(x, TP)

            r = c.run(fn, {"T": TP}, args=[num(la), num(lb), ("ref", mk("seq")), ("ref", mk("seq", *[point(c, p) for p in ps]))], setup=setup, scalars=("T",), overrides={hit.path: o1, par.path: o2})
            if r.pc != TRUE:
                return (None if opaque_part(B(r.pc)) else False), "does not always return"
            path = sorted((i for i in range(len(names)) if la != lb and on(names[la], names[lb], names[i]) is not None), key=lambda i: on(names[la], names[lb], names[i]))
            want = list(zip(path, path[1:]))
            some_ = False
            for v, b in leaves(r.ip.deref_all(r.st, r.args[2]), TRUE):
                xs = items(r.ip, r.st, v)
                if xs is None:
                    return None, "chain not known"
                got = []
                for e in xs:
                    p = items(r.ip, r.st, e)
                    if p is None or any(y.op != "num" for y in p):
                        return None, "chain not known"
                    got.append(tuple(int(y.args[0]) for y in p))
                if not got and want:
                    continue
                some_ = True
                if got != want:
                    return False, "constraint %d-%d of %s is split into %s" % (la, lb, names, got)
            return some_ or not want, "the constraint is always dropped"

        c.guard("constraint %d-%d among %s" % (la, lb, names), fn, chain)


def check(c):
    for n in (2, 3):
        jobs(c, n)
    helpers(c)
