"""C35: spreading inside/outside labels over faces."""
from segs import *
from c34 import owner

EXPLAIN = (
    "Face classification is interpreted on numbered meshes with unknown vertex positions, for cuts along given edges (closed loops, cuts ending on the border, cuts that do not separate, "
    "several orders and directions, degenerate segments). The point test against the other mesh answers per face as prescribed by the case; each tested point is attributed to the face whose corners it is computed from."
)
RULES = [
    "without cuts every live face is labelled by testing a point of that face",
    "with cuts the faces labelled inside are exactly the faces of the side that tests inside: labels cross edges between adjacent faces but never a cut edge",
    "faces on the other mesh's surface count as inside exactly when asked for",
]
PARALLEL = True
OCT = ["acd", "ade", "aef", "afc", "bdc", "bed", "bfe", "bcf"]
DISC = fan(6, True)
STRIP = (["abc", "bdc", "cde", "dfe"], ["acefdb"])
TWO = (["uwa", "uab", "ubc", "ucd", "wud", "wde", "wef", "wfa"], ["afedcb"])
# label: (faces, border loops, cut edges)
CASES = {
    "octahedron, equator": (OCT, [], "cd de ef fc"),
    "octahedron, equator, mixed directions": (OCT, [], "dc ef ed cf"),
    "octahedron, meridian": (OCT, [], "ac cb be ea"),
    "octahedron, one face": (OCT, [], "ac cd da"),
    "octahedron, cut that does not separate": (OCT, [], "ac cd"),
    "octahedron, equator and degenerate segment": (OCT, [], "cc cd de ef fc"),
    "disc, cut across": (*DISC, "av vd"),
    "disc, cut across, reversed": (*DISC, "dv va"),
    "disc, inner spoke": (*DISC, "vc"),
    "strip, middle edge": (*STRIP, "cd"),
    "strip, last edge": (*STRIP, "ed"),
    "two inner vertices, cut across": (*TWO, "uw wa ud"),
    "two inner vertices, cut through": (*TWO, "bu uw we"),
}


def groups(faces, cut):
    """connected groups of faces delimited by cut edges"""
    cut = {frozenset(e) for e in cut.split()}
    edge = {}
    for f in faces:
        for e in arcs(f):
            edge[e] = f
    seen, out = {}, []
    for f in faces:
        if f in seen:
            continue
        g, q = [f], [f]
        seen[f] = len(out)
        while q:
            x = q.pop()
            for e in arcs(x):
                o = edge.get(e[1] + e[0])
                if o and o not in seen and frozenset(e) not in cut:
                    seen[o] = len(out)
                    g.append(o)
                    q.append(o)
        out.append(g)
    return out


def touches(faces, group, cut):
    cut = {frozenset(e) for e in cut.split() if e[0] != e[1]}
    return any(frozenset(e) in cut for f in group for e in arcs(f))


def spread(c, n):
    try:
        fn = mesh_fn(c, "classify_faces_%d" % n)
    except MissingAnchor:
        c.ob("classification in %d dimensions" % n, None, None, "no function classifies the faces of a mesh")
        return
    pim = c.adt_path("PointInMeshResult")
    pv = [v[0] for v in c.F.adts[pim]["variants"]]

    def one(F, R, cut, ins, surf=(), include=TRUE, dead=(), coplanar=()):
        P = mesh_of(c, F, R, n)
        P.tag = "A"
        P.extra["half_edge_split_map"] = mk("mnew")
        P.extra["face_split_map"] = mk("mnew")
        for f in dead:
            P.tri(f, arcs(f), tuple(f))
            P.dead.add(("f", f))
            for e in arcs(f):
                P.half(e[1] + e[0], e[0], None, None, e, None, removed=True)
                P.he[e]["removed"] = True
                P.he[e]["twin"] = e[1] + e[0]
            for x in f:
                P.vx[x] = ()
                P.dead.add(("v", x))
            for e in arcs(f[::-1]):
                P.he[e]["next"], P.he[e]["prev"] = e, e
            P.keys = [k for k in P.keys if not (set(k[:2]) & set(f))]
        for x in P.vx:
            P.point(x)
        O = mesh_of(c, ["abc"], ["acb"], n)
        O.tag = "B"
        for x in O.vx:
            O.point(x)
        odd = []

        def state(ip, st, p):
            Q, fs = owner([P, O], p)
            if Q is not P or len(fs) != 1:
                odd.append("a point that belongs to no single face is tested")
                return "Outside"
            f = fs[0]
            return "Inside" if f in ins else "OnSurface" if f in surf else "Outside"

        def pim3(ip, st, args, atys, dty, r):
            return mk("struct", pim, pv.index(state(ip, st, ip.deref_all(st, args[2]))))

        def pim2(ip, st, args, atys, dty, r):
            return B(TRUE if state(ip, st, ip.deref_all(st, args[1])) == "Inside" else FALSE)

        ov = {mesh_fn(c, "point_in_mesh_3").path: pim3, mesh_fn(c, "point_in_mesh_2").path: pim2}
        ov[mesh_fn(c, "face_aabb").path] = lambda ip, st, args, atys, dty, r: vmap(lambda x: ip.typed(mk("boxof", x), dty), args[1])
        for k, f in c.find(r"^AabbTree<.*>::build$"):
            ov[f.path] = lambda ip, st, args, atys, dty, r: ip.typed(mk("sym", "tree"), dty)
        vi = list(P.vx).index
        segs = []
        for i, e in enumerate(cut.split()):
            p, q = P.point(e[0]), P.point(e[1])
            segs.append(segment(c, p, q, 0, FALSE, vi(e[0]), vi(e[1])))
        args = [("ref", P.value()), ("ref", O.value()), ("ref", mk("seq", *segs))]
        if n == 3:
            args += [("ref", mk("seq", *[record(c, "CoplanarTriangle", {"verts": mk("arr", *[num(vi(x)) for x in t])}) for t in coplanar])), B(include)]

        def setup(ip):
            P.setup(ip)
            O.setup(ip)

        r = c.run(fn, P.env(), args=args, setup=setup, scalars=SC, overrides=ov)
        ip = r.ip
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not return when %s" % showb(bnot(r.pc), 3, 1)[:120]
        if odd:
            return False, odd[0]
        e = ip.expand(r.ret)
        if e.op not in ("seq", "arr"):
            return None, "labels not known"
        if len(e.args) != len(P.fc):
            return False, "%d labels for %d faces" % (len(e.args), len(P.fc))
        good = set(ins) | (set(surf) if include == TRUE else set())
        if include == TRUE:
            good |= set(coplanar)
        for f, x in zip(P.fc, e.args):
            b = bool_of(x)
            if b not in (TRUE, FALSE):
                return None, "label of face %s not known" % f
            if f in dead:
                continue
            if (b == TRUE) != (f in good):
                return False, "face %s is labelled %s" % (f, "inside" if b == TRUE else "outside")
        return True, ""

    space = "in %d dimensions" % n
    for label, (F, R, cut) in CASES.items():
        gs = groups(F, cut)
        near = [g for g in gs if touches(F, g, cut)]
        for i, g in enumerate(near):
            c.guard("classification %s, %s, side %d inside" % (space, label, i), fn, lambda F=F, R=R, cut=cut, g=g: one(F, R, cut, g))
            if n == 3:
                for inc in (TRUE, FALSE):
                    c.guard("classification %s, %s, side %d on the surface, %s" % (space, label, i, "counted" if inc == TRUE else "not counted"), fn, lambda F=F, R=R, cut=cut, g=g, inc=inc: one(F, R, cut, [], g, inc))
        c.guard("classification %s, %s, nothing inside" % (space, label), fn, lambda F=F, R=R, cut=cut: one(F, R, cut, []))
    for label, F, R, ins in (("octahedron", OCT, [], ["acd", "bfe", "bcf"]), ("octahedron, all inside", OCT, [], OCT), ("disc", *DISC, ["vbc"]), ("strip", *STRIP, ["abc", "dfe"]), ("strip, none", *STRIP, [])):
        c.guard("classification %s without cuts, %s" % (space, label), fn, lambda F=F, R=R, ins=ins: one(F, R, "", ins))
        c.guard("classification %s without cuts, %s and a removed face" % (space, label), fn, lambda F=F, R=R, ins=ins: one(F, R, "", ins, dead=("xyz",)))
        if n == 3:
            for inc in (TRUE, FALSE):
                c.guard("classification %s without cuts, %s on the surface, %s" % (space, label, "counted" if inc == TRUE else "not counted"), fn, lambda F=F, R=R, ins=ins, inc=inc: one(F, R, "", ins[:1], ins[1:], inc))
    for label in ("octahedron, equator", "octahedron, meridian"):
        F, R, cut = CASES[label]
        g = groups(F, cut)[0]
        c.guard("classification %s, %s and a removed face" % (space, label), fn, lambda F=F, R=R, cut=cut, g=g: one(F, R, cut, g, dead=("xyz",)))
        if n == 3:
            cop = [f for f in F if f not in g][1:3]
            for inc in (TRUE, FALSE):
                c.guard("classification %s, %s, shared faces %s" % (space, label, "counted" if inc == TRUE else "not counted"), fn, lambda F=F, R=R, cut=cut, g=g, inc=inc, cop=cop: one(F, R, cut, g, (), inc, coplanar=cop))
    # two separate regions inside
    SPLIT = (["abc", "bdc", "cde", "dfe", "efg"], ["acegfdb"])
    c.guard("classification %s, two separate regions inside" % space, fn, lambda: one(*SPLIT, "cb ef", ["abc", "efg"]))


def check(c):
    for n in (2, 3):
        spread(c, n)
