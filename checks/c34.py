"""C34: face selection of boolean operations."""
from segs import *

EXPLAIN = (
    "The boolean operation is interpreted for each operation, in the plane and in space, on pairs of numbered meshes (closed, open, with removed faces) with unknown vertex positions that have no "
    "intersection segments; the inside/outside test is left unknown per mesh and tested point, each tested point being attributed to the face whose corners it is computed from. "
    "The triangles handed to the result are recorded with the condition and the corner positions."
)
RULES = [
    "union: a live face is added iff it does not test inside the other mesh; intersection: iff it tests inside; difference: first mesh's faces iff not inside, second mesh's iff inside",
    "each face is added at most once, with its own corner positions in its own orientation, reversed for the second mesh of a difference",
]
PARALLEL = True
OPS = ("Union", "Intersection", "Difference")
TETRA = ["abc", "acd", "adb", "bdc"]
MESHES = {
    "closed": (TETRA, [], ()),
    "one triangle": (["abc"], ["acb"], ()),
    "square": (["abc", "bdc"], ["acdb"], ()),
    "first face removed": (["abc", "bdc", "cde"], ["acedb"], ("abc",)),
    "middle face removed": (["abc", "bdc", "cde"], ["acedb"], ("bdc",)),
}
PAIRS = [("closed", "closed"), ("closed", "square"), ("square", "closed"), ("first face removed", "one triangle"), ("one triangle", "middle face removed"), ("middle face removed", "first face removed")]


def symbols(t, out=None, seen=None):
    """names of the symbols a value depends on"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t.id in seen:
        return out
    seen.add(t.id)
    if t.op == "sym":
        out.add(t.args[0])
        return out
    for x in t.args:
        walk(x, out, seen)
    return out


def walk(x, out, seen):
    if isinstance(x, T):
        symbols(x, out, seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            walk(y, out, seen)


def build(c, label, n, tag):
    F, R, dead = MESHES[label]
    P = mesh_of(c, F, R, n)
    P.tag = tag
    for f in dead:
        P.dead.add(("f", f))
    for x in P.vx:
        P.point(x)
    return P


def owner(ps, v):
    """(mesh, faces) a point value is computed from"""
    names = symbols(v)
    for P in ps:
        own = {x: {s.args[0] for s in P.pos[x]} for x in P.vx}
        vs = [x for x in P.vx if own[x] & names]
        if vs and all(any(n in own[x] for x in vs) for n in names if n.startswith(P.tag + ".")):
            return P, [f for f in P.fc if sorted(f) == sorted(vs)]
    return None, []


def select(c):
    fn = mesh_fn(c, "corefine_and_boolean")
    adds = mesh_fn(c, "add_triangle")
    opp = c.adt_path("BooleanOp")
    ops = [v[0] for v in c.F.adts[opp]["variants"]]
    for o in OPS:
        if o not in ops:
            raise MissingAnchor("no boolean operation `%s`" % o)
    pim = c.adt_path("PointInMeshResult")
    pv = [v[0] for v in c.F.adts[pim]["variants"]]

    def one(la, lb, n, op):
        A, Bm = build(c, la, n, "A"), build(c, lb, n, "B")
        ps = [A, Bm]
        log = []
        odd = []

        def test(ip, st, args, p):
            me = ip.deref_all(st, args[0])
            i = A.mfields.index("vertices")
            target = symbols(ip.proj(me, ("f", 0, i)))
            P, fs = owner(ps, p)
            if P is None or len(fs) != 1:
                odd.append("a point that belongs to no single face is tested")
                return bvar(("tested", p))
            other = ps[1 - ps.index(P)]
            if not any(s.args[0] in target for x in other.vx for s in other.pos[x]):
                odd.append("a face of %s is tested against its own mesh" % P.tag)
                return bvar(("tested own", P.tag, fs[0]))
            return bvar(("inside", P.tag, fs[0]))

        def pim3(ip, st, args, atys, dty, r):
            p = ip.deref_all(st, args[2])
            b = test(ip, st, args, p)
            return vite(b, mk("struct", pim, pv.index("Inside")), mk("struct", pim, pv.index("Outside")))

        def pim2(ip, st, args, atys, dty, r):
            return B(test(ip, st, args, ip.deref_all(st, args[1])))

        def cuts(ip, st, args, atys, dty, r):
            return mk("struct", "tuple", 0, mk("seq"), mk("seq"))

        def addt(ip, st, args, atys, dty, r):
            me = ip.deref_all(st, args[0])
            vs = ip.proj(me, ("f", 0, A.mfields.index("vertices")))
            cs = []
            for a in args[1:4]:
                x = ip.proj(ip.select(vs, a), ("f", 0, A.vf.index("position")))
                cs.append(tuple(coords(ip, x, n)))
            log.append((st.pc, cs))
            return ip.typed(mk("sym", "added%d" % len(log)), USIZE)

        def nop(ip, st, args, atys, dty, r):
            return mk("struct", "tuple", 0)

        def tree(ip, st, args, atys, dty, r):
            return ip.typed(mk("sym", "tree"), dty)

        def box(ip, st, args, atys, dty, r):
            return vmap(lambda x: ip.typed(mk("boxof", x), dty), args[1])

        ov = insertion(c, A)[0]
        ov = {mesh_fn(c, "add_vertex").path: ov[mesh_fn(c, "add_vertex").path], mesh_fn(c, "face_aabb").path: box}
        ov[adds.path] = addt
        ov[mesh_fn(c, "point_in_mesh_3").path] = pim3
        ov[mesh_fn(c, "point_in_mesh_2").path] = pim2
        for k in ("get_mesh_intersections_2", "get_mesh_intersections_3"):
            ov[mesh_fn(c, k).path] = cuts
        for k in ("remove_duplicate_vertices", "remove_unused_vertices", "remove_invalidated_faces"):
            ov[mesh_fn(c, k).path] = nop
        for k, f in c.find(r"^AabbTree<.*>::build$"):
            ov[f.path] = tree

        def setup(ip):
            A.setup(ip)
            Bm.setup(ip)

        r = c.run(fn, A.env(), args=[("ref", A.value()), ("ref", Bm.value()), mk("struct", opp, ops.index(op))], setup=setup, scalars=SC, overrides=ov)
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not return when %s" % showb(bnot(r.pc), 3, 1)[:120]
        if odd:
            return False, odd[0]
        used = [FALSE] * len(log)
        for P in ps:
            first = P is A
            for f in P.fc:
                ins = bvar(("inside", P.tag, f))
                want = {"Union": bnot(ins), "Intersection": ins, "Difference": bnot(ins) if first else ins}[op]
                if ("f", f) in P.dead:
                    want = FALSE
                ring = [tuple(P.pos[x]) for x in f]
                flip = op == "Difference" and not first
                got = FALSE
                for i, (pc, cs) in enumerate(log):
                    if cs in rotations(ring[::-1] if flip else ring):
                        if band(got, pc) != FALSE:
                            return False, "face %s of mesh %s is added twice" % (f, P.tag)
                        got = bor(got, pc)
                        used[i] = TRUE
                if got != want:
                    op2 = opaque_part(B(got))
                    rev = any(cs in rotations(ring if flip else ring[::-1]) for _, cs in log)
                    return (None if op2 else False), "face %s of mesh %s is added when %s%s" % (f, P.tag, showb(got, 3, 1)[:80], ", in the wrong orientation otherwise" if rev else "")
        for u, (pc, cs) in zip(used, log):
            if u == FALSE and pc != FALSE:
                op2 = next((opaque_part(x) for p in cs for x in p if opaque_part(x)), None)
                return (None if op2 else False), "a triangle that is no face of either mesh is added"
        return True, "%d triangles" % len(log)

    for n in (2, 3):
        for op in OPS:
            for la, lb in PAIRS:
                c.guard("%s in %d dimensions, %s with %s" % (op.lower(), n, la, lb), fn, lambda n=n, op=op, la=la, lb=lb: one(la, lb, n, op))


def check(c):
    select(c)
