"""C38: faces replaced by their triangulations."""
from segs import *
from collapse import agree

EXPLAIN = (
    "The rewriting step is interpreted on numbered meshes with unknown positions, for one or several subdivided faces (alone, adjacent, sharing cut points, in every order), "
    "and the resulting tables are decoded. The batch triangulation is interpreted on job lists with the point insertion left unknown, reading off which points each result carries."
)
RULES = [
    "live faces afterwards = untouched faces + the global triangle of every local triangle, in the orientation of the face; all other live faces keep their corners",
    "the half-edge structure of the result is intact and no vertex moves",
    "in a boolean operation each mesh is cut, subdivided, rewritten and classified with its own segments, jobs and triangulations, in this order",
    "the k-th result of the batch triangulation carries the points of the k-th job",
]
PARALLEL = True
OCT = ["acd", "ade", "aef", "afc", "bdc", "bed", "bfe", "bcf"]
TETRA = ["abc", "acd", "adb", "bdc"]
DISC = fan(5, True)
# label: (faces, border loops, extra vertices, jobs: (face, local vertices, local triangles))
STAR = lambda f, p: (f, f + p, [(0, 1, 3), (1, 2, 3), (2, 0, 3)])
EDGE = lambda f, p, i: (f, f + p, [(i, 3, (i + 2) % 3), (3, (i + 1) % 3, (i + 2) % 3)])
CASES = {
    "one inner point": (OCT, [], "p", [STAR("acd", "p")]),
    "two distant faces": (OCT, [], "pq", [STAR("acd", "p"), STAR("bfe", "q")]),
    "two adjacent faces": (OCT, [], "pq", [STAR("acd", "p"), STAR("bdc", "q")]),
    "cut on the shared edge": (OCT, [], "p", [EDGE("acd", "p", 1), EDGE("bdc", "p", 1)]),
    "cut on the shared edge, other order": (OCT, [], "p", [EDGE("bdc", "p", 1), EDGE("acd", "p", 1)]),
    "three faces": (OCT, [], "pqr", [STAR("aef", "p"), STAR("acd", "q"), STAR("bed", "r")]),
    "tetrahedron": (TETRA, [], "pq", [STAR("adb", "q"), STAR("abc", "p")]),
    "inner point of a disc face": (*DISC, "p", [STAR("vab", "p")]),
    "cut on the border of a disc": (*DISC, "p", [EDGE("vab", "p", 1)]),
    "cut between two disc faces": (*DISC, "pq", [("vab", "vabp", [(0, 1, 3), (1, 2, 3)]), ("vbc", "vbcp", [(0, 3, 2), (3, 1, 2)])]),
    "chord across a face": (OCT, [], "pq", [("acd", "acdpq", [(0, 1, 3), (0, 3, 4), (4, 3, 2)]), EDGE("bdc", "p", 1), ("ade", "adeq", [(0, 3, 2), (3, 1, 2)])]),
    "lone triangle": (["abc"], ["acb"], "p", [STAR("abc", "p")]),
    "both faces of a square": (["abc", "bdc"], ["acdb"], "pq", [EDGE("bdc", "p", 2), EDGE("abc", "p", 1)]),
    "unchanged face": (OCT, [], "", [("aef", "aef", [(0, 1, 2)])]),
    "local corners listed from another corner": (OCT, [], "p", [("acd", "cdap", [(0, 1, 3), (1, 2, 3), (2, 0, 3)])]),
}


def job(c, P, f, verts):
    return record(c, "FaceJobUV", {"face_id": P.Fc(f), "verts_global": mk("seq", *[P.V(x) for x in verts]), "points_uv": mk("seq", *[uv(c, f, x) for x in verts]), "segments": mk("seq")})


def uv(c, f, x):
    return point(c, [mk("sym", "uv(%s in %s)%d" % (x, f, k)) for k in range(2)])


def tri(c, t):
    return mk("struct", c.adt_path("Triangle"), 0, *[num(i) for i in t])


def rewrite(c):
    fn = c.fn("rewrite_faces_from_cdt_batch")

    def one(label, n):
        faces, rings, extra, jobs = CASES[label]
        P = mesh_of(c, faces, rings, n)
        for x in extra:
            P.vx[x] = ()
        m = P.value()
        js = mk("seq", *[job(c, P, f, vs) for f, vs, ts in jobs])
        ds = mk("seq", *[record(c, "Delaunay", {"points": mk("seq", *[uv(c, f, x) for x in vs]), "triangles": mk("seq", *[tri(c, t) for t in ts])}) for f, vs, ts in jobs])
        env = P.env()
        r = c.run(fn, env, args=[("ref", m), ("ref", js), ("ref", ds)], setup=P.setup, scalars=SC)
        ip = r.ip
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not return when %s" % showb(bnot(r.pc), 3, 1)[:120]
        fin = ip.deref_all(r.st, r.args[0])
        D = Decoded(ip, P, fin)
        if D.why:
            return None, D.why
        w = D.wrong()
        if w:
            return False, w
        want = [f for f in faces if f not in [j[0] for j in jobs]]
        for f, vs, ts in jobs:
            want += ["".join(vs[i] for i in t) for t in ts]
        vs = list(P.vx)
        if len(D.v) != len(vs):
            return False, "the number of vertices changes"
        for i, x in enumerate(vs):
            if D.pos(ip, i, n) != tuple(P.pos[x]) or D.v[i]["removed"]:
                return False, "vertex %s moves or disappears" % x
        got = sorted(cyclic("".join(vs[i] for i in t)) for t in D.triangles())
        want = sorted(cyclic(t) for t in want)
        if got != want:
            miss = ["".join(t) for t in want if t not in got]
            more = ["".join(t) for t in got if t not in want]
            return False, "missing faces %s, unexpected faces %s" % (miss, more)
        return True, ""

    for label in CASES:
        c.guard("rewriting, %s" % label, fn, lambda label=label: one(label, 3))


def pairing(c):
    fn = None
    for k, f in c.find(r"^Delaunay<.*>::build_batch_with_constraints_bowyer_watson$"):
        fn = f
    if fn is None:
        raise MissingAnchor("no batch triangulation of face jobs")
    ins = [f for k, f in c.find(r"^Delaunay<.*>::bowyer_watson_insert_point$")]
    box = [f for k, f in c.find(r"^bbox_approx2d$")]

    def one(sizes):
        P = mesh_of(c, OCT, [], 3)
        m = P.value()
        names = "abcdef"
        jobs = [(f, names[:k]) for f, k in zip(OCT, sizes)]
        js = mk("seq", *[job(c, P, f, vs) for f, vs in jobs])
        ov = {f.path: (lambda ip, st, args, atys, dty, r: mk("struct", "tuple", 0)) for f in ins}
        for f in box:
            ov[f.path] = lambda ip, st, args, atys, dty, r: mk("struct", "tuple", 0, point(c, [mk("sym", "lo0"), mk("sym", "lo1")]), point(c, [mk("sym", "hi0"), mk("sym", "hi1")]))
        r = c.run(fn, P.env(), args=[("ref", js), ("ref", m)], setup=P.setup, scalars=SC, overrides=ov)
        ip = r.ip
        e = ip.expand(r.ret)
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not return when %s" % showb(bnot(r.pc), 3, 1)[:120]
        if e.op not in ("seq", "arr"):
            return None, "list of results not known"
        if len(e.args) != len(jobs):
            return False, "%d results for %d jobs" % (len(e.args), len(jobs))
        for i, ((f, vs), d) in enumerate(zip(jobs, e.args)):
            ok, why = agree(ip, field(c, ip, d, "Delaunay", "points"), mk("seq", *[uv(c, f, x) for x in vs]), TRUE)
            if ok is not True:
                return ok, "result %d does not carry the points of job %d: %s" % (i, i, why)
        return True, ""

    if not ins:
        c.ob("pairing", None, fn, "point insertion not found")
        return
    for sizes in ((), (3,), (2,), (3, 4), (4, 3, 5), (3, 2), (2, 3), (3, 2, 4), (2, 4, 1, 3)):
        c.guard("pairing, jobs with %s points" % (list(sizes),), fn, lambda sizes=sizes: one(sizes))


def pipeline(c):
    """a boolean operation subdivides each mesh by its own cuts"""
    from c34 import symbols, build

    fn = mesh_fn(c, "corefine_and_boolean")
    opp = c.adt_path("BooleanOp")
    ops = [v[0] for v in c.F.adts[opp]["variants"]]

    def one(n, op):
        ps = [build(c, "closed", n, t) for t in "AB"]
        log = []

        def tag(ip, st, x):
            """which mesh a value is about"""
            names = symbols(ip.deref_all(st, x))
            ts = {t for t in "AB" if any(m.startswith((t + ".", "cut " + t)) for m in names)}
            return "".join(sorted(ts)) or "-"

        def names(ip, st, x):
            return sorted(m for m in symbols(ip.deref_all(st, x)) if m.startswith(("jobs(", "cdts(")))

        def cuts(ip, st, args, atys, dty, r):
            log.append(("cut", tag(ip, st, args[0]), tag(ip, st, args[1])))
            mkseg = lambda t: mk("seq", segment(c, point(c, [mk("sym", "cut %s p%d" % (t, i)) for i in range(n)]), point(c, [mk("sym", "cut %s q%d" % (t, i)) for i in range(n)]), 0, FALSE, 0, 1))
            return mk("struct", "tuple", 0, mkseg("A"), mkseg("B"))

        def service(kind, ret=None):
            def f(ip, st, args, atys, dty, r):
                e = (kind,) + tuple(tag(ip, st, a) if "Mesh" in str(t) or "IntersectionSegment" in str(t) else (names(ip, st, a) or ["-"])[0] for a, t in zip(args, atys))
                log.append(e)
                if ret is None:
                    return mk("struct", "tuple", 0)
                if ret == "unknown":
                    return ip.typed(mk("sym", "%s #%d" % (kind, len(log))), dty)
                return mk("seq", mk("sym", "%s(%s)" % (ret, ", ".join(e[1:]))))

            return f

        def cdt(ip, st, args, atys, dty, r):
            j = (names(ip, st, args[0]) or ["-"])[0]
            log.append(("triangulate", j))
            return mk("seq", mk("sym", "cdts(%s)" % j))

        def classify(ip, st, args, atys, dty, r):
            t = tag(ip, st, args[0])
            log.append(("classify", t, tag(ip, st, args[1]), tag(ip, st, args[2])))
            return mk("seq", *[B(bvar(("inside", t, i))) for i in range(4)])

        ov = {}
        for k in ("get_mesh_intersections_2", "get_mesh_intersections_3"):
            ov[mesh_fn(c, k).path] = cuts
        for k, ret in (("remove_duplicate_and_invalid_segments", None), ("allocate_vertices_for_splits_no_topology", "unknown"), ("build_face_pslgs_2", "jobs"), ("build_face_pslgs_3", "jobs"), ("rewrite_faces_from_cdt_batch", None)):
            ov[c.fn(k).path] = service(k, ret)
        for k, f in c.find(r"^Delaunay<.*>::build_batch_with_constraints_bowyer_watson$"):
            ov[f.path] = cdt
        for k in ("build_links", "classify_faces_2", "classify_faces_3"):
            try:
                f = mesh_fn(c, k)
            except MissingAnchor:
                return None, "no function `%s`" % k
            ov[f.path] = classify if "classify" in k else service(k, "unknown")
        ov[mesh_fn(c, "add_triangle").path] = lambda ip, st, args, atys, dty, r: ip.typed(mk("sym", "added"), dty)
        ov[mesh_fn(c, "add_vertex").path] = insertion(c, ps[0])[0][mesh_fn(c, "add_vertex").path]
        for k in ("remove_duplicate_vertices", "remove_unused_vertices", "remove_invalidated_faces"):
            ov[mesh_fn(c, k).path] = lambda ip, st, args, atys, dty, r: mk("struct", "tuple", 0)

        def setup(ip):
            for P in ps:
                P.setup(ip)

        r = c.run(fn, ps[0].env(), args=[("ref", ps[0].value()), ("ref", ps[1].value()), mk("struct", opp, ops.index(op))], setup=setup, scalars=SC, overrides=ov)
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not return when %s" % showb(bnot(r.pc), 3, 1)[:120]
        at = {}
        for i, e in enumerate(log):
            at.setdefault(e, i)
        want = []
        if ("cut", "A", "B") not in at:
            return False, "the two meshes are not intersected with each other"
        last = {}
        for t in "AB":
            pslg = "build_face_pslgs_%d" % n
            jobs = "jobs(%s, %s)" % (t, t)
            chain = [("cut", "A", "B"), ("allocate_vertices_for_splits_no_topology", t, t), (pslg, t, t), ("triangulate", jobs), ("rewrite_faces_from_cdt_batch", t, jobs, "cdts(%s)" % jobs)]
            pos = -1
            for e in chain:
                if e not in at:
                    return False, "mesh %s: step %s with the mesh's own cuts is missing" % (t, e[0])
                if at[e] < pos:
                    return False, "mesh %s: step %s comes too early" % (t, e[0])
                pos = at[e]
            last[t] = pos
        for t, o in (("A", "B"), ("B", "A")):
            e = ("classify", t, o, t)
            if e not in at:
                return False, "faces of mesh %s are not classified against the other mesh with the mesh's own cuts" % t
            if at[e] < max(last.values()):
                return False, "faces of mesh %s are classified before both meshes are subdivided" % t
        wrong = [e for e in log if e[0] in ("rewrite_faces_from_cdt_batch", "classify") and e not in [("classify", "A", "B", "A"), ("classify", "B", "A", "B")] and not (e[0] != "classify" and e[2] == "jobs(%s, %s)" % (e[1], e[1]) and e[3] == "cdts(%s)" % e[2])]
        if wrong:
            return False, "step %s mixes the two meshes" % wrong[0][0]
        return True, ""

    for n in (2, 3):
        for op in ops:
            c.guard("boolean %s in %d dimensions subdivides each mesh by its own cuts" % (op.lower(), n), fn, lambda n=n, op=op: one(n, op))


def check(c):
    pipeline(c)
    rewrite(c)
    pairing(c)
