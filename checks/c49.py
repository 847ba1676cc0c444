"""C49: tables and measures derived from the whole mesh."""
from segs import *
from c35 import CASES, OCT, DISC, STRIP, TWO

EXPLAIN = (
    "The tables are built on numbered meshes with unknown vertex positions: closed and open surfaces, every cut of a list of edges. The result is read back entry by entry and compared with the "
    "faces and edges of the mesh; boxes are attributed to faces by the corner positions they are computed from, and the mean edge length is compared as a normal form."
)
RULES = [
    "adjacency: each face is listed with exactly the faces across its edges",
    "cut table: for each cut edge exactly the pair of faces beside it, degenerate cuts add nothing",
    "face boxes: one box per face, from its three corners, labelled with the face",
    "mean edge length = square root of the mean squared length, every edge counted once; 1 for a mesh without edges",
]
PARALLEL = True
MESHES = {"octahedron": (OCT, []), "disc": DISC, "strip": STRIP, "two inner vertices": TWO, "single triangle": (["abc"], ["acb"]), "two-sided triangle": (["abc", "acb"], [])}


def fresh(c, F, R, n=3):
    P = mesh_of(c, F, R, n)
    P.extra["half_edge_split_map"] = mk("mnew")
    P.extra["face_split_map"] = mk("mnew")
    for x in P.vx:
        P.point(x)
    return P


def over(F):
    edge = {e: f for f in F for e in arcs(f)}
    return {f: sorted(edge[e[1] + e[0]] for e in arcs(f) if e[1] + e[0] in edge) for f in F}


def held(r):
    if r.pc != TRUE:
        return (None if opaque_part(B(r.pc)) else False), "does not return when %s" % showb(bnot(r.pc), 3, 1)[:120]


def constant(t):
    b = bool_of(t)
    return None if b not in (TRUE, FALSE) else b == TRUE


def adjacency(c, fn, F, R):
    P = fresh(c, F, R)
    r = c.run(fn, P.env(), args=[("ref", P.value())], setup=P.setup, scalars=SC)
    if held(r):
        return held(r)
    ip, fs = r.ip, list(P.fc)
    for f, want in over(F).items():
        has = constant(ip.mhas(r.ret, num(fs.index(f))))
        if not has:
            return has, "no entry for face %s" % f
        e = ip.expand(ip.mget(r.ret, num(fs.index(f))))
        if e.op != "seq" or any(ip.expand(x).op != "num" for x in e.args):
            return None, "entry of face %s not known" % f
        got = sorted(fs[int(ip.expand(x).args[0])] for x in e.args)
        if got != want:
            return False, "face %s is listed next to %s instead of %s" % (f, got, want)
    return True, ""


def cuts(c, fn, F, R, cut):
    P = fresh(c, F, R)
    vi, fs = list(P.vx).index, list(P.fc)
    segs = [segment(c, P.point(e[0]), P.point(e[1]), 0, FALSE, vi(e[0]), vi(e[1])) for e in cut.split()]
    r = c.run(fn, P.env(), args=[("ref", P.value()), ("ref", mk("seq", *segs))], setup=P.setup, scalars=SC)
    if held(r):
        return held(r)
    ip = r.ip
    edge = {e: f for f in F for e in arcs(f)}
    want = {frozenset((edge[e], edge[e[1] + e[0]])) for e in cut.split() if e[0] != e[1]}
    for i, f in enumerate(fs):
        for j in range(i, len(fs)):
            has = [constant(ip.mhas(r.ret, models.tup2(num(x), num(y)))) for x, y in ((i, j), (j, i))]
            if None in has:
                return None, "entry not known"
            if any(has) != (frozenset((f, fs[j])) in want):
                return False, "faces %s and %s are %s as separated by the cut" % (f, fs[j], "listed" if any(has) else "not listed")
    return True, ""


def boxes(c, fn, F, R, n):
    P = fresh(c, F, R, n)
    got = []

    def box(ip, st, args, atys, dty, r):
        t = mk("boxof", *[ip.deref_all(st, a) for a in args])
        o = dty[0] == "adt" and dty[1] == OPT
        x = ip.typed(t, dty[2][0] if o else dty)
        return models.opt(bvar(("fast", t)), x) if o else x

    def build(ip, st, args, atys, dty, r):
        got.append((st.pc if hasattr(st, "pc") else TRUE, ip.deref_all(st, args[0])))
        return ip.typed(mk("sym", "tree"), dty)

    ov = {f.path: box for k, f in c.find(r"^compute_triangle_aabb_(fast|exact)$")}
    ov[mesh_fn(c, "face_aabb").path] = lambda ip, st, args, atys, dty, r: vmap(lambda x: ip.typed(mk("boxface", x), dty), args[1])
    for k, f in c.find(r"^AabbTree<.*>::build(_with_lookup)?$"):
        ov[f.path] = build
    r = c.run(fn, P.env(), args=[("ref", P.value())], setup=P.setup, scalars=SC, overrides=ov)
    if held(r):
        return held(r)
    ip, fs = r.ip, list(P.fc)
    if len(got) != 1:
        return None, "boxes not handed to one tree"
    e = ip.expand(got[0][1])
    if e.op != "seq":
        return None, "list of boxes not known"
    seen = []
    for x in e.args:
        x = ip.expand(x)
        if x.op != "struct" or ip.expand(x.args[3]).op != "num":
            return None, "label not known"
        f = fs[int(ip.expand(x.args[3]).args[0])]
        seen.append(f)
        for b, _ in leaves(x.args[2]):
            if b.op == "boxface":
                if b.args[0] is not P.Fc(f):
                    return False, "the box of another face is stored for face %s" % f
                continue
            if b.op != "boxof":
                return None, "box not known"
            cs = [coords(ip, p, n) for p in b.args]
            for v in f:
                if not any(all(g is w for g, w in zip(q, coords(ip, P.point(v), n))) for q in cs):
                    return False, "the box stored for face %s is computed without its corner %s" % (f, v)
    if sorted(seen) != sorted(fs):
        return False, "boxes for %s, faces %s" % (sorted(seen), sorted(fs))
    return True, ""


def mean(c, fn, F, R, n):
    P = fresh(c, F, R, n)

    def want(r, ip):
        es = {frozenset(e) for f in F for e in arcs(f)}
        t = []
        for e in sorted(map(sorted, es)):
            d = vminus(coords(ip, P.point(e[1]), n), coords(ip, P.point(e[0]), n))
            t.append(dot(d, d))
        exp = mk("sqrt", vdiv(vsum(t), num(len(t)))) if t else ONE
        return [("mean ", r.ret, exp)]

    def th():
        def setup(ip):
            P.setup(ip)
            ip.no_tolerance = True

        r = c.run(fn, P.env(), args=[("ref", P.value())], setup=setup, scalars=SC)
        if held(r):
            return held(r)
        (_, got, exp), = want(r, r.ip)
        g = r.ip.expand(got)
        if g.op == "sqrt" and exp.op == "sqrt":
            return c.same(r.ip, deround(g.args[0]), deround(exp.args[0]))
        return c.same(r.ip, deround(got), exp)

    return th()


def check(c):
    adj = mesh_fn(c, "build_face_adjacency_graph")
    for label, (F, R) in MESHES.items():
        c.guard("adjacency, %s" % label, adj, lambda F=F, R=R: adjacency(c, adj, F, R))
    bm = mesh_fn(c, "build_boundary_map")
    for label, (F, R, cut) in CASES.items():
        c.guard("cut table, %s" % label, bm, lambda F=F, R=R, cut=cut: cuts(c, bm, F, R, cut))
    for name in ("build_face_tree", "build_face_tree_with_lookup"):
        fn = mesh_fn(c, name)
        for label, (F, R) in MESHES.items():
            for n in (2, 3) if "two-sided" not in label else (3,):
                c.guard("%s, %s in %d dimensions" % (name, label, n), fn, lambda F=F, R=R, n=n, fn=fn: boxes(c, fn, F, R, n))
    # the measure remeshing falls back to is the same one
    for av in [mesh_fn(c, "compute_average_edge_length")] + [f for k, f in c.find(r"::rms_edge_length_f64$")]:
        for label, (F, R) in list(MESHES.items()) + [("no edges", ([], []))]:
            for n in (2, 3):
                c.guard("%s, %s in %d dimensions" % (av.path.split("::")[-1], label, n), av, lambda F=F, R=R, n=n, av=av: mean(c, av, F, R, n))
