"""C20: edge split."""
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "The split is interpreted on a symbolic mesh with one named edge and its one or two triangles; the stores are followed through the "
    "tables and the result compared, link by link, with the two or four triangles of the split."
)
RULES = [
    "interior: triangles (w,b,c),(w,a,b),(w,c,d),(w,d,a) with all links; border: (a,b,w),(w,b,c) plus linked border half-edges",
    "old faces and half-edges retired, lookups of the old edge gone, reported faces are the created ones, box tree in step",
]
SC = ("T", "TS")


PARALLEL = True


def patch(c, N, interior, loops=True):
    P = Patch(c, N)
    # he = c->a in face f1 = (c,a,b); twin a->c in face f2 = (a,c,d) or on the border
    P.tri("f1", ("ca", "ab", "bc"), ("c", "a", "b"))
    if interior:
        P.tri("f2", ("ac", "cd", "da"), ("a", "c", "d"))
    else:
        P.half("ac", "c", "cx", "ya", "ca", None)
        P.keys.append(("a", "c", "ac"))
        P.half("cx", "x", None, "ac", None, None)
        P.half("ya", "a", "ac", None, None, None)
    P.twin("ca", "ac")
    for e, o in (("ab", "ba"), ("bc", "cb")) + ((("cd", "dc"), ("da", "ad")) if interior else ()):
        P.outside(o, o[1], e)
        P.he[e]["twin"] = o
        P.keys.append((o[0], o[1], o))
    P.spoke("a", None, "ac", "ab")
    P.spoke("c", None, "ca", "cb")
    P.spoke("b", None, "bc", "ba")
    if interior:
        P.spoke("d", None, "da", "dc")
    return P


def check(c):
    fn = mesh_fn(c, "split_edge")
    sp = c.adt_path("SplitResult")
    sf = [f[0] for f in c.F.adts[sp]["variants"][0][1]]
    kp = c.adt_path("SplitResultKind")
    kinds = [v[0] for v in c.F.adts[kp]["variants"]]
    upd = bvar(("p", "update_tree"))

    def run(P, m, he, log, N):
        ov, fresh = insertion(c, P, log)
        q = [mk("sym", "q%d" % i) for i in range(N)]
        qv = mk("struct", c.adt_path("Point"), 0, mk("arr", *q))

        def su(ip):
            P.setup(ip)
            for x in q:
                ip.typed(x, TP)
            ip.typed(mk("sym", "tree"), None)

        r = c.run(fn, P.env(), args=[("ref", m), None, P.H(he), ("ref", qv), B(upd)], setup=su, scalars=SC, overrides=ov)
        return r, fresh, qv

    def common(R, r, P, fresh, qv):
        ip = r.ip
        ok = ip.isvar(r.ret, 0, "std::result::Result")
        R.true(ok, "the split of a valid edge fails")
        res = ip.proj(r.ret, ("f", 0, 0))
        get = lambda k: ip.proj(res, ("f", 0, sf.index(k)))
        return get

    for N in (2, 3):
        for interior in (True, False):
            for he in ("ca", "ac") if interior else ("ca",):
                P = patch(c, N, interior)
                m = P.value()

                def th(P=P, m=m, N=N, interior=interior, he=he):
                    log = []
                    r, fresh, qv = run(P, m, he, log, N)
                    ip = r.ip
                    if band(fresh, bnot(r.pc)) != FALSE:
                        return False, "the split does not return when %s" % showb(band(fresh, bnot(r.pc)), 3, 1)
                    R = Rules(c, r, P, m, pc=band(r.pc, fresh))
                    get = common(R, r, P, fresh, qv)
                    V, ini = R.fin, R.ini
                    w = ini.len("vertices")
                    R.eq(get("vertex"), w, "reported vertex")
                    R.true(ip.isvar(get("kind"), kinds.index("SplitEdge"), kp), "reported kind is not an edge split")
                    R.eq(V.v(w, "position"), qv, "position of the new vertex")
                    a, b, cc = [P.V(x) for x in "abc"]
                    tris = [((cc, w, b), "triangle (c,w,b)"), ((w, a, b), "triangle (w,a,b)")]
                    if interior:
                        d = P.V("d")
                        tris += [((a, w, d), "triangle (a,w,d)"), ((w, cc, d), "triangle (w,c,d)")]
                    fs = []
                    for vs, label in tris:
                        h = V.get(vs[0], vs[1])
                        f = R.some(V.h(h, "face"), label + " face")
                        fs.append((f, label))
                        R.triangle(f, vs, label)
                    for i in range(len(fs)):
                        for j in range(i):
                            R.true(bnot(ip.eq(fs[i][0], fs[j][0])), "%s and %s share a face" % (fs[i][1], fs[j][1]))
                        for o in ("f1", "f2")[: 2 if interior else 1]:
                            R.true(bnot(ip.eq(fs[i][0], P.Fc(o))), "%s uses a retired face" % fs[i][1])
                    # reported faces = created faces
                    nf = get("new_faces")
                    n = 4 if interior else 2
                    items = [ip.select(nf, num(i)) for i in range(4)]
                    for f, label in fs:
                        R.true(bor(*[ip.eq(x, f) for x in items]), label + " is not among the reported faces")
                    for i, x in enumerate(items):
                        R.true(bor(ip.eq(x, num(MAXI)), *[ip.eq(x, f) for f, _ in fs]), "reported face %d was not created" % i)
                    R.eq(V.len("faces"), vadd(ini.len("faces"), num(n)), "number of faces")
                    for o in ("f1", "f2")[: 2 if interior else 1]:
                        R.retired_face(P.Fc(o), "split face " + o)
                    for h in ("ca", "ac"):
                        R.retired_half(P.H(h), "split half-edge " + h)
                    R.absent(a, cc, "split edge a->c")
                    R.absent(cc, a, "split edge c->a")
                    for n in "abcd" if interior else "abc":
                        R.spoke(P.V(n), "vertex " + n)
                        R.eq(V.v(P.V(n), "position"), ini.v(P.V(n), "position"), "position of %s" % n)
                    R.spoke(w, "new vertex")
                    for o in ("ba", "cb") + (("dc", "ad") if interior else ()):
                        R.same_half(P.H(o), "outer half-edge " + o)
                    if not interior:
                        aw = R.border(a, w, "border a->w")
                        wc = R.border(w, cc, "border w->c")
                        for x, y, label in ((P.H("ya"), aw, "before the split edge"), (aw, wc, "along the split edge"), (wc, P.H("cx"), "after the split edge")):
                            R.eq(V.h(x, "next"), y, "border next %s" % label)
                            R.eq(V.h(y, "prev"), x, "border prev %s" % label)
                    R.frame()
                    tree_events(R, [(band(e[0], fresh),) + e[1:] for e in log], upd, [(P.Fc(o), "split face " + o) for o in ("f1", "f2")[: 2 if interior else 1]], fs)
                    return R.result()

                c.guard("split_edge N=%d %s, called on %s" % (N, "interior" if interior else "border", he), fn, th)

                def reuse(P=P, m=m, N=N, he=he):
                    log = []
                    r, fresh, qv = run(P, m, he, log, N)
                    ip = r.ip
                    R = Rules(c, r, P, m, pc=band(r.pc, bnot(fresh)))
                    get = common(R, r, P, fresh, qv)
                    R.true(ip.isvar(get("kind"), kinds.index("NoSplit"), kp), "a split at an existing vertex is reported as split")
                    R.eq(get("vertex"), P.V("reused"), "reported vertex")
                    R.unchanged("a split at an existing vertex")
                    for e in log:
                        R.true(bnot(e[0]), "box tree changed by a split at an existing vertex")
                    return R.result()

                c.guard("split_edge N=%d %s at an existing vertex, called on %s" % (N, "interior" if interior else "border", he), fn, reuse)
