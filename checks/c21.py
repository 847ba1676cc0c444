"""C21: face split."""
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "The split is interpreted on a symbolic mesh with one named face; the point location service is replaced by its possible answers. "
    "The stores are followed through the tables and compared, link by link, with the three triangles around the new vertex."
)
RULES = [
    "inside: triangles (a,b,w),(b,c,w),(c,a,w) with all links, old face retired, outer links unchanged",
    "on a vertex: nothing changes and that vertex is reported; on an edge: the edge split is performed on that edge",
]
SC = ("T", "TS")


PARALLEL = True


def check(c):
    fn = mesh_fn(c, "split_face")
    sp = c.adt_path("SplitResult")
    sf = [f[0] for f in c.F.adts[sp]["variants"][0][1]]
    kp = c.adt_path("SplitResultKind")
    kinds = [v[0] for v in c.F.adts[kp]["variants"]]
    upd = bvar(("p", "update_tree"))
    fr = c.adt_path("FindFaceResult")
    frv = c.F.adts[fr]["variants"]
    names = [x[0] for x in frv]
    ffn = mesh_fn(c, "find_valid_face")
    sefn = mesh_fn(c, "split_edge")

    for N in (2, 3):
        P = Patch(c, N)
        P.tri("f", ("ab", "bc", "ca"), ("a", "b", "c"))
        for e, o in (("ab", "ba"), ("bc", "cb"), ("ca", "ac")):
            P.outside(o, o[1], e)
            P.he[e]["twin"] = o
            P.keys.append((o[0], o[1], o))
        P.spoke("a", None, "ab", "ac")
        P.spoke("b", None, "bc", "ba")
        P.spoke("c", None, "ca", "cb")
        m = P.value()
        q = [mk("sym", "q%d" % i) for i in range(N)]
        qv = mk("struct", c.adt_path("Point"), 0, mk("arr", *q))

        def run(P, m, start, answer, log, calls, N=N, q=q, qv=qv):
            ov, fresh = insertion(c, P, log)
            seen = []

            def locate(ip, st, args, atys, dty, r):
                seen.append((args[1], ip.deref_all(st, args[2])))
                return answer

            def edge(ip, st, args, atys, dty, r):
                calls.append((st.pc, args[2], ip.deref_all(st, args[3]), args[4]))
                return ip.typed(mk("sym", "edge split result"), dty)

            ov[ffn.path] = locate
            ov[sefn.path] = edge

            def su(ip):
                P.setup(ip)
                for x in q + [mk("sym", "u"), mk("sym", "b0"), mk("sym", "b1"), mk("sym", "b2")]:
                    ip.typed(x, TP)

            r = c.run(fn, P.env(), args=[("ref", m), None, start, ("ref", qv), B(upd)], setup=su, scalars=SC, overrides=ov)
            return r, seen

        def enum(var, **kw):
            k = names.index(var)
            return mk("struct", fr, k, *[kw[x[0]] for x in frv[k][1]])

        bary = mk("struct", "tuple", 0, *[mk("sym", "b%d" % i) for i in range(3)])

        def inside(P=P, m=m, N=N, q=q, qv=qv):
            log, calls = [], []
            r, seen = run(P, m, P.Fc("start"), enum("Inside", f=P.Fc("f"), bary=bary), log, calls)
            ip = r.ip
            if r.pc != TRUE:
                return False, "the split does not return when %s" % showb(bnot(r.pc), 3, 1)
            R = Rules(c, r, P, m)
            for a0, p0 in seen:
                R.eq(a0, P.Fc("start"), "face handed to the point location")
                R.eq(p0, qv, "point handed to the point location")
            R.true(ip.isvar(r.ret, 0, "std::result::Result"), "the split of a live face fails")
            res = ip.proj(r.ret, ("f", 0, 0))
            get = lambda k: ip.proj(res, ("f", 0, sf.index(k)))
            V, ini = R.fin, R.ini
            w = ini.len("vertices")
            R.eq(get("vertex"), w, "reported vertex")
            R.true(ip.isvar(get("kind"), kinds.index("SplitFace"), kp), "reported kind is not a face split")
            R.eq(V.v(w, "position"), qv, "position of the new vertex")
            a, b, cc = [P.V(x) for x in "abc"]
            fs = []
            for vs, label in (((a, b, w), "triangle (a,b,w)"), ((b, cc, w), "triangle (b,c,w)"), ((cc, a, w), "triangle (c,a,w)")):
                f = R.some(V.h(V.get(vs[0], vs[1]), "face"), label + " face")
                fs.append((f, label))
                R.triangle(f, vs, label)
            for i in range(3):
                for j in range(i):
                    R.true(bnot(ip.eq(fs[i][0], fs[j][0])), "%s and %s share a face" % (fs[i][1], fs[j][1]))
                R.true(bnot(ip.eq(fs[i][0], P.Fc("f"))), fs[i][1] + " uses the retired face")
            items = [ip.select(get("new_faces"), num(i)) for i in range(4)]
            for f, label in fs:
                R.true(bor(*[ip.eq(x, f) for x in items]), label + " is not among the reported faces")
            for i, x in enumerate(items):
                R.true(bor(ip.eq(x, num(MAXI)), *[ip.eq(x, f) for f, _ in fs]), "reported face %d was not created" % i)
            R.eq(V.len("faces"), vadd(ini.len("faces"), num(3)), "number of faces")
            R.eq(V.len("half_edges"), vadd(ini.len("half_edges"), num(6)), "number of half-edges")
            R.retired_face(P.Fc("f"), "split face")
            for n in "abc":
                R.spoke(P.V(n), "vertex " + n)
                R.eq(V.v(P.V(n), "position"), ini.v(P.V(n), "position"), "position of %s" % n)
            R.spoke(w, "new vertex")
            for o in ("ba", "cb", "ac"):
                R.same_half(P.H(o), "outer half-edge " + o)
            R.frame()
            tree_events(R, log, upd, [(P.Fc("f"), "split face")], fs)
            for e in calls:
                R.true(bnot(e[0]), "an edge is split for a point inside the face")
            return R.result()

        c.guard("split_face N=%d inside" % N, fn, inside)

        def vertex(P=P, m=m, N=N):
            log, calls = [], []
            r, seen = run(P, m, P.Fc("f"), enum("OnVertex", f=P.Fc("f"), v=P.V("b")), log, calls)
            ip = r.ip
            R = Rules(c, r, P, m)
            R.true(r.pc, "does not return")
            R.true(ip.isvar(r.ret, 0, "std::result::Result"), "fails")
            res = ip.proj(r.ret, ("f", 0, 0))
            get = lambda k: ip.proj(res, ("f", 0, sf.index(k)))
            R.eq(get("vertex"), P.V("b"), "reported vertex")
            R.true(ip.isvar(get("kind"), kinds.index("NoSplit"), kp), "reported as split")
            R.unchanged("a split at an existing vertex")
            for e in log + calls:
                R.true(bnot(e[0]), "something is split for a point at an existing vertex")
            return R.result()

        c.guard("split_face N=%d at a vertex" % N, fn, vertex)

        def onedge(P=P, m=m, N=N, qv=qv):
            log, calls = [], []
            r, seen = run(P, m, P.Fc("f"), enum("OnEdge", f=P.Fc("f"), he=P.H("bc"), u=mk("sym", "u")), log, calls)
            ip = r.ip
            R = Rules(c, r, P, m)
            if not calls:
                return False, "no edge is split for a point on an edge"
            R.eq(r.ret, mk("sym", "edge split result"), "reported result")
            for pc, he, p, u in calls:
                R.eq(he, P.H("bc"), "split half-edge")
                R.eq(p, qv, "split point")
                R.eq(u, B(upd), "tree update flag")
            R.unchanged("a split on an edge, apart from the edge split,")
            return R.result()

        c.guard("split_face N=%d on an edge" % N, fn, onedge)
