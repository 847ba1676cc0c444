"""C28: neighbourhood queries."""
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "The neighbourhood queries are interpreted on symbolic fans around a vertex - closed and open, with every choice of the recorded "
    "half-edge - inside an otherwise unknown mesh; the enumerated elements are compared with the fan's elements."
)
RULES = [
    "face loops: the three half-edges (corners) in next order from the face's half-edge, each once",
    "vertex stars: every outgoing half-edge / neighbour / incident face exactly once, in cyclic order",
    "edge lookup: the half-edge running from the first to the second vertex; tail and head queries agree with the links",
]
PARALLEL = True
SC = ("T", "TS", "M")
FANS = [(3, True), (4, True), (5, True), (17, True), (2, False), (3, False), (4, False), (12, False)]


def cyc(got, want, both=True):
    """is got the cycle want, in the same (or also the opposite) direction"""
    got = list(got)
    return got in rotations(want) or both and got in rotations(list(reversed(want)))


def check(c):
    N = 3
    for k, closed in FANS:
        faces, rings = fan(k, closed)
        rim = RIM[:k]
        what = "%s fan of %d neighbours" % ("closed" if closed else "open", k)
        for s in rim if k < 6 else rim[k // 2 : k // 2 + 1]:
            P = surface(c, N, faces, rings)
            P.spoke("v", "v" + s)
            m = P.value()

            def call(name, *args):
                fn = mesh_fn(c, name)
                r = c.run(fn, P.env(), args=[("ref", m)] + [P.V("v")] + list(args), setup=P.setup, scalars=SC)
                return r, r.ip

            def judge(r, seq, space, want, label, both=True, isset=False):
                if r.pc != TRUE:
                    return False, "%s: does not return when %s" % (label, showb(bnot(r.pc), 3, 1))
                got = names_of(r.ip, P, seq, space)
                if got is None:
                    op = opaque_part(seq)
                    return None, "%s: not a known list%s" % (label, " (contains %s)" % op if op else "")
                if None in got:
                    x = r.ip.expand(seq).args[got.index(None)]
                    op = opaque_part(x)
                    return (None if op else False), "%s: lists %s" % (label, op or "an element outside the star")
                ok = sorted(got) == sorted(want) if isset else cyc(got, want, both)
                return ok, "%s: %s for %s" % (label, got, list(want))

            def star():
                r, ip = call("outgoing_half_edges")
                return judge(r, r.ret, "he", ["v" + x for x in rim], "outgoing half-edges")

            c.guard("outgoing_half_edges, %s from %s" % (what, s), mesh_fn(c, "outgoing_half_edges"), star)

            def ring1():
                r, ip = call("one_ring_neighbors")
                return judge(r, r.ret, "v", list(rim), "neighbours")

            c.guard("one_ring_neighbors, %s from %s" % (what, s), mesh_fn(c, "one_ring_neighbors"), ring1)

            def around():
                r, ip = call("faces_around_vertex")
                return judge(r, r.ret, "f", faces, "faces around the vertex", isset=not closed)

            c.guard("faces_around_vertex, %s from %s" % (what, s), mesh_fn(c, "faces_around_vertex"), around)

            def incident():
                r, ip = call("incident_faces")
                ks = models.map_keys(ip, r.ret)
                if ks is None:
                    return None, "not a known set"
                return judge(r, ks, "f", faces, "incident faces", isset=True)

            c.guard("incident_faces, %s from %s" % (what, s), mesh_fn(c, "incident_faces"), incident)

            def vring():
                r, ip = call("vertex_ring_ccw")
                vf = [f[0] for f in c.F.adts[c.adt_path("VertexRing")]["variants"][0][1]]
                get = lambda n: ip.proj(r.ret, ("f", 0, vf.index(n)))
                res = judge(r, get("halfedges_ccw"), "he", ["v" + x for x in rim], "ring half-edges", both=False)
                if res[0] is not True:
                    return res
                R = Rules(c, r, P, m)
                order = [h[1] for h in names_of(ip, P, get("halfedges_ccw"), "he")]
                R.eq(get("center"), P.V("v"), "center")
                nb, fs = get("neighbors_ccw"), get("faces_ccw")
                R.eq(ip.seqlen(nb), num(k), "number of neighbours")
                R.eq(ip.seqlen(fs), num(k), "number of faces")
                for i, x in enumerate(order):
                    R.eq(ip.select(nb, num(i)), P.V(x), "neighbour %d" % i)
                    f = [g for g in faces if g[1] == x]
                    if f:
                        R.eq(R.some(ip.select(fs, num(i)), "face %d" % i), P.Fc(f[0]), "face %d" % i)
                    else:
                        R.true(ip.isvar(ip.select(fs, num(i)), 0, "std::option::Option"), "a face is reported on the border side")
                R.eq(get("is_border"), B(FALSE if closed else TRUE), "border flag")
                return R.result()

            c.guard("vertex_ring_ccw, %s from %s" % (what, s), mesh_fn(c, "vertex_ring_ccw"), vring)

            def touches():
                fn = mesh_fn(c, "vertex_touches_face")
                for f in faces + ["no"]:
                    r = c.run(fn, P.env(), args=[("ref", m), P.V("v"), P.Fc(f)], setup=P.setup, scalars=SC)
                    R = Rules(c, r, P, m)
                    R.true(r.pc, "does not return")
                    R.eq(r.ret, B(TRUE if f in faces else FALSE), "answer for %s" % f)
                    if R.result()[0] is not True:
                        return R.result()
                return R.result()

            c.guard("vertex_touches_face, %s from %s" % (what, s), mesh_fn(c, "vertex_touches_face"), touches)

    for t, label in ((["abc", "bax"], "interior edge"), (["abc"], "border edge"), (["bax"], "border edge on the other side"), (["abc", "bax", "bxc"], "interior edge with two common neighbours and a closed end")):
        rings = {2: ["acbx"], 1: [t[0][::-1]], 3: ["acx"]}[len(t)]

        def pair(t=t, rings=rings):
            P = surface(c, 3, t, rings)
            for v in P.vx:
                P.vx[v] = P.vx[v][:1]
            m = P.value()
            r = c.run(mesh_fn(c, "ring_pair"), P.env(), args=[("ref", m), P.V("a"), P.V("b")], setup=P.setup, scalars=SC)
            R, ip = Rules(c, r, P, m), r.ip
            R.true(r.pc, "does not return")
            x = R.some(r.ret, "result")
            fs = [f[0] for f in c.F.adts[c.adt_path("PairRing")]["variants"][0][1]]
            vf = [f[0] for f in c.F.adts[c.adt_path("VertexRing")]["variants"][0][1]]
            get = lambda n: ip.proj(x, ("f", 0, fs.index(n)))
            nb = {v: {h[1] for h in P.he if h[0] == v} for v in "ab"}
            R.eq(get("v0"), P.V("a"), "first vertex")
            R.eq(get("v1"), P.V("b"), "second vertex")
            for n, d in (("opposite_a", "ab"), ("opposite_b", "ba")):
                third = [f.replace("a", "").replace("b", "") for f in t if d in f + f[0]]
                if third:
                    R.eq(R.some(get(n), n), P.V(third[0]), n)
                else:
                    R.true(ip.isvar(get(n), 0, "std::option::Option"), n + " is reported on the border side")
            inside = all(any(d in f + f[0] for f in t) for d in ("ab", "ba"))
            R.eq(get("is_border_edge"), B(FALSE if inside else TRUE), "border edge flag")
            for n, v, w, i in (("ring0", "a", "b", "idx_v1_in_ring0"), ("ring1", "b", "a", "idx_v0_in_ring1")):
                ring = get(n)
                R.eq(ip.proj(ring, ("f", 0, vf.index("center"))), P.V(v), n + " center")
                hs = ip.proj(ring, ("f", 0, vf.index("halfedges_ccw")))
                R.eq(ip.seqlen(hs), num(len(nb[v])), n + " length")
                R.eq(ip.select(hs, R.some(get(i), i)), P.H(v + w), i)
            for n, want in (("common_neighbors", (nb["a"] - {"b"}) & (nb["b"] - {"a"})), ("union_neighbors", (nb["a"] - {"b"}) | (nb["b"] - {"a"}))):
                ks = models.map_keys(ip, get(n))
                got = None if ks is None else names_of(ip, P, ks, "v")
                if got is None or None in got:
                    return None, "%s not a known set" % n
                if sorted(got) != sorted(want):
                    return False, "%s: %s for %s" % (n, sorted(got), sorted(want))
            return R.result()

        c.guard("ring_pair, %s" % label, mesh_fn(c, "ring_pair"), pair)

    # one triangle with neighbours, every representative half-edge
    for N in (2, 3):
        for rep in range(3):
            P = surface(c, N, ["abc", "bax", "cby"], ["acybx"])
            P.fc["abc"] = arcs("abc")[rep]
            es = arcs("abc")[rep:] + arcs("abc")[:rep]
            vs = "abc"[rep:] + "abc"[:rep]
            m = P.value()

            def faceq(name, want, space, conv):
                fn = mesh_fn(c, name)

                def th():
                    r = c.run(fn, P.env(), args=[("ref", m), P.Fc("abc")], setup=P.setup, scalars=SC)
                    R = Rules(c, r, P, m)
                    R.true(r.pc, "does not return")
                    got = conv(r.ip, R, r.ret)
                    if got is None:
                        return None, "not a known list"
                    R.eq(num(len(got)), num(3), "number of elements")
                    for i, (g, w) in enumerate(zip(got, want)):
                        R.eq(g, P.idx(space, w), "element %d" % i)
                    return R.result()

                c.guard("%s N=%d from %s" % (name, N, es[0]), fn, th)

            def seq(ip, R, v):
                e = ip.expand(v)
                return list(e.args) if e.op in ("seq", "arr") else None

            faceq("face_half_edges", es, "he", seq)
            faceq("face_vertices", vs, "v", seq)
            faceq("face_edges", es, "he", lambda ip, R, v: [ip.proj(v, ("f", 0, i)) for i in range(3)])
            faceq("get_face_half_edges_iterative", es, "he", lambda ip, R, v: seq(ip, R, R.some(v, "result")))

            def adjacent():
                fn = mesh_fn(c, "are_faces_adjacent")
                for f, g, want in (("abc", "bax", TRUE), ("bax", "abc", TRUE), ("abc", "cby", TRUE), ("bax", "cby", FALSE), ("cby", "bax", FALSE)):
                    r = c.run(fn, P.env(), args=[("ref", m), P.Fc(f), P.Fc(g)], setup=P.setup, scalars=SC)
                    R = Rules(c, r, P, m)
                    R.true(r.pc, "does not return")
                    R.eq(r.ret, B(want), "%s next to %s" % (f, g))
                    if R.result()[0] is not True:
                        return R.result()
                return R.result()

            c.guard("are_faces_adjacent N=%d from %s" % (N, es[0]), mesh_fn(c, "are_faces_adjacent"), adjacent)

            def neighbours():
                fn = mesh_fn(c, "adjacent_faces")
                for f, want in (("abc", ["bax", "cby"]), ("bax", ["abc"]), ("cby", ["abc"])):
                    r = c.run(fn, P.env(), args=[("ref", m), P.Fc(f)], setup=P.setup, scalars=SC)
                    xs = models.cond_items(r.ip, r.st, r.ret)
                    if xs is not None:
                        for cnd, _ in xs:
                            if cnd not in (TRUE, FALSE):
                                op = opaque_part(B(cnd))
                                return (None if op else False), "a neighbour of %s is listed only when %s" % (f, op or showb(cnd, 3, 1))
                    got = None if xs is None else names_of(r.ip, P, mk("seq", *[x for cnd, x in xs if cnd == TRUE]), "f")
                    if got is None or None in got:
                        return None, "not a known list"
                    if sorted(got) != want:
                        return False, "faces next to %s: %s for %s" % (f, got, want)
                return True, ""

            c.guard("adjacent_faces N=%d from %s" % (N, es[0]), mesh_fn(c, "adjacent_faces"), neighbours)

            def byvertices():
                fn = mesh_fn(c, "face_from_vertices")
                for t, want in (("abc", "abc"), ("bca", "abc"), ("acb", "abc"), ("bax", "bax"), ("cby", "cby"), ("axc", None)):
                    r = c.run(fn, P.env(), args=[("ref", m)] + [P.V(x) for x in t], setup=P.setup, scalars=SC)
                    R = Rules(c, r, P, m)
                    R.true(r.pc, "does not return")
                    R.eq(r.ret, P.Fc(want) if want else num(MAXI), "face of corners %s" % t)
                    if R.result()[0] is not True:
                        return R.result()
                return R.result()

            for v in P.vx:
                P.vx[v] = P.vx[v][:1]
            m = P.value()
            c.guard("face_from_vertices N=%d, %s" % (N, es[0]), mesh_fn(c, "face_from_vertices"), byvertices)

        P = surface(c, N, ["abc"], ["acb"])
        P.gone += [("a", "z"), ("z", "a")]
        P.vx["z"] = ()
        m = P.value()

        def lookups():
            R = None
            for name, args, kind, want in (
                ("half_edge_between", ("a", "b"), "opt", "ab"),
                ("half_edge_between", ("b", "a"), "opt", "ba"),
                ("half_edge_between", ("a", "z"), "opt", None),
                ("vertices_connection", ("b", "c"), "plain", "bc"),
                ("vertices_connection", ("c", "b"), "plain", "cb"),
                ("vertices_connection", ("a", "z"), "plain", None),
                ("are_vertices_connected", ("a", "c"), "bool", True),
                ("are_vertices_connected", ("z", "a"), "bool", False),
                ("edge_half_edges", ("c", "a"), "pair", ("ca", "ac")),
                ("edge_half_edges", ("a", "z"), "pair", None),
            ):
                fn = mesh_fn(c, name)
                r = c.run(fn, P.env(), args=[("ref", m)] + [P.V(x) for x in args], setup=P.setup, scalars=SC)
                R = Rules(c, r, P, m)
                ip = r.ip
                lab = "%s(%s,%s)" % (name, args[0], args[1])
                R.true(r.pc, lab + " does not return")
                if kind in ("opt", "pair"):
                    if want is None:
                        R.true(ip.isvar(r.ret, 0, "std::option::Option"), lab + " finds an edge")
                    elif kind == "opt":
                        R.eq(R.some(r.ret, lab), P.H(want), lab)
                    else:
                        x = R.some(r.ret, lab)
                        for i in (0, 1):
                            R.eq(ip.proj(x, ("f", 0, i)), P.H(want[i]), lab + " side %d" % i)
                elif kind == "plain":
                    R.eq(r.ret, P.H(want) if want else num(MAXI), lab)
                else:
                    R.eq(r.ret, B(TRUE if want else FALSE), lab)
                if R.result()[0] is not True:
                    return R.result()
            return True, ""

        c.guard("edge lookups N=%d" % N, mesh_fn(c, "half_edge_between"), lookups)

        def ends():
            for h in P.he:
                for name, want in (("source", h[0]), ("target", h[1])):
                    r = c.run(mesh_fn(c, name), P.env(), args=[("ref", m), P.H(h)], setup=P.setup, scalars=SC)
                    R = Rules(c, r, P, m)
                    R.true(r.pc, "does not return")
                    R.eq(r.ret, P.V(want), "%s of %s" % (name, h))
                    if R.result()[0] is not True:
                        return R.result()
                r = c.run(mesh_fn(c, "segment_from_half_edge"), P.env(), args=[("ref", m), P.H(h)], setup=P.setup, scalars=SC)
                R = Rules(c, r, P, m)
                sf = [f[0] for f in c.F.adts[c.adt_path("Segment")]["variants"][0][1]]
                for n, want in (("a", h[0]), ("b", h[1])):
                    R.eq(r.ip.proj(r.ret, ("f", 0, sf.index(n))), P.point(want), "segment end %s of %s" % (n, h))
                r2 = c.run(mesh_fn(c, "rot_ccw_around_vertex"), P.env(), args=[("ref", m), P.H(h)], setup=P.setup, scalars=SC)
                prev = [x for x in P.he if P.he[x]["next"] == h][0]
                R.eq(r2.ret, P.H(prev[1] + prev[0]), "rotation from %s" % h)
                if R.result()[0] is not True:
                    return R.result()
            return True, ""

        c.guard("end points N=%d" % N, mesh_fn(c, "source"), ends)
