"""C25: refused edits."""
from collapse import *
import c19
import c22

EXPLAIN = (
    "Edge flip, edge collapse and triangle insertion are interpreted on symbolic meshes, both on configurations that are always refused and on those where "
    "the refusal depends on positions or on unknown parts of the mesh. Under the condition that failure is reported every table of the mesh has to be "
    "the one passed in; under success the tables have to differ."
)
RULES = [
    "failure reported => vertices, half-edges, faces, lookups and bookkeeping are the initial ones",
    "success reported => the edit is in the tables",
]
PARALLEL = True


def check(c):
    # ---------------------------------------------------------------- flipping
    fn = mesh_fn(c, "flip_edge")
    for N in (2, 3):
        for label, he, kw in (
            ("an interior edge", "ab", {}),
            ("an edge with a face-less twin", "ab", dict(twin_face=None)),
            ("a border half-edge", "ba", dict(twin_face=None)),
            ("a retired half-edge", "ab", dict(removed=("ab",))),
            ("an edge with a retired twin", "ab", dict(removed=("ba",))),
            ("an edge with a retired neighbour", "ab", dict(removed=("bc",))),
            ("an edge with a retired neighbour across", "ab", dict(removed=("db",))),
        ):

            def th(N=N, he=he, kw=kw):
                P = c19.quad(c, N, **kw)
                m = P.value()
                r = c.run(fn, P.env(), args=[("ref", m), P.H(he)], setup=P.setup, scalars=c19.SC)
                ip = r.ip
                ok = c19.is_ok(ip, r.ret)
                R = Rules(c, r, P, m, pc=band(r.pc, bnot(ok)))
                R.unchanged("a refused flip")
                good = band(r.pc, ok)
                if good != FALSE:
                    R2 = Rules(c, r, P, m, pc=good)
                    R2.absent(P.V("a"), P.V("b"), "flipped edge after reported success")
                    if R2.result()[0] is not True:
                        return R2.result()
                return R.result()

            c.guard("flip_edge N=%d of %s" % (N, label), fn, th)

        def beyond(N=N):
            P = c19.quad(c, N)
            m = P.value()
            x = mk("sym", "he")

            def setup(ip):
                P.setup(ip)
                ip.typed(x, USIZE)

            r = c.run(fn, P.env(), args=[("ref", m), View(interp.Interp(c.F), P, m).len("half_edges")], setup=setup, scalars=c19.SC)
            ip = r.ip
            bad = band(r.pc, c19.is_ok(ip, r.ret))
            if bad != FALSE:
                return False, "a half-edge beyond the table is flipped"
            if r.pc != TRUE:
                return False, "does not return"
            R = Rules(c, r, P, m)
            R.unchanged("a refused flip")
            return R.result()

        c.guard("flip_edge N=%d beyond the table" % N, fn, beyond)

    # ---------------------------------------------------------------- adding
    for N in (2, 3):
        for rot in range(3):
            for nm, batch in (("add_triangle", False), ("add_triangles_deferred", True)):
                fn2 = mesh_fn(c, nm)

                def th(N=N, rot=rot, fn2=fn2, batch=batch):
                    P, after = c22.shape(c, N, "blocked", batch)
                    m = P.value()
                    vs = [P.V("abc"[(i + rot) % 3]) for i in range(3)]
                    args = [("ref", m)] + ([("ref", mk("arr", mk("struct", "tuple", 0, *vs)))] if batch else vs)
                    r = c.run(fn2, P.env(), args=args, setup=P.setup, scalars=c22.SC)
                    if r.pc != TRUE:
                        return False, "does not return when " + showb(bnot(r.pc), 3, 1)
                    R = Rules(c, r, P, m)
                    if batch:
                        R.eq(r.ip.seqlen(r.ret), ZERO, "number of faces reported by a blocked insertion")
                    else:
                        R.eq(r.ret, num(MAXI), "result of a blocked insertion")
                    R.unchanged("a blocked insertion")
                    return R.result()

                c.guard("%s N=%d blocked, corner %d first" % (nm, N, rot), fn2, th)

    # ---------------------------------------------------------------- collapsing
    fc = mesh_fn(c, "collapse_edge")
    for label, (faces, rings, edges) in CASES.items():
        for u, v in edges + [edges[0][0] * 2]:

            def th(faces=faces, rings=rings, u=u, v=v):
                P = mesh_of(c, faces, rings)
                m = P.value()
                r = c.run(fc, P.env(), args=[("ref", m), P.V(u), P.V(v)], setup=P.setup, scalars=SC)
                ip = r.ip
                if r.pc != TRUE:
                    op = opaque_part(B(r.pc))
                    return (None if op else False), "does not return when " + (op or showb(bnot(r.pc), 3, 1))
                out = outcome(c, ip, r.ret, r.pc)
                if out is None:
                    return None, "outcome not interpreted"
                fin = ip.read(r.st, r.roots[0], ())
                for n, b in out.items():
                    if n == "Ok":
                        D = Decoded(ip, P, fin, b)
                        if D.why:
                            return None, D.why
                        if not D.v[list(P.vx).index(v)]["removed"]:
                            return False, "success is reported although %s is still there" % v
                        continue
                    ok, d = unchanged(c, ip, P, m, fin, b)
                    if ok is not True:
                        return ok, "refused as %s but modified: %s" % (n, d)
                return True, ""

            c.guard("collapse_edge, %s, %s into %s" % (label, v, u), fc, th)

    # planned collapses that cannot be carried out
    fk = mesh_fn(c, "collapse_edge_commit")
    ppath = c.adt_path("CollapsePlan")
    pfields = [f[0] for f in c.F.adts[ppath]["variants"][0][1]]
    for label, u, v, gone in (("a vertex into itself", "a", "a", None), ("vertices without an edge", "a", "b", None), ("an edge with a retired twin", "a", "c", "ca")):

        def th(u=u, v=v, gone=gone):
            P = mesh_of(c, OCT, [])
            if gone:
                P.he[gone]["removed"] = True
            m = P.value()
            star = [mk("sym", "star%d" % i) for i in range(3)]
            pv = {"v_keep": P.V(u), "v_gone": P.V(v), "p_star": mk("struct", c.adt_path("Point"), 0, mk("arr", *star))}

            def setup(ip):
                P.setup(ip)
                for x in star:
                    ip.typed(x, TP)

            r = c.run(fk, P.env(), args=[("ref", m), mk("struct", ppath, 0, *[pv[n] for n in pfields])], setup=setup, scalars=SC)
            ip = r.ip
            if r.pc != TRUE:
                return False, "does not return"
            out = outcome(c, ip, r.ret, r.pc)
            if out is None:
                return None, "outcome not interpreted"
            if out.get("Ok", FALSE) != FALSE:
                return False, "success is reported"
            ok, d = unchanged(c, ip, P, m, ip.read(r.st, r.roots[0], ()), TRUE)
            return ok, ("modified: " + d) if d else ""

        c.guard("collapse_edge_commit of " + label, fk, th)
