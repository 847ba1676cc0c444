"""C24: edge collapse."""
from collapse import *

EXPLAIN = (
    "The collapse gates and the collapse itself are interpreted on small meshes (closed, with border, with non-collapsible edges) whose vertex positions "
    "are free symbols, so every choice of coordinates is covered at once. The reported outcome is compared with the combinatorics of the edge, the "
    "accepting condition has to be that every surviving triangle keeps a positive area, and the mesh after an accepted collapse has to be the mesh with "
    "the edge contracted."
)
RULES = [
    "outcome: NotAdjacent / BorderForbidden / LinkCondition / TwoGon / DegenerateFace in this order, otherwise accepted",
    "accepted = the area of every surviving triangle at the new position exceeds the tolerance",
    "after an accepted collapse: remaining triangles with the removed vertex replaced, consistent half-edge structure, kept vertex at the chosen position",
    "begin from a half-edge keeps its tail and removes its head",
]
PARALLEL = True


def check(c):
    mid = c.ty("Midpoint")
    opath = c.adt_path("CollapseOpts")
    ofields = [f[0] for f in c.F.adts[opath]["variants"][0][1]]
    ppath = c.adt_path("CollapsePlan")
    pfields = [f[0] for f in c.F.adts[ppath]["variants"][0][1]]
    fb = bvar(("p", "forbid_border"))
    area = mk("sym", "area_eps2")
    opts = mk("struct", opath, 0, *[{"area_eps2": area, "forbid_border": B(fb)}.get(n, B(bvar(("p", n)))) for n in ofields])
    place = mk("struct", c.adt_path("Midpoint"), 0)

    def env_of(P, fn):
        e = P.env()
        for g in fn.generics:
            if g not in ("T", "N"):
                e[g] = mid
        return e

    def setup_of(P):
        def setup(ip):
            P.setup(ip)
            ip.typed(area, TP)

        return setup

    def expected(info):
        """(fixed rejection or None, rejection under forbid_border)"""
        if not info["adjacent"]:
            return ("NotAdjacent",)
        if not info["link"]:
            return ("LinkCondition",)
        if info["duplicate"]:
            return ("DuplicateEdges",)
        if info["twogon"]:
            return ("TwoGon",)
        return None

    def gate(c, r, P, info, u, v, out, policy):
        """policy: condition under which border edges are refused"""
        ip = r.ip
        if r.pc != TRUE:
            op = opaque_part(B(r.pc))
            return (None if op else False), "does not return when " + (op or showb(bnot(r.pc), 3, 1))
        if out is None:
            return None, "outcome not interpreted"
        rest = TRUE
        want = expected(info)
        if info["adjacent"] and info["border"]:
            ok, d = (True, "") if band(bnot(out.get("BorderForbidden", FALSE)), policy) == FALSE else (False, "a border edge is not refused")
            if not ok:
                return ok, d
            rest = bnot(policy)
        elif out.get("BorderForbidden", FALSE) != FALSE:
            return False, "refused as border edge"
        if band(rest, out.get("BorderForbidden", FALSE)) != FALSE:
            return False, "refused as border edge although allowed"
        if want:
            got = [n for n in out if band(out[n], rest) != FALSE]
            if not set(got) <= set(want):
                return False, "%s instead of %s" % (", ".join(sorted(set(got) - set(want))), want[0])
            return True, ""
        got = [n for n in out if n not in ("Ok", "DegenerateFace", "NormalFlip") and band(out[n], rest) != FALSE]
        if got:
            return False, "collapsible edge refused as " + ", ".join(got)
        if out.get("NormalFlip", FALSE) != FALSE:
            return None, "orientation test"
        return area_gate(ip, P, info, u, v, out.get("Ok", FALSE), rest, area)

    for label, (faces, rings, edges) in CASES.items():
        for e in edges:
            u, v = e
            info = combin(faces, u, v)

            # ---------------------------------------------------- the gates
            for nm in ("verify_collapse_prereqs", "collapse_edge_begin_vertices", "collapse_edge_begin_he"):
                fn = mesh_fn(c, nm)
                if nm.endswith("_he") and not info["adjacent"]:
                    continue

                def th(fn=fn, nm=nm, faces=faces, rings=rings, u=u, v=v, info=info):
                    P = mesh_of(c, faces, rings)
                    m = P.value()
                    who = [P.H(u + v)] if nm.endswith("_he") else [P.V(u), P.V(v)]
                    r = c.run(fn, env_of(P, fn), args=[("ref", m)] + who + [("ref", place), ("ref", opts)], setup=setup_of(P), scalars=SC)
                    ip = r.ip
                    out = outcome(c, ip, r.ret, r.pc)
                    ok, d = gate(c, r, P, info, u, v, out, fb)
                    if ok is not True:
                        return ok, d
                    good = out.get("Ok", FALSE)
                    if good == FALSE:
                        return True, ""
                    mp = [vdiv(vadd(x, y), num(2)) for x, y in zip(P.pos[u], P.pos[v])]
                    got = ip.proj(r.ret, ("f", 0, 0))
                    if nm != "verify_collapse_prereqs":
                        for fld, x in (("v_keep", u), ("v_gone", v)):
                            ok, d = c.same(ip, ip.proj(got, ("f", 0, pfields.index(fld))), P.V(x), good)
                            if ok is not True:
                                return ok, "%s: %s" % (fld, d)
                        got = ip.proj(got, ("f", 0, pfields.index("p_star")))
                    for a, b in zip(coords(ip, got, 3), mp):
                        ok, d = c.same(ip, a, b, good)
                        if ok is not True:
                            return ok, "chosen position: " + d
                    return True, ""

                c.guard("%s, %s, %s into %s" % (nm, label, v, u), fn, th)

            for nm, key, neg in (("check_link_condition_triangle", "link", False), ("collapse_link_condition_triangle", "link", False), ("would_create_duplicate_edges", "duplicate", True), ("would_create_2gons", "twogon", True)):
                fn = mesh_fn(c, nm)

                def th(fn=fn, nm=nm, key=key, neg=neg, faces=faces, rings=rings, u=u, v=v, info=info):
                    P = mesh_of(c, faces, rings)
                    m = P.value()
                    r = c.run(fn, P.env(), args=[("ref", m), P.V(u), P.V(v)], setup=P.setup, scalars=SC)
                    if r.pc != TRUE:
                        return False, "does not return"
                    want = info[key] if info["adjacent"] else neg
                    return c.same(r.ip, r.ret, B(TRUE if want else FALSE))

                c.guard("%s, %s, %s-%s" % (nm, label, u, v), fn, th)

            # ---------------------------------------------------- the collapse
            fn = mesh_fn(c, "collapse_edge")

            def th(fn=fn, faces=faces, rings=rings, u=u, v=v, info=info):
                P = mesh_of(c, faces, rings)
                m = P.value()
                r = c.run(fn, P.env(), args=[("ref", m), P.V(u), P.V(v)], setup=P.setup, scalars=SC)
                ip = r.ip
                out = outcome(c, ip, r.ret, r.pc)
                ok, d = gate(c, r, P, info, u, v, out, FALSE)
                if ok is not True:
                    return ok, d
                good = out.get("Ok", FALSE)
                if good == FALSE:
                    return True, ""
                return contracted(c, ip, P, ip.read(r.st, r.roots[0], ()), good, info, u, v, [vdiv(vadd(x, y), num(2)) for x, y in zip(P.pos[u], P.pos[v])])

            c.guard("collapse_edge, %s, %s into %s" % (label, v, u), fn, th)

            if not info["adjacent"] or expected(info):
                continue
            fn = mesh_fn(c, "collapse_edge_commit")

            def th(fn=fn, faces=faces, rings=rings, u=u, v=v, info=info):
                P = mesh_of(c, faces, rings)
                m = P.value()
                star = [mk("sym", "star%d" % i) for i in range(3)]
                pv = {"v_keep": P.V(u), "v_gone": P.V(v), "p_star": mk("struct", c.adt_path("Point"), 0, mk("arr", *star))}
                plan = mk("struct", ppath, 0, *[pv[n] for n in pfields])

                def setup(ip):
                    P.setup(ip)
                    for x in star:
                        ip.typed(x, TP)

                r = c.run(fn, P.env(), args=[("ref", m), plan], setup=setup, scalars=SC)
                ip = r.ip
                if r.pc != TRUE:
                    return False, "does not return"
                out = outcome(c, ip, r.ret, r.pc)
                if out is None:
                    return None, "outcome not interpreted"
                if set(out) != {"Ok"}:
                    return False, "a planned collapse is refused: " + ", ".join(out)
                return contracted(c, ip, P, ip.read(r.st, r.roots[0], ()), TRUE, info, u, v, star)

            c.guard("collapse_edge_commit, %s, %s into %s" % (label, v, u), fn, th)


def contracted(c, ip, P, fin, good, info, u, v, where):
    D = Decoded(ip, P, fin, good)
    if D.why:
        return None, D.why
    w = D.wrong()
    if w:
        return False, w
    want = sorted(cyclic(f) for f in info["after"])
    got = names(c, ip, P, D)
    if got != want:
        return False, "triangles %s instead of %s" % (" ".join(got), " ".join(want))
    for i, x in enumerate(P.vx):
        d = D.v[i]
        if d["removed"] != (x == v):
            return False, "vertex %s is %s" % (x, "removed" if d["removed"] else "not removed")
        if x == v:
            if d["half_edge"] is not None:
                return False, "the removed vertex keeps a half-edge"
            continue
        for a, b in zip(coords(ip, d["pos"], 3), where if x == u else P.pos[x]):
            ok, t = c.same(ip, a, b, good)
            if ok is not True:
                return ok, "position of %s: %s" % (x, t)
    return True, ""
