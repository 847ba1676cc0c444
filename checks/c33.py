"""C33: tangential smoothing."""
from lib import *
from common import *
from mesh import *
from collapse import mesh_of, SC, TWO, OCT, STRIP, unchanged

EXPLAIN = (
    "Smoothing is interpreted on discs, closed surfaces and bordered patches given as numbered tables. The moved vertex has unknown coordinates, the factor and "
    "the length bound are unknown, and one neighbour at a time has an unknown offset while the others have fixed general ones. The new position has to be "
    "the old one plus the factor times the tangential part of the mean neighbour offset, as a rational function of all unknowns."
)
RULES = [
    "boundary, removed and unknown vertices: false is returned and no table differs",
    "true => new position = old + factor * (mean offset - its normal part), offset perpendicular to the summed face normals",
    "true => no incident edge of the new position is longer than the bound",
    "false => no table differs; in any case only the position of the vertex differs",
    "a sweep moves the interior vertex of a disc by the same rule within the length bound, and nothing else",
]
PARALLEL = True

NUMS = [2, -1, 3, 5, 1, -2, -3, 4, 1, -4, -2, 7, 6, -5, 2, 1, 3, -6, -1, 5, 4]


def posed(c, faces, rings, v, free):
    P = mesh_of(c, faces, rings)
    a = [mk("sym", "a%d" % i) for i in range(3)]
    P.pos[v] = a
    U = {}
    syms = list(a)
    for j, x in enumerate(P.vx):
        if x == v:
            continue
        if x == free:
            U[x] = [mk("sym", "u%d" % i) for i in range(3)]
            syms += U[x]
        else:
            U[x] = [num(NUMS[(3 * j + i) % len(NUMS)]) for i in range(3)]
        P.pos[x] = [vadd(a[i], U[x][i]) for i in range(3)]
    return P, a, U, syms


AL, MX = mk("sym", "alpha"), mk("sym", "maxsq")


def run(c, P, syms, v, N=3):
    m = P.value()

    def setup(ip):
        P.setup(ip)
        for t in syms + [AL, MX]:
            ip.typed(t, TP)

    r = c.run(mesh_fn(c, "smooth_tangential"), P.env(), args=[("ref", m), v, AL, ("ref", MX)], setup=setup, scalars=SC)
    return r, m


def told(ip, r):
    return band(r.pc, bool_of(r.ret))


def settle(t, b):
    """t under b"""
    out = UNDEF
    for x, _ in leaves(t, b):
        out = x if out is UNDEF else vite(_, x, out)
    return out


def final(r):
    return r.ip.read(r.st, r.roots[0], ())


def moved(ip, P, m, v, pt):
    """m with the position of v replaced"""
    i, k = P.mfields.index("vertices"), P.vf.index("position")
    tab = m.args[2 + i]
    j = list(P.vx).index(v)
    x = tab.args[j]
    x = mk("struct", *x.args[:2], *[pt if n == k else y for n, y in enumerate(x.args[2:])])
    tab = mk("seq", *[x if n == j else y for n, y in enumerate(tab.args)])
    return mk("struct", *m.args[:2], *[tab if n == i else y for n, y in enumerate(m.args[2:])])


def tangential(F, v, ring, U):
    """squared summed face normal, mean neighbour offset without its part along that normal"""
    n = [ZERO] * 3
    for f in F:
        if v in f:
            i = f.index(v)
            n = vplus(n, cross3(U[f[(i + 1) % 3]], U[f[(i + 2) % 3]]))
    d = [ZERO] * 3
    for x in ring:
        d = vplus(d, U[x])
    d = [vdiv(x, num(len(ring))) for x in d]
    nn = dot(n, n)
    k = vdiv(dot(d, n), nn)
    return nn, vminus(d, vscale(n, k))


def check(c):
    fn = mesh_fn(c, "smooth_tangential")
    fans = [(*fan(k, True), "v", "abcdef"[:k]) for k in (3, 4, 5, 6)]
    cases = [("disc of %d triangles" % len(F), F, R, v, ring) for F, R, v, ring in fans]
    cases.append(("disc around two vertices", *TWO, "u", "wabcd"))
    cases.append(("octahedron", OCT, [], "a", "cdef"))
    for label, F, R, v, ring in cases:
        for free in [""] + list(ring):

            def th(F=F, R=R, v=v, ring=ring, free=free):
                P, a, U, syms = posed(c, F, R, v, free)
                r, m = run(c, P, syms, P.V(v))
                ip = r.ip
                yes = told(ip, r)
                no = band(r.pc, bnot(yes))
                if r.pc != TRUE:
                    return False, "does not always return"
                nn, t = tangential(F, v, ring, U)
                # a sum of squares is never negative
                flat, _, neg = sgn(nn)
                yes, no = band(yes, bnot(neg)), band(no, bnot(neg))
                want = [vadd(a[i], vmul(AL, t[i])) for i in range(3)]
                live = band(yes, bnot(flat))
                if live == FALSE:
                    return False, "an interior vertex is never moved"
                fin = final(r)
                pt = View(ip, P, fin).v(P.V(v), "position")
                for i, x in enumerate(coords(ip, pt, 3)):
                    x = settle(x, live)
                    if x is not want[i]:
                        return (None, "coordinate not interpreted") if opaque_part(x) else (False, "coordinate %d of the new position is not the tangential mean" % i)
                for x in ring:
                    e = vminus(want, P.pos[x])
                    if band(live, sgn(vsub(dot(e, e), MX))[1]) != FALSE:
                        return False, "a vertex is moved although the edge to neighbour %s gets longer than the bound" % x
                ok, d = unchanged(c, ip, P, m, fin, no)
                if ok is not True:
                    return ok, "a refused move changes " + d
                ok, d = unchanged(c, ip, P, moved(ip, P, m, v, pt), fin, yes)
                return (True, "new position, edge bound and all other tables agree") if ok is True else (ok, "a move changes " + d)

            c.guard("interior vertex of %s, %s" % (label, "neighbour %s unknown" % free if free else "neighbours fixed"), fn, th)

    # ---------------------------------------------------------------- never moved
    still = [("border vertex of an open fan of %d" % k, *fan(k, False), "v", ()) for k in (1, 2, 3, 4)]
    still += [("border vertex %s of a strip" % x, *STRIP, x, ()) for x in "abcdef"]
    still += [("rim vertex %s of a disc" % x, *fan(5, True), x, ()) for x in "abc"]
    still += [("removed vertex of a disc", *fan(4, True), "v", ("v",))]
    for label, F, R, v, dead in still:

        def th(F=F, R=R, v=v, dead=dead):
            P, a, U, syms = posed(c, F, R, v, None)
            for x in dead:
                P.dead.add(("v", x))
            r, m = run(c, P, syms, P.V(v))
            ip = r.ip
            if r.pc != TRUE:
                return False, "does not always return"
            if told(ip, r) != FALSE:
                return False, "reports a move"
            ok, d = unchanged(c, ip, P, m, final(r), TRUE)
            return ok, d or "no table differs"

        c.guard(label, fn, th)

    def beyond():
        P, a, U, syms = posed(c, *fan(4, True), "v", None)
        r, m = run(c, P, syms, num(len(P.vx)))
        if r.pc != TRUE:
            return False, "does not always return"
        if told(r.ip, r) != FALSE:
            return False, "reports a move"
        ok, d = unchanged(c, r.ip, P, m, final(r), TRUE)
        return ok, d or "no table differs"

    c.guard("vertex beyond the table", fn, beyond)

    def alone():
        P, a, U, syms = posed(c, *fan(4, True), "v", None)
        P.vx["lone"] = []
        P.pos["lone"] = [mk("sym", "l%d" % i) for i in range(3)]
        r, m = run(c, P, syms + P.pos["lone"], P.V("lone"))
        if r.pc != TRUE:
            return False, "does not always return"
        if told(r.ip, r) != FALSE:
            return False, "reports a move"
        ok, d = unchanged(c, r.ip, P, m, final(r), TRUE)
        return ok, d or "no table differs"

    c.guard("vertex without edges", fn, alone)

    # ---------------------------------------------------------------- sweeps
    sweep = mesh_fn(c, "smooth_vertices")
    L = mk("sym", "maxlen")
    for k in (3, 4, 5):
        for rounds in (0, 1, 2):
            for dead in ("", "v"):

                def th(k=k, rounds=rounds, dead=dead):
                    F, R = fan(k, True)
                    P, a, U, syms = posed(c, F, R, "v", None)
                    for x in dead:
                        P.dead.add(("v", x))
                    m = P.value()

                    def setup(ip):
                        P.setup(ip)
                        for t in syms + [L]:
                            ip.typed(t, TP)

                    r = c.run(sweep, P.env(), args=[("ref", m), num(rounds), ("ref", L)], setup=setup, scalars=SC)
                    ip = r.ip
                    if r.pc != TRUE:
                        return False, "does not always return"
                    fin = final(r)
                    pt = View(ip, P, fin).v(P.V("v"), "position")
                    want = moved(ip, P, m, "v", pt) if rounds and not dead else m
                    ok, d = unchanged(c, ip, P, want, fin, TRUE)
                    if ok is not True:
                        return ok, "a sweep changes " + d
                    if rounds != 1 or dead:
                        return True, "nothing else differs"
                    t = tangential(F, "v", "abcdef"[:k], U)[1]
                    new = vplus(a, vscale(t, vdiv(ONE, num(2))))
                    fits = TRUE
                    for x in "abcdef"[:k]:
                        e = vminus(new, P.pos[x])
                        fits = band(fits, bnot(sgn(vsub(dot(e, e), vmul(L, L)))[1]))
                    for g, o, w in zip(coords(ip, pt, 3), a, new):
                        for leaf, b in leaves(g):
                            if leaf is w and band(b, bnot(fits)) != FALSE:
                                return False, "the vertex moves although an edge gets longer than the bound"
                            if leaf is not w and leaf is not o:
                                return (None, "not interpreted") if opaque_part(leaf) else (False, "the vertex does not move to the tangential mean")
                    return True, "moves to the tangential mean within the bound"

                c.guard("%d sweeps over a disc of %d%s" % (rounds, k, ", vertex removed" if dead else ""), sweep, th)
