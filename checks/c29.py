"""C29: boundary queries."""
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "Boundary queries are interpreted on symbolic fans inside an unknown mesh, and on meshes whose tables consist of named elements "
    "(with a retired border half-edge and face among them); the reported elements and the rebuilt border links are compared with the "
    "face-less half-edges of the mesh."
)
RULES = [
    "a vertex is a boundary vertex exactly when one of its outgoing half-edges has no face",
    "the list of boundary vertices contains exactly the live vertices on a face-less half-edge",
    "rebuilding the loops links every face-less half-edge to the one starting at its head, both ways, and changes no other link",
]
PARALLEL = True
SC = ("T", "TS", "M")

#: triangles, border loops
MESHES = [
    ("triangle", ["abc"], ["acb"]),
    ("two triangles", ["abc", "bad"], ["acbd"]),
    ("strip of four", ["abc", "cbd", "cde", "edf"], ["acefdb"]),
    ("closed fan of four", *fan(4, True)),
    ("open fan of four", *fan(5, False)),
    ("ring of six triangles with a hole", ["abx", "xby", "bcy", "ycz", "caz", "zax"], ["acb", "xyz"]),
    ("tetrahedron", ["abc", "acd", "adb", "bdc"], []),
    ("two separate triangles", ["abc", "def"], ["acb", "dfe"]),
]


def retire(P):
    """a removed triangle with removed border, and a removed vertex without half-edge"""
    for h, nx, pv, hd, f in (("r1", "r2", "r3", "Y", "old"), ("r2", "r3", "r1", "Z", "old"), ("r3", "r1", "r2", "X", "old"), ("s1", "s3", "s2", "X", None), ("s2", "s1", "s3", "Y", None), ("s3", "s2", "s1", "Z", None)):
        P.half(h, hd, nx, pv, ("s" if h[0] == "r" else "r") + h[1], f, removed=True)
    P.fc["old"] = "r1"
    P.dead.add(("f", "old"))
    for v in "XYZ":
        P.vx[v] = ()
        P.dead.add(("v", v))


def check(c):
    isb = mesh_fn(c, "is_boundary_vertex")
    for k, closed in [(3, True), (4, True), (5, True), (14, True), (2, False), (3, False), (4, False), (14, False)]:
        faces, rings = fan(k, closed)
        for s in RIM[:k] if k < 6 else RIM[k // 2]:

            def th():
                P = surface(c, 3, faces, rings)
                P.spoke("v", "v" + s)
                m = P.value()
                r = c.run(isb, P.env(), args=[("ref", m), P.V("v")], setup=P.setup, scalars=SC)
                R = Rules(c, r, P, m)
                R.true(r.pc, "does not return")
                R.eq(r.ret, B(FALSE if closed else TRUE), "answer")
                return R.result()

            c.guard("is_boundary_vertex, %s fan of %d from %s" % ("closed" if closed else "open", k, s), isb, th)

    bv = mesh_fn(c, "boundary_vertices")
    bl = mesh_fn(c, "build_boundary_loops")
    for label, faces, rings in MESHES:
        for old in (False, True):

            def make(old=old, faces=faces, rings=rings, scramble=False):
                P = surface(c, 3, faces, rings)
                for v in P.vx:
                    P.vx[v] = P.vx[v][:1]
                P.closed = True
                if old:
                    retire(P)
                return P

            def listed():
                P = make()
                m = P.value()
                r = c.run(bv, P.env(), args=[("ref", m)], setup=P.setup, scalars=SC)
                want = sorted({v for ring in rings for v in ring})
                if r.pc != TRUE:
                    op = opaque_part(B(r.pc))
                    return (None if op else False), "does not return when %s" % (op or showb(bnot(r.pc), 3, 1))
                got = names_of(r.ip, P, r.ret, "v")
                if got is None or None in got:
                    return None, "not a known list"
                return sorted(got) == want, "boundary vertices %s for %s" % (sorted(got), want)

            c.guard("boundary_vertices, %s%s" % (label, ", with removed elements" if old else ""), bv, listed)

            def loops(how):
                P = make()
                good = {h: dict(d) for h, d in P.he.items()}
                for h, d in P.he.items():
                    if d["face"] is None and not d["removed"]:
                        if how == "unknown":
                            d["next"] = d["prev"] = None
                        elif how == "self":
                            d["next"] = d["prev"] = h
                m = P.value()
                r = c.run(bl, P.env(), args=[("ref", m)], setup=P.setup, scalars=SC)
                R = Rules(c, r, P, m)
                R.true(r.pc, "does not return")
                after = R.fin
                for h, d in good.items():
                    for k in ("next", "prev"):
                        R.eq(after.h(P.H(h), k), P.H(d[k]), "%s link of %s" % (k, h))
                    R.eq(after.h(P.H(h), "twin"), P.H(d["twin"]), "twin link of %s" % h)
                    R.eq(after.h(P.H(h), "vertex"), P.V(d["head"]), "head of %s" % h)
                return R.result()

            for how in ("kept", "unknown", "self"):
                c.guard("build_boundary_loops, %s, border links %s%s" % (label, how, ", with removed elements" if old else ""), bl, lambda: loops(how))
