"""C27: mesh validators."""
from lib import *
from common import *
from mesh import *
from c29 import MESHES, retire

EXPLAIN = (
    "The validators are interpreted on meshes of named elements whose links are consistent (they must accept) and on the same meshes "
    "with one link redirected (they must fail on every path)."
)
RULES = [
    "consistent meshes are accepted, also when removed elements carry stale links",
    "a redirected next, prev, twin, face, face entry or vertex entry link is reported",
    "a directed edge carried by two live half-edges is reported",
]
PARALLEL = True
SC = ("T", "TS", "M")
LINKS = ("next", "prev", "twin")


def check(c):
    conn, dup = mesh_fn(c, "validate_connectivity"), mesh_fn(c, "validate_half_edges")

    def make(faces, rings):
        P = surface(c, 3, faces, rings)
        for v in P.vx:
            P.vx[v] = P.vx[v][:1]
        P.closed = True
        return P

    def verdict(fn, P, want, label):
        """want: accepted?"""
        m = P.value()
        r = c.run(fn, P.env(), args=[("ref", m)], setup=P.setup, scalars=SC)
        if r.pc == (TRUE if want else FALSE):
            return True, ""
        op = opaque_part(B(r.pc))
        if op:
            return None, "%s: contains %s" % (label, op)
        return False, ("%s: rejected" if want else "%s: accepted") % label + (" when %s" % showb(bnot(r.pc) if want else r.pc, 3, 1))

    def all_of(cases):
        und = None
        n = 0
        for case in cases:
            n += 1
            v, msg = verdict(*case)
            if v is False:
                return False, msg
            if v is None:
                und = und or msg
        return (None, und) if und else (True, "%d meshes" % n)

    for fn, name in ((conn, "validate_connectivity"), (dup, "validate_half_edges")):
        for label, faces, rings in MESHES:

            def good():
                P = make(faces, rings)
                yield fn, P, True, label
                P = make(faces, rings)
                retire(P)
                yield fn, P, True, label + " with removed elements"
                P = make(faces, rings)
                retire(P)
                live = [h for h in P.he if not P.he[h]["removed"]]
                for h in P.he:
                    if P.he[h]["removed"]:
                        P.he[h].update(next=live[0], prev=live[1], twin=live[2])
                P.he["r1"].update(next=None, prev=None, twin=None)
                P.fc["old"] = live[0]
                yield fn, P, True, label + " with stale links on removed elements"

            c.guard("%s accepts %s" % (name, label), fn, lambda: all_of(good()))

    for label, faces, rings in MESHES[:3] + MESHES[-2:-1]:
        P0 = make(faces, rings)
        for h in P0.he:

            def broken(h=h):
                for k in LINKS:
                    for x in P0.he:
                        if x != P0.he[h][k]:
                            P = make(faces, rings)
                            P.he[h][k] = x
                            yield conn, P, False, "%s of %s is %s" % (k, h, x)
                for k, back in (("next", "prev"), ("prev", "next"), ("twin", "twin")):
                    P = make(faces, rings)
                    retire(P)
                    P.he[h][k] = "s1"
                    P.he["s1"][back] = h
                    yield conn, P, False, "%s of %s is a removed half-edge" % (k, h)
                for f in list(P0.fc) + [None]:
                    if f != P0.he[h]["face"]:
                        P = make(faces, rings)
                        P.he[h]["face"] = f
                        yield conn, P, False, "face of %s is %s" % (h, f)

            c.guard("validate_connectivity, %s, links of %s" % (label, h), conn, lambda: all_of(broken()))

        def entries():
            for f in P0.fc:
                for h in P0.he:
                    if P0.he[h]["face"] != f:
                        P = make(faces, rings)
                        P.fc[f] = h
                        yield conn, P, False, "entry of face %s is %s" % (f, h)
            for v in P0.vx:
                for h in P0.he:
                    if h[0] != v:
                        P = make(faces, rings)
                        P.vx[v] = (h,)
                        yield conn, P, False, "entry of vertex %s is %s" % (v, h)

        c.guard("validate_connectivity, %s, entries" % label, conn, lambda: all_of(entries()))

    # two live half-edges a -> b, every link consistent
    def doubled(fn, want, removed=False):
        P = make(["abc", "def"], ["acb", "dfe"])
        for h, v in (("fd", "a"), ("ed", "a"), ("de", "b"), ("fe", "b")):
            P.he[h]["head"] = v
        for v in "de":
            P.vx[v] = ()
        P.spoke("f", "fd")
        if removed:
            for h in ("de", "ef", "fd", "ed", "fe", "df"):
                P.he[h]["removed"] = True
            P.dead.add(("f", "def"))
            P.spoke("f")
        return verdict(fn, P, want, "doubled edge")

    def doubled_inside(fn):
        P = make(["abc", "acd", "adb", "bdc", "efg", "egh", "ehf", "fhg"], [])
        for h in P.he:
            P.he[h]["head"] = {"e": "a", "f": "b"}.get(h[1], h[1])
        for v in "ef":
            P.vx[v] = ()
        P.vx.update(g=("gf",), h=("hf",))
        return verdict(fn, P, False, "doubled interior edge")

    for fn, name in ((conn, "validate_connectivity"), (dup, "validate_half_edges")):
        c.guard("%s, interior edge present twice" % name, fn, lambda: doubled_inside(fn))
        c.guard("%s, directed edge present twice" % name, fn, lambda: doubled(fn, False))
        c.guard("%s, second copy of a directed edge removed" % name, fn, lambda: doubled(fn, True, True))
