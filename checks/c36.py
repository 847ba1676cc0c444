"""C36: lists of intersection segments."""
from segs import *
import itertools

EXPLAIN = (
    "Duplicate removal is interpreted on all lists of up to four segments between three points (every direction), with unknown coplanar marks; point digests are "
    "interpreted once as distinct numbers and once as one number for all points. Which copies stay valid is read off the final list. Linking is interpreted on "
    "lists of segments between numbered vertices. Indexing and constructors are compared field by field."
)
RULES = [
    "of every group of equal undirected non-degenerate segments exactly one stays, and it is coplanar-marked if any copy is; contents are untouched",
    "links of a segment = indices of the other segments sharing an end vertex, each once",
    "segment[0] = first end, segment[1] = second end, any other index fails; writing through the index reaches the same end",
]
PARALLEL = True
PTS = {"P": (0, 0, 0), "Q": (3, 1, 2), "R": (1, 5, 4)}


def lists():
    out = []
    names = ["PQ", "QP", "PR", "RP", "QR", "PP"]
    for n in range(0, 4):
        for t in itertools.product(names, repeat=n):
            # first segment is PQ or PP without loss of generality
            if t and t[0] not in ("PQ", "PP"):
                continue
            out.append(t)
    out += [("PQ", "QP", "PQ", "QP"), ("PR", "PQ", "RP", "QP"), ("PQ", "QR", "RP", "PQ"), ("PQ", "PQ", "PQ", "PQ"), ("PQ", "RQ", "QP", "PR")]
    return out


def digests(kind):
    seen = {}

    def d(t):
        if kind == "equal":
            return num(7)
        n = len(seen)
        seen.setdefault(t.id, (n * 5 + 3) % 11 if kind == "distinct" else 100 - n)
        return num(seen[t.id])

    return d


def chains():
    """lists of segments between numbered vertices"""
    return ["", "01", "01 12", "01 21", "10 21", "01 23", "01 12 20", "01 12 23", "01 02 03", "12 01 30", "01 12 23 30", "01 23 12", "01 10", "01 01 12", "00 01", "01 02 03 13", "12 01 13 10 23", "01 03* 12", "03* 01 02 03*", "01 30* 12 20"]


def link(c):
    try:
        fn = mesh_fn(c, "build_links")
    except MissingAnchor:
        c.ob("linking", None, None, "no function links the segments of a list")
        return

    def one(t, n):
        P = mesh_of(c, ["abc", "bdc"], ["acdb"])
        P.N = n
        segs = t.split()
        val = mk("seq", *[segment(c, mk("sym", "p%d" % i), mk("sym", "q%d" % i), i, TRUE if s[2:] else FALSE, int(s[0]), int(s[1])) for i, s in enumerate(segs)])
        # in space, coplanar-marked segments are taken out
        ids = [i for i, s in enumerate(segs) if n == 2 or not s[2:]]
        segs = [segs[i][:2] for i in ids]
        env = P.env()
        env["N"] = ("cval", n)
        r = c.run(fn, env, args=[("ref", P.value()), ("ref", val)], setup=P.setup, scalars=SC)
        ip = r.ip
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not return when %s" % showb(bnot(r.pc), 3, 1)[:120]
        fin = ip.deref_all(r.st, r.args[1])
        if fin.op != "seq":
            return None, "list not known"
        if len(fin.args) != len(segs):
            return False, "%d of %d segments are left" % (len(fin.args), len(segs))
        for i, x in enumerate(fin.args):
            ref = field(c, ip, x, "IntersectionSegment", "initial_face_reference")
            if ref is not num(ids[i]):
                return (None if opaque_part(ref) else False), "segments are reordered"
            ls = field(c, ip, x, "IntersectionSegment", "links")
            if ls.op != "seq" or any(y.op != "num" for y in ls.args):
                return None, "links not known: %s" % show(ls)[:80]
            got = sorted(int(y.args[0]) for y in ls.args)
            want = [j for j, s in enumerate(segs) if j != i and set(s) & set(segs[i])]
            if got != want:
                return False, "segment %d of %s is linked to %s, it meets %s" % (i, t, got, want)
        return True, "%d segments" % len(segs)

    for n in (3, 2):
        for t in chains():
            c.guard("links of [%s], %dD" % (t, n), fn, lambda t=t, n=n: one(t, n))


def check(c):
    rm = c.fn("remove_duplicate_and_invalid_segments")
    N = 3

    def dedup(t, kind):
        flags = [bvar(("coplanar", i)) for i in range(len(t))]
        val = mk("seq", *[segment(c, point(c, PTS[s[0]]), point(c, PTS[s[1]]), i, flags[i]) for i, s in enumerate(t)])

        def setup(ip):
            ip.digest = digests(kind)

        r = c.run(rm, {"T": TP, "N": ("cval", N)}, args=[("ref", val)], setup=setup, scalars=SC)
        ip = r.ip
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not return when %s" % showb(bnot(r.pc), 3, 1)[:120]
        fin = ip.deref_all(r.st, r.args[0])
        kept = {}
        for l, b in leaves(fin):
            if l.op != "seq":
                return None, "list not known: %s" % show(l)[:80]
            for x in l.args:
                i = field(c, ip, x, "IntersectionSegment", "initial_face_reference")
                inv = bool_of(field(c, ip, x, "IntersectionSegment", "invalidated"))
                if i.op != "num":
                    return None, "segment not known"
                i = int(i.args[0])
                for f in ("a", "b", "segment", "coplanar", "split"):
                    if field(c, ip, x, "IntersectionSegment", f) is not field(c, ip, val.args[i], "IntersectionSegment", f):
                        return (None if opaque_part(x) else False), "segment %d is changed in `%s`" % (i, f)
                if band(kept.get(i, FALSE), b, bnot(inv)) != FALSE:
                    return False, "segment %d appears twice" % i
                kept[i] = bor(kept.get(i, FALSE), band(b, bnot(inv)))
        op = opaque_part(B(bor(*kept.values()))) if kept else None
        for g in {frozenset(s) for s in t}:
            ids = [i for i, s in enumerate(t) if frozenset(s) == g]
            if len(g) == 1:
                continue
            k = [kept.get(i, FALSE) for i in ids]
            if bor(*k) != TRUE:
                return (None if op else False), "no copy of segment %s is kept when %s" % ("".join(sorted(g)), showb(bnot(bor(*k)), 3, 1))
            for i in range(len(k)):
                for j in range(i):
                    if band(k[i], k[j]) != FALSE:
                        return (None if op else False), "copies %d and %d of segment %s are both kept" % (ids[j], ids[i], "".join(sorted(g)))
            anyc = bor(*[flags[i] for i in ids])
            for i, ki in zip(ids, k):
                if band(ki, anyc, bnot(flags[i])) != FALSE:
                    return (None if op else False), "copy %d, not coplanar-marked, is preferred to a marked one" % i
        return True, "%d segments" % len(t)

    for t in lists():
        for kind in ("distinct", "equal", "falling") if len(t) > 1 else ("distinct",):
            c.guard("duplicates in %s, %s digests" % (" ".join(t) or "empty list", kind), rm, lambda t=t, kind=kind: dedup(t, kind))

    link(c)

    # indexing
    p = c.adt_path("IntersectionSegment")
    names = [f[0] for f in c.F.adts[p]["variants"][0][1]]
    sty = ("adt", p, (TP, ("cval", 3)))
    S = segment(c, point(c, PTS["P"]), point(c, PTS["Q"]), 0, FALSE, a=mk("sym", "first end"), b=mk("sym", "second end"))

    def index(i):
        fn, env = c.method("std::ops::Index", [sty, USIZE], "index")
        e = dict(env)
        r = c.run(fn, e, args=[("ref", S), num(i)], scalars=SC)
        if i > 1:
            return r.pc == FALSE, "index %d is accepted" % i
        if r.pc != TRUE:
            return False, "index %d fails" % i
        got = r.ip.deref_all(r.st, r.ret)
        return got is (mk("sym", "first end"), mk("sym", "second end"))[i], "index %d is %s" % (i, show(got)[:60])

    for i in range(3):
        c.guard("end point %d" % i, c.method("std::ops::Index", [sty, USIZE], "index")[0], lambda i=i: index(i))

    def index_mut(i):
        fn, env = c.method("std::ops::IndexMut", [sty, USIZE], "index_mut")
        r = c.run(fn, dict(env), args=[("ref", S), num(i)], scalars=SC)
        if i > 1:
            return r.pc == FALSE, "index %d is accepted" % i
        if r.pc != TRUE:
            return False, "index %d fails" % i
        got = r.ip.deref_all(r.st, r.ret)
        return got is (mk("sym", "first end"), mk("sym", "second end"))[i], "index %d is %s" % (i, show(got)[:60])

    for i in range(3):
        c.guard("writable end point %d" % i, c.method("std::ops::IndexMut", [sty, USIZE], "index_mut")[0], lambda i=i: index_mut(i))
