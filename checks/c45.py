"""C45: STL files."""
from files import *

EXPLAIN = (
    "The STL writer is interpreted on numbered meshes with unknown positions; its output is a list of words (literals and printed values). Each live face has to "
    "appear as one facet with its corners in cyclic face order and the normal of that order. The same words are then given to the interpreted reader, whose "
    "triangles have to be the written ones, corner by corner."
)
RULES = [
    "facet = corners of one live face in cyclic order; printed normal = (b-a)x(c-a), possibly scaled by a positive factor",
    "reader(writer(mesh)) has one triangle per facet with the corners in file order",
]
PARALLEL = True


def facets(ls):
    """[(normal words, [corner words])], or None when a facet is not closed properly"""
    out, cur = [], None
    for l in ls:
        w = tx.words(tx.pieces(l))
        k = lit(w[0]) if w else None
        if k == "facet":
            if cur is not None or len(w) < 2 or lit(w[1]) != "normal":
                return None
            cur = (w[2:], [])
        elif k == "vertex":
            if cur is None:
                return None
            cur[1].append(w[1:])
        elif k == "endfacet":
            if cur is None:
                return None
            out.append(cur)
            cur = None
    return out if cur is None else None


def check(c):
    wr, rd = free_fn(c, "write_stl"), free_fn(c, "read_stl")
    for label in MESHES:

        def export(label=label):
            P, ls, bad = printed(c, wr, label)
            if bad:
                return bad
            first, last = tx.words(tx.pieces(ls[0])), tx.words(tx.pieces(ls[-1]))
            if lit(first[0]) != "solid" or lit(last[0]) != "endsolid":
                return False, "the file is not enclosed by solid and endsolid"
            fs = facets(ls)
            if fs is None:
                return False, "a facet is not closed properly"
            at = {rounded(P, x): x for x in P.vx}
            got = []
            for n, vs in fs:
                t = [at.get(table(P, v)) for v in vs]
                if None in t or len(t) != 3:
                    return False, "a facet corner is not a vertex position"
                got.append(cyc(t))
                p = [P.pos[x] for x in t]
                want = cross3(vminus(p[1], p[0]), vminus(p[2], p[0]))
                has = [shown(x, "f64") for x in n]
                if has != [mk("approx", x) for x in want]:
                    if len(has) != 3 or None in has:
                        return False, "the facet normal does not have three components"
                    raw = [x.args[0] if x.op == "approx" else x for x in has]
                    if any(opaque_part(x) or mentions_op(x, "sqrt") or mentions_op(x, "approx") for x in raw):
                        return None, "facet normal not interpreted"
                    return False, "the facet normal of %s is not that of its corner order" % "".join(t)
            if sorted(got) != sorted(cyc(f) for f in live(label)):
                return False, "facets %s instead of %s" % (sorted(got), sorted(live(label)))
            return True, "%d facets" % len(got)

        c.guard("written facets of %s" % label, wr, export)

        def back(label=label):
            P, ls, bad = printed(c, wr, label)
            if bad:
                return bad
            pre = readable(ls)
            r, Q = reading(c, rd, ls, pre)
            return recreated(r, P, Q, pre, live(label), False)

        c.guard("write and read back %s" % label, rd, back)

    def foreign():
        P = sample(c, "two triangles")
        ls = [line("solid"), line("")]
        for f in ("abc", "bdc", "cbd"):
            ls += [line("", "", "facet", "normal", "0", "0", "0"), line("outer", "loop")]
            ls += [line("", "vertex", *[mk("shown", t, "f64") for t in rounded(P, x)]) for x in f]
            ls += [line("endloop"), line("endfacet"), line("")]
        ls += [line("endsolid", "x"), line("vertex", "1", "2", "3")]
        pre = readable(ls)
        r, Q = reading(c, rd, ls, pre)
        return recreated(r, P, Q, pre, ["abc", "bdc", "cbd"], False)

    c.guard("read three facets", rd, foreign)
