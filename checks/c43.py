"""C43: OBJ files."""
from files import *

EXPLAIN = (
    "The OBJ writer is interpreted on numbered meshes with unknown positions; its output is a list of words (literals and printed values). The words have to "
    "list all positions in index order and the live faces with one-based indices. The same words are then given to the interpreted reader, whose mesh has to "
    "have the same positions (as doubles) and triangles. The reader is also interpreted on files with unknown numbers, comments and other records."
)
RULES = [
    "i-th `v` record = coordinates of vertex i; every record of an `f` line = one-based corners of one live face in cyclic order",
    "reader(writer(mesh)) has the same positions, the same triangles and a sound structure",
    "numbers are printed without loss (no precision given)",
]
PARALLEL = True


def check(c):
    wr, rd = free_fn(c, "write_obj"), free_fn(c, "read_obj")
    for label in MESHES:

        def export(label=label):
            P, ls, bad = printed(c, wr, label)
            if bad:
                return bad
            vs, fs = [], []
            for l in ls:
                w = tx.words(tx.pieces(l))
                if w and lit(w[0]) == "v":
                    vs.append(table(P, w[1:]))
                elif w and lit(w[0]) == "f":
                    fs.append(tuple(shown(x, "int") for x in w[1:]))
            if vs != [rounded(P, x) for x in P.vx]:
                return False, "the vertex records are not the positions in index order"
            ix = {x: i + 1 for i, x in enumerate(P.vx)}
            want = sorted(cyc([ix[x] for x in f]) for f in live(label))
            if any(x is None or x.op != "num" for f in fs for x in f):
                return None, "face record not known"
            got = sorted(cyc([int(x.args[0]) for x in f]) for f in fs)
            if got != want:
                return False, "face records %s instead of %s" % (got, want)
            return True, "%d v, %d f" % (len(vs), len(fs))

        c.guard("written records of %s" % label, wr, export)

        def back(label=label):
            P, ls, bad = printed(c, wr, label)
            if bad:
                return bad
            pre = readable(ls)
            r, Q = reading(c, rd, ls, pre)
            return recreated(r, P, Q, pre, live(label))

        c.guard("write and read back %s" % label, rd, back)

    for label, extra in (("plain", []), ("comments and other records", ["# a comment", "", "vn 0 0 1", "o part", "s off"])):
        for k, tris in enumerate(([(1, 2, 3)], [(1, 2, 3), (2, 4, 3)], [(2, 1, 4), (3, 4, 1)])):

            def foreign(extra=extra, tris=tris):
                P = sample(c, "two triangles")
                ls = []
                for x in P.vx:
                    ls.append(line("v", *[mk("shown", t, "f64") for t in rounded(P, x)]))
                    ls += [line(*e.split(" ")) for e in extra]
                for t in tris:
                    ls.append(line("f", *[str(i) for i in t]))
                    ls += [line(*e.split(" ")) for e in extra]
                pre = readable(ls)
                r, Q = reading(c, rd, ls, pre)
                return recreated(r, P, Q, pre, ["".join("abcd"[i - 1] for i in t) for t in tris])

            c.guard("read %s, faces %d" % (label, k), rd, foreign)
