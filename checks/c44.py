"""C44: OFF files."""
from files import *

EXPLAIN = (
    "The OFF writer is interpreted on numbered meshes with unknown positions; its output is a list of words (literals and printed values). The announced counts, "
    "the positions in index order and the zero-based live faces are compared with the mesh. The same words are then given to the interpreted reader, whose mesh "
    "has to have the same positions (as doubles) and triangles. The reader is also interpreted on files with comments, blank lines and other layouts."
)
RULES = [
    "words after the keyword = vertex count, live face count, edge count, positions in index order, `3 a b c` per live face",
    "reader(writer(mesh)) has the same positions, the same triangles and a sound structure",
]
PARALLEL = True


def check(c):
    wr, rd = free_fn(c, "write_off"), free_fn(c, "read_off")
    for label in MESHES:

        def export(label=label):
            P, ls, bad = printed(c, wr, label)
            if bad:
                return bad
            w = [x for l in ls for x in tx.words(tx.pieces(l))]
            if not w or lit(w[0]) != "OFF":
                return False, "the file does not start with its keyword"
            nums = [shown(x, "int") for x in w[1:4]]
            n, F = len(P.vx), live(label)
            if len(nums) < 3 or nums[0] is not num(n) or nums[1] is not num(len(F)):
                return False, "announced counts %s, contained %d vertices and %d faces" % ([show(x) if x is not None else None for x in nums[:2]], n, len(F))
            w = w[4:]
            for i, x in enumerate(P.vx):
                if table(P, w[3 * i : 3 * i + 3]) != rounded(P, x):
                    return False, "vertex record %d is not the position of vertex %d" % (i, i)
            w = w[3 * n :]
            got = []
            while w:
                k = shown(w[0], "int")
                if k is not num(3) or len(w) < 4:
                    return False, "a face record is not a triangle"
                q = [shown(x, "int") for x in w[1:4]]
                if any(x is None or x.op != "num" for x in q):
                    return None, "face record not known"
                got.append(cyc([int(x.args[0]) for x in q]))
                w = w[4:]
            ix = {x: i for i, x in enumerate(P.vx)}
            want = sorted(cyc([ix[x] for x in f]) for f in F)
            if sorted(got) != want:
                return False, "face records %s instead of %s" % (sorted(got), want)
            return True, "%d vertices, %d faces" % (n, len(got))

        c.guard("written records of %s" % label, wr, export)

        def back(label=label):
            P, ls, bad = printed(c, wr, label)
            if bad:
                return bad
            pre = readable(ls)
            r, Q = reading(c, rd, ls, pre)
            return recreated(r, P, Q, pre, live(label))

        c.guard("write and read back %s" % label, rd, back)

    for label, head, extra in (
        ("counts on the next line", [["OFF"], ["4", "2", "5"]], []),
        ("counts on the keyword line", [["OFF", "4", "2", "5"]], []),
        ("comments and blank lines", [["OFF"], ["#", "made", "by", "hand"], ["4", "2", "0", "#", "counts"]], [[""], ["#", "1", "2", "3"]]),
    ):

        def foreign(head=head, extra=extra):
            P = sample(c, "two triangles")
            ls = [line(*h) for h in head]
            for x in P.vx:
                ls.append(line(*[mk("shown", t, "f64") for t in rounded(P, x)]))
                ls += [line(*e) for e in extra]
            for t in ("012", "132"):
                ls.append(line("3", *t))
                ls += [line(*e) for e in extra]
            pre = readable(ls)
            r, Q = reading(c, rd, ls, pre)
            return recreated(r, P, Q, pre, ["abc", "bdc"])

        c.guard("read with %s" % label, rd, foreign)
