"""C40: inserting constraints: adjacency tables, flips, constraint chains, marking."""
from segs import *
from c39 import tri, named, syms, typing, items, tuple_of, triples, predicates, job
import itertools

EXPLAIN = (
    "The constraint code is interpreted on numbered triangle lists whose point positions are symbols; orientation tests are answered by the order type of a layout, so a run covers every point set with that "
    "order type. After every change the adjacency tables are decoded and compared with the triangle list, and marked edges must still be present. The splitting of constraints is compared, as normal form, with "
    "the order of the points along the segment. The callers are interpreted with the insertion replaced by an observer that sees which edges are marked."
)
RULES = [
    "adjacency tables: every edge lists exactly the triangles having it, every vertex exactly the triangles at it; after building, adding, removing, replacing, flipping and boundary handling",
    "a flip replaces the two triangles of the edge by the two triangles of the other diagonal, counter-clockwise, and refuses to create a marked edge or one through another point",
    "insertion: no edge marked as constraint disappears; success only if the edge is there",
    "a constraint is split at every point strictly inside it, in order; points elsewhere are not used",
    "an edge is marked if and only if it exists or its insertion succeeded, before the next insertion",
]
PARALLEL = True
ENV = {"T": TP}


def edge(c, a, b):
    return mk("struct", c.adt_path("Edge"), 0, num(min(a, b)), num(max(a, b)))


def sides(t):
    return [tuple(sorted(x)) for x in zip(t, t[1:] + t[:1])]


def tables(n, ts):
    e, v = {}, {i: [] for i in range(n)}
    for i, t in enumerate(ts):
        for s in sides(t):
            e.setdefault(s, []).append(i)
        for x in t:
            v[x].append(i)
    return e, v


def adj_value(c, n, ts):
    e, v = tables(n, ts)
    m = mk("mnew")
    for k in sorted(e):
        m = mk("mput", m, edge(c, *k), mk("seq", *map(num, e[k])))
    return record(c, "Adj", {"edge2tris": m, "vert2tris": mk("seq", *[mk("seq", *map(num, v[i])) for i in range(n)])})


def edge_set(c, es):
    m = mk("mnew")
    for k in sorted(es):
        m = mk("mput", m, edge(c, *k), models.UNIT)
    return m


def numbers(ip, st, v):
    xs = items(ip, st, v)
    if xs is None or any(x.op != "num" for x in xs):
        return None
    return sorted(int(x.args[0]) for x in xs)


def in_step(c, ip, st, adj, n, ts, cond):
    """the tables of `adj` describe exactly the triangles `ts`"""
    e, v = tables(n, ts)
    m = field(c, ip, adj, "Adj", "edge2tris")
    for a, b in itertools.combinations(range(n), 2):
        k = edge(c, a, b)
        has = band(bool_of(ip.mhas(m, k)), cond)
        want = e.get((a, b), [])
        if opaque_part(B(has)) and has not in (FALSE, cond):
            return None, "edge table not known"
        if has == FALSE:
            if want:
                return False, "edge %d-%d of triangle %s is not in the edge table" % (a, b, want)
            continue
        if want and has != cond:
            return False, "edge %d-%d is not always in the edge table" % (a, b)
        for x, b2 in leaves(ip.mget(m, k), has):
            got = numbers(ip, st, x)
            if got is None:
                return None, "edge table entry not known"
            if got != sorted(want):
                return False, "edge %d-%d lists triangles %s instead of %s" % (a, b, got, want)
    for w, b2 in leaves(field(c, ip, adj, "Adj", "vert2tris"), cond):
        xs = items(ip, st, w)
        if xs is None:
            return None, "vertex table not known"
        if len(xs) != n:
            return False, "the vertex table has %d entries for %d points" % (len(xs), n)
        for i, x in enumerate(xs):
            for y, b3 in leaves(x, b2):
                got = numbers(ip, st, y)
                if got is None:
                    return None, "vertex table entry not known"
                if got != sorted(v[i]):
                    return False, "vertex %d lists triangles %s instead of %s" % (i, got, sorted(v[i]))
    return True, ""


def by_layout(c, layout, extra=None):
    """orientation answered by the order type of the layout"""
    def who(ip, st, a):
        p = coords(ip, ip.deref_all(st, a), 2)
        n = p[0].args[0] if p[0].op == "sym" else None
        if extra and p == extra[0]:
            return extra[1]
        return int(n[1:-1]) if n and n[0] == "p" else None

    def sign(i, j, k):
        (ax, ay), (bx, by), (px, py) = layout[i], layout[j], layout[k]
        d = (bx - ax) * (py - ay) - (by - ay) * (px - ax)
        return (d > 0) - (d < 0)

    def o2(ip, st, args, atys, dty, r):
        ids = [who(ip, st, a) for a in args]
        if None in ids:
            return ip.fresh("orient", dty)
        s = sign(*ids)
        return num(s)

    return {f.path: o2 for k, f in c.find(r"^orient2d$")}, sign


def dt_fields(c):
    return [f[0] for f in c.F.adts[c.adt_path("Delaunay")]["variants"][0][1]]


def dt_value(c, ps, ts):
    return record(c, "Delaunay", {"points": mk("seq", *[point(c, p) for p in ps]), "triangles": mk("seq", *[tri(c, t) for t in ts])})


def final_lists(c, ip, r, cond=TRUE):
    """(triangle list, condition) of the triangulation behind the first argument"""
    v = ip.expand(ip.deref_all(r.st, r.args[0]))
    out = []
    for x, b in leaves(field(c, ip, v, "Delaunay", "triangles"), cond):
        xs = items(ip, r.st, x)
        if xs is None:
            return None
        ls = [((), b)]
        for e in xs:
            ls = [(l + (t,), b3) for l, b2 in ls for t, b3 in triples(ip, e, b2)]
        out += ls
    return out


def valid(sign, ts):
    """triangles of non-zero area are counter-clockwise"""
    return [t for t in ts if sign(*t) < 0]


# ---------------------------------------------------------------- tables
def adjacency(c):
    reb = [f for k, f in c.find(r"^Adj::rebuild$")]
    lists = [[(0, 1, 2)], [(0, 1, 2), (2, 1, 3)], [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1)], []]
    n = 5
    if reb:
        for ts in lists:
            def build(ts=ts):
                r = c.run(reb[0], {}, args=[num(n), ("ref", mk("seq", *[tri(c, t) for t in ts]))], setup=lambda ip: None)
                if r.pc != TRUE:
                    return (None if opaque_part(B(r.pc)) else False), "does not always return"
                return in_step(c, r.ip, r.st, r.ret, n, ts, TRUE)

            c.guard("tables built from %d triangles" % len(ts), reb[0], build)
    else:
        c.ob("tables", None, None, "no such function")
    for name in ("add_tri", "remove_tri", "replace_tri"):
        fs = [f for k, f in c.find(r"^Adj::%s$" % name)]
        if not fs:
            c.ob("tables, %s" % name, None, None, "no such function")
            continue
        for ts in lists[:3]:
            for i in range(len(ts)):
                def change(name=name, fn=fs[0], ts=ts, i=i):
                    out = None
                    if name == "add_tri":
                        i = len(ts)
                        t = (0, 3, 4) if len(ts) < 3 else (1, 2, 4)
                        want = ts + [t]
                        args = [num(i), tri(c, t)]
                    elif name == "remove_tri":
                        want = None
                        args = [num(i), tri(c, ts[i])]
                    else:
                        t = {0: (4, 3, ts[i][0]), 1: (ts[i][1], ts[i][2], 4), 2: (1, 2, 3), 3: (2, 3, 4)}[i]
                        want = ts[:i] + [t] + ts[i + 1:]
                        args = [num(i), tri(c, ts[i]), tri(c, t)]
                    if want and any(len(set(x)) < 3 for x in want):
                        return True, ""
                    r = c.run(fn, {}, args=[("ref", adj_value(c, n, ts))] + args, setup=lambda ip: None)
                    if r.pc != TRUE:
                        return (None if opaque_part(B(r.pc)) else False), "does not always return"
                    a = r.ip.expand(r.ip.deref_all(r.st, r.args[0]))
                    if want is None:
                        # numbering of the others is kept: decode against the list with a hole
                        return in_step(c, r.ip, r.st, a, n, ts[:i] + [()] + ts[i + 1:], TRUE)
                    return in_step(c, r.ip, r.st, a, n, want, TRUE)

                c.guard("tables after %s, %d triangles, at %d" % (name, len(ts), i), fs[0], change)


# ---------------------------------------------------------------- flip
QUAD = {"layout": [(0, 0), (2, -1), (2, 1), (4, 0), (9, 9)], "tris": [(0, 1, 2), (2, 1, 3)]}


def flips(c):
    fn = named(c, "flip_shared_edge_with_adj")
    if fn is None:
        c.ob("flip", None, None, "no such function")
        return
    n = 5
    lay = QUAD["layout"]
    cases = {
        "quadrilateral": (QUAD["tris"], 0, 1),
        "quadrilateral, triangles exchanged": (QUAD["tris"], 1, 0),
        "quadrilateral, other numbering": ([(1, 2, 0), (1, 3, 2)], 0, 1),
        "strip": ([(0, 1, 2), (2, 1, 3), (2, 3, 4)], 0, 1),
        "strip, exchanged": ([(2, 3, 4), (0, 1, 2), (1, 3, 2)], 2, 1),
    }

    def one(label, marked, through):
        ts, i, j = cases[label]
        layout = list(lay)
        if through:
            layout[4] = (3, 0)
        ps = syms(n)
        if through:
            ps[4] = [vadd(ps[0][a], vmul(mk("num", Fraction(3, 4)), vsub(ps[3][a], ps[0][a]))) for a in range(2)]
        ov, sign = by_layout(c, layout, (ps[4], 4) if through else None)
        r = c.run(fn, ENV, args=[("ref", dt_value(c, ps, ts)), edge(c, 1, 2), num(i), num(j), ("ref", edge_set(c, marked)), ("ref", adj_value(c, n, ts))], setup=typing(syms(n)), scalars=("T",), overrides=ov)
        ip = r.ip
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        fin = final_lists(c, ip, r)
        if fin is None or any(None in l for l, b in fin):
            return None, "triangle list not known"
        adj = ip.expand(ip.deref_all(r.st, r.args[5]))
        for l, b in fin:
            ok, why = in_step(c, ip, r.st, adj, n, list(l), b)
            if not ok:
                return ok, why
            flipped = sorted(tuple(sorted(t)) for k, t in enumerate(l) if k in (i, j)) == [(0, 1, 3), (0, 2, 3)]
            same = list(l) == ts
            if not same and not flipped:
                return False, "the triangles become %s" % (l,)
            if [t for k, t in enumerate(l) if k not in (i, j)] != [t for k, t in enumerate(ts) if k not in (i, j)]:
                return False, "other triangles change: %s" % (l,)
            if flipped and (0, 3) in marked:
                return False, "a marked edge is created"
            if flipped and through:
                return False, "an edge through another point is created"
            if not flipped and not marked and not through:
                return (None if opaque_part(B(b)) else False), "the edge of a convex quadrilateral is not flipped"
            if valid(sign, l):
                return False, "triangle %s is clockwise" % (valid(sign, l)[0],)
            for x, b2 in leaves(r.ret, b):
                x = ip.expand(x)
                if x.op != "struct":
                    return None, "result not known"
                if bool(x.args[1]) != flipped:
                    return False, "the result does not tell whether the edge was flipped"
                if flipped and ip.expand(x.args[2]) is not edge(c, 0, 3):
                    return (None if opaque_part(x) else False), "the new edge is reported as %s" % show(x)[:60]
        return True, ""

    for label in cases:
        c.guard("flip, %s" % label, fn, lambda label=label: one(label, (), False))
    c.guard("flip refused for a marked new edge", fn, lambda: one("quadrilateral", ((0, 3),), False))
    c.guard("flip refused for a new edge through a point", fn, lambda: one("quadrilateral", (), True))

    def nothing(kind):
        ts = [(0, 1, 2), (2, 1, 0)] if kind == "same apex" else QUAD["tris"]
        i, j = (0, 1) if kind == "same apex" else (0, 7)
        ov, sign = by_layout(c, lay)
        ps = syms(n)
        r = c.run(fn, ENV, args=[("ref", dt_value(c, ps, ts)), edge(c, 1, 2), num(i), num(j), ("ref", edge_set(c, ())), ("ref", adj_value(c, n, ts))], setup=typing(ps), scalars=("T",), overrides=ov)
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        fin = final_lists(c, r.ip, r)
        if fin is None or any(None in l for l, b in fin):
            return None, "triangle list not known"
        for l, b in fin:
            if list(l) != ts:
                return False, "triangles change to %s" % (l,)
        return in_step(c, r.ip, r.st, r.ip.expand(r.ip.deref_all(r.st, r.args[5])), n, ts, TRUE)

    for kind in ("same apex", "triangle out of range"):
        c.guard("no flip, %s" % kind, fn, lambda kind=kind: nothing(kind))


# ---------------------------------------------------------------- walk
STRIPS = {
    "one edge in the way": ([(0, 0), (2, -2), (2, 2), (4, 0)], [(0, 1, 2), (2, 1, 3)], 0, 3),
    "two edges in the way": ([(0, 0), (1, -2), (2, 2), (3, -3), (5, 0)], [(0, 1, 2), (2, 1, 3), (2, 3, 4)], 0, 4),
    "two edges in the way, fan": ([(0, 0), (1, -3), (1, 2), (4, 2), (6, 0)], [(0, 1, 2), (2, 1, 3), (3, 1, 4)], 0, 4),
    "three edges in the way": ([(0, 0), (1, -2), (2, 2), (3, -3), (5, 3), (7, 0)], [(0, 1, 2), (2, 1, 3), (2, 3, 4), (4, 3, 5)], 0, 5),
    "present already": ([(0, 0), (2, -2), (2, 2), (4, 0)], [(0, 1, 2), (2, 1, 3)], 1, 2),
    "present, other direction": ([(0, 0), (2, -2), (2, 2), (4, 0)], [(0, 1, 2), (2, 1, 3)], 3, 1),
}


def walks(c):
    fn = named(c, "insert_constraint_walk")
    ex = named(c, "exit_edge_of_triangle_fast")
    if fn is None or ex is None:
        c.ob("insertion", None, None, "no such function")
        return

    def run(label, marked, back):
        layout, ts, a, b = STRIPS[label]
        if back:
            a, b = b, a
        n = len(layout)
        ov, sign = by_layout(c, layout)
        ps = syms(n)

        def leave(ip, st, args, atys, dty, r):
            xs = items(ip, st, args[2])
            ti, p, q = args[3:6]
            if xs is None or any(x.op != "num" for x in (ti, p, q)):
                return ip.fresh("exit", dty)
            t = tuple_of(ip, xs[int(ti.args[0])])
            p, q = int(p.args[0]), int(q.args[0])
            if t is None or any(isinstance(x, T) for x in t):
                return ip.fresh("exit", dty)
            for u, v in zip(t, t[1:] + t[:1]):
                if not {u, v} & {p, q} and sign(p, q, u) * sign(p, q, v) < 0 and sign(u, v, p) * sign(u, v, q) < 0:
                    m = field(c, ip, ip.expand(ip.deref_all(st, args[1])), "Adj", "edge2tris")
                    l = numbers(ip, st, ip.mget(m, edge(c, u, v)))
                    if l is None:
                        return ip.fresh("exit", dty)
                    o = [x for x in l if x != int(ti.args[0])]
                    return some(mk("struct", "tuple", 0, edge(c, u, v), some(num(o[0])) if o else none()))
            return none()

        r = c.run(fn, ENV, args=[("ref", dt_value(c, ps, ts)), num(a), num(b), ("ref", adj_value(c, n, ts)), ("ref", edge_set(c, marked))], setup=typing(ps), scalars=("T",), overrides={**ov, ex.path: leave}, limit=120)
        ip = r.ip
        if r.pc != TRUE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        fin = final_lists(c, ip, r)
        if fin is None or any(None in l for l, b_ in fin):
            return None, "triangle list not known"
        adj = ip.expand(ip.deref_all(r.st, r.args[3]))
        for l, cond in fin:
            es = {s for t in l for s in sides(t)}
            for m in marked:
                if m not in es:
                    return False, "the constraint %d-%d is gone after inserting %d-%d" % (m + (a, b))
            ok, why = in_step(c, ip, r.st, adj, n, list(l), cond)
            if not ok:
                return ok, why
            if valid(sign, l):
                return False, "triangle %s is clockwise" % (valid(sign, l)[0],)
            for x, b2 in leaves(r.ret, cond):
                x = ip.expand(x)
                if x.op != "struct":
                    return None, "result not known"
                if x.args[1] == 0 and tuple(sorted((a, b))) not in es:
                    return False, "success is reported but edge %d-%d is not there" % (a, b)
                if not marked and x.args[1] == 1 and "one edge" in label:
                    return False, "the diagonal of a convex quadrilateral is not inserted"
                if "present" in label and (x.args[1] == 1 or list(l) != ts):
                    return False, "inserting a present edge changes triangles or fails"
        return True, ""

    for label, (layout, ts, a, b) in STRIPS.items():
        e, _ = tables(len(layout), ts)
        inner = sorted(k for k, v in e.items() if len(v) == 2)
        for m in range(len(inner) + 1):
            for marked in itertools.combinations(inner, m):
                for back in (False, True):
                    c.guard("insertion, %s, marked %s%s" % (label, marked, ", from the other end" if back else ""), fn, lambda label=label, marked=marked, back=back: run(label, marked, back))


def boundaries(c):
    fn = named(c, "handle_boundary_crossing")
    lay = [(0, 0), (4, -1), (1, 3), (6, 4)]
    if fn is not None:
        for u, v, a, b in ((0, 1, 0, 3), (0, 1, 3, 0), (1, 2, 1, 3), (0, 2, 3, 2), (1, 2, 0, 3)):
            def one(u=u, v=v, a=a, b=b):
                ov, sign = by_layout(c, lay)
                ps = syms(4)
                ts = [(0, 1, 2)]
                r = c.run(fn, ENV, args=[("ref", dt_value(c, ps, ts)), num(0), edge(c, u, v), num(a), num(b), ("ref", adj_value(c, 4, ts))], setup=typing(ps), scalars=("T",), overrides=ov)
                if r.pc != TRUE:
                    return (None if opaque_part(B(r.pc)) else False), "does not always return"
                fin = final_lists(c, r.ip, r)
                if fin is None or any(None in l for l, b_ in fin):
                    return None, "triangle list not known"
                adj = r.ip.expand(r.ip.deref_all(r.st, r.args[5]))
                for l, cond in fin:
                    ok, why = in_step(c, r.ip, r.st, adj, 4, list(l), cond)
                    if not ok:
                        return ok, why
                    if valid(sign, l):
                        return False, "triangle %s is clockwise" % (valid(sign, l)[0],)
                    for x, b2 in leaves(r.ret, cond):
                        x = r.ip.expand(x)
                        if x.op != "struct":
                            return None, "result not known"
                        if x.args[1] == 1 and list(l) != ts:
                            return False, "triangles change although the step fails"
                        if x.args[1] == 0 and tuple(sorted((a, b))) not in {s for t in l for s in sides(t)}:
                            return False, "edge %d-%d is not introduced" % (a, b)
                return True, ""

            c.guard("boundary edge %d-%d towards %d-%d" % (u, v, a, b), fn, one)
    fn2 = named(c, "add_missing_triangle_for_edge")
    if fn2 is not None:
        for pa, na in ((None, None), (3, None), (None, 3), (2, 3), (3, 2)):
            for both in (False, True):
                for flip in (False, True):
                    def two(pa=pa, na=na, both=both, flip=flip):
                        lay2 = [(0, 0), (4, 0), (2, 3), (2, -3), (9, 1)]
                        ov, sign = by_layout(c, lay2)
                        ps = syms(5)
                        ts = [(0, 1, 2)] + ([(1, 0, 3)] if both else [(0, 3, 4), (3, 4, 1)])
                        a, b = (1, 0) if flip else (0, 1)
                        o = lambda x: none() if x is None else some(num(x))
                        if flip and not both:
                            pa_, na_ = na, pa
                        else:
                            pa_, na_ = pa, na
                        r = c.run(fn2, ENV, args=[("ref", dt_value(c, ps, ts)), num(a), num(b), o(pa_), o(na_), ("ref", adj_value(c, 5, ts))], setup=typing(ps), scalars=("T",), overrides=ov, limit=120)
                        if r.pc != TRUE:
                            return (None if opaque_part(B(r.pc)) else False), "does not always return"
                        fin = final_lists(c, r.ip, r)
                        if fin is None or any(None in l for l, b_ in fin):
                            return None, "triangle list not known"
                        adj = r.ip.expand(r.ip.deref_all(r.st, r.args[5]))
                        for l, cond in fin:
                            ok, why = in_step(c, r.ip, r.st, adj, 5, list(l), cond)
                            if not ok:
                                return ok, why
                            if both and list(l) != ts:
                                return False, "an edge with two triangles gets a third"
                            if valid(sign, l):
                                return False, "triangle %s is clockwise" % (valid(sign, l)[0],)
                        return True, ""

                    c.guard("missing triangle, apexes %s %s, %s%s" % (pa, na, "both sides present" if both else "one side", ", reversed" if flip else ""), fn2, two)


# ---------------------------------------------------------------- chains
def chains(c):
    fn = named(c, "split_constraint_chain")
    if fn is None:
        c.ob("splitting a constraint", None, None, "no such function")
        return
    d = mk("sym", "d")

    def run(direction, where, a, b, n):
        """where: {point: ("on", rank) | "before" | "after" | "off"} along a..b"""
        ax, ay = mk("sym", "ax"), mk("sym", "ay")
        ts = {}
        pre = Pos(d)
        ps = {}
        off = mk("sym", "s")
        pa = [ax, ay]
        D = [vmul(num(x), d) for x in direction]
        ps[a], ps[b] = pa, vplus(pa, D)
        order = []
        for k, w in where.items():
            t = mk("sym", "t%d" % k)
            ts[k] = t
            ps[k] = [vadd(pa[i], vmul(t, D[i])) for i in range(2)]
            if isinstance(w, tuple):
                order.append((w[1], k))
            elif w == "before":
                pre = band(pre, Pos(vneg(t)))
            elif w == "after":
                pre = band(pre, Pos(vsub(t, num(1))))
            else:
                ps[k] = [vadd(ps[k][0], vmul(num(-direction[1]), off)), vadd(ps[k][1], vmul(num(direction[0]), off))]
                pre = band(pre, bnot(Z(off)))
        order = [k for _, k in sorted(order)]
        chain = [num(0)] + [ts[k] for k in order] + [num(1)]
        for x, y in itertools.combinations(chain, 2):
            pre = band(pre, Pos(vsub(y, x)))
        for k, w in where.items():
            for y in order:
                if w in ("before", "after"):
                    pre = band(pre, Pos(vsub(ts[y], ts[k]) if w == "before" else vsub(ts[k], ts[y])))
            if w in ("before", "after"):
                pre = band(pre, Pos(vsub(num(1), ts[k])) if w == "before" else Pos(ts[k]))

        def su(ip):
            for x in [ax, ay, d, off] + list(ts.values()):
                ip.typed(x, TP)

        r = c.run(fn, ENV, args=[("ref", mk("seq", *[point(c, ps[i]) for i in range(n)])), num(a), num(b)], setup=su, scalars=("T",), pre=pre, overrides=predicates(c))
        ip = r.ip
        if band(pre, bnot(r.pc)) != FALSE:
            return (None if opaque_part(B(r.pc)) else False), "does not always return"
        path = [a] + order + [b]
        want = [list(x) for x in zip(path, path[1:])]
        for x, cond in leaves(r.ret, pre):
            if lin(cond) is False:
                continue
            xs = items(ip, r.st, x)
            if xs is None:
                return None, "chain not known"
            ls = [([], cond)]
            for e in xs:
                for y, _ in leaves(e, cond):
                    if items(ip, r.st, y) is None:
                        return None, "chain not known"
                nx = []
                for l, b0 in ls:
                    for y, b1 in leaves(e, b0):
                        p = items(ip, r.st, y)
                        nx += [(l + [[z, w]], b3) for z, b2 in leaves(p[0], b1) for w, b3 in leaves(p[1], b2)]
                ls = nx
            for l, b0 in ls:
                if lin(b0) is False:
                    continue
                if any(y.op != "num" for e in l for y in e):
                    return None, "chain not known"
                got = [[int(y.args[0]) for y in e] for e in l]
                if got != want:
                    return (None if opaque_part(B(b0)) else False), "constraint %d-%d with points %s is split into %s" % (a, b, where, got)
        return True, ""

    from linear import possible as lin

    cases = [
        ({1: ("on", 1)}, 0, 2, 3),
        ({0: ("on", 1)}, 1, 2, 3),
        ({2: ("on", 1)}, 1, 0, 3),
        ({1: ("on", 1), 2: ("on", 2)}, 0, 3, 4),
        ({1: ("on", 2), 2: ("on", 1)}, 0, 3, 4),
        ({0: ("on", 2), 1: ("on", 1)}, 3, 2, 4),
        ({1: "before"}, 0, 2, 3),
        ({1: "after"}, 0, 2, 3),
        ({1: "off"}, 0, 2, 3),
        ({1: "off", 2: ("on", 1)}, 0, 3, 4),
        ({1: "after", 2: ("on", 1), 4: "before"}, 0, 3, 5),
        ({1: ("on", 3), 2: ("on", 1), 4: ("on", 2)}, 0, 3, 5),
    ]
    for dr in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 2)):
        for where, a, b, n in cases:
            c.guard("constraint %d-%d along %s with %s" % (a, b, dr, where), fn, lambda dr=dr, where=where, a=a, b=b, n=n: run(dr, where, a, b, n))

    def none_(a):
        ps = syms(2)
        r = c.run(fn, ENV, args=[("ref", mk("seq", *[point(c, p) for p in ps])), num(a), num(a)], setup=typing(ps), scalars=("T",))
        xs = items(r.ip, r.st, r.ret)
        if xs is None or r.pc != TRUE:
            return None, "chain not known"
        return not xs, "a constraint of one point is kept"

    c.guard("constraint of one point", fn, lambda: none_(1))


# ---------------------------------------------------------------- marking
def marking(c):
    walk = named(c, "insert_constraint_walk")
    if walk is None:
        c.ob("marking", None, None, "no such function")
        return
    lay = [(0, 0), (4, -2), (5, 3), (1, 4), (3, 1)]
    ts = [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)]
    for kind in ("build_with_constraints_bowyer_watson", "build_batch_with_constraints_bowyer_watson"):
        fs = [f for k, f in c.find(r"(^|::)%s$" % kind)]
        if not fs:
            c.ob("marking, %s" % kind, False, None, "the public builder is missing")
            continue
        fn = fs[0]
        bld = [f for k, f in c.find(r"^Delaunay<.*>::build$")]
        ins = named(c, "bowyer_watson_insert_point")
        box = named(c, "bbox_approx2d")
        n = 5

        for segs, good in (([(0, 2), (1, 3)], {(0, 2)}), ([(0, 2), (1, 3)], {(1, 3)}), ([(1, 3), (0, 2)], {(0, 2), (1, 3)}), ([(0, 2), (2, 0), (1, 3)], {(0, 2), (1, 3)}), ([(2, 2), (0, 9), (1, 3)], {(1, 3)}), ([(0, 1), (0, 2)], {(0, 2)}), ([(3, 1), (1, 2), (2, 0)], {(1, 3)})):
            def one(kind=kind, fn=fn, segs=segs, good=good):
                ov, sign = by_layout(c, lay)
                ps = syms(n)
                log = []
                missing = [tuple(sorted(s)) for s in segs if s[0] != s[1] and max(s) < n and tuple(sorted(s)) not in tables(n, ts)[0]]
                present = [tuple(sorted(s)) for s in segs if tuple(sorted(s)) in tables(n, ts)[0]]

                def step(ip, st, args, atys, dty, r):
                    a, b = args[1], args[2]
                    m = ip.expand(ip.deref_all(st, args[4]))
                    log.append((a, b, st.pc, {e: bool_of(ip.mhas(m, edge(c, *e))) for e in set(missing + present)}))
                    res = mk("struct", "std::result::Result", 1, mk("sym", "failure"))
                    for e in good:
                        for p, q in (e, e[::-1]):
                            res = vite(band(ip.eq(a, num(p)), ip.eq(b, num(q))), mk("struct", "std::result::Result", 0, mk("struct", "tuple", 0)), res)
                    return res

                def fill(ip, st, args, atys, dty, r):
                    ref = ip.refs_of(st, args[2])
                    ip.write(st, ref, mk("seq", *[tri(c, t) for t in ts]))
                    return mk("struct", "tuple", 0)

                ov[walk.path] = step
                if "batch" in kind:
                    if ins is None:
                        return None, "no insertion step"
                    ov[ins.path] = fill
                    if box is not None:
                        ov[box.path] = lambda ip, st, args, atys, dty, r: mk("struct", "tuple", 0, point(c, ps[0]), point(c, ps[1]))
                    args = [("ref", mk("seq", job(c, ps, segs))), ("ref", mk("sym", "mesh"))]
                else:
                    if not bld:
                        return None, "no builder"
                    ov[bld[0].path] = lambda ip, st, args, atys, dty, r: dt_value(c, ps, ts)
                    args = [("ref", mk("seq", *[point(c, p) for p in ps])), ("ref", mk("seq", *[mk("arr", num(a), num(b)) for a, b in segs])), ("ref", mk("sym", "mesh")), ("ref", mk("sym", "job"))]
                r = c.run(fn, {**ENV, "N": ("cval", 3)}, args=args, setup=typing(ps), scalars=("T",), overrides=ov, limit=120)
                ip = r.ip
                if r.pc != TRUE:
                    return (None if opaque_part(B(r.pc)) else False), "does not always return"
                done = {e: FALSE for e in missing}
                for a, b, when, marks in log:
                    at = {}
                    for e in missing:
                        at[e] = band(when, bor(band(ip.eq(a, num(e[0])), ip.eq(b, num(e[1]))), band(ip.eq(a, num(e[1])), ip.eq(b, num(e[0])))))
                    for e in missing:
                        want = done[e] if e in good else FALSE
                        if band(when, marks[e]) != band(when, want):
                            return False, "edge %d-%d is %s before inserting the next constraint" % (e + ("marked although it is not there" if band(when, marks[e], bnot(want)) != FALSE else "not marked although it was inserted",))
                    now = [i for i, x in enumerate(segs) if at.get(tuple(sorted(x)), FALSE) == TRUE]
                    for i, x in enumerate(segs):
                        e = tuple(sorted(x))
                        if e in present and "batch" not in kind and now and i < now[0] and marks[e] != TRUE:
                            return False, "the present edge %d-%d is not marked" % e
                    for e in missing:
                        done[e] = bor(done[e], at[e])
                for e in missing:
                    if done[e] != TRUE:
                        return (None if opaque_part(B(done[e])) else False), "constraint %d-%d is not inserted" % e
                return True, ""

            c.guard("marking, %s, %s with %s possible" % (kind, segs, sorted(good)), fn, one)


def check(c):
    adjacency(c)
    flips(c)
    walks(c)
    boundaries(c)
    chains(c)
    marking(c)
