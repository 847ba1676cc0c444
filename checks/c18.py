"""C18: the box tree."""
from itertools import product

from lib import *
from common import *

EXPLAIN = (
    "Building, inserting into, invalidating, compacting and querying the box tree are interpreted over small trees with symbolic boxes, cached bounds "
    "and entries. Every construction has to keep the tree invariants (the leaves are exactly the entries with their validity, cached bounds enclose the "
    "exact box of a leaf and the bounds of both children, no live-entry count falls below the number of live leaves); every query has to report an entry "
    "exactly when its box meets the query box, given those invariants."
)
RULES = [
    "cached leaf bounds enclose the exact box; node bounds enclose both children",
    "live count of a node >= number of valid leaves below it (0 only for a dead subtree)",
    "build / insert / compact: leaves are exactly the old entries with their validity plus the new one",
    "invalidate: a leaf becomes invalid exactly when it holds the given entry",
    "query: reported = boxes overlap on every axis; validity-aware query: and valid",
]
PARALLEL = True
SC = ("T",)
KEY = "AabbTree<_, _, _, _>::"


def tree(c):
    return c.adt_path("AabbTree")


class Shape:
    """a symbolic tree: nested pairs of leaf numbers, e.g. ((0, 1), 2)"""

    def __init__(self, c, N, shape, valid=None, extra=1):
        self.c, self.N = c, N
        self.path = tree(c)
        self.box = c.adt_path("Aabb")
        self.pt = c.adt_path("Point")
        self.facts = []
        self.syms = []
        self.leaves = {}
        self.nodes = []
        self.valid = valid or {}
        self.shape = shape
        self.boxes = {}
        self.mem = {}
        if shape is not None:
            self.value, self.rec = self.build(shape)

    def cell(self, v):
        root = ("T", len(self.mem))
        self.mem[root] = v
        return mk("ref", root, ())

    def sym(self, n, exact=True):
        s = mk("sym", n)
        self.syms.append((s, TP if exact else ("float", "f64")))
        return s

    def newbox(self, tag):
        lo = [self.sym("%s_min%d" % (tag, i)) for i in range(self.N)]
        hi = [self.sym("%s_max%d" % (tag, i)) for i in range(self.N)]
        self.boxes[tag] = (lo, hi)
        P = lambda x: mk("struct", self.pt, 0, mk("arr", *x))
        return mk("struct", self.box, 0, P(lo), P(hi), models.UNIT)

    def fields(self, k):
        return [f[0] for f in self.c.F.adts[self.path]["variants"][k][1]]

    def variant(self, name):
        for i, v in enumerate(self.c.F.adts[self.path]["variants"]):
            if v[0] == name:
                return i
        raise MissingAnchor("AabbTree::%s" % name)

    def make(self, name, vals):
        k = self.variant(name)
        fs = self.fields(k)
        if set(fs) != set(vals):
            raise MissingAnchor("fields of AabbTree::%s" % name)
        return mk("struct", self.path, k, *[vals[f] for f in fs])

    def build(self, shape):
        """(value, node record)"""
        N = self.N
        if not isinstance(shape, tuple):
            n = "l%d" % shape
            b = self.newbox(n)
            amin = [self.sym("%s_amin%d" % (n, i), False) for i in range(N)]
            amax = [self.sym("%s_amax%d" % (n, i), False) for i in range(N)]
            v = self.valid.get(shape, True)
            d = mk("sym", "%s_data" % n)
            self.syms.append((d, ("int", "usize")))
            rec = dict(kind="leaf", n=shape, box=self.boxes[n], amin=amin, amax=amax, data=d, valid=v)
            self.leaves[shape] = rec
            ref = self.cell(d)
            return self.make("Leaf", dict(aabb=b, data=ref, valid=B(TRUE if v is True else FALSE if v is False else v), amin=mk("arr", *amin), amax=mk("arr", *amax))), rec
        l, lr = self.build(shape[0])
        r, rr = self.build(shape[1])
        n = "n%d" % len(self.nodes)
        b = self.newbox(n)
        amin = [self.sym("%s_amin%d" % (n, i), False) for i in range(N)]
        amax = [self.sym("%s_amax%d" % (n, i), False) for i in range(N)]
        vc = sum(1 for x in flat(shape) if self.valid.get(x, True))
        tc = len(flat(shape))
        rec = dict(kind="node", box=self.boxes[n], amin=amin, amax=amax, left=lr, right=rr, vc=vc, tc=tc)
        self.nodes.append(rec)
        v = self.make(
            "Node",
            dict(aabb=b, left=self.cell(l), right=self.cell(r), valid_count=num(vc), total_count=num(tc), amin=mk("arr", *amin), amax=mk("arr", *amax)),
        )
        return v, rec

    def typed(self, ip):
        ip.RECUR = 8
        ip.premem = self.mem
        for s, t in self.syms:
            ip.typed(s, t)


def flat(s):
    return [s] if not isinstance(s, tuple) else flat(s[0]) + flat(s[1])


def up(ip, st, args, atys, dty, r):
    return vmap(lambda x: mk("up", x), args[0])


def dn(ip, st, args, atys, dty, r):
    return vmap(lambda x: mk("dn", x), args[0])


def joined(ip, st, args, atys, dty, r):
    """the exact box of a node is not consulted by queries; unions are decided with the bounding boxes (C17)"""
    ip.unions = getattr(ip, "unions", 0) + 1
    return ip.fresh("union%d" % ip.unions, dty)


def steps(c):
    ov = {c.fn("Aabb<_, _, _>::union").path: joined}
    for n, f in (("f64_next_up", up), ("f64_next_down", dn)):
        if c.has(n):
            ov[c.fn(n).path] = f
    return ov


def sane(*vals):
    """floating-point bounds are numbers; coordinates have an enclosure (all scalar kinds provide one)"""
    g = TRUE
    for x in vals:
        for y in (mk("lo", x), mk("hi", x)):
            g = band(g, bnot(bvar(("nan", y))))
        g = band(g, bvar(("iv", x)))
        a = mk("approx", x)
        g = band(g, band(bnot(bvar(("nan", a))), band(bvar(("finite", a)), bnot(bvar(("infinite", a))))))
    return g


def settle(v, g):
    """value under an assumption"""
    return restrict_to(v, g)


def restrict_to(v, g):
    r = UNDEF
    for t, b in leaves(v, g):
        if b != FALSE:
            r = t if r is UNDEF else vite(b, t, r)
    return r


def chain(target, low):
    """known lower (upper) bounds of a value, in order"""
    a = mk("lo" if low else "hi", target)
    return [target, a, mk("dn" if low else "up", a), mk("dn" if low else "up", target)]


def enclosed(end, targets, low, g, extra=()):
    """end <= every target (or >=): None when the value is not understood. targets: (value, exact?)"""
    op = opaque_part(end)
    if op:
        return None, "contains " + op
    pool, facts = [], TRUE

    def put(x):
        if x not in pool:
            pool.append(x)

    for t, ex in targets:
        put(t)
    es = [t for t, b in leaves(end, g) if t is not UNDEF]
    for e in es:
        if e.op == "flop":
            return None, "floating-point arithmetic in a bound"
        put(e)
    # facts about rounding: dn(x) <= x, lo(x) <= x
    todo = list(pool) if any(ex for t, ex in targets) else []
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op in ("dn", "lo", "up", "hi"):
            y = x.args[0]
            for t, b in leaves(y):
                put(t)
                todo.append(t)
    for x in list(pool):
        if x.op in ("dn", "lo"):
            facts = band(facts, bnot(Neg(vsub(x.args[0], x))))
        if x.op in ("up", "hi"):
            facts = band(facts, bnot(Pos(vsub(x.args[0], x))))
    for a, b in extra:  # a <= b
        put(a)
        put(b)
        facts = band(facts, bnot(Neg(vsub(b, a))))
    if len(pool) > 12:
        return None, "too many candidates"
    dom = band(order_axioms(pool), band(facts, g))
    for t, ex in targets:
        bad = sgn(vsub(t, end))[2 if low else 1]
        if band(dom, bad) != FALSE:
            return False, "%s is not a bound of %s" % (show(end, 5)[:120], show(t, 3))
    return True, ""


class Out:
    """a tree value found in the final state"""

    def __init__(self, c, ip, st):
        self.c, self.ip, self.st = c, ip, st
        self.path = tree(c)
        self.box = c.adt_path("Aabb")

    def alts(self, v, g, depth=0):
        """list of (condition, record)"""
        ip = self.ip
        res = []
        if depth > 8:
            return [(g, None)]
        for t, b in leaves(v, g):
            if b == FALSE:
                continue
            t = ip.expand(t)
            while t.op == "ref":
                w = ip.read(self.st, t.args[0], t.args[1])
                if w.op == "ite":
                    break
                t = ip.expand(w)
            if t.op == "ref":
                res += self.alts(w, b, depth + 1)
                continue
            if t.op != "struct" or t.args[0] != self.path:
                res.append((b, None))
                continue
            var = self.c.F.adts[self.path]["variants"][t.args[1]]
            d = dict(zip([f[0] for f in var[1]], t.args[2:]))
            if var[0] == "Leaf":
                res.append((b, dict(kind="leaf", **d)))
            else:
                for bl, l in self.alts(d["left"], b, depth + 1):
                    for br, r in self.alts(d["right"], bl, depth + 1):
                        res.append((br, dict(d, kind="node", left=l, right=r)))
        return res

    def data(self, v):
        return unshare(self.ip, self.st, v)

    def coords(self, boxv, N):
        ip = self.ip
        return [coords(ip, ip.proj(vmap(ip.expand, boxv), ("f", 0, k)), N) for k in (0, 1)]


def unshare(ip, st, v):
    """what a (shared) pointer leads to"""

    def one(x):
        x = ip.expand(x)
        while x.op == "struct" and len(x.args) == 3 and x.args[0] != "tuple":
            x = ip.expand(x.args[2])
        return x

    return vmap(one, ip.deref_all(st, vmap(one, ip.deref_all(st, v))))


def leaf_list(rec):
    if rec is None:
        return None
    if rec["kind"] == "leaf":
        return [rec]
    l, r = leaf_list(rec["left"]), leaf_list(rec["right"])
    return None if l is None or r is None else l + r


def inside(rec):
    yield rec
    if rec["kind"] == "node":
        yield from inside(rec["left"])
        yield from inside(rec["right"])


def invariants(c, ip, o, g, rec, N, known, given):
    """known: list of (data, (min, max), valid, amin, amax or None for a new entry). given: facts a <= b about old bounds.
    Returns (ok, detail)"""
    ls = leaf_list(rec)
    if ls is None:
        return None, "tree not interpreted"
    if len(ls) != len(known):
        return False, "the tree holds %d entries instead of %d" % (len(ls), len(known))
    rest = list(known)
    arr = lambda v: list(ip.expand(v).args) if ip.expand(v).op == "arr" else None
    for lf in ls:
        d = o.data(lf["data"])
        hit = [k for k in rest if band(g, bnot(ip.eq(d, k[0]))) == FALSE]
        if not hit:
            op = opaque_part(d)
            return (None, "entry contains " + op) if op else (False, "an entry %s that was not stored (or is stored twice)" % show(d, 3))
        k = hit[0]
        rest.remove(k)
        mn, mx = o.coords(lf["aabb"], N)
        for i in range(N):
            for got, exp in ((mn[i], k[1][0][i]), (mx[i], k[1][1][i])):
                ok, dt = c.same(ip, got, exp, g)
                if ok is not True:
                    return ok, "box of an entry changed: " + dt
        ok, dt = c.same(ip, lf["valid"], B(TRUE if k[2] is True else FALSE if k[2] is False else k[2]), g)
        if ok is not True:
            return ok, "validity of an entry: " + dt
        for f, low, ends in (("amin", True, k[1][0]), ("amax", False, k[1][1])):
            a = arr(lf[f])
            if a is None:
                return None, "cached bounds not interpreted"
            for i in range(N):
                ok, dt = enclosed(restrict_to(a[i], g), [(ends[i], True)], low, band(g, sane(ends[i])), given.get((id(k), f, i), ()))
                if ok is not True:
                    return ok, "cached %s of an entry, axis %d: %s" % (f, i, dt)
    # nodes: bounds and counts
    for nd in inside(rec):
        if nd["kind"] != "node":
            continue
        for f, low in (("amin", True), ("amax", False)):
            a = arr(nd[f])
            kids = [arr(nd["left"][f]), arr(nd["right"][f])]
            if a is None or None in kids:
                return None, "cached bounds not interpreted"
            for i in range(N):
                for kd in kids:
                    for kv, kb in leaves(kd[i], g):
                        if kb == FALSE:
                            continue
                        ok, dt = enclosed(restrict_to(a[i], kb), [(kv, False)], low, kb, given.get(f, {}).get(i, ()))
                        if ok is not True:
                            return ok, "cached %s of a node, axis %d: %s" % (f, i, dt)
        below = leaf_list(nd)
        live = ZERO
        for lf in below:
            live = vadd(live, vite(bool_of(lf["valid"]), ONE, ZERO))
        short = Neg(vsub(nd["valid_count"], live))
        if opaque_part(nd["valid_count"]):
            return None, "count contains " + opaque_part(nd["valid_count"])
        if band(g, short) != FALSE:
            return False, "live count %s of a node with %s live entries" % (show(restrict_to(nd["valid_count"], g), 3)[:60], show(restrict_to(live, g), 3)[:60])
    return True, ""


def check(c):
    ov = steps(c)
    usize = ("int", "usize")

    def envN(N):
        pt = c.ty("Point", TP, ("cval", N))
        return {"T": TP, "N": ("cval", N), "P": pt, "D": usize}

    # ------------------------------------------------------------------ building
    for N, k in ((1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (3, 1), (2, 2)):
        for nm in ("build", "build_with_lookup"):
            f = c.fn(KEY + nm)

            def th(f=f, N=N, k=k, nm=nm):
                S = Shape(c, N, None)
                known = []
                items = []
                for i in range(k):
                    b = S.newbox("b%d" % i)
                    d = mk("sym", "d%d" % i)
                    S.syms.append((d, usize))
                    known.append((d, S.boxes["b%d" % i], True))
                    items.append(mk("struct", "tuple", 0, b, d))
                g = sane(*[x for kn in known for e in kn[1] for x in e])
                r = c.run(f, envN(N), args=[mk("seq", *items)], setup=S.typed, scalars=SC, overrides=ov, pre=g)
                ip = r.ip
                if band(g, bnot(r.pc)) != FALSE:
                    return False, "does not return when " + showb(band(g, bnot(r.pc)), 4, 1)
                ret = r.ret
                o = Out(c, ip, r.st)
                if nm != "build":
                    look = ip.expand(ip.proj(ret, ("f", 0, 1)))
                    if look.op != "seq":
                        return None, "lookup list not interpreted"
                    if len(look.args) != k:
                        return False, "%d boxes in the lookup list" % len(look.args)
                    for b, kn in zip(look.args, known):
                        mn, mx = o.coords(b, N)
                        for got, exp in list(zip(mn, kn[1][0])) + list(zip(mx, kn[1][1])):
                            ok, dt = c.same(ip, got, exp, g)
                            if ok is not True:
                                return ok, "lookup list: " + dt
                    ret = ip.proj(ret, ("f", 0, 0))
                for b, rec in o.alts(ret, g):
                    if rec is None:
                        return None, "tree not interpreted"
                    ok, dt = invariants(c, ip, o, b, rec, N, known, {})
                    if ok is not True:
                        return ok, dt
                return True, ""

            c.guard("%s of %d entries N=%d" % (nm, k, N), f, th)

    # ------------------------------------------------------------------ queries
    shapes = [(0, 2, "1 0"), ((0, 1), 1, "11 10 01 00"), ((0, 1), 2, "10 01"), (((0, 1), 2), 1, "011 101 001 000"), ((0, (1, 2)), 1, "110 010")]

    def path_to(rec, n):
        if rec["kind"] == "leaf":
            return [rec] if rec["n"] == n else None
        for ch in (rec["left"], rec["right"]):
            p = path_to(ch, n)
            if p:
                return [rec] + p
        return None

    for nm in ("query", "query_valid"):
        f = c.fn(KEY + nm)
        for shape, N, cs in shapes:
            ks = flat(shape)
            combos = [dict(zip(ks, (x == "1" for x in v))) for v in (cs.split() if nm != "query" else ["1" * len(ks)])]
            if nm == "query" and (len(ks) > 2 or N == 2 and len(ks) > 1):
                continue
            for valid in combos:

                def th(f=f, shape=shape, N=N, valid=valid, nm=nm, ks=ks):
                    S = Shape(c, N, shape, valid)
                    qb = S.newbox("q")
                    q = S.boxes["q"]
                    g0 = sane(*[x for e in q for x in e])
                    for k in ks:
                        g0 = band(g0, sane(*[x for e in S.leaves[k]["box"] for x in e]))
                    r = c.run(f, envN(N), args=[("ref", S.value), ("ref", qb), ("ref", mk("seq"))], setup=S.typed, scalars=SC, overrides=ov, pre=g0)
                    ip = r.ip
                    if band(g0, bnot(r.pc)) != FALSE:
                        return False, "does not return when " + showb(band(g0, bnot(r.pc)), 4, 1)
                    out = ip.read(r.st, r.roots[2], ())
                    got = {k: FALSE for k in ks}
                    for t, b in leaves(out, g0):
                        t = ip.expand(t)
                        if t.op != "seq":
                            return None, "result list not interpreted: " + str(opaque_part(t) or t.op)
                        seen = []
                        for x in t.args:
                            d = unshare(ip, r.st, x)
                            hit = [k for k in ks if d is S.leaves[k]["data"]]
                            if not hit:
                                return None, "reported entry not understood"
                            if hit[0] in seen:
                                return False, "entry reported twice"
                            seen.append(hit[0])
                        for k in seen:
                            got[k] = bor(got[k], b)
                    for k in ks:
                        lb = S.leaves[k]["box"]
                        meet = TRUE
                        for i in range(N):
                            meet = band(meet, bnot(Neg(vsub(lb[1][i], q[0][i]))))
                            meet = band(meet, bnot(Neg(vsub(q[1][i], lb[0][i]))))
                        alive = valid.get(k, True)
                        if nm == "query" or alive:
                            if band(band(g0, got[k]), bnot(meet)) != FALSE:
                                return False, "entry %d is reported although its box does not meet the query box" % k
                        else:
                            if band(g0, got[k]) != FALSE:
                                return False, "an invalidated entry is reported"
                            continue
                        if nm == "query" and not alive:
                            continue
                        # missed although the boxes meet: only facts of the path from the root to the entry are needed
                        miss = band(band(g0, bnot(got[k])), meet)
                        if miss == FALSE:
                            continue
                        pth = path_to(S.rec, k)
                        for i in range(N):
                            lo, hi = lambda x: mk("lo", x), lambda x: mk("hi", x)
                            dnv, upv = lambda x: mk("dn", x), lambda x: mk("up", x)
                            # chain of the entry's lower end below its max: node.amin <= ... <= leaf.amin <= min
                            low = [p["amin"][i] for p in pth] + [lb[0][i]]
                            high = [lb[1][i]] + [p["amax"][i] for p in reversed(pth)]
                            qhi = [q[1][i], hi(q[1][i]), upv(hi(q[1][i]))]
                            qlo = [dnv(lo(q[0][i])), lo(q[0][i]), q[0][i]]
                            # given meet: every x in low-chain <= every y in qhi chain, etc.
                            lows = low + [lo(lb[0][i])]
                            highs = high + [hi(lb[1][i])]
                            for x in lows:
                                for y in qhi:
                                    miss = band(miss, Pos(vsub(y, x)) if y.op == "up" else bnot(Neg(vsub(y, x))))
                            for x in qlo:
                                for y in highs:
                                    miss = band(miss, Pos(vsub(y, x)) if x.op == "dn" else bnot(Neg(vsub(y, x))))
                        if miss != FALSE:
                            return False, "entry %d is missed although its box meets the query box: %s" % (k, showb(miss, 4, 1))
                    return True, ""

                c.guard("%s %s N=%d valid %s" % (nm, shape, N, "".join("01"[valid.get(k, True)] for k in ks)), f, th)

    # ------------------------------------------------------------------ changes to a tree
    def known_of(S, N):
        """entries of a shape and what is known about its bounds"""
        known, given = [], {"amin": {i: [] for i in range(N)}, "amax": {i: [] for i in range(N)}}
        for k in flat(S.shape):
            lf = S.leaves[k]
            kn = (lf["data"], lf["box"], lf["valid"])
            known.append(kn)
            for i in range(N):
                given[(id(kn), "amin", i)] = [(lf["amin"][i], lf["box"][0][i])]
                given[(id(kn), "amax", i)] = [(lf["box"][1][i], lf["amax"][i])]
        for nd in S.nodes:
            for ch in (nd["left"], nd["right"]):
                for i in range(N):
                    given["amin"][i].append((nd["amin"][i], ch["amin"][i]))
                    given["amax"][i].append((ch["amax"][i], nd["amax"][i]))
        return known, given

    def labels(shape, cs):
        ks = flat(shape)
        return [(v, dict(zip(ks, (x == "1" for x in v)))) for v in cs.split()]

    two = [(0, "1 0"), ((0, 1), "11 10 01 00"), (((0, 1), 2), "111 110 011 001 000"), ((0, (1, 2)), "111 100")]

    f = c.fn(KEY + "invalidate")
    for shape, cs in two:
        for tag, valid in labels(shape, cs):

            def th(f=f, shape=shape, valid=valid):
                S = Shape(c, 1, shape, valid)
                t = mk("sym", "target")
                S.syms.append((t, usize))
                r = c.run(f, envN(1), args=[("ref", S.value), ("ref", t)], setup=S.typed, scalars=SC, overrides=ov)
                ip = r.ip
                if r.pc != TRUE:
                    return False, "does not return when " + showb(bnot(r.pc), 4, 1)
                known, given = known_of(S, 1)
                n = ZERO
                new = []
                for kn in known:
                    same = ip.eq(kn[0], t)
                    now = bnot(same) if kn[2] else FALSE
                    k2 = (kn[0], kn[1], now)
                    for fl in ("amin", "amax"):
                        given[(id(k2), fl, 0)] = given[(id(kn), fl, 0)]
                    new.append(k2)
                    if kn[2]:
                        n = vadd(n, vite(same, ONE, ZERO))
                ok, dt = c.same(ip, r.ret, n)
                if ok is not True:
                    return ok, "number of invalidated entries: " + dt
                o = Out(c, ip, r.st)
                for b, rec in o.alts(ip.read(r.st, r.roots[0], ()), TRUE):
                    if rec is None:
                        return None, "tree not interpreted"
                    ok, dt = invariants(c, ip, o, b, rec, 1, new, given)
                    if ok is not True:
                        return ok, dt
                return True, ""

            c.guard("invalidate %s valid %s" % (shape, tag), f, th)

    f = c.fn(KEY + "insert")
    for shape, cs, N in [x + (1,) for x in two] + [(0, "1 0", 2), (0, "1", 3), ((0, 1), "11 01", 2)]:
        for tag, valid in labels(shape, cs):

            def th(f=f, shape=shape, valid=valid, N=N):
                S = Shape(c, N, shape, valid)
                nb = S.newbox("new")
                d = mk("sym", "newdata")
                S.syms.append((d, usize))
                g = sane(*[x for e in S.boxes["new"] for x in e])
                for lf in S.leaves.values():
                    g = band(g, sane(*[x for e in lf["box"] for x in e]))

                def setup(ip, S=S):
                    S.typed(ip)
                    ip.FLOATATOM = isinstance(shape, tuple)  # costs only choose the side

                r = c.run(f, envN(N), args=[("ref", S.value), nb, d], setup=setup, scalars=SC, overrides=ov, pre=g)
                ip = r.ip
                if band(g, bnot(r.pc)) != FALSE:
                    return False, "does not return when " + showb(band(g, bnot(r.pc)), 4, 1)
                known, given = known_of(S, N)
                known.append((d, S.boxes["new"], True))
                o = Out(c, ip, r.st)
                n = 0
                for b, rec in o.alts(ip.read(r.st, r.roots[0], ()), g):
                    if rec is None:
                        return None, "tree not interpreted"
                    n += 1
                    ok, dt = invariants(c, ip, o, b, rec, N, known, given)
                    if ok is not True:
                        return ok, dt
                return n > 0, "%d resulting shapes" % n

            c.guard("insert into %s N=%d valid %s" % (shape, N, tag), f, th)

    f = c.fn(KEY + "compact")
    for shape, cs in two:
        for tag, valid in labels(shape, cs):

            def th(f=f, shape=shape, valid=valid):
                S = Shape(c, 1, shape, valid)
                g = TRUE
                for lf in S.leaves.values():
                    g = band(g, sane(*[x for e in lf["box"] for x in e]))
                r = c.run(f, envN(1), args=[("ref", S.value)], setup=S.typed, scalars=SC, overrides=ov, pre=g)
                ip = r.ip
                if band(g, bnot(r.pc)) != FALSE:
                    return False, "does not return when " + showb(band(g, bnot(r.pc)), 4, 1)
                known, given = known_of(S, 1)
                keep = [kn for kn in known if kn[2]]
                if any(ip.expand(t).op != "struct" for t, b in leaves(r.ret, g)):
                    return None, "result not interpreted"
                some = models.is_some(ip, r.ret)
                if band(g, bnot(some) if keep else some) != FALSE:
                    return False, "returns %s tree for %d live entries" % ("no" if keep else "a", len(keep))
                if not keep:
                    return True, ""
                o = Out(c, ip, r.st)
                for b, rec in o.alts(ip.proj(r.ret, ("f", 1, 0)), g):
                    if rec is None:
                        return None, "tree not interpreted"
                    ok, dt = invariants(c, ip, o, b, rec, 1, keep, {})
                    if ok is not True:
                        return ok, dt
                return True, ""

            c.guard("compact %s valid %s" % (shape, tag), f, th)
