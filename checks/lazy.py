"""Abstract domain for lazy numbers.

A lazy number x is abstracted by its denotation val(x): the rational value of the expression tree below
it.  For an opaque x this is one symbol; for a node built by the analysed code it is computed from the
node's expression kind.  The caches of an opaque node are assumed to satisfy the invariant that the
checks establish for every write to them (exact cache = val, ball cache = an enclosure of val,
hash cache = digest of the exact value).
"""
from lib import *
from common import *

RAT = ("adt", "rug::Rational", ())


class Lazy:
    def __init__(self, c):
        self.c = c
        self.path = c.adt_path("LazyExact")
        self.ty = ("adt", self.path, ())
        self.rat = c.adt_path("CgarRational")
        self.f64 = c.adt_path("CgarF64")
        self.ball = c.adt_path("Ball")
        # the node type behind the Arc and the expression kind inside it, found by structure
        fields = c.F.adts[self.path]["variants"][0][1]
        t = fields[0][1]
        while t[0] == "adt" and t[1] not in c.F.adts:
            t = t[2][0]
        self.node = t[1]
        self.nfields = c.F.adts[self.node]["variants"][0][1]
        self.kind = None
        self.cells = {}
        for i, fld in enumerate(self.nfields):
            ft = fld[1]
            if ft[0] == "adt" and ft[1] in c.F.adts and c.F.adts[ft[1]]["kind"] == "Enum":
                self.kind = (i, ft[1])
            elif ft[0] == "adt" and "OnceCell" in ft[1].split("::")[-1]:
                inner = ft[2][0]
                h = inner[1].split("::")[-1]
                self.cells[i] = {"CgarRational": "exact", "CgarF64": "approx", "Ball": "ball"}.get(h, "hash" if inner == ("int", "u64") else "?")
        if self.kind is None:
            raise Undecided("no expression kind in the lazy node")
        self.variants = [v[0] for v in c.F.adts[self.kind[1]]["variants"]]
        self.writes = []  # (pc, cell, lazy term, value)
        self.digest = {}

    # ------------------------------------------------------------ denotation
    def val(self, ip, x):
        if x.op == "ite":
            return vmap(lambda y: self.val(ip, y), x)
        if x is UNDEF:
            return UNDEF
        if x.op == "lz":
            return x.args[0]
        if x.op == "struct":
            node = x.args[2]
            return vmap(lambda n: self._nodeval(ip, n), node)
        if x.op == "fld":
            # field 0 of an opaque lazy eta-expands back to it
            pass
        return ip.typed(mk("lval", x), RAT)

    def _nodeval(self, ip, n):
        if n.op == "struct" and str(n.args[0]).endswith("Arc"):
            return vmap(lambda m: self._nodeval(ip, m), n.args[2])
        if n.op == "struct" and n.args[0] == self.node:
            return self.kindval(ip, n.args[2 + self.kind[0]])
        x = self.owner(ip, n)
        if x is not None:
            return self.val(ip, x)
        raise Undecided("node of unknown origin")

    def owner(self, ip, t):
        """the opaque lazy number a projection term belongs to"""
        while t.op == "fld" and ip.tyof.get(t) != self.ty:
            t = t.args[2]
        return t

    def kindval(self, ip, k):
        if k.op == "ite":
            return vmap(lambda y: self.kindval(ip, y), k)
        if k is UNDEF:
            return UNDEF
        if k.op == "struct":
            return self._variant(ip, k, k.args[1], lambda i: k.args[2 + i])
        if k.op == "fld":
            return self.val(ip, self.owner(ip, k))
        # a free expression kind: case split
        r = UNDEF
        for j, nm in enumerate(self.variants):
            v = self._variant(ip, k, j, lambda i: ip.proj(k, ("f", j, i)))
            r = v if r is UNDEF else vite(ip.isvar(k, j, self.kind[1]), v, r)
        return r

    def split(self, ip, k):
        """value of an expression kind, by cases on an opaque kind"""
        r = UNDEF
        for j, nm in enumerate(self.variants):
            v = self._variant(ip, k, j, lambda i: ip.proj(k, ("f", j, i)))
            r = v if r is UNDEF else vite(ip.isvar(k, j, self.kind[1]), v, r)
        return r

    def _variant(self, ip, k, j, f):
        nm = self.variants[j]
        if nm == "LeafApprox":
            return scalar_of(ip, f(0))
        if nm == "LeafExact":
            return self._ratval(ip, f(0))
        if nm in ("Add", "Sub", "Mul", "Div"):
            g = {"Add": vadd, "Sub": vsub, "Mul": vmul, "Div": vdiv}[nm]
            return g(self.val(ip, f(0)), self.val(ip, f(1)))
        if nm == "Neg":
            return vneg(self.val(ip, f(0)))
        raise Undecided("unknown expression kind " + nm)

    def _ratval(self, ip, e):
        def one(x):
            if x.op == "struct" and str(x.args[0]).endswith("Arc"):
                return scalar_of(ip, x.args[2])
            ty = ip.tyof.get(x)
            if ty and ty[0] == "adt" and ty[1].endswith("Arc"):
                return scalar_of(ip, ip.proj(x, ("f", 0, 0)))
            return scalar_of(ip, x)

        return vmap(one, e)

    def kind_of(self, ip, x):
        """kind term of an opaque lazy x"""
        return ip.proj(ip.proj(ip.proj(x, ("f", 0, 0)), ("f", 0, 0)), ("f", 0, self.kind[0]))

    def kind_of_result(self, ip, x):
        return ip.proj(ip.proj(ip.proj(x, ("f", 0, 0)), ("f", 0, 0)), ("f", 0, self.kind[0]))

    def cell_of(self, ip, x, which):
        i = [k for k, v in self.cells.items() if v == which][0]
        return ip.proj(ip.proj(ip.proj(x, ("f", 0, 0)), ("f", 0, 0)), ("f", 0, i))

    # ------------------------------------------------------------ abstract components of an opaque lazy
    def exact(self, ip, x):
        return vmap(lambda v: mk("struct", self.rat, 0, v), self.val(ip, x))

    def approx(self, ip, x):
        return vmap(lambda y: mk("struct", self.f64, 0, ip.typed(mk("lapprox", y), F64)), x)

    def ballv(self, ip, x):
        return vmap(lambda y: mk("struct", self.ball, 0, ip.typed(mk("bm", y), F64), ip.typed(mk("br", y), F64)), x)

    def hashv(self, ip, x):
        return ip.typed(mk("digest", mk("lhash", self.val(ip, x))), ("int", "u64"))

    def opaque(self, ip, x):
        return all(l.op != "struct" for l, _ in leaves(x))

    # ------------------------------------------------------------ hooks
    def setup(self, ops=False, exact=True, approx="all", ball=True, interval=False):
        """returns (setup function, overrides) for Ctx.run"""
        ov = {}

        def get(key):
            f = self.c.keys.get(key)
            return f[0].path if f else None

        def self_of(ip, st, a):
            return vmap(ip.canon, ip.deref_all(st, a))

        def reg(key, fn):
            p = get(key)
            if p:
                ov[p] = fn

        def o_exact(ip, st, args, atys, dty, r):
            x = self_of(ip, st, args[0])
            if self.opaque(ip, x) or ops:
                return self.exact(ip, x)

        def o_approx(ip, st, args, atys, dty, r):
            x = self_of(ip, st, args[0])
            if self.opaque(ip, x) or approx == "all":
                return self.approx(ip, x)

        def o_ball(ip, st, args, atys, dty, r):
            x = self_of(ip, st, args[0])
            if self.opaque(ip, x):
                v = self.ballv(ip, x)
                if dty and dty[0] == "ref":
                    return mk("ref", ip.newroot(st, v), ())
                return v

        if exact:
            reg("LazyExact::exact", o_exact)
        if approx:
            reg("LazyExact::approx", o_approx)
        if ball:
            reg("LazyExact::ball_ref", o_ball)
            reg("LazyExact::ball", o_ball)
        if interval:

            def o_iv(ip, st, args, atys, dty, r):
                x = self_of(ip, st, args[0])
                if self.opaque(ip, x):
                    v = lambda y: tm.mk("struct", "tuple", 0, ip.typed(mk("ilo", y), F64), ip.typed(mk("ihi", y), F64))
                    return models.some(vmap(v, x))

            fn, _ = self.c.method("Scalar", (self.ty,), "double_interval")
            ov[fn.path] = o_iv
        if ops:
            OPS = {"Add": vadd, "Sub": vsub, "Mul": vmul, "Div": vdiv}
            for tr, f in OPS.items():
                for im in self.c.impls(tr, "LazyExact"):
                    fn = self.c.F.fns[im["map"][tr.lower()]]

                    def o(ip, st, args, atys, dty, r, f=f):
                        a, b = self_of(ip, st, args[0]), self_of(ip, st, args[1])
                        v = f(self.val(ip, a), self.val(ip, b))
                        return vmap(lambda y: ip.typed(mk("lz", y), self.ty), v)

                    ov[fn.path] = o
            for im in self.c.impls("Neg", "LazyExact"):
                fn = self.c.F.fns[im["map"]["neg"]]

                def o(ip, st, args, atys, dty, r):
                    return vmap(lambda y: ip.typed(mk("lz", y), self.ty), vneg(self.val(ip, self_of(ip, st, args[0]))))

                ov[fn.path] = o

        def setup(ip):
            ip.cellhook = self.hook

        return {"overrides": ov, "setup": setup}

    def hook(self, k, cell, what, arg):
        """operations on a cache cell of an opaque node"""
        ip, st = k.ip, k.st
        if cell.op != "fld" or cell.args[1] not in self.cells:
            raise Undecided("cache cell of unknown origin " + show(cell, 4))
        which = self.cells[cell.args[1]]
        x = self.owner(ip, cell)
        ready = bvar(("ready", which, x))
        v = {"exact": self.exact, "approx": self.approx, "ball": self.ballv, "hash": self.hashv}[which](ip, x)
        if what == "get":
            return models.opt(ready, mk("ref", ip.newroot(st, v), ()))
        if what == "set":
            self.writes.append((st.pc, which, x, arg))
            return mk("setres")
        if what == "init":
            def init(s):
                w = ip.call_value(arg, [], s, None)
                self.writes.append((s.pc, which, x, w))
                return mk("ref", ip.newroot(s, w), ())

            return models.under(ip, st, ready, lambda s: mk("ref", ip.newroot(s, v), ()), init)

    # ------------------------------------------------------------ comparison of denotations
    def same(self, ip, got, want, pc):
        """equality of denotations under pc, using den(x) = value of x's expression kind"""
        for g, cg in leaves(got, pc):
            for w, cw in leaves(want, cg):
                if g is w:
                    continue
                if g is UNDEF:
                    return False, "undefined value when " + showb(cw, 4, 1)
                d = self.reduce(ip, psub(g, w), cw)
                if d is ZERO or req(d, ZERO):
                    continue
                if band(cw, bnot(sign_parts(d)[0])) == FALSE:
                    continue
                op = opaque_part(g)
                if op:
                    return None, "contains " + op
                return False, "%s instead of %s when %s" % (show(g, 6), show(w, 6), showb(cw, 4, 1))
        return True, ""

    def reduce(self, ip, d, pc):
        known = {}
        for v in bsupport(pc):
            a = tm.ATOMS[v]
            if a[0] != "Z" or a[1].op != "poly":
                continue
            d1 = poly(a[1])
            ms = [m for m in d1 if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and band(pc, bnot(bvar(a))) == FALSE:
                known[ms[0][0][0]] = num(-d1.get((), Fraction(0)) / d1[ms[0]])
        for _ in range(6):
            sub = {}
            for m, cf in poly(d).items():
                for a, e in m:
                    x = a.args[0] if a.op == "inv" else a
                    for b in [y for mm in poly(x) for y, _ in mm]:
                        if b.op != "lval" or b in sub:
                            continue
                        if band(pc, bnot(sign_parts(b)[0])) == FALSE:
                            sub[b] = ZERO
                            continue
                        if b in known:
                            sub[b] = known[b]
                            continue
                        k = self.kind_of(ip, b.args[0])
                        for j in range(len(self.variants)):
                            if band(pc, bnot(ip.isvar(k, j, self.kind[1]))) == FALSE:
                                sub[b] = self._variant(ip, k, j, lambda i: ip.proj(k, ("f", j, i)))
            sub = {b: v for b, v in sub.items() if v.op != "ite"}
            if not sub:
                return d
            d = models.tsubst(d, sub)
        return d

    # ------------------------------------------------------------ axioms
    def axioms(self, ip, xs):
        """facts about enclosures of the lazy terms xs (established by C04)"""
        ax = TRUE
        for x in xs:
            v = self.val(ip, x)
            m, r = mk("bm", x), mk("br", x)
            z, p, n = sgn(v)
            gt = sgn(vsub(m, r))[1]
            lt = sgn(vadd(m, r))[2]
            ax = band(ax, bor(bnot(gt), p), bor(bnot(lt), n))
            ax = band(ax, bnot(sgn(r)[2]))
        for x in xs:
            for y in xs:
                if x is y:
                    continue
                hi, lo = mk("ihi", x), mk("ilo", y)
                sep = sgn(vsub(lo, hi))[1]  # hi(x) < lo(y)
                ax = band(ax, bor(bnot(sep), sgn(vsub(self.val(ip, y), self.val(ip, x)))[1]))
                a, b = (x, y) if x.id < y.id else (y, x)
                for u, w in ((a, b),):
                    pe = bvar(("ptr_eq", ip.proj(u, ("f", 0, 0)), ip.proj(w, ("f", 0, 0))))
                    ax = band(ax, bor(bnot(pe), sgn(vsub(self.val(ip, x), self.val(ip, y)))[0]))
                    pe = bvar(("ptr_eq", ip.proj(w, ("f", 0, 0)), ip.proj(u, ("f", 0, 0))))
                    ax = band(ax, bor(bnot(pe), sgn(vsub(self.val(ip, x), self.val(ip, y)))[0]))
        return ax
