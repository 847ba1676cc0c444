"""C04: enclosures contain the exact value."""
from lib import *
from common import *
from lazy import *

EXPLAIN = (
    "The enclosure computed for each expression kind is interpreted over real arithmetic with opaque operand enclosures. Its "
    "centre has to be the operation on the operand centres and its radius has to dominate the first-principles propagation "
    "bound plus a positive allowance for the rounding of the centre (terms formed from the neighbouring double of the centre); "
    "a leaf may have radius zero only where it is exactly the double. The double interval has to step outwards on both ends."
)
RULES = [
    "radius(a+-b) >= ra+rb+ulp", "radius(a*b) >= |ma|rb+|mb|ra+ra*rb+ulp", "radius(a/b) >= product rule with rb/(|mb|(|mb|-rb)), unbounded when |mb| <= rb",
    "radius(leaf) = 0 only if the leaf is a double, else >= ulp", "lo < m-r and hi > m+r",
    "a node is never created with another node's enclosure unless it has the same value",
]


def absv(a):
    return vite(sgn(a)[2], vneg(a), a)


class Dominates:
    """is a difference non-negative, term by term, under a branch condition"""

    def __init__(self, ip, cnd, nonneg):
        self.ip, self.cnd, self.nn = ip, cnd, set(nonneg)
        self.usign = {}

    def implies(self, b):
        return band(self.cnd, bnot(b)) == FALSE

    def sign(self, a):
        """1 / -1 / 0 / None sign (weak) of an atom or value under the condition"""
        if a in self.nn:
            return 1
        if a in self.usign:
            return self.usign[a]
        if a.op == "inv":
            return self.sign(a.args[0])
        z, p, n = sgn(a)
        if self.implies(z):
            return 0
        if self.implies(bnot(n)):
            return 1
        if self.implies(bnot(p)):
            return -1
        return None

    def rewrite(self, d):
        """neighbouring doubles: from_bits(k + to_bits(p)) = p + u(p, k)"""
        for _ in range(4):
            sub = {}
            for m in poly(d):
                for a, e in m:
                    if a.op == "from_bits":
                        q = a.args[0]
                        pd = poly(q)
                        k = pd.get((), 0)
                        ms = [m2 for m2 in pd if m2]
                        if len(ms) == 1 and pd[ms[0]] == 1 and len(ms[0]) == 1 and ms[0][0][0].op == "to_bits":
                            p = ms[0][0][0].args[0]
                            u = mk("ulp", p, int(k))
                            s = self.sign(p)
                            if s is not None:
                                z, pp, nn = sgn(p)
                                if s == 1 and self.implies(bnot(z)):
                                    self.usign[u] = 1 if k > 0 else -1
                                elif s == -1 and self.implies(bnot(z)):
                                    self.usign[u] = -1 if k > 0 else 1
                                elif s == 0 and k > 0:
                                    self.usign[u] = 1
                            df = psub(a, p)
                            z, pp, nn = sgn(df)
                            if self.implies(bnot(nn)):  # never zero
                                self.usign[u] = 1
                            elif self.implies(bnot(pp)):
                                self.usign[u] = -1
                            sub[a] = padd(p, u)
            if not sub:
                return d
            d = models.tsubst(d, sub)
        return d

    def run(self, d, strict):
        """(ok, detail); strict additionally asks for a strictly positive rounding term"""
        d = self.rewrite(d)
        for v in bsupport(self.cnd):
            a = tm.ATOMS[v]
            if a[0] == "Z" and a[1].op == "poly" and self.implies(bvar(a)):
                q = poly(a[1])
                m0 = [m for m in q if m][0]
                cf = poly(d).get(m0)
                if cf:
                    d = psub(d, pmul(num(cf / q[m0]), a[1]))
        if d.op == "ite":
            return None, "rounding term not interpreted"
        pos = False
        for m, cf in poly(d).items():
            s = 1 if cf > 0 else -1
            und = None
            hasu = False
            for a, e in m:
                sa = self.sign(a)
                if sa == 0:
                    s = 0
                    break
                if a.op == "ulp":
                    hasu = True
                if e % 2 == 0:
                    continue
                if sa is None:
                    und = a
                    continue
                s *= sa
            if s == 0:
                continue
            if und is not None:
                return False, "radius lacks or mis-signs the term %s" % show(pmono(m, cf), 5)
            if s < 0:
                return False, "radius is too small by %s" % show(pmono(m, -cf), 5)
            if hasu and len(m) >= 1:
                pos = True
            elif not m and cf > 0:
                pos = True
            elif cf * 2**52 >= 1 and all(a.op in ("bm", "approx") or a in self.nn or a.op == "inv" for a, e in m) and any(a.op in ("bm", "approx") for a, e in m):
                pos = True
        if strict and not pos:
            return False, "radius has no allowance for the rounding of the centre"
        return True, ""


def pmono(m, cf):
    t = num(cf)
    for a, e in m:
        for _ in range(e):
            t = pmul(t, a)
    return t


def is_inf(t):
    return t.op == "fconst" and "inf" in str(t.args[0])


def check(c):
    try:
        L = Lazy(c)
    except Undecided as e:
        c.ob("lazy number representation", None, None, str(e))
        return
    fn = c.fn("LazyExact::ball_ref")
    L.writes = []
    s = L.setup()
    try:
        r = c.run(fn, {}, overrides=s["overrides"], setup=s["setup"])
    except Undecided as e:
        c.ob("enclosure evaluation", None, fn, "not interpreted: %s" % e)
        return
    ip = r.ip
    x = argval(r, 0)
    k = L.kind_of(ip, x)
    wr = [w for w in L.writes if w[1] == "ball"]
    if not wr:
        c.ob("enclosure evaluation", None, fn, "no enclosure is stored")
    for j, nm in enumerate(L.variants):

        def th(j=j, nm=nm):
            isk = ip.isvar(k, j, L.kind[1])
            A = ip.proj(k, ("f", j, 0))
            bin_ = nm in ("Add", "Sub", "Mul", "Div")
            Bt = ip.proj(k, ("f", j, 1)) if bin_ else None
            m1, r1 = (mk("bm", A), mk("br", A))
            m2, r2 = (mk("bm", Bt), mk("br", Bt)) if bin_ else (None, None)
            nonneg = [r1] + ([r2] if bin_ else [])
            strict = True
            fin = TRUE
            if nm in ("LeafApprox", "LeafExact"):
                v = L._variant(ip, k, j, lambda i: ip.proj(k, ("f", j, i)))
                centre, prop = None, None
            elif nm in ("Add", "Sub"):
                centre = vadd(m1, m2) if nm == "Add" else vsub(m1, m2)
                prop = vadd(r1, r2)
            elif nm == "Neg":
                centre, prop, strict = vneg(m1), r1, False
            elif nm == "Mul":
                centre = vmul(m1, m2)
                prop = vadd(vadd(vmul(absv(m1), r2), vmul(absv(m2), r1)), vmul(r1, r2))
            elif nm == "Div":
                centre = vmul(m1, vdiv(ONE, m2))
                a2 = absv(m2)
                qr = vdiv(r2, vmul(a2, vsub(a2, r2)))
                prop = vadd(vadd(vmul(absv(m1), qr), vmul(vdiv(ONE, a2), r1)), vmul(r1, qr))
                fin = sgn(vsub(a2, r2))[1]
            else:
                return None, "unknown expression kind"
            seen = 0
            base = TRUE
            for q in nonneg:
                base = band(base, bnot(sgn(q)[2]))
            if nm == "Div":  # nonzero neighbours: the ulp of a double is never zero
                pass
            for pc, which, y, v0 in wr:
                for lf, cnd in leaves(v0, band(pc, isk, base)):
                    lf = ip.expand(lf)
                    if lf.op != "struct":
                        return None, "enclosure not interpreted"
                    for M, c1 in leaves(lf.args[2], cnd):
                        for R, c2 in leaves(lf.args[3], c1):
                            if c2 == FALSE or self_contradictory(ip, c2):
                                continue
                            seen += 1
                            if is_inf(R):
                                continue
                            if nm in ("LeafApprox", "LeafExact"):
                                ap = ip.typed(mk("approx", v), F64) if nm == "LeafExact" else v
                                d0 = psub(M, ap)
                                exact = psub(M, v) is ZERO or band(c2, bnot(sgn(psub(M, v))[0])) == FALSE
                                if not (exact or d0 is ZERO or req(M, ap)):
                                    if opaque_part(M):
                                        return None, "centre contains " + opaque_part(M)
                                    return False, "centre %s is not the leaf value" % show(M, 5)
                                ok, d = Dominates(ip, c2, nonneg).run(R, not exact)
                                if ok is not True:
                                    return ok, d + " when " + showb(c2, 4, 1)
                                continue
                            if nm == "Div":
                                if band(c2, bnot(fin)) != FALSE:
                                    return False, "bounded enclosure although the divisor enclosure may contain zero: " + showb(band(c2, bnot(fin)), 4, 1)
                            for w, c3 in leaves(centre, c2):
                                if not req(M, w):
                                    if opaque_part(M):
                                        return None, "centre contains " + opaque_part(M)
                                    return False, "centre %s instead of %s" % (show(M, 5), show(w, 5))
                            for w, c3 in leaves(prop, c2):
                                if self_contradictory(ip, c3):
                                    continue
                                op = opaque_part(R)
                                if op:
                                    return None, "radius contains " + op
                                D = Dominates(ip, c3, nonneg + ([] if nm != "Div" else [vsub(x_, r2) for x_, _ in leaves(a2, c3)]))
                                ok, d = D.run(psub(R, w), strict)
                                if ok is not True:
                                    return ok, d + " when " + showb(c3, 4, 1)
            if not seen:
                return None, "no enclosure is stored for this kind"
            return True, "%d branches" % seen

        c.guard("enclosure of %s" % nm, fn, th)

    # reported interval
    fn2, env = c.method("Scalar", (L.ty,), "double_interval")

    def th2():
        s = L.setup()
        r = c.run(fn2, env, overrides=s["overrides"], setup=s["setup"])
        ip = r.ip
        x = argval(r, 0)
        m, rr = mk("bm", x), mk("br", x)
        base = bnot(sgn(rr)[2])
        n = 0
        for lf, cnd in leaves(r.ret, band(r.pc, base)):
            lf = ip.expand(lf)
            if lf.op != "struct":
                return None, "result not interpreted"
            if lf.args[1] == 0:
                continue
            t = ip.expand(lf.args[2])
            for which, end, p in (("lower", t.args[2], psub(m, rr)), ("upper", t.args[3], padd(m, rr))):
                for v, c2 in leaves(end, cnd):
                    if opaque_part(v):
                        return None, "contains " + opaque_part(v)
                    n += 1
                    unb = has_inf(c2)
                    D = Dominates(ip, c2, [rr])
                    d = psub(p, v) if which == "lower" else psub(v, p)
                    ok, det = D.run(d, not unb)
                    if ok is not True:
                        return ok, "%s end: %s when %s" % (which, det, showb(c2, 4, 1))
        return True, "%d branches" % n

    c.guard("double interval", fn2, th2)

    # enclosures placed in a node at creation
    for op, f in OPS.items():
        for im in c.impls(op, "LazyExact"):
            fn3 = c.F.fns[im["map"][op.lower()]]

            def th3(fn3=fn3):
                s = L.setup()
                r = c.run(fn3, {}, overrides=s["overrides"], setup=s["setup"], limit=120)
                ip = r.ip
                n = 0
                for leaf, cnd in leaves(r.ret, r.pc):
                    if leaf.op != "struct":
                        continue
                    cell = L.cell_of(ip, leaf, "ball")
                    for cl, c2 in leaves(cell, cnd):
                        if not (cl.op == "struct" and cl.args[0] == "OnceCell"):
                            continue
                        for ol, c3 in leaves(cl.args[2], c2):
                            if ol.op == "struct" and ol.args[1] == 1:
                                b = ip.expand(ol.args[2])
                                n += 1
                                own = None
                                if b.op == "struct" and b.args[2].op == "bm" and b.args[3].op == "br" and b.args[2].args[0] is b.args[3].args[0]:
                                    own = b.args[2].args[0]
                                if own is None:
                                    return None, "initial enclosure not interpreted"
                                ok, d = L.same(ip, L.val(ip, own), L.val(ip, leaf), c3)
                                if ok is not True:
                                    return ok, "new node gets the enclosure of a different value: " + d
                return True, "%d initial enclosures" % n

            c.guard("initial enclosure of " + fn_key(c.F, fn3), fn3, th3)
    c.assumptions.append("radius arithmetic is treated as real arithmetic: only the rounding of the centre has to be covered")
    c.assumptions.append("intermediate values do not overflow the double range")


def has_inf(cnd):
    for v in bsupport(cnd):
        a = tm.ATOMS[v]
        if "fconst(inf" in show_atom(a) or "fconst(-inf" in show_atom(a):
            if band(cnd, bnot(bvar(a))) == FALSE:
                return True
    return False


def show_atom(a):
    return " ".join(show(x, 6) if isinstance(x, T) else str(x) for x in a)


def self_contradictory(ip, cnd):
    """neighbouring doubles differ, so a branch that needs from_bits(to_bits(p)+k) = p is empty"""
    for v in bsupport(cnd):
        a = tm.ATOMS[v]
        if a[0] == "Z" and any(t.op == "from_bits" for m in poly(a[1]) for t, _ in m):
            if band(cnd, bnot(bvar(a))) == FALSE:
                return True
    return False
