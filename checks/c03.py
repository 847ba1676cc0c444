"""C03: lazy decisions answered from enclosures agree with exact evaluation."""
from lib import *
from common import *
from lazy import *

EXPLAIN = (
    "Every decision function of the lazy-number type is interpreted with the denotation as abstract value and its enclosure "
    "as an interval about which only containment is known (C04 checks containment). The result must equal the decision on the "
    "denotations on every branch: an answer taken from the enclosure has to be implied by containment, all others have to come "
    "from the exact value."
)
RULES = ["decision(a, b) = decision(den(a), den(b)) under: m-r > 0 => den > 0, m+r < 0 => den < 0, hi(a) < lo(b) => den(a) < den(b), same node => same den"]


def leaf_axioms(L, ip, xs):
    """the value of a leaf node is the number stored in it"""
    ax = TRUE
    reps = []
    for x in xs:
        if x.op == "lz":
            continue
        k = L.kind_of(ip, x)
        for j, nm in enumerate(L.variants):
            if nm in ("LeafApprox", "LeafExact"):
                v = L._variant(ip, k, j, lambda i: ip.proj(k, ("f", j, i)))
                is_ = ip.isvar(k, j, L.kind[1])
                ax = band(ax, bor(bnot(is_), sgn(vsub(L.val(ip, x), v))[0]))
                reps.append((x, is_, v))
                if v.op != "num":
                    f = ip.typed(mk("approx", v), F64)
                    reps.append((x, band(is_, sgn(vsub(f, v))[0]), f))
    for x, ca, u in reps:
        for y, cb, v in reps:
            if x.id < y.id:
                cc = bnot(band(ca, cb))
                for s, t in zip(sgn(vsub(u, v)), sgn(vsub(L.val(ip, x), L.val(ip, y)))):
                    ax = band(ax, bor(cc, bnot(bxor(s, t))))
    return ax


def lazies(L, ip, got, pc):
    """lazy terms whose enclosure or value the result depends on"""
    out = []

    def visit(t):
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.op in ("bm", "br", "ilo", "ihi", "lval") and x.args[0] not in out:
                    out.append(x.args[0])
                if x.op == "bool":
                    stack.extend(tm.ATOMS[v] for v in bsupport(x.args[0]))
                elif x.op == "ite":
                    stack.append(tm.ATOMS[x.args[0]])
                    stack.extend(x.args[1:])
                elif x.op == "poly":
                    stack.extend(a for m in poly(x) for a, _ in m)
                else:
                    stack.extend(x.args)
            elif isinstance(x, tuple):
                stack.extend(x)

    visit(got)
    visit(B(pc))
    return out


def check(c):
    try:
        L = Lazy(c)
    except Undecided as e:
        c.ob("lazy number representation", None, None, str(e))
        return
    ty = L.ty

    def dec(name, fn, env, want, wrap=None):
        def th():
            L.writes = []
            s = L.setup(ops=True, interval=(name != "double_interval"))
            ov = {p: f for p, f in s["overrides"].items() if p != fn.path}
            r = c.run(fn, env, overrides=ov, setup=s["setup"])
            ip = r.ip
            xs = [argval(r, i) for i in range(len(r.args))]
            vs = [L.val(ip, x) for x in xs]
            w = want(*vs)
            got = wrap(ip, r) if wrap else r.ret
            al = lazies(L, ip, got, r.pc)
            for x in xs:
                if x not in al:
                    al.append(x)
            ax = band(L.axioms(ip, al), leaf_axioms(L, ip, [x for x in xs if x.op != "ite"]))
            # balls are finite or unbounded; both are covered
            if band(ax, bnot(r.pc)) != FALSE:
                return False, "may not answer when " + showb(band(ax, bnot(r.pc)), 4, 1)
            return c.same(ip, got, w, band(r.pc, ax))

        c.guard(name, fn, th)

    def m(trait, targs, nm, want, wrap=None):
        try:
            fn, env = c.method(trait, targs, nm)
        except MissingAnchor as e:
            c.ob(nm, False, None, str(e))
            return
        dec("%s" % nm, fn, env, want, wrap)

    num_ = lambda z, p, n: vite(z, ZERO, vite(p, ONE, num(-1)))
    cmpv = lambda a, b: models.ordering(*sgn(vsub(a, b)))
    m("Scalar", (ty,), "sign", lambda a: num_(*sgn(a)))
    m("Zero", (ty,), "is_zero", lambda a: B(sgn(a)[0]))
    m("Zero", (ty,), "is_positive", lambda a: B(sgn(a)[1]))
    m("Zero", (ty,), "is_negative", lambda a: B(sgn(a)[2]))
    m("Zero", (ty,), "is_positive_or_zero", lambda a: B(bnot(sgn(a)[2])))
    m("Zero", (ty,), "is_negative_or_zero", lambda a: B(bnot(sgn(a)[1])))
    m("Scalar", (ty,), "cmp_ref", cmpv)
    m("std::cmp::PartialEq", (ty, ty), "eq", lambda a, b: B(sgn(vsub(a, b))[0]))
    m("std::cmp::PartialOrd", (ty, ty), "partial_cmp", lambda a, b: models.some(cmpv(a, b)))
    dv = lambda ip, r: L.val(ip, r.ret)
    m("Scalar", (ty,), "min", lambda a, b: vite(sgn(vsub(a, b))[1], b, a), dv)
    m("Scalar", (ty,), "max", lambda a, b: vite(sgn(vsub(a, b))[2], b, a), dv)
    m("Abs", (ty,), "abs", lambda a: vite(sgn(a)[2], vneg(a), a), dv)
    for key, want in (
        ("LazyExact::is_zero", lambda a: B(sgn(a)[0])),
        ("LazyExact::cmp_zero", lambda a: cmpv(a, ZERO)),
        ("LazyExact::cmp_exact", lambda a, b: num_(*sgn(vsub(a, b)))),
    ):
        if c.has(key):
            dec(key, c.fn(key), {}, want)

    # the filter-only comparison may decline but must not be wrong
    if c.has("LazyExact::cmp_fast"):
        fn = c.fn("LazyExact::cmp_fast")

        def th():
            s = L.setup(ops=True, interval=True)
            r = c.run(fn, {}, overrides=s["overrides"], setup=s["setup"])
            ip = r.ip
            xs = [argval(r, i) for i in range(2)]
            w = cmpv(*[L.val(ip, x) for x in xs])
            ax = L.axioms(ip, lazies(L, ip, r.ret, r.pc) + xs)
            und = None
            for leaf, cnd in leaves(r.ret, band(r.pc, ax)):
                lf = ip.expand(leaf)
                if lf.op != "struct":
                    return None, "result not interpreted"
                if lf.args[1] == 0:
                    continue
                ok, d = c.same(ip, lf.args[2], w, cnd)
                if ok is False:
                    return False, d
                if ok is None:
                    und = d
            return (None, und) if und else (True, "")

        c.guard("cmp_fast never wrong", fn, th)
    c.assumptions.append("enclosures contain the value (C04); leaf doubles are finite")
