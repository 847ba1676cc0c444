"""C02: a lazy number denotes the exact value of the expression that built it."""
from lib import *
from common import *
from lazy import *

EXPLAIN = (
    "Abstract interpretation of the lazy-number type with the denotation (rational value of the expression tree) as abstract "
    "value. Every operator form, constructor and conversion is analysed for arbitrary operands: the node it builds must denote "
    "the mathematical result, every value written into a node's exact cache must be the denotation of that node, and exact() "
    "must return the denotation for every expression kind. Induction over construction gives the property for all histories."
)
RULES = [
    "den(op(a,b)) = den(a) op den(b) on every branch (simplification, folding, flattening)",
    "every write to an exact cache stores the denotation of the node that owns it",
    "exact(x) = cached value or evaluation of the expression kind; both equal den(x)",
]


def check(c):
    try:
        L = Lazy(c)
    except Undecided as e:
        c.ob("lazy number representation", None, None, str(e))
        return
    n = 0

    def node_ok(ip, x, pc):
        """exact caches set inside a freshly built node hold its denotation"""
        bad = None
        for leaf, cnd in leaves(x, pc):
            if leaf.op != "struct":
                continue
            cell = L.cell_of(ip, leaf, "exact")
            for cl, c2 in leaves(cell, cnd):
                if cl.op == "struct" and cl.args[0] == "OnceCell":
                    o = cl.args[2]
                    for ol, c3 in leaves(o, c2):
                        if ol.op == "struct" and ol.args[1] == 1:
                            got = scalar_of(ip, ol.args[2])
                            ok, d = L.same(ip, got, L.val(ip, leaf), c3)
                            if ok is not True:
                                return ok, "exact cache of the new node: " + d
        return True, ""

    def writes_ok(ip, pc0):
        for pc, which, x, v in L.writes:
            if which != "exact":
                continue
            got = scalar_of(ip, v)
            k = L.kind_of(ip, x)
            want = L.val(ip, x)
            ok, d = L.same(ip, got, want, pc)
            if ok is not True:
                return ok, "value written to the exact cache: " + d
        return True, ""

    def den(name, fn, env, want, ret=lambda r: r.ret, pre=TRUE, **kw):
        def th():
            L.writes = []
            s = L.setup(**kw)
            r = c.run(fn, env, overrides=s["overrides"], setup=s["setup"], limit=120)
            ip = r.ip
            x = ret(r)
            w = want(r, ip)
            if r.pc == FALSE:
                return False, "never returns"
            ok, d = L.same(ip, vrestrict(L.val(ip, x), r.pc), w, r.pc)
            if ok is not True:
                return ok, "denotation: " + d
            ok, d = node_ok(ip, x, r.pc)
            if ok is not True:
                return ok, d
            return writes_ok(ip, r.pc)

        c.guard(name, fn, th)

    A = lambda r, ip, i: L.val(ip, argval(r, i))
    for op, f in OPS.items():
        for tr, assign in ((op, False), (op + "Assign", True)):
            for im in c.impls(tr, "LazyExact"):
                nm = tr.lower() if not assign else op.lower() + "_assign"
                fn = c.F.fns[im["map"][nm]]
                n += 1
                den(
                    fn_key(c.F, fn),
                    fn,
                    {},
                    lambda r, ip, f=f: f(A(r, ip, 0), A(r, ip, 1)),
                    ret=(lambda r: r.ip.read(r.st, r.roots[0], ())) if assign else (lambda r: r.ret),
                )
    for im in c.impls("Neg", "LazyExact"):
        fn = c.F.fns[im["map"]["neg"]]
        n += 1
        den(fn_key(c.F, fn), fn, {}, lambda r, ip: vneg(A(r, ip, 0)))
    floor_ob(c, "operator forms of lazy numbers", n, 12)

    # division never silently drops a zero divisor check in exact evaluation: covered by exact()
    fn = c.fn("LazyExact::exact")

    def th():
        L.writes = []
        s = L.setup()
        # the analysed call itself is not overridden: only recursive calls on operands are
        r = c.run(fn, {}, overrides=s["overrides"], setup=s["setup"])
        ip = r.ip
        x = argval(r, 0)
        got = scalar_of(ip, r.ret)
        ready = bvar(("ready", "exact", x))
        want = vite(ready, L.val(ip, x), L.split(ip, L.kind_of(ip, x)))
        ok, d = c.same(ip, got, want, r.pc)
        if ok is not True:
            return ok, "value: " + d
        # refuses nothing but a zero divisor
        k = L.kind_of(ip, x)
        dv = L.variants.index("Div")
        zd = band(bnot(ready), ip.isvar(k, dv, L.kind[1]), sgn(L.val(ip, ip.proj(k, ("f", dv, 1))))[0])
        la = L.variants.index("LeafApprox")
        nf = band(bnot(ready), ip.isvar(k, la, L.kind[1]))
        stuck = band(bnot(r.pc), bnot(zd), bnot(nf))
        if stuck != FALSE:
            return False, "does not return when " + showb(stuck, 4, 1)
        return writes_ok(ip, r.pc)

    c.guard("LazyExact::exact", fn, th)

    # constructors and conversions into lazy numbers
    S = lambda r, ip, i=0: scalar_of(ip, argval(r, i))
    for key, w in (
        ("LazyExact::from_f64", S),
        ("LazyExact::from_i32", S),
        ("LazyExact::from_rug_rational", S),
        ("LazyExact::from_cgar_f64", S),
        ("LazyExact::from_cgar_rational", S),
    ):
        den(key, c.fn(key), {}, w)
    for im in c.impls("From", "LazyExact"):
        if not c.F.fns.get(im["map"].get("from")):
            continue
        fn = c.F.fns[im["map"]["from"]]
        den(fn_key(c.F, fn), fn, {}, S)
    for im in c.impls("FromRef", "LazyExact"):
        fn = c.F.fns[im["map"]["from_ref"]]
        src = im["trait"]["args"][1]
        if src == L.ty:
            den(fn_key(c.F, fn), fn, {}, lambda r, ip: A(r, ip, 0))
        else:
            den(fn_key(c.F, fn), fn, {}, S)
    for tr, nm, v in (("Zero", "zero", ZERO), ("One", "one", ONE), ("std::default::Default", "default", ZERO)):
        fn, env = c.method(tr, (L.ty,), nm)
        den("LazyExact " + nm, fn, env, lambda r, ip, v=v: v)
    fn, env = c.method("Scalar", (L.ty,), "from_num_den")
    den("LazyExact from_num_den", fn, env, lambda r, ip: vdiv(argval(r, 0), argval(r, 1)))
    fn, env = c.method("std::clone::Clone", (L.ty,), "clone")
    den("LazyExact clone", fn, env, lambda r, ip: A(r, ip, 0))
    for key in ("LazyExact::force_exact",):

        def th2():
            L.writes = []
            s = L.setup(exact=True)
            c.run(c.fn(key), {}, overrides=s["overrides"], setup=s["setup"])
            return True, ""

        c.guard(key, c.fn(key), th2)
    # conversions out of lazy numbers to exact kinds
    for im in [im for im in c.impls("From", "CgarRational") if strip_ref(im["trait"]["args"][1]) == L.ty] + [
        im for im in c.impls("FromRef", "CgarRational") if strip_ref(im["trait"]["args"][1]) == L.ty
    ]:
        mid = im["map"].get("from", im["map"].get("from_ref"))
        fn = c.F.fns[mid]
        s = L.setup()
        formula(c, fn_key(c.F, fn), fn, {}, lambda r, ip: [("", scalar_of(ip, r.ret), A(r, ip, 0))], overrides=s["overrides"], setup=s["setup"])
    fn, env = c.method("RefInto", (L.ty, c.ty("CgarRational")), "ref_into")
    s = L.setup()
    formula(c, "LazyExact ref_into rational", fn, env, lambda r, ip: [("", scalar_of(ip, r.ret), A(r, ip, 0))], overrides=s["overrides"], setup=s["setup"])
    fn, env = c.method("RefInto", (L.ty, L.ty), "ref_into")
    den("LazyExact ref_into lazy", fn, env, lambda r, ip: A(r, ip, 0))
    # every other place that writes an exact cache
    sites = 0
    for f in c.F.fns.values():
        if f.file and "numeric" in f.file:
            for b in f.blocks:
                t = b["t"]
                if t[0] == "call" and t[1][0] == "const" and t[1][1][0] == "fn" and "OnceCell" in t[1][1][1]["path"] and t[1][1][1]["name"] in ("set", "get_or_init", "get_or_try_init", "try_insert"):
                    sites += 1
    c.ob("cache write sites enumerated", True, None, "%d call sites that write a cache" % sites)
