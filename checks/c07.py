"""C07: conversions between scalar kinds keep the value."""
from lib import *
from common import *
from lazy import *

EXPLAIN = (
    "All conversion impls between integers, doubles and the scalar kinds are enumerated from the trait-impl table and "
    "interpreted; a conversion into an exact kind must return the value of its argument, a conversion into a double kind the "
    "rounding of exactly that value, and the approximation a lazy number keeps must be built from the same expression."
)
RULES = ["value(convert(x)) = value(x) for exact targets", "convert to double = rounding of value(x)", "approx(node) = node's operation applied to the operands' approximations", "zero = 0, one = 1, default = 0"]


def check(c):
    f64, rat = c.ty("CgarF64"), c.ty("CgarRational")
    try:
        L = Lazy(c)
    except Undecided as e:
        c.ob("lazy number representation", None, None, str(e))
        return
    kinds = {"f64": f64, "rational": rat, "lazy": L.ty}
    prims = {("int", "i32"): "int", ("float", "f64"): "double"}
    s = L.setup()

    def value(ip, ty, v):
        """abstract value of a scalar; for doubles the pair (kind, real value)"""
        ty = strip_ref(ty)
        if ty == L.ty:
            return L.val(ip, v)
        return scalar_of(ip, v)

    def deround(t, ip):
        """replace every rounding of x by x itself: the real value a double approximates"""
        for _ in range(8):
            sub = {}
            walk(t, sub, ip)
            if not sub:
                return t
            t = models.tsubst(t, sub)
        return t

    def walk(t, sub, ip):
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if isinstance(x, T) and x.id not in seen:
                seen.add(x.id)
                if x.op == "approx":
                    sub[x] = x.args[0]
                elif x.op == "lapprox":
                    sub[x] = L.val(ip, x.args[0])
                elif x.op == "poly":
                    stack.extend(a for m in poly(x) for a, _ in m)
                elif x.op == "ite":
                    stack.extend(x.args[1:])
                else:
                    stack.extend(a for a in x.args if isinstance(a, T))

    n = 0

    def conv(name, fn, env, src, dst, opt=False):
        def th():
            r = c.run(fn, env, overrides=s["overrides"], setup=s["setup"])
            ip = r.ip
            want = value(ip, src, argval(r, 0))
            got = r.ret
            if opt:
                g2 = None
                for lf, cnd in leaves(got, r.pc):
                    lf = ip.expand(lf)
                    if lf.op != "struct":
                        return None, "result not interpreted"
                    if lf.args[1] == 0:
                        return False, "gives nothing when " + showb(cnd, 4, 1)
                    g2 = lf.args[2] if g2 is None else vite(cnd, lf.args[2], g2)
                got = g2
            exact = strip_ref(dst) in (rat, L.ty)
            # an exact conversion may only refuse non-finite doubles
            bad = bnot(r.pc)
            for v in bsupport(bad):
                a = tm.ATOMS[v]
                if a[0] == "finite":
                    bad = band(bad, bvar(a))
            if bad != FALSE:
                return False, "may panic when " + showb(bad, 4, 1)
            g = value(ip, dst, got)
            if not exact:
                g = deround(g, ip)
                want2 = deround(want, ip)
                return L.same(ip, g, want2, r.pc)
            return L.same(ip, vrestrict(g, r.pc), want, r.pc)

        c.guard(name, fn, th)

    for trait, meth in (("From", "from"), ("FromRef", "from_ref")):
        for kn, kt in kinds.items():
            for im in c.impls(trait, kt[1].split("::")[-1]):
                src = im["trait"]["args"][1]
                b = strip_ref(src)
                if not (b in kinds.values() or b in prims or (b[0] == "adt" and b[1].endswith("Rational"))):
                    continue
                fn = c.F.fns.get(im["map"].get(meth))
                if fn is None:
                    continue
                n += 1
                conv(fn_key(c.F, fn), fn, {}, src, kt)
    for kn, kt in kinds.items():
        for im in c.impls("RefInto", kt[1].split("::")[-1]):
            dst = im["trait"]["args"][1]
            fn = c.F.fns.get(im["map"].get("ref_into"))
            if fn is None or dst not in kinds.values():
                continue
            n += 1
            conv(fn_key(c.F, fn), fn, {}, kt, dst)
        fn, env = c.method("ToPrimitive", (kt,), "to_f64")
        n += 1
        conv(fn_key(c.F, fn), fn, env, kt, ("float", "f64"), opt=True)
        for nm in ("ball_center_f64",):
            fn, env = c.method("Scalar", (kt,), nm)
            if kn == "lazy":
                continue  # centre of the enclosure: C04
            n += 1
            conv(fn_key(c.F, fn), fn, env, kt, ("float", "f64"))
    for f in c.keys.get("<f64 as From<CgarF64>>::from", []):
        n += 1
        conv(fn_key(c.F, f), f, {}, f64, ("float", "f64"))
    floor_ob(c, "conversion impls between scalar kinds", n, 28)

    # the approximation kept by a lazy number mirrors its expression
    fn = c.fn("LazyExact::approx")

    def tha():
        L.writes = []
        s2 = L.setup()
        ov = {p: f for p, f in s2["overrides"].items()}
        r = c.run(fn, {}, overrides=ov, setup=s2["setup"])
        ip = r.ip
        x = argval(r, 0)
        ws = [w for w in L.writes if w[1] == "approx"]
        if not ws:
            return None, "no approximation is stored"
        for pc, which, y, v in ws:
            g = deround(scalar_of(ip, v), ip)
            ok, d = L.same(ip, g, L.val(ip, y), pc)
            if ok is not True:
                return ok, d
        return True, ""

    c.guard("lazy approximation follows the expression", fn, tha)

    def initial(fn, nm):
        def th():
            L.writes = []
            s2 = L.setup(approx="all")
            r = c.run(fn, {}, overrides=s2["overrides"], setup=s2["setup"], limit=120)
            ip = r.ip
            k = 0
            for leaf, cnd in leaves(r.ret, r.pc):
                if leaf.op != "struct":
                    continue
                cell = L.cell_of(ip, leaf, "approx")
                for cl, c2 in leaves(cell, cnd):
                    if not (cl.op == "struct" and cl.args[0] == "OnceCell"):
                        continue
                    for ol, c3 in leaves(cl.args[2], c2):
                        if ol.op == "struct" and ol.args[1] == 1:
                            k += 1
                            g = deround(scalar_of(ip, ol.args[2]), ip)
                            for gl, c4 in leaves(g, c3):
                                ok, d = L.same(ip, gl, L.val(ip, leaf), c4)
                                if ok is not True:
                                    return ok, "stored approximation: " + d
            return True, "%d stored approximations" % k

        c.guard(nm, fn, th)

    for op in OPS:
        for im in c.impls(op, "LazyExact"):
            f3 = c.F.fns[im["map"][op.lower()]]
            initial(f3, "approximation stored by " + fn_key(c.F, f3))
    for key in ("LazyExact::from_f64", "LazyExact::from_i32", "LazyExact::from_rug_rational", "LazyExact::from_cgar_f64", "LazyExact::from_cgar_rational"):
        if c.has(key):
            initial(c.fn(key), "approximation stored by " + key)

    for kn, kt in kinds.items():
        for tr, nm, v in (("Zero", "zero", ZERO), ("One", "one", ONE), ("std::default::Default", "default", ZERO)):
            fn, env = c.method(tr, (kt,), nm)

            def th(fn=fn, env=env, kt=kt, v=v):
                r = c.run(fn, env, overrides=s["overrides"], setup=s["setup"])
                return L.same(r.ip, value(r.ip, kt, r.ret), v, r.pc)

            c.guard("%s %s" % (kn, nm), fn, th)
    c.assumptions.append("rug's conversions from integers and finite doubles are exact; its conversion to doubles rounds the value")
