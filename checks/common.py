"""Obligations shared by several properties."""
from lib import *

OPS = {
    "Add": vadd,
    "Sub": vsub,
    "Mul": vmul,
    "Div": vdiv,
}


def scalar_of(ip, v):
    """the number inside a one-field scalar wrapper"""
    def one(x):
        y = ip.expand(x)
        while y.op == "struct" and len(y.args) == 3:
            y = ip.expand(y.args[2])
        return y

    return vmap(one, v)


def floor_ob(c, name, n, floor):
    c.ob(name, n >= floor, None, "found %d, expected at least %d" % (n, floor))


def argval(res, i):
    """initial value of argument i, references followed"""
    ip = res.ip
    st = interp.State(dict(res.init), TRUE)
    return ip.deref_all(st, res.args[i])


def operator_forms(c, head, floor):
    n = 0
    for op, f in OPS.items():
        for tr, assign in ((op, False), (op + "Assign", True)):
            for im in c.impls(tr, head):
                for name, mid in im["map"].items():
                    fn = c.F.fns.get(mid)
                    if fn is None or fn.kind != "AssocFn":
                        continue
                    rhs = im["trait"]["args"][1]
                    if not (strip_ref(rhs) == strip_ref(im["self"])):
                        continue
                    n += 1

                    def th(fn=fn, f=f, assign=assign):
                        r = c.run(fn, {})
                        a, b = scalar_of(r.ip, argval(r, 0)), scalar_of(r.ip, argval(r, 1))
                        want = f(a, b)
                        got = r.ip.read(r.st, r.roots[0], ()) if assign else r.ret
                        got = scalar_of(r.ip, got)
                        if r.pc != TRUE:
                            return False, "may not return: " + showb(bnot(r.pc))
                        return c.same(r.ip, got, want)

                    c.guard("%s/%s" % (head, fn_key(c.F, fn)), fn, th)
    for im in c.impls("Neg", head):
        for name, mid in im["map"].items():
            fn = c.F.fns.get(mid)
            if fn is None or fn.kind != "AssocFn":
                continue
            n += 1

            def th(fn=fn):
                r = c.run(fn, {})
                return c.same(r.ip, scalar_of(r.ip, r.ret), vneg(scalar_of(r.ip, argval(r, 0))))

            c.guard("%s/%s" % (head, fn_key(c.F, fn)), fn, th)
    floor_ob(c, "%s operator forms" % head, n, floor)


ORD = "std::cmp::Ordering"


def ord_of(z, p, n):
    return models.ordering(z, p, n)


def scalar_decisions(c, head, eps=None, skip=()):
    """sign tests, comparisons, constants of an exact scalar kind"""
    ty = c.ty(head)

    def unary(trait, name, want):
        if name in skip:
            return
        try:
            fn, env = c.method(trait, (ty,), name)
        except MissingAnchor as e:
            c.ob("%s::%s" % (head, name), False, None, str(e))
            return

        def th():
            r = c.run(fn, env)
            a = scalar_of(r.ip, argval(r, 0)) if r.args else None
            w = want(a)
            got = r.ret
            if w.op not in ("bool",) and not (w.op == "ite" and leaves(w)[0][0].op in ("bool", "struct")):
                got = scalar_of(r.ip, got)
            if r.pc != TRUE:
                return False, "may not return: " + showb(bnot(r.pc))
            return c.same(r.ip, got, w)

        c.guard("%s::%s" % (head, name), fn, th)

    def binary(trait, targs, name, want):
        if name in skip:
            return
        try:
            fn, env = c.method(trait, targs, name)
        except MissingAnchor as e:
            c.ob("%s::%s" % (head, name), False, None, str(e))
            return

        def th():
            r = c.run(fn, env)
            a, b = scalar_of(r.ip, argval(r, 0)), scalar_of(r.ip, argval(r, 1))
            w, scal = want(a, b)
            got = scalar_of(r.ip, r.ret) if scal else r.ret
            if r.pc != TRUE:
                return False, "may not return: " + showb(bnot(r.pc))
            return c.same(r.ip, got, w)

        c.guard("%s::%s" % (head, name), fn, th)

    unary("Zero", "zero", lambda a: ZERO)
    unary("One", "one", lambda a: ONE)
    unary("std::default::Default", "default", lambda a: ZERO)
    unary("Zero", "is_zero", lambda a: B(sgn(a)[0]))
    unary("Zero", "is_positive", lambda a: B(sgn(a)[1]))
    unary("Zero", "is_negative", lambda a: B(sgn(a)[2]))
    unary("Zero", "is_positive_or_zero", lambda a: B(bnot(sgn(a)[2])))
    unary("Zero", "is_negative_or_zero", lambda a: B(bnot(sgn(a)[1])))
    unary("Abs", "abs", lambda a: vite(sgn(a)[2], vneg(a), a))
    unary("Scalar", "sign", lambda a: vite(sgn(a)[0], ZERO, vite(sgn(a)[1], ONE, num(-1))))

    def cmpo(a, b):
        return models.ordering(*sgn(vsub(a, b)))

    binary("Scalar", (ty,), "cmp_ref", lambda a, b: (cmpo(a, b), False))
    binary("Scalar", (ty,), "approx_eq", lambda a, b: (B(sgn(vsub(a, b))[0]), False))
    binary("std::cmp::PartialEq", (ty, ty), "eq", lambda a, b: (B(sgn(vsub(a, b))[0]), False))
    binary("std::cmp::PartialOrd", (ty, ty), "partial_cmp", lambda a, b: (models.some(cmpo(a, b)), False))
    binary("Scalar", (ty,), "min", lambda a, b: (vite(sgn(vsub(a, b))[2], a, b), True))
    binary("Scalar", (ty,), "max", lambda a, b: (vite(sgn(vsub(a, b))[1], a, b), True))
    binary("Scalar", (ty,), "from_num_den", lambda a, b: (vdiv(a, b), True))


def unwrap(ip, v):
    """strip one-field struct wrappers (Vector(Point{coords}) -> coords)"""
    def one(x):
        y = ip.expand(x)
        while y.op == "struct" and len(y.args) == 3:
            y = ip.expand(y.args[2])
        return y

    r = vmap(one, v)
    if r.op == "ite" and any(l.op == "ite" for l, _ in leaves(r)):
        r = unwrap(ip, r)
    return r


def coords(ip, v, n):
    u = unwrap(ip, v)
    return [ip.select(u, num(i)) for i in range(n)]


def points(c, n, k, prefix="p"):
    """k points of dimension n with symbolic coordinates: (values, setup)"""
    cs = [[mk("sym", "%s%d_%d" % (prefix, i, j)) for j in range(n)] for i in range(k)]
    path = c.adt_path("Point")
    vals = [mk("struct", path, 0, mk("arr", *x)) for x in cs]

    def setup(ip):
        for x in cs:
            for y in x:
                ip.typed(y, TP)

    return vals, setup


def formula(c, name, fn, env, want, pre=TRUE, returns=True, **kw):
    """analyse fn; want(r, ip) -> list of (label, got, expected) triples, all must agree under r.pc"""

    def th():
        r = c.run(fn, env, **kw)
        px = pre(r, r.ip) if callable(pre) else pre
        if returns and band(px, bnot(r.pc)) != FALSE:
            bad = band(px, bnot(r.pc))
            return False, "does not return when " + showb(bad, 4, 1)
        und = None
        for label, got, exp in want(r, r.ip):
            ok, d = c.same(r.ip, got, exp, band(r.pc, px))
            if ok is False:
                return False, "%s%s" % (label, d)
            if ok is None:
                und = "%s %s" % (label, d)
        if und:
            return None, und
        return True, ""

    return c.guard(name, fn, th)


def vec(got, exp, label=""):
    return [("%s[%d]" % (label, i), g, e) for i, (g, e) in enumerate(zip(got, exp))]


def dot(a, b):
    r = ZERO
    for x, y in zip(a, b):
        r = vadd(r, vmul(x, y))
    return r


def cross3(a, b):
    return [
        vsub(vmul(a[1], b[2]), vmul(a[2], b[1])),
        vsub(vmul(a[2], b[0]), vmul(a[0], b[2])),
        vsub(vmul(a[0], b[1]), vmul(a[1], b[0])),
    ]


def cross2(a, b):
    return vsub(vmul(a[0], b[1]), vmul(a[1], b[0]))


def vminus(a, b):
    return [vsub(x, y) for x, y in zip(a, b)]


def vplus(a, b):
    return [vadd(x, y) for x, y in zip(a, b)]


def vscale(a, s):
    return [vmul(x, s) for x in a]


def det(m):
    """Leibniz determinant of a list-of-rows matrix"""
    n = len(m)
    if n == 1:
        return m[0][0]
    r = ZERO
    for j in range(n):
        minor = [row[:j] + row[j + 1 :] for row in m[1:]]
        t = vmul(m[0][j], det(minor))
        r = vadd(r, t) if j % 2 == 0 else vsub(r, t)
    return r


# ---------------------------------------------------------------- facts about reals, as diagrams over sign atoms
def Z(x):
    return sgn(x)[0]


def Pos(x):
    return sgn(x)[1]


def Neg(x):
    return sgn(x)[2]


def iff(a, b):
    return bnot(bxor(a, b))


def imp(a, b):
    return bor(bnot(a), b)


def allz(v):
    r = TRUE
    for x in v:
        r = band(r, Z(x))
    return r


def vabs(x):
    return vite(sgn(x)[2], vneg(x), x)


def vsum(xs):
    r = ZERO
    for x in xs:
        r = vadd(r, x)
    return r


def order_axioms(xs):
    """transitivity of < and = on every triple"""
    r = TRUE
    n = len(xs)
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                a, b, d = sgn(vsub(xs[j], xs[i])), sgn(vsub(xs[k], xs[j])), sgn(vsub(xs[k], xs[i]))
                for s in (1, 2):
                    r = band(r, imp(band(a[s], bnot(b[3 - s])), d[s]))
                    r = band(r, imp(band(b[s], bnot(a[3 - s])), d[s]))
                r = band(r, imp(band(a[0], b[0]), d[0]))
                r = band(r, imp(band(a[0], d[0]), b[0]))
                r = band(r, imp(band(b[0], d[0]), a[0]))
    return r


def minor(u, v, i, j):
    return vsub(vmul(u[i], v[j]), vmul(u[j], v[i]))


def minor_axioms(u, v):
    """2x2 minors of two vectors: vanishing factors, and Pluecker relations"""
    n = len(u)
    r = TRUE
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            m = Z(minor(u, v, i, j))
            r = band(r, imp(Z(u[i]), iff(m, bor(Z(u[j]), Z(v[i])))))
            r = band(r, imp(Z(v[i]), iff(m, bor(Z(v[j]), Z(u[i])))))
    for i in range(n):
        for j in range(n):
            for k in range(j + 1, n):
                if len({i, j, k}) == 3:
                    for w in (u, v):
                        r = band(r, imp(band(bnot(Z(w[i])), band(Z(minor(u, v, i, j)), Z(minor(u, v, i, k)))), Z(minor(u, v, j, k))))
    return r


def minors0(u, v):
    r = TRUE
    n = len(u)
    for i in range(n):
        for j in range(i + 1, n):
            r = band(r, Z(minor(u, v, i, j)))
    return r


def norm_axioms(u):
    """|u|^2 >= 0, zero exactly for the zero vector"""
    s = sgn(dot(u, u))
    return band(bnot(s[2]), iff(s[0], allz(u)))


def deround(t):
    """the real value a double expression approximates: every rounding of x replaced by x"""
    for _ in range(8):
        sub, stack, seen = {}, [t], set()
        while stack:
            x = stack.pop()
            if isinstance(x, T) and x.id not in seen:
                seen.add(x.id)
                if x.op == "approx":
                    sub[x] = x.args[0]
                elif x.op == "poly":
                    stack.extend(a for m in poly(x) for a, _ in m)
                elif x.op == "ite":
                    stack.extend(x.args[1:])
                else:
                    stack.extend(a for a in x.args if isinstance(a, T))
        if not sub:
            return t
        t = models.tsubst(t, sub)
    return t
