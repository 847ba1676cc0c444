"""C11: orientation and in-circle tests equal the determinant they stand for."""
from lib import *
from common import *

EXPLAIN = (
    "The bodies of the orientation and in-circle predicates are interpreted over symbolic coordinates and their result is "
    "compared, as a polynomial normal form, with the determinant. Where a predicate snaps to zero, the branch condition under "
    "which it does so must bound the determinant by a tolerance times the magnitude of the input."
)
RULES = [
    "every non-zero result leaf is the determinant polynomial",
    "a zero leaf is only reached where the determinant is zero or its magnitude is at most the guard",
    "kernel entry points have the same normal form as the generic ones",
]
PARALLEL = True
SC = ("T", "U", "V")
EPS = Fraction(1e-10)


def d2(P):
    return det([vminus(P[1], P[0]), vminus(P[2], P[0])])


def incirc(P):
    rows = []
    for i in range(3):
        u = vminus(P[i], P[3])
        rows.append([u[0], u[1], dot(u, u)])
    return det(rows)


def vabs(x):
    return vite(sgn(x)[2], vneg(x), x)


def vsum(xs):
    r = ZERO
    for x in xs:
        r = vadd(r, x)
    return r


def ap(x):
    return vmap(lambda y: mk("approx", y), x)


def le(a, b):
    return bnot(sgn(vsub(a, b))[1])


def g2(P, w):
    """|det| <= EPS * sum of coordinate magnitudes, both in double precision; EPS where a coordinate has no cheap double"""
    allfast = TRUE
    for p in P:
        for x in p:
            allfast = band(allfast, bvar(("fast", x)))
    scale = vmul(vsum([vabs(ap(x)) for p in P for x in p]), num(EPS))
    d = vabs(ap(w))
    return band(bvar(("fast", w)), bor(band(allfast, le(d, scale)), band(bnot(allfast), le(d, num(EPS)))))


def gi(P, w):
    """|det| <= EPS * max(1, sum of difference magnitudes)^2"""
    s = vsum([vabs(x) for i in range(3) for x in vminus(P[i], P[3])])
    s = vite(sgn(vsub(s, ONE))[1], s, ONE)
    return le(vabs(w), vmul(vmul(s, s), num(EPS)))


def check(c):
    fn = c.fn("orient")
    for N in (1, 2, 3):

        def th(N=N):
            args, setup = points(c, N, N + 1)
            r = c.run(fn, {"N": ("cval", N), "T": TP}, args=[("ref", mk("arr", *args))], setup=setup, scalars=SC)
            P = [coords(r.ip, a, N) for a in args]
            if r.pc != TRUE:
                return False, "does not return when " + showb(bnot(r.pc), 4, 1)
            return c.same(r.ip, scalar_of(r.ip, r.ret), det([vminus(P[i + 1], P[0]) for i in range(N)]))

        c.guard("orient in dimension %d" % N, fn, th)

    snap(c, "orient2d", c.fn("orient2d"), d2, 3, g2)
    snap(c, "incircle", c.fn("incircle"), incirc, 4, gi)

    K = c.ty("F64Kernel")
    for tr, nm, n, d in (("Kernel2", "orient2d", 3, 2), ("Kernel3", "orient3d", 4, 3)):

        def th(tr=tr, nm=nm, n=n, d=d):
            f, env = c.method(tr, (K,), nm)
            r = c.run(f, env)
            P = [[scalar_of(r.ip, x) for x in coords(r.ip, argval(r, i), d)] for i in range(n)]
            if r.pc != TRUE:
                return False, "does not return when " + showb(bnot(r.pc), 4, 1)
            return c.same(r.ip, scalar_of(r.ip, r.ret), det([vminus(P[i + 1], P[0]) for i in range(d)]))

        f = None
        try:
            f, _ = c.method(tr, (K,), nm)
        except MissingAnchor:
            pass
        c.guard("F64Kernel::%s" % nm, f, th)


def snap(c, name, fn, want, n, guard):
    """each leaf is the determinant, or zero where |determinant| <= small * magnitude"""

    def th():
        r = c.run(fn, {"T": TP}, scalars=SC)
        ip = r.ip
        P = [coords(ip, argval(r, i), 2) for i in range(n)]
        w = want(P)
        if r.pc != TRUE:
            return False, "does not return when " + showb(bnot(r.pc), 4, 1)
        seen = False
        for l, cond in leaves(scalar_of(ip, r.ret)):
            if l.op == "num" and not l.args[0]:
                bad = band(cond, bnot(bor(sgn(w)[0], guard(P, w))))
                if bad != FALSE:
                    op = opaque_part(ip.full(r.ret))
                    return (None, "contains " + op) if op else (False, "zero for a determinant outside the tolerance when " + showb(bad, 5, 1))
                continue
            ok, d = c.same(ip, l, w, cond)
            if ok is not True:
                return ok, d
            seen = True
        return seen, "never returns the determinant"

    c.guard(name, fn, th)
