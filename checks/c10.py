"""C10: a plane through points contains them; canonical form is scale-free."""
from lib import *
from common import *

EXPLAIN = (
    "Plane construction, origin, basis and canonicalisation are interpreted over symbolic coordinates; incidence, orthogonality "
    "and orientation are polynomial identities between the results and the inputs, decided on every branch of the code."
)
RULES = ["normal . p_i + d = 0 for every defining point", "normal = (p1-p0) x (p2-p0) up to a positive factor; 2D: +90 degree rotation of p1-p0", "canonical form scales normal and offset by the inverse of the first non-zero normal component"]
PARALLEL = True
SC = ("T",)


def cv(n):
    return ("cval", n)


def plane(ip, v, N):
    v = vmap(ip.expand, v)
    return coords(ip, ip.proj(v, ("f", 0, 0)), N), ip.proj(v, ("f", 0, 1))


def check(c):
    for N in (2, 3):
        P = c.ty("Plane", TP, cv(N))
        fn, env = c.method("PlaneOps", (P, TP, cv(N)), "from_points")

        def pts(r, ip):
            a = argval(r, 0)
            st = interp.State(dict(r.init), TRUE)
            return [coords(ip, ip.deref_all(st, ip.select(a, num(i))), N) for i in range(N)]

        def want(r, ip):
            n, d = plane(ip, r.ret, N)
            return [("normal.p%d + d " % i, vadd(dot(n, p), d), ZERO) for i, p in enumerate(pts(r, ip))]

        formula(c, "from_points %dD contains its points" % N, fn, env, want, scalars=SC)


        def th():
            r = c.run(fn, env, scalars=SC)
            ip = r.ip
            n, d = plane(ip, r.ret, N)
            p = pts(r, ip)
            if N == 3:
                ref = cross3(vminus(p[1], p[0]), vminus(p[2], p[0]))
                par = cross3(n, ref)
            else:
                e = vminus(p[1], p[0])
                ref = [vneg(e[1]), e[0]]
                par = [cross2(n, ref)]
            for x in par:
                ok, det_ = c.same(ip, x, ZERO, r.pc)
                if ok is not True:
                    return ok, "normal not parallel to the oriented normal: " + det_
            # common exact case: identical normals
            if all(c.same(ip, a, b, r.pc)[0] is True for a, b in zip(n, ref)):
                return True, ""
            if all(c.same(ip, a, vneg(b), r.pc)[0] is True for a, b in zip(n, ref)):
                return False, "normal points against the order of the points"
            return None, "scaled normal: factor not identified"

        c.guard("from_points %dD orientation" % N, fn, th)

        fn, env = c.method("PlaneOps", (P, TP, cv(N)), "origin")

        def th2():
            r = c.run(fn, env, scalars=SC)
            ip = r.ip
            n, d = plane(ip, argval(r, 0), N)
            o = coords(ip, r.ret, N)
            nz = FALSE
            for x in n:
                nz = bor(nz, bnot(sgn(x)[0]))
            if band(nz, bnot(r.pc)) != FALSE:
                return False, "gives no origin for a plane with non-zero normal when " + showb(band(nz, bnot(r.pc)), 4, 1)
            v = vrestrict(vadd(dot(n, o), d), r.pc)
            return c.same(ip, v, ZERO, band(nz, r.pc))

        c.guard("origin %dD lies on the plane" % N, fn, th2)

        fn, env = c.method("PlaneOps", (P, TP, cv(N)), "basis")

        def wb(r, ip):
            n, d = plane(ip, argval(r, 0), N)
            u = coords(ip, ip.proj(r.ret, ("f", 0, 0)), N)
            v = coords(ip, ip.proj(r.ret, ("f", 0, 1)), N)
            out = [("u.normal ", dot(u, n), ZERO), ("u.v ", dot(u, v), ZERO)]
            if N == 3:
                out.append(("v.normal ", dot(v, n), ZERO))
            return out

        formula(c, "basis %dD is orthogonal" % N, fn, env, wb, scalars=SC)

        fn = c.fn("Plane<_, _>::canonicalized")

        def wc(r, ip):
            n, d = plane(ip, argval(r, 0), N)
            n2, d2 = plane(ip, r.ret, N)
            f = ONE  # zero normal: unchanged
            for x in reversed(n):
                f = vite(sgn(x)[0], f, x)
            # n2 * f = n, d2 * f = d with f the first non-zero component
            return vec([vmul(x, f) for x in n2], n, "normal") + [("d", vmul(d2, f), d)]

        formula(c, "canonicalized %dD" % N, fn, {"T": TP, "N": cv(N)}, wc, scalars=SC)
        fn = c.fn("Plane<_, _>::new")

        def wn(r, ip):
            n2, d2 = plane(ip, r.ret, N)
            return vec(n2, coords(ip, argval(r, 0), N)) + [("d", d2, argval(r, 1))]

        formula(c, "new %dD" % N, fn, {"T": TP, "N": cv(N)}, wn, scalars=SC)
