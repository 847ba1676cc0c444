"""C06: floating scalar operator forms agree; tolerant tests are symmetric around one tolerance."""
from lib import *
from common import *

EXPLAIN = (
    "Operator forms are compared with the plain operation; every tolerant predicate is reduced to a decision over threshold "
    "atoms of one real quantity (the value, or the difference of the operands) and evaluated on the finite partition of the "
    "real line its thresholds induce, where disjointness, symmetry and the common tolerance are decided."
)
RULES = [
    "operator form = plain operation", "zero <=> |x| < tol; positive beyond +tol only; negative beyond -tol only", "pos(x) = neg(-x), posOrZero(x) = negOrZero(-x) = not neg beyond the tolerance point",
    "approx_eq and partial_cmp Equal <=> |a-b| < tol; ordering reverses when operands are swapped",
]
HEAD = "CgarF64"


class NotAffine(Exception):
    pass


def thresholds(b, d):
    out = set()
    for v in bsupport(b):
        a = tm.ATOMS[v]
        if a[0] in ("Z", "P"):
            k, c0 = affine(a[1], d)
            out.add(-c0 / k)
    return out


def affine(p, d):
    pd = poly(p)
    k, c0 = Fraction(0), Fraction(0)
    for m, cf in pd.items():
        if m == ():
            c0 = cf
        elif m == ((d, 1),):
            k = cf
        else:
            raise NotAffine(show(p, 5))
    if k == 0:
        raise NotAffine(show(p, 5))
    return k, c0


def at(b, d, x, extra=()):
    """truth value of b at d = x (None if it depends on something else)"""
    for v in bsupport(b):
        a = tm.ATOMS[v]
        if a[0] not in ("Z", "P"):
            continue
        k, c0 = affine(a[1], d)
        y = k * x + c0
        t = (y == 0) if a[0] == "Z" else (y > 0)
        b = band(b, bvar(a) if t else bnot(bvar(a)))
    for v in bsupport(b):
        a = tm.ATOMS[v]
        if a[0] not in ("Z", "P"):
            # both ways possible
            pass
    if b == FALSE:
        return False
    # compare with the cell condition itself
    return True


def truth(b, d, x):
    t, f = at(b, d, x), at(bnot(b), d, x)
    if t and f:
        return None
    return t


def reps(ts):
    ts = sorted(set(ts) | {-t for t in ts} | {Fraction(0)})
    out = [ts[0] - 1]
    for i, t in enumerate(ts):
        out.append(t)
        out.append((t + ts[i + 1]) / 2 if i + 1 < len(ts) else t + 1)
    return out


def check(c):
    operator_forms(c, HEAD, floor=12)
    ty = c.ty(HEAD)
    for tr, nm, v in (("Zero", "zero", ZERO), ("One", "one", ONE), ("std::default::Default", "default", ZERO)):
        fn, env = c.method(tr, (ty,), nm)
        formula(c, nm, fn, env, lambda r, ip, v=v: [("", scalar_of(ip, r.ret), v)])
    fn, env = c.method("Abs", (ty,), "abs")
    formula(c, "abs", fn, env, lambda r, ip: [("", scalar_of(ip, r.ret), vite(sgn(scalar_of(ip, argval(r, 0)))[2], vneg(scalar_of(ip, argval(r, 0))), scalar_of(ip, argval(r, 0))))])
    fn, env = c.method("Scalar", (ty,), "from_num_den")
    formula(c, "from_num_den", fn, env, lambda r, ip: [("", scalar_of(ip, r.ret), vdiv(argval(r, 0), argval(r, 1)))])
    fn, env = c.method("Scalar", (ty,), "tolerance")
    tol = [None]

    def tht():
        r = c.run(fn, env)
        t = scalar_of(r.ip, r.ret)
        if t.op != "num":
            return None, "tolerance is not a constant"
        tol[0] = t.args[0]
        return (tol[0] > 0), "tolerance %s" % float(tol[0])

    c.guard("tolerance is a positive constant", fn, tht)
    if tol[0] is None:
        return
    tau = tol[0]

    D = mk("D")
    X = {}

    def unary(trait, nm):
        fn, env = c.method(trait, (ty,), nm)

        def th():
            r = c.run(fn, env)
            x = scalar_of(r.ip, argval(r, 0))
            X[nm] = (r.ret, x, fn)
            if opaque_part(r.ret):
                return None, "contains " + opaque_part(r.ret)
            if r.pc != TRUE:
                return False, "may not return"
            return True, ""

        c.guard(nm + " interpreted", fn, th)

    for trait, nm in (("Zero", "is_zero"), ("Zero", "is_positive"), ("Zero", "is_negative"), ("Zero", "is_positive_or_zero"), ("Zero", "is_negative_or_zero"), ("Scalar", "sign")):
        unary(trait, nm)

    def val(nm, x):
        ret, a, fn = X[nm]
        ret = models.tsubst(ret, {a: D})
        if nm == "sign":
            for lf, cnd in leaves(ret):
                if at(cnd, D, x):
                    return lf.args[0]
            return None
        return truth(bool_of(ret), D, x)

    def th():
        ts = {tau, -tau}
        for nm, (ret, a, fn) in X.items():
            ret = models.tsubst(ret, {a: D})
            if nm == "sign":
                for lf, cnd in leaves(ret):
                    ts |= thresholds(cnd, D)
            else:
                ts |= thresholds(bool_of(ret), D)
        return ts

    def pred(name, fn, cond):
        def t():
            try:
                pts = reps(th())
            except NotAffine as e:
                return None, "test is not a threshold on the value: %s" % e
            for x in pts:
                bad = cond(x)
                if bad:
                    return False, "%s at x = %s (tolerance %s)" % (bad, float(x), float(tau))
            return True, "%d cells" % len(pts)

        c.guard(name, fn, t)

    if len(X) == 6:
        f = {k: v[2] for k, v in X.items()}
        pred("zero exactly below the tolerance", f["is_zero"], lambda x: "is_zero is wrong" if val("is_zero", x) != (abs(x) < tau) else None)
        pred("positive only beyond the tolerance", f["is_positive"], lambda x: "is_positive is wrong" if x != tau and val("is_positive", x) != (x > tau) else None)
        pred("negative only beyond the tolerance", f["is_negative"], lambda x: "is_negative is wrong" if x != -tau and val("is_negative", x) != (x < -tau) else None)
        pred("sign tests are disjoint", f["is_positive"], lambda x: "two tests hold" if [val("is_zero", x), val("is_positive", x), val("is_negative", x)].count(True) > 1 else None)
        pred("negation swaps positive and negative", f["is_negative"], lambda x: "asymmetric" if val("is_positive", x) != val("is_negative", -x) else None)
        pred("negation swaps the weak tests", f["is_negative_or_zero"], lambda x: "asymmetric" if val("is_positive_or_zero", x) != val("is_negative_or_zero", -x) else None)
        pred("weak positive is the complement of negative", f["is_positive_or_zero"], lambda x: "is_positive_or_zero is wrong" if abs(x) != tau and val("is_positive_or_zero", x) == val("is_negative", x) else None)
        pred("weak negative is the complement of positive", f["is_negative_or_zero"], lambda x: "is_negative_or_zero is wrong" if abs(x) != tau and val("is_negative_or_zero", x) == val("is_positive", x) else None)
        pred("sign agrees with the sign tests", f["sign"], lambda x: "sign is wrong" if val("sign", x) != (1 if val("is_positive", x) else -1 if val("is_negative", x) else 0) else None)

    # binary tests as functions of the difference
    def binary(trait, targs, nm):
        fn, env = c.method(trait, targs, nm)
        r = c.run(fn, env)
        a, b = scalar_of(r.ip, argval(r, 0)), scalar_of(r.ip, argval(r, 1))
        return fn, r, models.tsubst(r.ret, {a: padd(b, D)}), a, b

    def cells(ret, pc):
        ts = {tau, -tau}
        for lf, cnd in leaves(ret, pc):
            ts |= thresholds(cnd, D)
            if lf.op == "bool":
                ts |= thresholds(lf.args[0], D)
        return reps(ts)

    def dec(ret, x):
        """all outcomes possible at difference x"""
        out = []
        for lf, cnd in leaves(ret):
            if at(cnd, D, x):
                if lf.op == "bool":
                    out += [k for k, g in ((True, lf.args[0]), (False, bnot(lf.args[0]))) if at(band(cnd, g), D, x)]
                else:
                    out.append(lf)
        return out

    def order(t):
        """-1/0/1 of an Ordering or Some(Ordering)"""
        if t.op == "struct" and t.args[0].endswith("Option"):
            if t.args[1] == 0:
                return None
            t = t.args[2]
        return t.args[1] - 1

    def pcfull(ret):
        return vmap(lambda t: t.args[2] if t.op == "struct" and t.args[0].endswith("Option") and t.args[1] == 1 else t, ret)

    def thb(name, trait, targs, nm, want):
        fn, env = c.method(trait, targs, nm)

        def t():
            _, r, ret, a, b = binary(trait, targs, nm)
            ret = pcfull(ret)
            if opaque_part(ret):
                return None, "contains " + opaque_part(ret)
            try:
                for x in cells(ret, TRUE):
                    bad = want(ret, x)
                    if bad:
                        return False, "%s at difference %s" % (bad, float(x))
            except NotAffine as e:
                return None, "not a threshold on the difference: %s" % e
            return True, ""

        c.guard(name, fn, t)

    thb("approx_eq exactly below the tolerance", "Scalar", (ty,), "approx_eq", lambda ret, x: "wrong" if set(dec(ret, x)) != {abs(x) < tau} else None)

    def pc_(ret, x):
        o = [order(t) for t in dec(ret, x)]
        if len(set(o)) != 1 or o[0] is None:
            return "no unique ordering"
        if abs(x) < tau and o[0] != 0:
            return "operands within the tolerance are not Equal"
        if abs(x) > tau and o[0] != (1 if x > 0 else -1):
            return "wrong ordering"
        m = [order(t) for t in dec(ret, -x)]
        if set(m) != {-o[0]}:
            return "swapping the operands does not reverse the ordering"

    thb("partial_cmp uses the tolerance symmetrically", "std::cmp::PartialOrd", (ty, ty), "partial_cmp", pc_)

    fn, env = c.method("Scalar", (ty,), "cmp_ref")

    def tcr():
        r = c.run(fn, env)
        a, b = scalar_of(r.ip, argval(r, 0)), scalar_of(r.ip, argval(r, 1))
        z, p, n = sgn(vsub(a, b))
        ax = band(bnot(z), bnot(band(sgn(a)[0], sgn(b)[0])))
        return c.same(r.ip, r.ret, models.ordering(z, p, n), band(r.pc, ax))

    c.guard("cmp_ref is the order of the doubles", fn, tcr)
    for nm, sg in (("min", -1), ("max", 1)):
        fn, env = c.method("Scalar", (ty,), nm)

        def t(fn=fn, env=env, nm=nm, sg=sg):
            env = dict(env)
            env["Self"] = ty
            r = c.run(fn, env)
            a, b = scalar_of(r.ip, argval(r, 0)), scalar_of(r.ip, argval(r, 1))
            ret = scalar_of(r.ip, r.ret)
            if opaque_part(ret):
                return None, "contains " + opaque_part(ret)
            try:
                ts = {tau, -tau}
                lv = [(lf, models.tsubst(B(cnd), {a: padd(b, D)}).args[0]) for lf, cnd in leaves(ret)]
                for lf, cnd in lv:
                    ts |= thresholds(cnd, D)
                    if lf is not a and lf is not b:
                        return False, "%s is neither operand" % show(lf, 4)
                for x in reps(ts):
                    for lf, cnd in lv:
                        if at(cnd, D, x) and abs(x) > tau and (lf is a) != ((x > 0) == (sg > 0)):
                            return False, "wrong operand at difference %s" % float(x)
            except NotAffine as e:
                return None, str(e)
            return True, ""

        c.guard(nm, fn, t)
