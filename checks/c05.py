"""C05: equal values hash equally; comparisons examine every component."""
from lib import *
from common import *
from lazy import *

EXPLAIN = (
    "Equality, ordering and hashing of every scalar kind and compound type are interpreted symbolically. Equality must be the "
    "conjunction over all components, ordering lexicographic, and the bytes fed to the hasher must be a function of quantities "
    "that equality makes equal (for lazy numbers: of the exact value only, including the memoised digest)."
)
RULES = ["eq = AND over components", "partial_cmp = first differing component decides", "eq(a,b) => hash input of a = hash input of b", "a memoised digest is the digest of the exact value"]


def cv(n):
    return ("cval", n)


INSTABLE = {"approx", "lapprox", "bm", "br", "ilo", "ihi", "fast", "iv", "center", "lo", "hi", "ball"}


def unstable_part(t, allow=()):
    """a quantity inside t that is not determined by the exact value"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in INSTABLE and x.op not in allow:
                return show(x, 4)
            if x.op == "bool":
                stack.extend(tm.ATOMS[v] for v in bsupport(x.args[0]))
            elif x.op == "ite":
                stack.append(tm.ATOMS[x.args[0]])
                stack.extend(x.args[1:])
            elif x.op == "poly":
                stack.extend(a for m in poly(x) for a, _ in m)
            else:
                stack.extend(x.args)
        elif isinstance(x, tuple):
            if x and x[0] in ("ready", "var", "ptr_eq", "fast", "iv"):
                return "%s of %s" % (x[0], show(x[-1], 4) if isinstance(x[-1], T) else x[-1])
            stack.extend(x)
        elif isinstance(x, str) and "RandomState" in x:
            return x
    return None


def hashes(t):
    """the values fed to the hasher, in order, or None"""
    out = []
    while t.op == "hashed":
        out.append(t.args[1])
        t = t.args[0]
    return t, out[::-1]


def components(ip, head, v, dims):
    if head in ("Point", "Vector"):
        return coords(ip, v, dims[0])
    if head == "Plane":
        return coords(ip, ip.proj(v, ("f", 0, 0)), dims[0]) + [ip.proj(v, ("f", 0, 1))]
    u = unwrap(ip, v)
    return [ip.select(ip.select(u, num(i)), num(j)) for i in range(dims[0]) for j in range(dims[1])]


def check(c):
    f64 = c.ty("CgarF64")
    n = 0
    for head, dimsets in (("Point", ((2,), (3,), (4,))), ("Vector", ((2,), (3,), (4,))), ("Plane", ((2,), (3,))), ("Matrix", ((2, 2), (2, 3), (3, 3), (4, 4)))):
        for dims in dimsets:
            tag = "%s %s" % (head, "x".join(map(str, dims)))
            t = c.ty(head, TP, *[cv(d) for d in dims])

            def lex(r, ip):
                a, b = [components(ip, head, argval(r, i), dims) for i in (0, 1)]
                res = models.ordering(TRUE, FALSE, FALSE)
                for x, y in reversed(list(zip(a, b))):
                    z, p, ng = sgn(vsub(x, y))
                    res = vite(z, res, models.ordering(z, p, ng))
                return [("", r.ret, models.some(res))]

            def alleq(r, ip):
                a, b = [components(ip, head, argval(r, i), dims) for i in (0, 1)]
                e = TRUE
                for x, y in zip(a, b):
                    e = band(e, sgn(vsub(x, y))[0])
                return [("", r.ret, B(e))]

            fn, env = c.method("std::cmp::PartialEq", (t, t), "eq")
            formula(c, tag + " eq examines every component", fn, env, alleq, scalars=("T",))
            fn, env = c.method("std::cmp::PartialOrd", (t, t), "partial_cmp")
            formula(c, tag + " ordering is lexicographic", fn, env, lex, scalars=("T",))
            fn, env = c.method("std::hash::Hash", (t,), "hash")
            n += 1

            def th():
                r = c.run(fn, env, scalars=("T",))
                st = r.ip.read(r.st, r.roots[1], ())
                bad = unstable_part(st)
                if bad:
                    return False, "hash depends on %s, which equal values may disagree on" % bad
                return True, ""

            c.guard(tag + " hash uses exact components", fn, th)

            # with the bitwise floating scalar: equal implies equal hash input
            tf = c.ty(head, f64, *[cv(d) for d in dims])
            fe, ee = c.method("std::cmp::PartialEq", (tf, tf), "eq")
            fh, eh = c.method("std::hash::Hash", (tf,), "hash")
            c.guard(tag + " over doubles: equal implies equal hash", fh, lambda: eq_hash(c, fe, ee, fh, eh))
    floor_ob(c, "compound hash implementations", n, 9)

    t = f64
    fe, ee = c.method("std::cmp::PartialEq", (t, t), "eq")
    fh, eh = c.method("std::hash::Hash", (t,), "hash")
    c.guard("floating scalar: equal implies equal hash", fh, lambda: eq_hash(c, fe, ee, fh, eh))

    t = c.ty("CgarRational")
    fh, eh = c.method("std::hash::Hash", (t,), "hash")
    fe, ee = c.method("std::cmp::PartialEq", (t, t), "eq")
    formula(c, "rational eq is value equality", fe, ee, lambda r, ip: [("", r.ret, B(sgn(vsub(scalar_of(ip, argval(r, 0)), scalar_of(ip, argval(r, 1))))[0]))])

    def th():
        r = c.run(fh, eh)
        st = r.ip.read(r.st, r.roots[1], ())
        bad = unstable_part(st, allow=("approx",))
        if bad:
            return False, "hash depends on " + bad
        if has_address(st):
            return None, "hash input not interpreted"
        return True, ""

    c.guard("rational hash is a function of the value", fh, th)
    fl = c.method("std::cmp::PartialOrd", (t, t), "partial_cmp")

    # lazy numbers
    try:
        L = Lazy(c)
    except Undecided as e:
        c.ob("lazy number representation", None, None, str(e))
        return
    s = L.setup(ops=True, interval=True)
    fe, ee = c.method("std::cmp::PartialEq", (L.ty, L.ty), "eq")

    def the():
        L.writes = []
        r = c.run(fe, ee, overrides=s["overrides"], setup=s["setup"])
        ip = r.ip
        from c03 import lazies

        xs = [argval(r, 0), argval(r, 1)]
        ax = L.axioms(ip, list(dict.fromkeys(lazies(L, ip, r.ret, r.pc) + xs)))
        return c.same(ip, r.ret, B(sgn(vsub(L.val(ip, xs[0]), L.val(ip, xs[1])))[0]), band(r.pc, ax))

    c.guard("lazy eq is exact value equality", fe, the)
    fh, eh = c.method("std::hash::Hash", (L.ty,), "hash")

    def thl():
        L.writes = []
        r = c.run(fh, eh, overrides=s["overrides"], setup=s["setup"])
        ip = r.ip
        x = argval(r, 0)
        st = ip.read(r.st, r.roots[1], ())
        D = None
        for pc, which, y, v in L.writes:
            if which != "hash":
                continue
            if y is not x:
                return False, "digest stored in another node"
            for v1, _ in leaves(v, pc):
                bad = unstable_part(v1)
                if bad:
                    return False, "memoised digest depends on " + bad
                if D is not None and v1 is not D:
                    return False, "two different digests are memoised for one value"
                D = v1
        hv = L.hashv(ip, x)
        if D is not None:
            st = models.tsubst(st, {hv: D})
        forms = []
        for v1, cnd in leaves(st, r.pc):
            bad = unstable_part(v1)
            if bad:
                return False, "hash depends on " + bad
            if v1 not in forms:
                forms.append(v1)
        ready = [a for a in map(lambda v: tm.ATOMS[v], bsupport(r.pc))]
        if len(forms) > 1:
            return False, "hash input depends on whether a value is cached: %s / %s" % (show(forms[0], 5), show(forms[1], 5))
        return True, ""

    c.guard("lazy hash is a function of the exact value", fh, thl)
    c.assumptions.append("a default-constructed hasher has the same initial state each time within one process (fixed-key hasher)")


def has_address(t):
    return "addr" in show(t, 12)


def eq_hash(c, fe, ee, fh, eh):
    r = c.run(fe, ee)
    ip = r.ip
    a, b = argval(r, 0), argval(r, 1)
    E = band(bool_of(r.ret), r.pc)
    rh = c.run(fh, eh)
    st = rh.ip.read(rh.st, rh.roots[1], ())
    x = argval(rh, 0)
    if opaque_part(r.ret) or opaque_part(st):
        return None, "contains " + str(opaque_part(r.ret) or opaque_part(st))
    Ha, Hb = models.tsubst(st, {x: a}), models.tsubst(st, {x: b})
    # doubles: equal value and not both zero => equal bits; equal bits => equal value
    def ax(p, q):
        bits = set()
        collect_bits(p, bits)
        collect_bits(q, bits)
        bits = list(bits)
        ax = TRUE
        for i, p in enumerate(bits):
            for q in bits[i + 1 :]:
                eqv = sgn(vsub(p, q))[0]
                eqb = sgn(vsub(mk("to_bits", p), mk("to_bits", q)))[0]
                ax = band(ax, bor(bnot(eqb), eqv), bor(bnot(eqv), sgn(p)[0], eqb))
                ax = band(ax, bor(bnot(eqv), bnot(bxor(sgn(p)[0], sgn(q)[0]))))
        return ax

    for u, cu in leaves(Ha, E):
        for v, cw in leaves(Hb, cu):
            if cw == FALSE:
                continue
            r1, h1 = hashes(u)
            r2, h2 = hashes(v)
            if r1 is not r2:
                return None, "hash state not interpreted"
            if len(h1) != len(h2):
                return False, "equal values feed different amounts of data to the hasher when " + showb(cw, 4, 1)
            for p, q in zip(h1, h2):
                if p is q:
                    continue
                e = sgn(vsub(p, q))[0] if p.op not in ("struct", "arr") else ip.eq(p, q)
                bad = band(cw, bnot(e), ax(p, q))
                if bad != FALSE:
                    return False, "equal values hash %s and %s when %s" % (show(p, 4), show(q, 4), showb(bad, 4, 1))
    return True, ""


def collect_bits(t, out):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "to_bits":
                out.add(x.args[0])
            if x.op == "bool":
                stack.extend(tm.ATOMS[v] for v in bsupport(x.args[0]))
            elif x.op == "ite":
                stack.append(tm.ATOMS[x.args[0]])
                stack.extend(x.args[1:])
            elif x.op == "poly":
                stack.extend(a for m in poly(x) for a, _ in m)
            else:
                stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
