"""Hash-consed value terms, polynomials and decision diagrams.

Every scalar value is kept in polynomial normal form over opaque atoms, every boolean as a reduced
ordered decision diagram over atoms, every conditional value as a diagram whose leaves are terms.
Two program fragments that compute the same thing therefore usually get the *same object*.
"""
import sys
import math
from fractions import Fraction

sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "args", "id", "_poly", "_lv", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_n = [0]


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _n[0]
        t._poly = None
        t._lv = None
        _n[0] += 1
        _table[k] = t
    return t


# ---------------------------------------------------------------- BDD
FALSE, TRUE = 0, 1
_bv = [1 << 30, 1 << 30]
_bl = [0, 1]
_bh = [0, 1]
_bt = {}
ATOMS = []  # var index -> descriptor tuple
_atom_ix = {}


def bvar(desc):
    i = _atom_ix.get(desc)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(desc)
        _atom_ix[desc] = i
    return bnode(i, FALSE, TRUE)


def bnode(v, l, h):
    if l == h:
        return l
    k = (v, l, h)
    n = _bt.get(k)
    if n is None:
        n = len(_bv)
        _bv.append(v)
        _bl.append(l)
        _bh.append(h)
        _bt[k] = n
    return n


_ic = {}


def bite(f, g, h):
    if f == TRUE:
        return g
    if f == FALSE:
        return h
    if g == h:
        return g
    if g == TRUE and h == FALSE:
        return f
    k = (f, g, h)
    r = _ic.get(k)
    if r is not None:
        return r
    v = min(_bv[f], _bv[g], _bv[h])
    f0, f1 = (_bl[f], _bh[f]) if _bv[f] == v else (f, f)
    g0, g1 = (_bl[g], _bh[g]) if _bv[g] == v else (g, g)
    h0, h1 = (_bl[h], _bh[h]) if _bv[h] == v else (h, h)
    r = bnode(v, bite(f0, g0, h0), bite(f1, g1, h1))
    _ic[k] = r
    return r


def band(*xs):
    r = TRUE
    for x in xs:
        r = bite(r, x, FALSE)
        if r == FALSE:
            return r
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = bite(r, TRUE, x)
        if r == TRUE:
            return r
    return r


def bnot(x):
    return bite(x, FALSE, TRUE)


def bxor(a, b):
    return bite(a, bnot(b), b)


def bimp(a, b):
    return band(a, bnot(b)) == FALSE


_rc = {}


def brestrict(f, c):
    """Simplify f assuming c (Coudert-Madre restrict)."""
    if c == FALSE or c == TRUE or f <= 1:
        return f
    k = (f, c)
    r = _rc.get(k)
    if r is not None:
        return r
    v = min(_bv[f], _bv[c])
    c0, c1 = (_bl[c], _bh[c]) if _bv[c] == v else (c, c)
    if c1 == FALSE:
        r = brestrict(_bl[f] if _bv[f] == v else f, c0)
    elif c0 == FALSE:
        r = brestrict(_bh[f] if _bv[f] == v else f, c1)
    elif _bv[f] == v:
        r = bnode(v, brestrict(_bl[f], c0), brestrict(_bh[f], c1))
    else:
        r = brestrict(f, bor(c0, c1))
    _rc[k] = r
    return r


def bsupport(f):
    out = set()
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x <= 1 or x in seen:
            continue
        seen.add(x)
        out.add(_bv[x])
        st.append(_bl[x])
        st.append(_bh[x])
    return out


def bcof(f, v, val):
    """cofactor of f with variable index v set to val"""
    memo = {}

    def go(x):
        if x <= 1 or _bv[x] > v:
            return x
        if _bv[x] == v:
            return _bh[x] if val else _bl[x]
        r = memo.get(x)
        if r is None:
            r = bnode(_bv[x], go(_bl[x]), go(_bh[x]))
            memo[x] = r
        return r

    return go(f)


def bexists(f, v):
    return bor(bcof(f, v, False), bcof(f, v, True))


def bmap(f, fn):
    """substitute every variable by fn(desc) (a bdd)"""
    memo = {}

    def go(x):
        if x <= 1:
            return x
        r = memo.get(x)
        if r is None:
            r = bite(fn(ATOMS[_bv[x]]), go(_bh[x]), go(_bl[x]))
            memo[x] = r
        return r

    return go(f)


def bsize(f):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x <= 1 or x in seen:
            continue
        seen.add(x)
        st.append(_bl[x])
        st.append(_bh[x])
    return len(seen)


def cubes(f, limit=64):
    """yield lists of (desc, bool) covering f"""
    out = []

    def go(x, acc):
        if len(out) >= limit:
            return
        if x == FALSE:
            return
        if x == TRUE:
            out.append(list(acc))
            return
        acc.append((ATOMS[_bv[x]], False))
        go(_bl[x], acc)
        acc.pop()
        acc.append((ATOMS[_bv[x]], True))
        go(_bh[x], acc)
        acc.pop()

    go(f, [])
    return out


# ---------------------------------------------------------------- numbers / polynomials
def num(x):
    return mk("num", Fraction(x))


ZERO = num(0)
ONE = num(1)


def poly(t):
    """term -> dict monomial->coef ; monomial = tuple of (atom, exp) sorted by atom id"""
    if t._poly is not None:
        return t._poly
    if t.op == "num":
        r = {(): t.args[0]} if t.args[0] != 0 else {}
    elif t.op == "poly":
        r = dict(t.args[0])
    else:
        r = {((t, 1),): Fraction(1)}
    t._poly = r
    return r


def frompoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0])))
    return mk("poly", items)


def padd(a, b, k=1):
    pa = poly(a)
    pb = poly(b)
    if not pb:
        return a
    r = dict(pa)
    for m, c in pb.items():
        r[m] = r.get(m, 0) + k * c
    return frompoly(r)


def psub(a, b):
    if a is b:
        return ZERO
    return padd(a, b, -1)


def pneg(a):
    return frompoly({m: -c for m, c in poly(a).items()})


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # x * inv(x) = 1
    for a in list(d):
        if a.op == "inv" and d.get(a):
            b = a.args[0]
            if d.get(b):
                k = min(d[a], d[b])
                d[a] -= k
                d[b] -= k
        elif a.op == "sqrt" and d.get(a, 0) >= 2:
            pass
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


MAXPOLY = 20000


class TooBig(Exception):
    pass


def pmul(a, b):
    pa = poly(a)
    pb = poly(b)
    if len(pa) * len(pb) > MAXPOLY:
        raise TooBig("poly product")
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return frompoly(r)


def primitive(t):
    """t = c * p with p primitive with positive leading coefficient; returns (c, p)"""
    d = poly(t)
    if not d:
        return Fraction(0), ZERO
    items = sorted(d.items(), key=lambda kv: tuple((a.id, e) for a, e in kv[0]))
    c = items[-1][1]
    if c == 1:
        return c, t
    return c, frompoly({m: x / c for m, x in d.items()})


def pinv(a):
    if a.op == "num":
        if a.args[0] == 0:
            return mk("inv", ZERO)
        return num(1 / a.args[0])
    d = poly(a)
    if len(d) == 1:
        (m, c), = d.items()
        r = num(1 / c)
        for at, e in m:
            for _ in range(e):
                r = pmul(r, at.args[0] if at.op == "inv" else mk("inv", at))
        return r
    c, p = primitive(a)
    return pmul(num(1 / c), mk("inv", p))


def pdiv(a, b):
    return pmul(a, pinv(b))


def ratio(t):
    """write t as (numerator, denominator) polynomials without top-level inv atoms"""
    d = poly(t)
    if not any(a.op == "inv" for m in d for a, e in m):
        return t, ONE
    dens = {}
    for m in d:
        for a, e in m:
            if a.op == "inv":
                dens[a] = max(dens.get(a, 0), e)
    n = ZERO
    for m, c in d.items():
        term = num(c)
        have = {}
        for a, e in m:
            if a.op == "inv":
                have[a] = e
            else:
                for _ in range(e):
                    term = pmul(term, a)
        for a, e in dens.items():
            for _ in range(e - have.get(a, 0)):
                term = pmul(term, a.args[0])
        n = padd(n, term)
    den = ONE
    for a, e in dens.items():
        for _ in range(e):
            den = pmul(den, a.args[0])
    n1, n2 = ratio(n)
    d1, d2 = ratio(den)
    return pmul(n1, d2), pmul(d1, n2)


def _mono_div(m, l):
    """monomial m / monomial l or None"""
    md = dict(m)
    for a, e in l:
        if md.get(a, 0) < e:
            return None
        md[a] -= e
    return tuple((a, md[a]) for a, _ in m if md[a])


def pdivexact(n, d):
    """q with n = q*d as polynomials, or None"""
    if d.op == "num":
        return pmul(n, num(1 / d.args[0])) if d.args[0] else None
    dd, nd = poly(d), poly(n)
    if len(nd) > 400 or not nd:
        return ZERO if not nd else None

    # a proper monomial order: graded by total degree, ties by exponent vectors in atom order
    ids = sorted({a.id for m in list(dd) + list(nd) for a, _ in m}, reverse=True)

    def key(m):
        md = {a.id: e for a, e in m}
        return (sum(md.values()), tuple(md.get(i, 0) for i in ids))

    lead = max(dd, key=key)
    q = ZERO
    rest = n
    for _ in range(400):
        rd = poly(rest)
        if not rd:
            return q
        lm = max(rd, key=key)
        t = _mono_div(lm, lead)
        if t is None:
            return None
        t = frompoly({t: rd[lm] / dd[lead]})
        q = padd(q, t)
        rest = psub(rest, pmul(t, d))
        if rest is ZERO:
            return q
    return None


def req(a, b):
    """equality as rational functions"""
    if a is b:
        return True
    n1, d1 = ratio(a)
    n2, d2 = ratio(b)
    return pmul(n1, d2) is pmul(n2, d1)


# ---------------------------------------------------------------- booleans as values
def B(bdd):
    return mk("bool", bdd)


BT = B(TRUE)
BF = B(FALSE)
UNDEF = mk("undef")


# ---------------------------------------------------------------- conditional values
# ('ite', var, hi, lo) with var smaller than every var on top of hi / lo


def _top(v):
    return v.args[0] if v.op == "ite" else 1 << 30


_itec = {}


def vnode(var, hi, lo):
    if hi is lo:
        return hi
    if hi is UNDEF:
        return lo
    if lo is UNDEF:
        return hi
    if hi.op == "bool" and lo.op == "bool":
        return B(bite(bnode(var, FALSE, TRUE), hi.args[0], lo.args[0]))
    r = _merge_struct(bnode(var, FALSE, TRUE), hi, lo)
    if r is not None:
        return r
    return mk("ite", var, hi, lo)


MERGEABLE = ("struct", "arr", "clo", "seq")


def _merge_struct(c, hi, lo):
    """both sides built by the same constructor -> push the choice inwards"""
    if hi.op != lo.op or hi.op not in MERGEABLE:
        return None
    if hi.op in ("arr", "seq"):
        if len(hi.args) != len(lo.args):
            return None
        return mk(hi.op, *[vite(c, a, b) for a, b in zip(hi.args, lo.args)])
    # struct: path, variant, fields...   clo: id, substs, captures...
    if hi.args[0] != lo.args[0] or hi.args[1] != lo.args[1] or len(hi.args) != len(lo.args):
        return None
    return mk(hi.op, hi.args[0], hi.args[1], *[vite(c, a, b) for a, b in zip(hi.args[2:], lo.args[2:])])


def vite(c, a, b):
    """conditional value"""
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a.op == "bool" and b.op == "bool":
        return B(bite(c, a.args[0], b.args[0]))
    m = _merge_struct(c, a, b)
    if m is not None:
        return m
    k = (c, a, b)
    r = _itec.get(k)
    if r is not None:
        return r
    v = min(_bv[c], _top(a), _top(b))
    c0, c1 = (_bl[c], _bh[c]) if _bv[c] == v else (c, c)
    a0, a1 = (a.args[2], a.args[1]) if _top(a) == v else (a, a)
    b0, b1 = (b.args[2], b.args[1]) if _top(b) == v else (b, b)
    r = vnode(v, vite(c1, a1, b1), vite(c0, a0, b0))
    _itec[k] = r
    return r


def vmap(f, v, memo=None):
    """apply f to every leaf"""
    if v.op != "ite":
        return f(v)
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        hi = vmap(f, v.args[1], memo)
        lo = vmap(f, v.args[2], memo)
        r = vite(bnode(v.args[0], FALSE, TRUE), hi, lo)
        memo[v] = r
    return r


def vmap2(f, a, b, memo=None):
    if a.op != "ite" and b.op != "ite":
        return f(a, b)
    if memo is None:
        memo = {}
    k = (a, b)
    r = memo.get(k)
    if r is None:
        if len(memo) > 60000:
            raise TooBig("conditional product")
        v = min(_top(a), _top(b))
        a0, a1 = (a.args[2], a.args[1]) if _top(a) == v else (a, a)
        b0, b1 = (b.args[2], b.args[1]) if _top(b) == v else (b, b)
        hi = vmap2(f, a1, b1, memo)
        lo = vmap2(f, a0, b0, memo)
        r = vite(bnode(v, FALSE, TRUE), hi, lo)
        memo[k] = r
    return r


def bool_of(v):
    """value of type bool -> bdd"""
    if v.op == "bool":
        return v.args[0]
    if v.op == "ite":
        return bite(bnode(v.args[0], FALSE, TRUE), bool_of(v.args[1]), bool_of(v.args[2]))
    if v is UNDEF:
        return FALSE
    if v.op == "num":
        return TRUE if v.args[0] != 0 else FALSE
    return bvar(("true", v))


_rv = {}


def vrestrict(v, c):
    """simplify a value knowing c holds"""
    if c == TRUE or c == FALSE:
        return v
    if v.op == "bool":
        return B(brestrict(v.args[0], c))
    if v.op in ("struct", "clo"):
        new = [vrestrict(x, c) for x in v.args[2:]]
        if all(a is b for a, b in zip(new, v.args[2:])):
            return v
        return mk(v.op, v.args[0], v.args[1], *new)
    if v.op == "arr" or v.op == "seq":
        new = [vrestrict(x, c) for x in v.args]
        if all(a is b for a, b in zip(new, v.args)):
            return v
        return mk(v.op, *new)
    if v.op != "ite":
        return v
    k = (v, c)
    r = _rv.get(k)
    if r is not None:
        return r
    var = v.args[0]
    x = bnode(var, FALSE, TRUE)
    if band(c, x) == FALSE:
        r = vrestrict(v.args[2], c)
    elif band(c, bnot(x)) == FALSE:
        r = vrestrict(v.args[1], c)
    else:
        r = vite(x, vrestrict(v.args[1], band(c, x)), vrestrict(v.args[2], band(c, bnot(x))))
    _rv[k] = r
    return r


def leaves(v, pc=TRUE):
    """list of (leaf, bdd condition) of a conditional value under pc"""
    out = {}
    order = []

    def go(x, c):
        if c == FALSE:
            return
        if x.op == "ite":
            b = bnode(x.args[0], FALSE, TRUE)
            go(x.args[1], band(c, b))
            go(x.args[2], band(c, bnot(b)))
            return
        if x not in out:
            out[x] = FALSE
            order.append(x)
        out[x] = bor(out[x], c)

    go(v, pc)
    return [(x, out[x]) for x in order]


# ---------------------------------------------------------------- sign atoms
SIGN_ORACLE = [None]


def sign_parts(t):
    """(zero, positive, negative) as bdds for a scalar leaf term"""
    if t.op == "num":
        x = t.args[0]
        return (TRUE, FALSE, FALSE) if x == 0 else ((FALSE, TRUE, FALSE) if x > 0 else (FALSE, FALSE, TRUE))
    if t.op == "fconst":
        return (FALSE, TRUE, FALSE) if t.args[0] == "inf" else ((FALSE, FALSE, TRUE) if t.args[0] == "-inf" else (FALSE, FALSE, FALSE))
    d = poly(t)
    # product with inverses: sign(n * 1/d) = sign(n*d) through parts
    if len(d) == 1:
        (m, c), = d.items()
        z, p, n = FALSE, TRUE, FALSE
        if c < 0:
            p, n = FALSE, TRUE
        for a, e in m:
            base = a.args[0] if a.op == "inv" else a
            if len(m) == 1 and e == 1 and a.op != "inv":
                az, ap, an = _sign_atom(base)
            else:
                az, ap, an = sign_parts(base)
            if a.op == "inv":
                az = FALSE
                an = bnot(ap)
            if e % 2 == 0:
                ap, an = bor(ap, an), FALSE
            z, p, n = (
                bor(z, az),
                bor(band(p, ap), band(n, an)),
                bor(band(p, an), band(n, ap)),
            )
        return z, p, n
    # common inverse factor
    common = None
    for m in d:
        s = {(a, e) for a, e in m if a.op == "inv"}
        common = s if common is None else common & s
    if common:
        mono = tuple(sorted(common, key=lambda x: x[0].id))
        rest = {}
        for m, c in d.items():
            rest[tuple(x for x in m if x not in common)] = c
        z1, p1, n1 = sign_parts(frompoly(rest))
        z2, p2, n2 = sign_parts(frompoly({mono: Fraction(1)}))
        return bor(z1, z2), bor(band(p1, p2), band(n1, n2)), bor(band(p1, n2), band(n1, p2))
    # sum of fractions: sign(n/d) = sign(n)*sign(d) (a zero divisor is left unspecified)
    dens = {}
    for m in d:
        for a, e in m:
            if a.op == "inv":
                dens[a] = max(dens.get(a, 0), e)
    if dens:
        n = ZERO
        for m, c in d.items():
            have = {a: e for a, e in m if a.op == "inv"}
            term = frompoly({tuple(x for x in m if x[0].op != "inv"): c})
            for a, e in dens.items():
                for _ in range(e - have.get(a, 0)):
                    term = pmul(term, a.args[0])
            n = padd(n, term)
        z, p, q = None, None, None
        for a in sorted(dens, key=lambda x: x.id):
            while dens[a]:
                r = pdivexact(n, a.args[0])
                if r is None:
                    break
                n = r
                dens[a] -= 1
        z, p, q = sign_parts(n)
        for a, e in dens.items():
            if e % 2:
                dz, dp, dn = sign_parts(a.args[0])
                dn = bnot(dp)
                p, q = bor(band(p, dp), band(q, dn)), bor(band(p, dn), band(q, dp))
        return z, p, q
    # sum of even powers with coefficients of one sign: zero only where every summand is
    cs = list(d.values())
    if (all(x > 0 for x in cs) or all(x < 0 for x in cs)) and all(
        e % 2 == 0 or a.op in ("abs", "sqrt", "len", "dist", "mlen", "denom") for m in d for a, e in m
    ):
        z = TRUE
        for m in d:
            zm = FALSE
            for a, e in m:
                zm = bor(zm, sign_parts(a)[0])
            z = band(z, zm)
        return (z, bnot(z), FALSE) if cs[0] > 0 else (z, FALSE, bnot(z))
    # common monomial factor: sign(m*q) = sign(m)*sign(q)
    com = None
    for m in d:
        md = dict(m)
        if com is None:
            com = md
        else:
            com = {a: min(e, md[a]) for a, e in com.items() if a in md}
        if not com:
            break
    if com:
        rest = {}
        for m, c in d.items():
            rest[tuple((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0))] = c
        z1, p1, n1 = sign_parts(frompoly(rest))
        z2, p2, n2 = sign_parts(frompoly({tuple(sorted(com.items(), key=lambda x: x[0].id)): Fraction(1)}))
        return bor(z1, z2), bor(band(p1, p2), band(n1, n2)), bor(band(p1, n2), band(n1, p2))
    # a quadratic form of one sign is zero only where all its squares are
    r = _definite(d)
    if r is not None:
        return r
    if len(d) in (2, 3) and () in d:
        us = {a for m in d for a, e in m}
        if len(us) == 1 and all(len(m) <= 1 and (not m or m[0][1] <= 2) for m in d):
            k = {(m[0][1] if m else 0): x for m, x in d.items()}
            if k.get(2):
                # rational roots: product of linear factors
                q = k.get(1, Fraction(0)) ** 2 - 4 * k[2] * k[0]
                rn, rd = math.isqrt(q.numerator), math.isqrt(q.denominator)
                if rn * rn == q.numerator and rd * rd == q.denominator:
                    x, w = us.pop(), Fraction(rn, rd)
                    f = [psub(x, num((-k.get(1, Fraction(0)) + y) / (2 * k[2]))) for y in (w, -w)]
                    (z1, p1, n1), (z2, p2, n2) = sign_parts(f[0]), sign_parts(f[1])
                    p, n = bor(band(p1, p2), band(n1, n2)), bor(band(p1, n2), band(n1, p2))
                    return (bor(z1, z2), p, n) if k[2] > 0 else (bor(z1, z2), n, p)
    c, p = primitive(t)
    z, pp, nn = _sign_atom(p)
    if c < 0:
        pp, nn = nn, pp
    return z, pp, nn


def _definite(d):
    """signs of a quadratic polynomial that is a sum of squares of one sign, else None"""
    if len(d) > 21:
        return None
    us, two = [], False
    for m in d:
        if sum(e for a, e in m) > 2:
            return None
        for a, e in m:
            two = two or e == 2
            if a not in us:
                us.append(a)
    n = len(us)
    if not two or n > 5:
        return None
    M = [[Fraction(0)] * (n + 1) for _ in range(n + 1)]
    at = {a: i for i, a in enumerate(us)}
    for m, c in d.items():
        ix = [at[a] for a, e in m for _ in range(e)] + [n] * (2 - sum(e for a, e in m))
        i, j = ix
        if i == j:
            M[i][i] += c
        else:
            M[i][j] += c / 2
            M[j][i] += c / 2
    sign, rows = 0, []
    for k in range(n + 1):
        p = M[k][k]
        if p == 0:
            if any(M[k][j] for j in range(k + 1, n + 1)):
                return None
            continue
        if sign and (p > 0) != (sign > 0):
            return None
        sign = 1 if p > 0 else -1
        row = [M[k][j] / p for j in range(n + 1)]
        rows.append([Fraction(0)] * k + row[k:])
        for i in range(k + 1, n + 1):
            for j in range(k + 1, n + 1):
                M[i][j] -= p * row[i] * row[j]
    if not sign:
        return None
    # all squares vanish together: solve the linear system
    z, lead = TRUE, []
    for r in reversed(rows):
        r = list(r)
        for q, l in lead:
            if r[l]:
                f = r[l]
                r = [x - f * y for x, y in zip(r, q)]
        l = next((i for i in range(n + 1) if r[i]), None)
        if l is None:
            continue
        if l == n:
            z = FALSE
            break
        r = [x / r[l] for x in r]
        lead = [([x - q[l] * y for x, y in zip(q, r)], i) for q, i in lead] + [(r, l)]
    if z != FALSE:
        for r, l in lead:
            t = num(r[n])
            for i in range(n):
                if r[i]:
                    t = padd(t, pmul(num(r[i]), us[i]))
            z = band(z, sign_parts(t)[0])
    return (z, bnot(z), FALSE) if sign > 0 else (z, FALSE, bnot(z))


def _sign_atom(p):
    if SIGN_ORACLE[0] is not None:
        r = SIGN_ORACLE[0](p)
        if r is not None:
            return r
    if p.op == "denom":
        return FALSE, TRUE, FALSE
    if p.op in ("abs", "sqrt", "len", "dist", "mlen"):
        z = bvar(("Z", p))
        return z, bnot(z), FALSE
    z = bvar(("Z", p))
    q = bvar(("P", p))
    return z, band(bnot(z), q), band(bnot(z), bnot(q))


def sgn(v):
    """(zero,pos,neg) of a possibly conditional scalar"""
    if v.op == "ite":
        x = bnode(v.args[0], FALSE, TRUE)
        a = sgn(v.args[1])
        b = sgn(v.args[2])
        return tuple(bite(x, i, j) for i, j in zip(a, b))
    if v is UNDEF:
        return (FALSE, FALSE, FALSE)
    return sign_parts(v)


def lift1(f):
    return lambda a: vmap(f, a)


def lift2(f):
    return lambda a, b: vmap2(f, a, b)


vadd = lift2(padd)
vsub = lift2(psub)
vmul = lift2(pmul)
vdiv = lift2(pdiv)
vneg = lift1(pneg)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    o = t.op
    d = depth - 1
    if o == "num":
        return str(t.args[0])
    if o == "poly":
        out = []
        for m, c in t.args[0][:12]:
            f = "*".join(show(a, d) + ("^%d" % e if e > 1 else "") for a, e in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append("%s*%s" % (c, f))
        if len(t.args[0]) > 12:
            out.append("…%d terms" % len(t.args[0]))
        return "(" + " + ".join(out) + ")"
    if o == "sym":
        return str(t.args[0])
    if o == "fld":
        return "%s.%s" % (show(t.args[2], d), t.args[1])
    if o == "struct":
        nm = str(t.args[0]).split("::")[-1]
        return "%s#%s{%s}" % (nm, t.args[1], ", ".join(show(x, d) for x in t.args[2:]))
    if o == "bool":
        return showb(t.args[0], d)
    if o == "ite":
        return "if %s {%s} else {%s}" % (showatom(ATOMS[t.args[0]], d), show(t.args[1], d), show(t.args[2], d))
    if o == "ref":
        return "&%s%s" % (t.args[0], "".join("." + showp(p, d) for p in t.args[1]))
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in t.args))


def showp(p, d=4):
    return "/".join(show(x, d) if isinstance(x, T) else str(x) for x in p)


def showatom(a, d=5):
    if a[0] == "Z":
        return "%s==0" % show(a[1], d)
    if a[0] == "P":
        return "%s>0" % show(a[1], d)
    return "%s(%s)" % (a[0], ",".join(show(x, d) if isinstance(x, T) else str(x) for x in a[1:]))


def showb(f, d=4, limit=6):
    if f == TRUE:
        return "true"
    if f == FALSE:
        return "false"
    cs = cubes(f, limit + 1)
    s = " | ".join("&".join(("" if v else "!") + "[" + showatom(a, d) + "]" for a, v in c) for c in cs[:limit])
    return "<" + s + (" …" if len(cs) > limit else "") + ">"
