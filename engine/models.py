"""Models of the abstract scalar operations and of the standard library calls the crate uses."""
import re
from .terms import *
from . import terms as tm
from .facts import strip_ref, subst

OPTION = "std::option::Option"
RESULT = "std::result::Result"
ORDERING = "std::cmp::Ordering"
LOCAL = {}
F64 = ("float", "f64")
UNIT = mk("struct", "tuple", 0)
NONE = mk("struct", OPTION, 0)


def some(x):
    return mk("struct", OPTION, 1, x)


def opt(c, x):
    return vite(c, some(x), NONE)


def ok(x):
    return mk("struct", RESULT, 0, x)


def err(x):
    return mk("struct", RESULT, 1, x)


def tup2(a, b):
    return mk("struct", "tuple", 0, a, b)


def ordering(z, p, n):
    return vite(z, mk("struct", ORDERING, 1), vite(p, mk("struct", ORDERING, 2), mk("struct", ORDERING, 0)))


# ---------------------------------------------------------------- substitution in terms
def tsubst(t, m, memo=None):
    """replace terms (and ('mu',..) boolean atoms) inside t; m: dict term->term"""
    if memo is None:
        memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op in ("num", "sym", "undef", "str", "char", "havoc", "fconst", "bv", "tol", "fn", "const", "mnew"):
            r = x
        elif op == "poly":
            acc = ZERO
            for mono, c in x.args[0]:
                term = num(c)
                for a, e in mono:
                    y = go(a)
                    for _ in range(e):
                        term = vmul(term, y)
                acc = vadd(acc, term)
            r = acc
        elif op == "inv":
            y = go(x.args[0])
            r = x if y is x.args[0] else vmap(pinv, y)
        elif op == "bool":
            r = B(bgo(x.args[0]))
        elif op == "ite":
            r = vite(bgo(bnode(x.args[0], FALSE, TRUE)), go(x.args[1]), go(x.args[2]))
        elif op == "ref":
            r = mk("ref", x.args[0], tuple(tuple(go(q) if isinstance(q, T) else q for q in p) for p in x.args[1]))
        else:
            r = mk(op, *[go(a) if isinstance(a, T) else a for a in x.args])
        memo[x] = r
        return r

    def bgo(f):
        sup = bsupport(f)
        if not sup:
            return f
        return bmap(f, atom)

    amemo = {}

    def atom(a):
        r = amemo.get(a)
        if r is not None:
            return r
        k = ("B", a)
        if k in m:
            r = m[k]
        elif a[0] == "Z":
            y = go(a[1])
            r = bvar(a) if y is a[1] else sgn(y)[0]
        elif a[0] == "P":
            y = go(a[1])
            # only meaningful together with not-Z; positive part
            r = bvar(a) if y is a[1] else sgn(y)[1]
        else:
            new = tuple(go(q) if isinstance(q, T) else q for q in a)
            r = bvar(new)
        amemo[a] = r
        return r

    return go(t)


def mentions(t, pred, memo=None):
    """does some subterm (including inside diagrams) satisfy pred"""
    if memo is None:
        memo = {}
    stack = [t]
    seen = set()
    seenb = set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if pred(x):
                return True
            if x.op == "bool":
                for v in bsupport(x.args[0]):
                    if v not in seenb:
                        seenb.add(v)
                        stack.append(tm.ATOMS[v])
            elif x.op == "ite":
                if x.args[0] not in seenb:
                    seenb.add(x.args[0])
                    stack.append(tm.ATOMS[x.args[0]])
                stack.extend(x.args[1:])
            else:
                stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
            if x and x[0] == "mu" and pred(x):
                return True
    return False


def is_mu(x):
    return (isinstance(x, T) and x.op == "mu") or (isinstance(x, tuple) and len(x) == 4 and x[0] == "mu")


# ---------------------------------------------------------------- abstract scalar
def absval(ip, v):
    def one(x):
        if x.op == "num":
            return num(abs(x.args[0]))
        if x.op == "fconst":
            return mk("fconst", "inf") if x.args[0] in ("inf", "-inf") else x
        if ip.abs_opaque:
            if x.op in ("abs", "sqrt", "len"):
                return x
            c, p = primitive(x)
            return pmul(num(abs(c)), mk("abs", p))
        z, p, n = sign_parts(x)
        return vite(n, pneg(x), x)

    return vmap(one, v)


def approx(ip, v):
    def one(x):
        if x.op == "num":
            return x
        return ip.typed(mk("approx", x), F64)

    return vmap(one, v)


def scalar(ip, st, name, args, atys, dty, r):
    vs = [ip.deref_all(st, a) for a in args]
    v = vs[0] if vs else None
    if name in ("clone", "to_owned", "borrow", "as_ref"):
        return v
    if name == "clone_from":
        ip.write(st, ip.refs_of(st, args[0]), vs[1])
        return UNIT
    if name == "add":
        return vadd(*vs)
    if name == "sub":
        return vsub(*vs)
    if name == "mul":
        return vmul(*vs)
    if name == "div":
        return vdiv(*vs)
    if name == "neg":
        return vneg(v)
    if name in ("add_assign", "sub_assign", "mul_assign", "div_assign"):
        f = {"add_assign": vadd, "sub_assign": vsub, "mul_assign": vmul, "div_assign": vdiv}[name]
        ip.write(st, ip.refs_of(st, args[0]), f(vs[0], vs[1]))
        return UNIT
    if name in ("zero", "default"):
        return ZERO
    if name == "one":
        return ONE
    if name == "is_zero":
        return B(sgn(v)[0])
    if name == "is_positive":
        return B(sgn(v)[1])
    if name == "is_negative":
        return B(sgn(v)[2])
    if name == "is_positive_or_zero":
        return B(bnot(sgn(v)[2]))
    if name == "is_negative_or_zero":
        return B(bnot(sgn(v)[1]))
    if name == "abs":
        return absval(ip, v)
    if name in ("lt", "le", "gt", "ge", "eq", "ne"):
        return B(ip.cmp(name.capitalize(), vs[0], vs[1]))
    if name == "approx_eq":
        return B(ip.cmp("Eq", vs[0], vs[1]))
    if name == "min":
        return vite(ip.cmp("Lt", vs[0], vs[1]), vs[0], vs[1])
    if name == "max":
        return vite(ip.cmp("Gt", vs[0], vs[1]), vs[0], vs[1])
    if name in ("partial_cmp", "cmp_ref", "cmp"):
        z, p, n = sgn(vsub(vs[0], vs[1]))
        o = ordering(z, p, n)
        return some(o) if name == "partial_cmp" else o
    if name == "sign":
        z, p, n = sgn(v)
        return vite(z, ZERO, vite(p, ONE, num(-1)))
    if name == "from_num_den":
        return vdiv(vs[0], vs[1])
    if name in ("from", "into", "from_ref", "ref_into"):
        return convert(ip, v, atys[0], dty)
    if name in (
        "tolerance",
        "tolerance_squared",
        "point_merge_threshold",
        "edge_degeneracy_threshold",
        "area_degeneracy_threshold",
        "query_tolerance",
        "query_tolerance_squared",
        "point_merge_threshold_squared",
    ):
        if getattr(ip, "no_tolerance", False):
            return ZERO
        return ip.typed(mk("tol", name), dty)
    if name in ("to_f64", "ball_center_f64") and getattr(ip, "no_tolerance", False):
        return some(v) if name == "to_f64" else v
    if name == "to_f64":
        return some(approx(ip, v))
    if name == "ball_center_f64":
        return approx(ip, v)
    if name == "as_f64_fast" and getattr(ip, "no_tolerance", False):
        return some(v)
    if name == "as_f64_fast":
        return vmap(lambda x: opt(TRUE if x.op == "num" else bvar(("fast", x)), approx(ip, x)), v)
    if name == "double_interval":

        def iv(x):
            c = bvar(("iv", x))
            return opt(c, tup2(ip.typed(mk("lo", x), F64), ip.typed(mk("hi", x), F64)))

        return vmap(iv, v)
    if name == "hash":
        ip.write(st, ip.refs_of(st, args[1]), mk("hashed", ip.deref(st, args[1]), v))
        return UNIT
    return ip.uninterp("scalar::" + name, args, atys, dty, st)


def convert(ip, v, frm, to):
    """value conversion between scalar kinds: the abstract value is kept"""
    to_s = strip_ref(to) if to else None
    if to_s and to_s[0] == "adt":
        h = to_s[1].split("::")[-1]
        if h == "CgarF64":
            return mk("struct", to_s[1], 0, approx(ip, v))
        return ip.typed(mk("conv", h, v), to)
    if v.op == "struct" and isinstance(v.args[0], str) and v.args[0].endswith("CgarF64"):
        return v.args[2]
    return v


# ---------------------------------------------------------------- std models
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n.replace("::slice_impl", "").replace("::impl", "")] = f
        return f

    return d


_gen = re.compile(r"::<[^<>]*>")


def simp_path(p):
    q = None
    while q != p:
        q = p
        p = _gen.sub("", p)
    p = re.sub(r"^(core|alloc)::", "std::", p)
    p = p.replace("smallvec::alloc::", "std::")
    return p


class Call:
    __slots__ = "ip st path targs args atys dty c fr line".split()

    def val(self, i):
        return self.ip.deref_all(self.st, self.args[i])

    def one(self, i):
        """argument i read through exactly one reference"""
        return self.ip.deref(self.st, self.args[i])

    def ref(self, i):
        return self.ip.refs_of(self.st, self.args[i])

    def clo(self, i, *a, dty=None):
        return self.ip.call_value(self.args[i], list(a), self.st, dty)

    def selfty(self):
        return self.targs[0] if self.targs else None


def external(ip, st, path, targs, args, atys, dty, c, fr, line):
    k = Call()
    k.ip, k.st, k.path, k.targs, k.args, k.atys, k.dty, k.c, k.fr, k.line = ip, st, path, targs, args, atys, dty, c, fr, line
    p = simp_path(path)
    f = EXT.get(p)
    if f is None and c.get("resolved"):
        f = EXT.get(simp_path(c["resolved"]["path"]))
    if f:
        r = f(k)
        if r is not None:
            return r
    return ip.uninterp(p, args, atys, dty, st)


def under(ip, st, cond, f, g):
    """run f under cond and g under not cond, merging both states; f,g: State -> value"""
    a = band(st.pc, cond)
    b = band(st.pc, bnot(cond))
    if a == FALSE:
        return g(st) if b != FALSE or True else UNDEF
    if b == FALSE:
        return f(st)
    s1 = type(st)(dict(st.mem), a)
    v1 = f(s1)
    s2 = type(st)(dict(st.mem), b)
    v2 = g(s2)
    if s1.pc == FALSE:
        st.mem, st.pc = s2.mem, s2.pc
        return v2
    if s2.pc == FALSE:
        st.mem, st.pc = s1.mem, s1.pc
        return v1
    s1.mem[("tmp", len(ip.stack))] = v1
    s2.mem[("tmp", len(ip.stack))] = v2
    m = ip.merge([s1, s2])
    st.mem, st.pc = m.mem, m.pc
    return st.mem.pop(("tmp", len(ip.stack)))


def is_some(ip, v):
    return ip.isvar(v, 1, OPTION)


def payload(ip, v, var=1):
    return ip.proj(v, ("f", var, 0))


# --- arithmetic traits on primitive / big numbers
def _numty(ip, t):
    t = strip_ref(t)
    if not isinstance(t, tuple):
        return False
    if t[0] in ("int", "float"):
        return True
    return t[0] == "adt" and t[1].startswith("rug::")


def _arith(name, op):
    @ext("std::ops::%s::%s" % (name, name.lower()))
    def f(k):
        if not _numty(k.ip, k.selfty()):
            return None
        a, b = k.val(0), k.val(1)
        return k.ip.binop(name, a, b, strip_ref(k.selfty()))

    @ext("std::ops::%sAssign::%s_assign" % (name, name.lower()))
    def g(k):
        if not _numty(k.ip, k.selfty()):
            return None
        a, b = k.val(0), k.val(1)
        k.ip.write(k.st, k.ref(0), k.ip.binop(name, a, b, strip_ref(k.selfty())))
        return UNIT


for _n in ("Add", "Sub", "Mul", "Div", "Rem"):
    _arith(_n, _n)


@ext("std::ops::Neg::neg")
def _neg(k):
    if not _numty(k.ip, k.selfty()):
        return None
    return vneg(k.val(0))


@ext("std::ops::Not::not")
def _not(k):
    return B(bnot(bool_of(k.val(0))))


def _relation(nm):
    @ext("std::cmp::PartialOrd::" + nm, "std::cmp::PartialEq::" + nm)
    def f(k):
        s = k.selfty()
        o = k.targs[1] if len(k.targs) > 1 else s
        if isinstance(s, tuple) and s[0] == "ref" and isinstance(o, tuple) and o[0] == "ref":
            c2 = dict(k.c)
            c2["args"] = (s[2], o[2]) + tuple(k.targs[2:])
            c2["resolved"] = None
            a = [k.ip.deref(k.st, k.args[0]), k.ip.deref(k.st, k.args[1])]
            return k.ip.call(c2, {}, a, [s, o], k.dty, k.st, k.fr, k.line)
        if _crate_eq(k.ip, s) and nm != "eq":
            tr = "std::cmp::PartialEq" if nm == "ne" else "std::cmp::PartialOrd"
            im, e = k.ip.find_impl(tr, (s, o))
            base = "eq" if nm == "ne" else "partial_cmp"
            if im and base in im["map"]:
                v = k.ip.run_fn(k.ip.F.fns[im["map"][base]], e, list(k.args), k.st)
                if nm == "ne":
                    return B(bnot(bool_of(v)))
                sm = is_some(k.ip, v)
                od = payload(k.ip, v)
                lt, gt = k.ip.isvar(od, 0, ORDERING), k.ip.isvar(od, 2, ORDERING)
                return B(band(sm, {"lt": lt, "gt": gt, "le": bnot(gt), "ge": bnot(lt)}[nm]))
        a, b = k.val(0), k.val(1)
        if nm in ("eq", "ne"):
            e = deep_eq(k, s, a, b)
            return B(e if nm == "eq" else bnot(e))
        if _numty(k.ip, s):
            return B(k.ip.cmp(nm.capitalize(), a, b))
        z, p, n = lex3(k.ip, a, b)
        return B({"lt": n, "le": bnot(p), "gt": p, "ge": bnot(n)}[nm])


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    _relation(_n)


def deep_eq(k, ty, a, b):
    """PartialEq on std aggregates: component equality through the crate's own impls where they exist"""
    ip = k.ip
    ty = strip_ref(ty) if ty else None
    if isinstance(ty, tuple) and ty:
        ety = None
        if ty[0] == "adt" and ty[1].split("::")[-1] in ("HashSet", "AHashSet"):
            ka, kb = map_items(ip, a), map_items(ip, b)
            if ka is None or kb is None:
                return ip.eq(a, b)
            r = TRUE
            for key in ka + [x for x in kb if x not in ka]:
                r = band(r, bnot(bxor(bool_of(ip.mhas(a, key)), bool_of(ip.mhas(b, key)))))
            return r
        if ty[0] in ("array", "slice"):
            ety = ty[1]
        elif ty[0] == "adt" and ty[1].endswith("option::Option"):
            it = ty[2][0]
            if isinstance(it, tuple) and it[0] == "ref" and not _crate_eq(ip, it):
                sa, sb = is_some(ip, a), is_some(ip, b)
                pa, pb = payload(ip, a), payload(ip, b)
                e = ip.eq(ip.deref_all(k.st, pa), ip.deref_all(k.st, pb)) if sa != FALSE and sb != FALSE else FALSE
                return bor(band(bnot(sa), bnot(sb)), band(sa, sb, e))
            if _crate_eq(ip, it):
                sa, sb = is_some(ip, a), is_some(ip, b)
                pa, pb = payload(ip, a), payload(ip, b)
                e = user_eq(k, it, pa, pb)
                return bor(band(bnot(sa), bnot(sb)), band(sa, sb, e))
        elif ty[0] == "tuple":
            if any(_crate_eq(ip, t) for t in ty[1]):
                r = TRUE
                for i, t in enumerate(ty[1]):
                    r = band(r, user_eq(k, t, ip.proj(a, ("f", 0, i)), ip.proj(b, ("f", 0, i))))
                return r
        if ety is not None and _crate_eq(ip, ety):
            ea, eb = ip.full(a, 2), ip.full(b, 2)
            if ea.op in ("arr", "seq") and eb.op in ("arr", "seq"):
                if len(ea.args) != len(eb.args):
                    return FALSE
                r = TRUE
                for x, y in zip(ea.args, eb.args):
                    r = band(r, user_eq(k, ety, x, y))
                return r
    return ip.eq(a, b)


def _crate_eq(ip, t):
    t = strip_ref(t)
    return isinstance(t, tuple) and t and t[0] == "adt" and t[1] in ip.F.adts


def user_eq(k, t, a, b):
    ip = k.ip
    t0 = strip_ref(t)
    if not _crate_eq(ip, t0):
        return ip.eq(a, b)
    im, e = ip.find_impl("std::cmp::PartialEq", (t0, t0))
    if not im or "eq" not in im["map"]:
        return ip.eq(a, b)
    fn = ip.F.fns[im["map"]["eq"]]
    ra = mk("ref", ip.newroot(k.st, a), ()) if a.op != "ref" else a
    rb = mk("ref", ip.newroot(k.st, b), ()) if b.op != "ref" else b
    return bool_of(ip.run_fn(fn, e, [ra, rb], k.st))


def lex3(ip, a, b):
    """three-way lexicographic comparison of scalars / tuples / arrays"""
    a2, b2 = ip.expand(a), ip.expand(b)
    if a2.op in ("struct",) and b2.op == "struct" and a2.args[0] == "tuple":
        xs = list(zip(a2.args[2:], b2.args[2:]))
    elif a2.op in ("arr", "seq") and b2.op in ("arr", "seq"):
        xs = list(zip(a2.args, b2.args))
    else:
        if ip.is_boolish(a) and ip.is_boolish(b):
            x, y = bool_of(a), bool_of(b)
            return bnot(bxor(x, y)), band(x, bnot(y)), band(bnot(x), y)
        return sgn(vsub(a, b))
    z, p, n = TRUE, FALSE, FALSE
    for x, y in xs:
        z1, p1, n1 = lex3(ip, x, y)
        p = bor(p, band(z, p1))
        n = bor(n, band(z, n1))
        z = band(z, z1)
    return z, p, n


@ext("std::cmp::PartialOrd::partial_cmp", "std::cmp::Ord::cmp")
def _pcmp(k):
    s = k.selfty()
    t0 = strip_ref(s)
    partial = k.path.endswith("partial_cmp")
    if isinstance(s, tuple) and s[0] == "ref":
        c2 = dict(k.c)
        o = k.targs[1] if len(k.targs) > 1 else s
        c2["args"] = (s[2],) + ((o[2],) if len(k.targs) > 1 and o[0] == "ref" else ())
        c2["resolved"] = None
        a = [k.ip.deref(k.st, k.args[0]), k.ip.deref(k.st, k.args[1])]
        return k.ip.call(c2, {}, a, [s, o], k.dty, k.st, k.fr, k.line)
    a, b = k.val(0), k.val(1)
    z, p, n = lex3(k.ip, a, b)
    o = ordering(z, p, n)
    return some(o) if partial else o


@ext("std::f64::impl::total_cmp")
def _tcmp(k):
    """IEEE total order: equal values still differ when they are zeros of opposite sign"""

    def f(a, b):
        z, p, n = sign_parts(psub(a, b))
        if a is b or z == FALSE:
            return ordering(z, p, n)
        az = sign_parts(a)[0]
        na = TRUE if az == FALSE else bvar(("negzero", a))
        nb = bvar(("negzero", b)) if b.op != "num" else FALSE
        na = bvar(("negzero", a)) if a.op != "num" else FALSE
        both = band(z, az)
        lt, gt = band(both, na, bnot(nb)), band(both, nb, bnot(na))
        return ordering(band(z, bnot(lt), bnot(gt)), bor(p, gt), bor(n, lt))

    return vmap2(f, k.val(0), k.val(1))


@ext("std::cmp::Ord::min", "std::cmp::min", "std::f64::impl::min")
def _min(k):
    a, b = k.val(0), k.val(1)
    return vite(k.ip.cmp("Lt", a, b), a, b)


@ext("std::cmp::Ord::max", "std::cmp::max", "std::f64::impl::max")
def _max(k):
    a, b = k.val(0), k.val(1)
    return vite(k.ip.cmp("Gt", a, b), a, b)


@ext("std::cmp::Ord::clamp", "std::f64::impl::clamp")
def _clamp(k):
    a, lo, hi = k.val(0), k.val(1), k.val(2)
    return vite(k.ip.cmp("Lt", a, lo), lo, vite(k.ip.cmp("Gt", a, hi), hi, a))


@ext("std::cmp::Ordering::then")
def _then(k):
    a, b = k.args
    z = k.ip.isvar(a, 1, ORDERING)
    return vite(z, b, a)


@ext("std::cmp::Ordering::then_with")
def _thenw(k):
    a = k.args[0]
    z = k.ip.isvar(a, 1, ORDERING)
    return under(k.ip, k.st, z, lambda s: k.ip.call_value(k.args[1], [], s, k.dty), lambda s: a)


@ext("std::cmp::Ordering::reverse")
def _rev_ord(k):
    def f(x):
        if x.op == "struct":
            return mk("struct", ORDERING, 2 - x.args[1])
        return mk("revord", x)

    return vmap(f, k.args[0])


@ext("std::cmp::Ordering::is_eq")
def _iseq(k):
    return B(k.ip.isvar(k.args[0], 1, ORDERING))


# --- f64
@ext("std::f64::impl::abs", "rug::Rational::abs", "std::num::impl::abs")
def _fabs(k):
    return absval(k.ip, k.val(0))


@ext("std::f64::impl::sqrt")
def _sqrt(k):
    return vmap(lambda x: k.ip.typed(mk("sqrt", x), F64), k.val(0))


@ext("std::f64::impl::mul_add")
def _fma(k):
    return vadd(vmul(k.val(0), k.val(1)), k.val(2))


@ext("std::f64::impl::is_nan")
def _nan(k):
    return B(bool_of(vmap(lambda x: BF if x.op in ("num", "poly") or not x.op == "havoc" and False else (BT if x.op == "fconst" and x.args[0] == "nan" else B(bvar(("nan", x)))), k.val(0))))


@ext("std::f64::impl::is_finite")
def _fin(k):
    def f(x):
        if x.op == "num":
            return BT
        if x.op == "fconst":
            return BF
        return B(bvar(("finite", x)))

    return vmap(f, k.val(0))


@ext("std::f64::impl::is_infinite")
def _inf(k):
    def f(x):
        if x.op == "num":
            return BF
        if x.op == "fconst":
            return BT if "inf" in x.args[0] else BF
        return B(bvar(("infinite", x)))

    return vmap(f, k.val(0))


@ext("std::f64::impl::is_sign_positive")
def _sp(k):
    return B(bnot(sgn(k.val(0))[2]))


@ext("std::f64::impl::is_sign_negative")
def _sn(k):
    return B(sgn(k.val(0))[2])


@ext("std::f64::impl::signum")
def _signum(k):
    z, p, n = sgn(k.val(0))
    return vite(n, num(-1), ONE)


def _fun1(path, op, ty=F64):
    @ext(path)
    def f(k):
        def g(x):
            if op == "floor" and x.op == "num":
                import math

                return num(math.floor(x.args[0]))
            return k.ip.typed(mk(op, x), ty)

        return vmap(g, k.val(0))


for _p, _o in (("floor", "floor"), ("ceil", "ceil"), ("round", "round"), ("to_bits", "to_bits"), ("from_bits", "from_bits"), ("acos", "acos"), ("cos", "cos"), ("sin", "sin")):
    _fun1("std::f64::impl::" + _p, _o, ("int", "u64") if _p == "to_bits" else F64)


@ext("std::num::impl::saturating_add", "std::num::impl::wrapping_add")
def _sadd(k):
    return vadd(k.val(0), k.val(1))


def _bits(path, f):
    @ext("std::num::impl::" + path)
    def g(k):
        return vmap(lambda x: num(f(int(x.args[0]))) if x.op == "num" and x.args[0] >= 0 else k.ip.typed(mk("bitfn", path, x), ("int", "u32")), k.val(0))


_bits("count_ones", lambda x: bin(x).count("1"))
_bits("is_power_of_two", lambda x: int(x > 0 and x & (x - 1) == 0)) if False else None
_bits("trailing_zeros", lambda x: (x & -x).bit_length() - 1 if x else 64)


@ext("std::num::impl::pow")
def _ipow(k):
    a, b = k.val(0), k.val(1)
    if b.op == "num" and 0 <= b.args[0] <= 8:
        r = ONE
        for _ in range(int(b.args[0])):
            r = vmul(r, a)
        return r


@ext("std::num::impl::saturating_sub")
def _ssub(k):
    d = vsub(k.val(0), k.val(1))
    return vite(sgn(d)[2], ZERO, d)


@ext("std::num::impl::wrapping_sub")
def _wsub(k):
    return vsub(k.val(0), k.val(1))


@ext("std::num::impl::checked_sub")
def _csub(k):
    d = vsub(k.val(0), k.val(1))
    return opt(bnot(sgn(d)[2]), d)


# --- rug
@ext("rug::Rational::to_f64", "rug::Float::to_f64")
def _rtof(k):
    return approx(k.ip, k.val(0))


@ext("rug::Rational::is_zero")
def _rz(k):
    return B(sgn(k.val(0))[0])


@ext("rug::Rational::is_positive")
def _rp(k):
    return B(sgn(k.val(0))[1])


@ext("rug::Rational::is_negative")
def _rn(k):
    return B(sgn(k.val(0))[2])


@ext("rug::Rational::from_f64")
def _rf(k):
    v = k.val(0)
    return vmap(lambda x: opt(TRUE if x.op == "num" else bvar(("finite", x)), x), v)


@ext("rug::Rational::numer")
def _numer(k):
    v = k.val(0)
    # x = numer(x) / denom(x) with a positive denominator
    return mk("ref", k.ip.newroot(k.st, vmap(lambda x: vmul(x, k.ip.typed(mk("denom", x), ("adt", "rug::Integer", ()))), v)), ())


@ext("rug::Rational::denom")
def _denom(k):
    v = k.val(0)
    return mk("ref", k.ip.newroot(k.st, vmap(lambda x: k.ip.typed(mk("denom", x), ("adt", "rug::Integer", ())), v)), ())


@ext("std::convert::From::from", "std::convert::Into::into")
def _from(k):
    ip = k.ip
    if k.path.endswith("into"):
        frm, to = k.targs[0], k.targs[1]
    else:
        to, frm = k.targs[0], k.targs[1]
    v = k.args[0]
    if frm == to:
        return v
    im, e = ip.find_impl("std::convert::From", (to, frm))
    if im:
        fn = ip.F.fns[im["map"]["from"]]
        return ip.run_fn(fn, e, [v], k.st)
    im, e = ip.find_impl("std::convert::Into", (frm, to))
    if im and k.path.endswith("into"):
        fn = ip.F.fns[im["map"]["into"]]
        return ip.run_fn(fn, e, [v], k.st)
    ts, fs = strip_ref(to), strip_ref(frm)
    if ts and ts[0] == "param" and ts[1] in ip.scalars:
        return convert(ip, ip.deref_all(k.st, v), frm, to)
    if fs and fs[0] == "param" and fs[1] in ip.scalars:
        return convert(ip, ip.deref_all(k.st, v), frm, to)
    if _numty(ip, to):
        if fs and fs[0] == "tuple":
            d = ip.deref_all(k.st, v)
            return vdiv(ip.proj(d, ("f", 0, 0)), ip.proj(d, ("f", 0, 1)))
        if _numty(ip, frm) or (fs and fs[0] in ("opaque", "adt", "alias", "other")):
            return ip.deref_all(k.st, v)
        if fs == ("bool",):
            return vite(bool_of(v), ONE, ZERO)
    h = to[1].split("::")[-1] if to and to[0] == "adt" else ""
    if h == "Vec":
        d = ip.deref_all(k.st, v)
        if d.op == "arr":
            return mk("seq", *d.args)
        return d
    if h == "SmallVec":
        d = ip.deref_all(k.st, v)
        return mk("seq", *d.args) if d.op == "arr" else d
    return None


@ext("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def _tryinto(k):
    to = k.dty[2][0] if k.dty and k.dty[0] == "adt" else None
    v = k.args[0]
    if to and to[0] == "array":
        d = k.ip.deref_all(k.st, v)
        if d.op == "seq":
            return ok(mk("arr", *d.args)) if to[2][0] != "cval" or to[2][1] == len(d.args) else err(d)
        return ok(k.ip.typed(mk("asarr", d), to))
    return None


@ext("std::default::Default::default")
def _default(k):
    t = k.selfty()
    if not isinstance(t, tuple):
        return None
    return default_of(k.ip, k.st, t)


def default_of(ip, st, t):
    if t[0] in ("int", "float"):
        return ZERO
    if t[0] == "bool":
        return BF
    if t[0] == "tuple":
        return mk("struct", "tuple", 0, *[default_of(ip, st, x) or UNDEF for x in t[1]])
    if t[0] == "adt":
        h = t[1].split("::")[-1]
        if h in ("Vec", "SmallVec", "VecDeque", "String"):
            return ip.typed(mk("seq"), t)
        if h in ("HashMap", "AHashMap", "HashSet", "AHashSet", "BTreeMap", "BTreeSet"):
            return mk("mnew")
        if h == "Option":
            return NONE
        im, e = ip.find_impl("std::default::Default", (t,))
        if im:
            return ip.run_fn(ip.F.fns[im["map"]["default"]], e, [], st)
    return None


# --- clone / deref
@ext("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::slice_impl::to_vec", "std::slice::impl::to_vec")
def _clone(k):
    return k.one(0)


@ext("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow")
def _deref(k):
    t = strip_ref(k.selfty())
    h = t[1].split("::")[-1] if t and t[0] == "adt" else ""
    if h in ("Arc", "Rc"):
        return k.ip.mkref([(c, r, p + (("f", 0, 0),)) for c, r, p in k.ref(0)])
    if h == "Box":
        return k.ip.deref(k.st, k.args[0])
    return k.args[0]


@ext("std::sync::Arc::new", "std::rc::Rc::new")
def _arc(k):
    return mk("struct", "std::sync::Arc", 0, k.args[0])


@ext("std::sync::Arc::ptr_eq")
def _arcptr(k):
    a, b = k.one(0), k.one(1)
    if a is b:
        return B(TRUE)
    x, y = (a, b) if a.id < b.id else (b, a)
    return B(bvar(("ptr_eq", x, y)))


@ext("std::boxed::Box::new")
def _box(k):
    return mk("ref", k.ip.newroot(k.st, k.args[0]), ())


@ext("std::boxed::Box::new_uninit")
def _boxu(k):
    return mk("ref", k.ip.newroot(k.st, mk("struct", "std::mem::MaybeUninit", 0, UNDEF, mk("struct", "std::mem::ManuallyDrop", 0, UNDEF))), ())


@ext("std::boxed::box_assume_init_into_vec_unsafe")
def _boxv(k):
    v = k.ip.deref(k.st, k.args[0])
    while v.op == "struct" and (len(v.args) == 3 or v.args[0] == "std::mem::MaybeUninit"):
        v = v.args[-1]
    if v.op == "arr":
        return mk("seq", *v.args)
    return v


@ext("std::boxed::Box::write")
def _boxw(k):
    k.ip.write(k.st, k.ref(0), k.args[1])
    return k.args[0]


@ext("std::mem::swap")
def _swap(k):
    a, b = k.one(0), k.one(1)
    k.ip.write(k.st, k.ref(0), b)
    k.ip.write(k.st, k.ref(1), a)
    return UNIT


@ext("std::mem::replace")
def _replace(k):
    a = k.one(0)
    k.ip.write(k.st, k.ref(0), k.args[1])
    return a


@ext("std::mem::take")
def _take(k):
    a = k.one(0)
    d = default_of(k.ip, k.st, k.targs[0])
    k.ip.write(k.st, k.ref(0), d if d is not None else k.ip.fresh("take"))
    return a


@ext("std::mem::drop", "std::io::_print", "std::io::_eprint")
def _nop(k):
    return UNIT


@ext("std::hint::must_use")
def _mu(k):
    return k.args[0]


# --- once cells: value semantics of a cache that holds at most one value
@ext("once_cell::sync::OnceCell::new")
def _ocnew(k):
    return mk("struct", "OnceCell", 0, NONE)


@ext("once_cell::sync::OnceCell::get")
def _ocget(k):
    v = k.one(0)
    r = k.ref(0)
    if v.op == "struct" and v.args[0] == "OnceCell":
        o = v.args[2]
        if o is NONE:
            return NONE
        if len(r) == 1:
            return opt(is_some(k.ip, o), mk("ref", r[0][1], r[0][2] + (("f", 0, 0), ("f", 1, 0))))
    h = getattr(k.ip, "cellhook", None)
    if h:

        def leaf(x):
            if x.op == "struct" and x.args[0] == "OnceCell":
                o = x.args[2]
                return NONE if o is NONE else opt(is_some(k.ip, o), mk("ref", k.ip.newroot(k.st, payload(k.ip, o)), ()))
            return h(k, x, "get", None)

        return vmap(leaf, v)
    t = k.ip.typed(mk("cached", v), k.dty)
    return t


@ext("once_cell::sync::OnceCell::set")
def _ocset(k):
    v = k.one(0)
    if v.op == "struct" and v.args[0] == "OnceCell":
        o = v.args[2]
        has = is_some(k.ip, o)
        k.ip.write(k.st, k.ref(0), mk("struct", "OnceCell", 0, vite(has, o, some(k.args[1]))))
        return vite(has, err(k.args[1]), ok(UNIT))
    h = getattr(k.ip, "cellhook", None)
    if h:
        return h(k, v, "set", k.args[1])
    return k.ip.uninterp("OnceCell::set", k.args, k.atys, k.dty, k.st)


@ext("once_cell::sync::OnceCell::get_or_init")
def _ocinit(k):
    v = k.one(0)
    r = k.ref(0)
    if v.op == "struct" and v.args[0] == "OnceCell" and len(r) == 1:
        o = v.args[2]
        root = mk("ref", r[0][1], r[0][2] + (("f", 0, 0), ("f", 1, 0)))

        def init(st):
            x = k.ip.call_value(k.args[1], [], st, None)
            k.ip.write(st, r, mk("struct", "OnceCell", 0, some(x)))
            return root

        return under(k.ip, k.st, is_some(k.ip, o), lambda st: root, init)
    h = getattr(k.ip, "cellhook", None)
    if h:
        return h(k, v, "init", k.args[1])
    return k.ip.uninterp("OnceCell::get_or_init", k.args, k.atys, k.dty, k.st)


# --- hashing: the hasher state is the sequence of values fed to it
@ext("std::hash::DefaultHasher::new", "std::collections::hash_map::DefaultHasher::new", "std::hash::DefaultHasher::default")
def _hnew(k):
    return mk("sym", "empty hasher")


@ext("std::hash::Hash::hash")
def _hash(k):
    v = k.ip.snapshot(k.st, k.args[0])
    old = k.one(1)
    k.ip.write(k.st, k.ref(1), mk("hashed", old, v))
    return UNIT


for _n in ("write", "write_u8", "write_u16", "write_u32", "write_u64", "write_u128", "write_usize", "write_i8", "write_i32", "write_i64"):

    @ext("std::hash::Hasher::" + _n)
    def _hwrite(k):
        v = k.ip.snapshot(k.st, k.args[1])
        k.ip.write(k.st, k.ref(0), mk("hashed", k.one(0), v))
        return UNIT


@ext("std::hash::Hasher::finish")
def _hfinish(k):
    d = getattr(k.ip, "digest", None)
    if d:
        return vmap(d, k.one(0))
    return k.ip.typed(mk("digest", k.one(0)), ("int", "u64"))


# --- arrays
@ext("std::array::from_fn")
def _fromfn(k):
    n = None
    ty = k.dty
    if ty and ty[0] == "array" and ty[2][0] == "cval":
        n = ty[2][1]
    if n is None or n > 64:
        return None
    root = k.ip.newroot(k.st, k.args[0], "C")
    r = mk("ref", root, ())
    return mk("arr", *[k.ip.call_value(r, [num(i)], k.st, None) for i in range(n)])


@ext("std::array::impl::map")
def _arrmap(k):
    a = k.ip.expand(k.args[0])
    if a.op != "arr":
        return None
    r = mk("ref", k.ip.newroot(k.st, k.args[1], "C"), ())
    return mk("arr", *[k.ip.call_value(r, [x], k.st, None) for x in a.args])


# --- indexing
def _range(ip, st, idx, ln):
    """a range index value -> (lo, hi) or None"""
    idx = ip.expand(idx)
    if idx.op == "struct" and isinstance(idx.args[0], str):
        h = idx.args[0].split("::")[-1]
        if h == "Range":
            return idx.args[2], idx.args[3]
        if h == "RangeFrom":
            return idx.args[2], ln
        if h == "RangeTo":
            return ZERO, idx.args[2]
        if h == "RangeFull":
            return ZERO, ln
        if h == "RangeInclusive":
            return idx.args[2], vadd(idx.args[3], ONE)
        if h == "RangeToInclusive":
            return ZERO, vadd(idx.args[2], ONE)
    return None


@ext("std::ops::Index::index", "std::ops::IndexMut::index_mut", "std::slice::slice_impl::get_unchecked")
def _index(k):
    t = strip_ref(k.selfty())
    if not isinstance(t, tuple):
        return None
    h = t[1].split("::")[-1] if t[0] == "adt" else t[0]
    if h in ("Vec", "SmallVec", "VecDeque", "array", "slice"):
        idx = k.args[1]
        base = k.one(0)
        rg = _range(k.ip, k.st, idx, k.ip.seqlen(base))
        if rg:
            if rg[0] is ZERO and rg[1] is k.ip.seqlen(base):
                return k.args[0]
            return k.ip.mkref([(c, r, p + (("sub", rg[0], rg[1]),)) for c, r, p in k.ref(0)])
        if not k.path.endswith("get_unchecked"):
            in_bounds(k.ip, k.st, idx, k.ip.seqlen(base), k.fr, k.line)
        return k.ip.mkref([(c, r, p + (("i", idx),)) for c, r, p in k.ref(0)])
    if h in ("HashMap", "AHashMap", "BTreeMap"):
        key = k.ip.snapshot(k.st, k.args[1])
        m = k.one(0)
        has = bool_of(k.ip.mhas(m, key))
        if k.ip.record:
            k.ip.panics.append((band(k.st.pc, bnot(has)), "map index", k.fr.fn.path, k.line))
        return k.ip.mkref([(c, r, p + (("k", key),)) for c, r, p in k.ref(0)])
    return None


def in_bounds(ip, st, idx, n, fr, line):
    """a known number outside a known length panics; anything else is taken to be in range"""
    ok = FALSE
    for i, c in leaves(idx):
        for m, d in leaves(n):
            if i.op != "num" or m.op != "num" or 0 <= i.args[0] < m.args[0]:
                ok = bor(ok, band(c, d))
    if ok != TRUE:
        bad = band(st.pc, bnot(ok))
        if bad != FALSE:
            if ip.record:
                ip.panics.append((bad, "bounds", fr.fn.path, line))
            st.pc = band(st.pc, ok)


# --- Vec / slice
@ext("std::vec::Vec::new", "std::vec::Vec::with_capacity", "smallvec::SmallVec::new", "smallvec::SmallVec::with_capacity", "std::collections::VecDeque::new", "std::collections::VecDeque::with_capacity", "std::string::String::new")
def _vnew(k):
    # the type is recorded on demand: one shared empty sequence term is enough
    return mk("seq")


@ext("std::vec::from_elem")
def _felem(k):
    v, n = k.args
    if n.op == "num" and n.args[0] <= 64:
        return mk("seq", *([v] * int(n.args[0])))
    return k.ip.typed(mk("fill", v, n), k.dty)


@ext("std::vec::Vec::push", "smallvec::SmallVec::push", "std::collections::VecDeque::push_back")
def _push(k):
    v = k.args[1]

    def f(s):
        if s.op == "seq":
            return mk("seq", *s.args, v)
        r = mk("push", s, v)
        ty = k.ip.tyof.get(s)
        if ty:
            k.ip.typed(r, ty)
        return r

    k.ip.write(k.st, k.ref(0), vmap(f, k.one(0)))
    return UNIT


@ext("std::vec::Vec::pop", "smallvec::SmallVec::pop", "std::collections::VecDeque::pop_back", "std::collections::VecDeque::pop_front")
def _pop(k):
    s = k.one(0)
    front = k.path.endswith("pop_front")
    ls = [t for t, _ in leaves(s)]
    if all(t.op == "seq" for t in ls) or s.op == "push" and not front:
        if s.op == "push":
            k.ip.write(k.st, k.ref(0), s.args[0])
            return some(s.args[1])
        k.ip.write(k.st, k.ref(0), vmap(lambda t: mk("seq", *(t.args[1:] if front else t.args[:-1])), s))
        return vmap(lambda t: some(t.args[0 if front else -1]) if t.args else NONE, s)
    return None


@ext("std::vec::Vec::insert", "smallvec::SmallVec::insert", "std::collections::VecDeque::insert")
def _vinsert(k):
    s, i = k.one(0), k.args[1]
    if i.op != "num" or any(t.op != "seq" or len(t.args) < int(i.args[0]) for t, _ in leaves(s)):
        return None
    j = int(i.args[0])
    k.ip.write(k.st, k.ref(0), vmap(lambda t: mk("seq", *t.args[:j], k.args[2], *t.args[j:]), s))
    return UNIT


@ext("std::collections::VecDeque::push_front")
def _pushfront(k):
    s = k.one(0)
    if any(t.op != "seq" for t, _ in leaves(s)):
        return None
    k.ip.write(k.st, k.ref(0), vmap(lambda t: mk("seq", k.args[1], *t.args), s))
    return UNIT


@ext("std::vec::Vec::len", "std::slice::slice_impl::len", "smallvec::SmallVec::len", "std::collections::VecDeque::len", "std::array::impl::len", "std::iter::ExactSizeIterator::len")
def _len(k):
    v = k.one(0)
    if v.op == "struct" and str(v.args[0]).startswith("It::"):
        return it_len(k.ip, k.st, v)
    return k.ip.seqlen(k.val(0))


@ext("std::vec::Vec::is_empty", "std::slice::slice_impl::is_empty", "smallvec::SmallVec::is_empty", "std::collections::VecDeque::is_empty")
def _isempty(k):
    return B(sgn(k.ip.seqlen(k.val(0)))[0])


@ext("std::vec::Vec::clear", "smallvec::SmallVec::clear")
def _clear(k):
    k.ip.write(k.st, k.ref(0), mk("seq"))
    return UNIT


@ext("std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit", "smallvec::SmallVec::reserve", "std::collections::HashMap::reserve", "std::collections::HashSet::reserve")
def _reserve(k):
    return UNIT


@ext("std::slice::slice_impl::first", "std::slice::slice_impl::last", "std::slice::slice_impl::get", "std::slice::slice_impl::get_mut", "std::slice::slice_impl::last_mut", "std::slice::slice_impl::first_mut", "std::collections::VecDeque::front", "std::collections::VecDeque::back")
def _get(k):
    n = k.path.split("::")[-1].replace("_mut", "")
    s = k.val(0)
    ln = k.ip.seqlen(s)
    if n in ("first", "front"):
        i, c = ZERO, bnot(sgn(ln)[0])
    elif n in ("last", "back"):
        i, c = vsub(ln, ONE), bnot(sgn(ln)[0])
    else:
        i = k.args[1]
        if _range(k.ip, k.st, i, ln):
            return None
        c = k.ip.cmp("Lt", i, ln)
    return opt(c, k.ip.mkref([(c2, r, p + (("i", i),)) for c2, r, p in k.ref(0)]))


@ext("std::slice::slice_impl::contains", "std::collections::VecDeque::contains")
def _contains(k):
    s = k.val(0)
    x = k.val(1)

    def f(s):
        s = k.ip.expand(s)
        if s.op in ("arr", "seq"):
            r = FALSE
            for y in s.args:
                r = bor(r, k.ip.eq(x, y))
            return B(r)
        return B(bvar(("contains", s, k.ip.canon(x))))

    return vmap(f, s)


@ext("std::slice::slice_impl::swap")
def _sswap(k):
    s = k.one(0)
    i, j = k.args[1], k.args[2]
    a, b = k.ip.select(s, i), k.ip.select(s, j)
    for pl in [k.ref(0)]:
        k.ip.write(k.st, [(c, r, p + (("i", i),)) for c, r, p in pl], b)
        k.ip.write(k.st, [(c, r, p + (("i", j),)) for c, r, p in pl], a)
    return UNIT


@ext("std::slice::slice_impl::reverse")
def _sreverse(k):
    s = k.one(0)

    def f(x):
        e = k.ip.expand(x)
        if e.op in ("arr", "seq"):
            return mk(e.op, *reversed(e.args))
        return k.ip.typed(mk("revseq", x), k.ip.tyof.get(x))

    k.ip.write(k.st, k.ref(0), vmap(f, s))
    return UNIT


@ext("std::vec::Vec::truncate")
def _trunc(k):
    s, n = k.one(0), k.args[1]
    if s.op == "seq" and n.op == "num":
        k.ip.write(k.st, k.ref(0), mk("seq", *s.args[: int(n.args[0])]))
        return UNIT
    return None


@ext("std::vec::Vec::extend_from_slice", "smallvec::SmallVec::extend_from_slice")
def _extend(k):
    s, o = k.one(0), k.ip.expand(k.val(1))
    if o.op in ("arr", "seq"):
        for x in o.args:
            s = vmap(lambda y: mk("seq", *y.args, x) if y.op == "seq" else k.ip.typed(mk("push", y, x), k.ip.tyof.get(y)), s)
        k.ip.write(k.st, k.ref(0), s)
        return UNIT
    return None


@ext("std::vec::Vec::swap_remove", "smallvec::SmallVec::swap_remove", "std::vec::Vec::remove")
def _swaprem(k):
    s, i = k.one(0), k.args[1]
    if s.op == "seq" and i.op == "num" and int(i.args[0]) >= len(s.args):
        if k.st.pc != FALSE and k.ip.record:
            k.ip.panics.append((k.st.pc, "index", k.fr.fn.path, k.line))
        k.st.pc = FALSE
        return k.ip.fresh("removed")
    if s.op == "seq" and i.op == "num" and int(i.args[0]) < len(s.args):
        j = int(i.args[0])
        a = list(s.args)
        x = a[j]
        if k.path.endswith("swap_remove"):
            a[j] = a[-1]
            a.pop()
        else:
            del a[j]
        k.ip.write(k.st, k.ref(0), mk("seq", *a))
        return x
    return None


def _sl(*names):
    return [p + n for n in names for p in ("std::slice::slice_impl::", "std::slice::impl::", "std::slice::")]


def sort_items(ip, xs, above, limit=4):
    """stable exchange sort; above(a, b): diagram of a > b.  Undecided comparisons only for a few items"""
    xs = list(xs)
    n = len(xs)
    decided = True
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            p = above(a, b)
            if p is None:
                return None
            if p == TRUE:
                xs[j], xs[j + 1] = b, a
            elif p != FALSE:
                if n > limit:
                    return None
                xs[j], xs[j + 1] = vite(p, b, a), vite(p, a, b)
    return xs


def _write_sorted(k, above):
    def one(x):
        e = k.ip.expand(x)
        if e.op not in ("arr", "seq"):
            return None
        xs = sort_items(k.ip, e.args, above)
        return None if xs is None else mk(e.op, *xs)

    out = None
    for x, b in reversed(list(leaves(k.one(0), k.st.pc))):
        v = one(x)
        if v is None:
            return None
        out = v if out is None else vite(b, v, out)
    if out is None:
        return None
    k.ip.write(k.st, k.ref(0), out)
    return UNIT


@ext(*_sl("sort", "sort_unstable"))
def _sort(k):
    def above(a, b):
        ty = k.ip.valty(a)
        if a.op != "num" and not (ty and ty[0] in ("int", "tuple", "array")) and a.op not in ("struct", "arr"):
            e = k.ip.expand(a)
            if e.op not in ("struct", "arr") and len(k.ip.expand(k.one(0)).args) != 2:
                return None
        return lex3(k.ip, a, b)[1]

    return _write_sorted(k, above)


def _temp(ip, st, x):
    return mk("ref", ip.newroot(st, x, "S"), ())


@ext(*_sl("sort_by", "sort_unstable_by"))
def _sortby(k):
    def above(a, b):
        o = call_keep(k.ip, k.st, k.args[1], [_temp(k.ip, k.st, a), _temp(k.ip, k.st, b)])
        r = FALSE
        for lf, c in leaves(o):
            e = k.ip.expand(lf)
            if e.op != "struct" or not str(e.args[0]).endswith("Ordering"):
                return None
            if e.args[1] == 2:
                r = bor(r, c)
        return r

    return _write_sorted(k, above)


@ext(*_sl("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"))
def _sortkey(k):
    keys = {}

    def key(a):
        if a not in keys:
            keys[a] = call_keep(k.ip, k.st, k.args[1], [_temp(k.ip, k.st, a)])
        return keys[a]

    return _write_sorted(k, lambda a, b: lex3(k.ip, key(a), key(b))[1])


@ext(*_sl("select_nth_unstable_by", "select_nth_unstable", "select_nth_unstable_by_key"))
def _selnth(k):
    # partial order statistics: callers may rely on a permutation only; the identity represents it
    e = k.ip.expand(k.one(0))
    n = k.args[1]
    if e.op not in ("arr", "seq") or n.op != "num" or not int(n.args[0]) < len(e.args):
        return None
    return mk("struct", "tuple", 0, UNDEF, UNDEF, UNDEF)


@ext("std::vec::Vec::drain")
def _drain(k):
    if not (k.args[1].op == "struct" and str(k.args[1].args[0]).endswith("RangeFull")):
        return None
    v = k.one(0)
    k.ip.write(k.st, k.ref(0), mk("seq"))
    return it("Val", v, ZERO, k.ip.seqlen(v))


@ext("std::vec::Vec::split_off")
def _splitoff(k):
    s, i = k.ip.expand(k.one(0)), k.args[1]
    if s.op == "seq" and i.op == "num" and 0 <= int(i.args[0]) <= len(s.args):
        j = int(i.args[0])
        k.ip.write(k.st, k.ref(0), mk("seq", *s.args[:j]))
        return mk("seq", *s.args[j:])
    return None


@ext("std::vec::Vec::retain", "std::vec::Vec::retain_mut", "smallvec::SmallVec::retain")
def _retain(k):
    s = k.ip.expand(k.one(0))
    if s.op != "seq":
        return None
    out = mk("seq")
    for x in s.args:
        t = _temp(k.ip, k.st, x)
        c = bool_of(k.ip.call_value(k.args[1], [t], k.st, ("bool",)))
        y = k.ip.read(k.st, t.args[0], ())
        out = vite(c, vmap(lambda q: mk("seq", *q.args, y), out), out)
    k.ip.write(k.st, k.ref(0), out)
    return UNIT


@ext("std::collections::HashMap::retain", "ahash::AHashMap::retain", "std::collections::HashSet::retain", "ahash::AHashSet::retain")
def _mretain(k):
    m = k.one(0)
    ks = map_items(k.ip, m)
    if ks is None:
        return None
    out = m
    for key in ks:
        has = bool_of(k.ip.mhas(m, key))
        if has == FALSE:
            continue
        a = [_temp(k.ip, k.st, key)]
        if "Set" not in k.path:
            a.append(_temp(k.ip, k.st, k.ip.mget(m, key)))
        c = bool_of(k.ip.call_value(k.args[1], a, k.st, ("bool",)))
        if len(a) == 2:
            v = k.ip.read(k.st, a[1].args[0], ())
            if v is not k.ip.mget(m, key):
                out = vite(has, k.ip.mput(out, key, v), out)
        out = vite(band(has, bnot(c)), k.ip.mdel(out, key), out)
    k.ip.write(k.st, k.ref(0), out)
    return UNIT


@ext("std::vec::Vec::dedup")
def _dedup(k):
    s = k.ip.expand(k.one(0))
    if s.op != "seq":
        return None
    out = []
    for x in s.args:
        if out:
            z = lex3(k.ip, out[-1], x)[0]
            if z == TRUE:
                continue
            if z != FALSE:
                return None
        out.append(x)
    k.ip.write(k.st, k.ref(0), mk("seq", *out))
    return UNIT


# --- maps and sets
@ext("std::collections::HashMap::new", "std::collections::HashSet::new", "ahash::AHashMap::new", "ahash::AHashSet::new", "ahash::AHashMap::with_capacity", "ahash::AHashSet::with_capacity", "std::collections::HashMap::with_capacity", "std::collections::HashSet::with_capacity", "ahash::AHashMap::with_capacity_and_hasher", "std::collections::HashMap::with_capacity_and_hasher", "ahash::AHashMap::with_hasher")
def _mnew(k):
    return mk("mnew")


@ext("std::collections::HashMap::get", "ahash::AHashMap::get", "std::collections::HashMap::get_mut", "ahash::AHashMap::get_mut")
def _mget(k):
    key = k.ip.snapshot(k.st, k.args[1])
    m = k.one(0)
    has = bool_of(k.ip.mhas(m, key))
    return opt(has, k.ip.mkref([(c, r, p + (("k", key),)) for c, r, p in k.ref(0)]))


@ext("std::collections::HashMap::contains_key", "ahash::AHashMap::contains_key", "std::collections::HashSet::contains", "ahash::AHashSet::contains")
def _mhas(k):
    return k.ip.mhas(k.one(0), k.ip.snapshot(k.st, k.args[1]))


@ext("std::collections::HashMap::insert", "ahash::AHashMap::insert")
def _minsert(k):
    m = k.one(0)
    key = k.ip.snapshot(k.st, k.args[1])
    has = bool_of(k.ip.mhas(m, key))
    old = k.ip.mget(m, key)
    k.ip.write(k.st, k.ref(0), k.ip.mput(m, key, k.args[2]))
    return opt(has, old)


@ext("std::collections::HashSet::insert", "ahash::AHashSet::insert")
def _sinsert(k):
    m = k.one(0)
    key = k.ip.snapshot(k.st, k.args[1])
    has = bool_of(k.ip.mhas(m, key))
    k.ip.write(k.st, k.ref(0), k.ip.mput(m, key, UNIT))
    return B(bnot(has))


@ext("std::collections::HashMap::remove", "ahash::AHashMap::remove", "std::collections::HashSet::remove", "ahash::AHashSet::remove")
def _mremove(k):
    m = k.one(0)
    key = k.ip.snapshot(k.st, k.args[1])
    has = bool_of(k.ip.mhas(m, key))
    old = k.ip.mget(m, key)
    k.ip.write(k.st, k.ref(0), k.ip.mdel(m, key))
    if "Set" in k.path:
        return B(has)
    return opt(has, old)


@ext("std::collections::HashMap::clear", "std::collections::HashSet::clear", "ahash::AHashMap::clear")
def _mclear(k):
    k.ip.write(k.st, k.ref(0), mk("mnew"))
    return UNIT


@ext("std::collections::HashMap::entry", "ahash::AHashMap::entry")
def _entry(k):
    return mk("struct", "Entry", 0, k.args[0], k.ip.snapshot(k.st, k.args[1]))


@ext("std::collections::hash_map::Entry::or_insert", "std::collections::hash_map::Entry::or_insert_with", "std::collections::hash_map::Entry::or_default")
def _orins(k):
    e = k.args[0]
    if e.op != "struct" or e.args[0] != "Entry":
        return None
    mref, key = e.args[2], e.args[3]
    m = k.ip.deref(k.st, mref)
    has = bool_of(k.ip.mhas(m, key))
    pl = k.ip.refs_of(k.st, mref)

    def absent(s):
        if k.path.endswith("or_insert"):
            v = k.args[1]
        elif k.path.endswith("or_insert_with"):
            v = k.ip.call_value(k.args[1], [], s, None)
        else:
            t = k.dty[2] if k.dty and k.dty[0] == "ref" else None
            v = default_of(k.ip, s, t) if t else None
            if v is None:
                v = k.ip.fresh("default", t)
        k.ip.write(s, pl, k.ip.mput(k.ip.readp(s, pl), key, v))
        return UNIT

    under(k.ip, k.st, has, lambda s: UNIT, absent)
    return k.ip.mkref([(c, r, p + (("k", key),)) for c, r, p in pl])


@ext("std::collections::HashMap::len", "std::collections::HashSet::len", "ahash::AHashMap::len")
def _mlen(k):
    m = k.one(0)
    return map_len(k.ip, m)


@ext("std::collections::HashMap::is_empty", "std::collections::HashSet::is_empty")
def _mempty(k):
    m = k.one(0)
    if m.op == "mnew":
        return BT
    if m.op == "mput":
        return BF
    ks = map_items(k.ip, m)
    if ks is not None:
        r = TRUE
        for key in ks:
            r = band(r, bnot(bool_of(k.ip.mhas(m, key))))
        return B(r)
    return B(bvar(("mempty", m)))


# --- Option / Result
def _split(k, var, path, f, g, i=0):
    v = k.args[i]
    return under(k.ip, k.st, k.ip.isvar(v, var, path), f, g)


def _res_or_opt(k):
    t = k.atys[0]
    t = strip_ref(t) if t else None
    if isinstance(t, tuple) and t[0] == "adt" and t[1].endswith("Result"):
        return 0, RESULT
    return (1, OPTION) if "option" in k.path or "Option" in k.path else (0, RESULT)


@ext("std::option::Option::unwrap", "std::option::Option::expect", "std::result::Result::unwrap", "std::result::Result::expect")
def _unwrap(k):
    var, path = (1, OPTION) if "Option" in k.path else (0, RESULT)
    v = k.args[0]
    c = k.ip.isvar(v, var, path)
    bad = band(k.st.pc, bnot(c))
    if bad != FALSE and k.ip.record:
        k.ip.panics.append((bad, "unwrap", k.fr.fn.path, k.line))
    k.st.pc = band(k.st.pc, c)
    r = payload(k.ip, v, var)
    return vrestrict(r, k.st.pc)


@ext("std::result::Result::unwrap_err")
def _unwrap_err(k):
    v = k.args[0]
    k.st.pc = band(k.st.pc, k.ip.isvar(v, 1, RESULT))
    return payload(k.ip, v, 1)


@ext("std::option::Option::is_some", "std::result::Result::is_err")
def _issome(k):
    return B(k.ip.isvar(k.one(0), 1, OPTION if "Option" in k.path else RESULT))


@ext("std::option::Option::is_none", "std::result::Result::is_ok")
def _isnone(k):
    return B(bnot(k.ip.isvar(k.one(0), 1, OPTION if "Option" in k.path else RESULT)))


@ext("std::option::Option::is_some_and")
def _issomeand(k):
    v = k.args[0]
    return under(k.ip, k.st, is_some(k.ip, v), lambda s: k.ip.call_value(k.args[1], [payload(k.ip, v)], s, ("bool",)), lambda s: BF)


@ext("std::option::Option::is_none_or")
def _isnoneor(k):
    v = k.args[0]
    return under(k.ip, k.st, is_some(k.ip, v), lambda s: k.ip.call_value(k.args[1], [payload(k.ip, v)], s, ("bool",)), lambda s: BT)


@ext("std::option::Option::unwrap_or", "std::result::Result::unwrap_or")
def _unwrap_or(k):
    var, path = (1, OPTION) if "Option" in k.path else (0, RESULT)
    v = k.args[0]
    return vite(k.ip.isvar(v, var, path), payload(k.ip, v, var), k.args[1])


@ext("std::option::Option::unwrap_or_else", "std::result::Result::unwrap_or_else")
def _unwrap_or_else(k):
    o = "Option" in k.path
    var, path = (1, OPTION) if o else (0, RESULT)
    v = k.args[0]
    return under(
        k.ip,
        k.st,
        k.ip.isvar(v, var, path),
        lambda s: payload(k.ip, v, var),
        lambda s: k.ip.call_value(k.args[1], [] if o else [payload(k.ip, v, 1)], s, None),
    )


@ext("std::option::Option::unwrap_or_default")
def _unwrap_or_default(k):
    v = k.args[0]
    d = default_of(k.ip, k.st, k.dty)
    if d is None:
        return None
    return vite(is_some(k.ip, v), payload(k.ip, v), d)


@ext("std::option::Option::map")
def _omap(k):
    v = k.args[0]
    return under(k.ip, k.st, is_some(k.ip, v), lambda s: some(k.ip.call_value(k.args[1], [payload(k.ip, v)], s, None)), lambda s: NONE)


@ext("std::option::Option::map_or")
def _omapor(k):
    v = k.args[0]
    return under(k.ip, k.st, is_some(k.ip, v), lambda s: k.ip.call_value(k.args[2], [payload(k.ip, v)], s, None), lambda s: k.args[1])


@ext("std::option::Option::map_or_else")
def _omaporelse(k):
    v = k.args[0]
    return under(k.ip, k.st, is_some(k.ip, v), lambda s: k.ip.call_value(k.args[2], [payload(k.ip, v)], s, None), lambda s: k.ip.call_value(k.args[1], [], s, None))


@ext("std::option::Option::and_then")
def _oand(k):
    v = k.args[0]
    return under(k.ip, k.st, is_some(k.ip, v), lambda s: k.ip.call_value(k.args[1], [payload(k.ip, v)], s, k.dty), lambda s: NONE)


@ext("std::option::Option::filter")
def _ofilter(k):
    v = k.args[0]

    def f(s):
        r = mk("ref", k.ip.newroot(s, payload(k.ip, v)), ())
        c = bool_of(k.ip.call_value(k.args[1], [r], s, ("bool",)))
        return opt(c, payload(k.ip, v))

    return under(k.ip, k.st, is_some(k.ip, v), f, lambda s: NONE)


@ext("std::option::Option::or")
def _oor(k):
    v = k.args[0]
    return vite(is_some(k.ip, v), v, k.args[1])


@ext("std::option::Option::or_else")
def _oorelse(k):
    v = k.args[0]
    return under(k.ip, k.st, is_some(k.ip, v), lambda s: v, lambda s: k.ip.call_value(k.args[1], [], s, k.dty))


@ext("std::option::Option::ok_or")
def _okor(k):
    v = k.args[0]
    return vite(is_some(k.ip, v), ok(payload(k.ip, v)), err(k.args[1]))


@ext("std::option::Option::ok_or_else")
def _okorelse(k):
    v = k.args[0]
    return under(k.ip, k.st, is_some(k.ip, v), lambda s: ok(payload(k.ip, v)), lambda s: err(k.ip.call_value(k.args[1], [], s, None)))


@ext("std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref")
def _oasref(k):
    v = k.one(0)
    r = k.ip.mkref([(c, ro, p + (("f", 1, 0),)) for c, ro, p in k.ref(0)])
    return opt(is_some(k.ip, v), r)


@ext("std::option::Option::copied", "std::option::Option::cloned")
def _ocopied(k):
    v = k.args[0]
    c = is_some(k.ip, v)
    p = vrestrict(payload(k.ip, v), c)
    return opt(c, k.ip.deref(k.st, p)) if c != FALSE else NONE


@ext("std::option::Option::take")
def _otake(k):
    v = k.one(0)
    k.ip.write(k.st, k.ref(0), NONE)
    return v


@ext("std::option::Option::replace")
def _oreplace(k):
    v = k.one(0)
    k.ip.write(k.st, k.ref(0), some(k.args[1]))
    return v


@ext("std::option::Option::insert")
def _oinsert(k):
    k.ip.write(k.st, k.ref(0), some(k.args[1]))
    return k.ip.mkref([(c, r, p + (("f", 1, 0),)) for c, r, p in k.ref(0)])


@ext("std::option::Option::get_or_insert", "std::option::Option::get_or_insert_with")
def _goi(k):
    v = k.one(0)
    c = is_some(k.ip, v)
    if k.path.endswith("_with"):
        x = under(k.ip, k.st, c, lambda s: v, lambda s: some(k.ip.call_value(k.args[1], [], s, None)))
    else:
        x = vite(c, v, some(k.args[1]))
    k.ip.write(k.st, k.ref(0), x)
    return k.ip.mkref([(c2, r, p + (("f", 1, 0),)) for c2, r, p in k.ref(0)])


@ext("std::result::Result::ok")
def _rok(k):
    v = k.args[0]
    return opt(k.ip.isvar(v, 0, RESULT), payload(k.ip, v, 0))


@ext("std::result::Result::err")
def _rerr(k):
    v = k.args[0]
    return opt(k.ip.isvar(v, 1, RESULT), payload(k.ip, v, 1))


@ext("std::result::Result::map_err")
def _maperr(k):
    v = k.args[0]
    return under(k.ip, k.st, k.ip.isvar(v, 0, RESULT), lambda s: ok(payload(k.ip, v, 0)), lambda s: err(k.ip.call_value(k.args[1], [payload(k.ip, v, 1)], s, None)))


@ext("std::result::Result::map")
def _rmap(k):
    v = k.args[0]
    return under(k.ip, k.st, k.ip.isvar(v, 0, RESULT), lambda s: ok(k.ip.call_value(k.args[1], [payload(k.ip, v, 0)], s, None)), lambda s: err(payload(k.ip, v, 1)))


@ext("std::ops::Try::branch")
def _branch(k):
    v = k.args[0]
    t = strip_ref(k.selfty())
    CF = "std::ops::ControlFlow"
    if t[1].endswith("Option"):
        return vite(is_some(k.ip, v), mk("struct", CF, 0, payload(k.ip, v)), mk("struct", CF, 1, NONE))
    c = k.ip.isvar(v, 0, RESULT)
    return vite(c, mk("struct", CF, 0, payload(k.ip, v, 0)), mk("struct", CF, 1, err(payload(k.ip, v, 1))))


@ext("std::ops::FromResidual::from_residual")
def _residual(k):
    t = k.dty
    if t and t[1].endswith("Option"):
        return NONE
    e = payload(k.ip, k.args[0], 1)
    return err(e)


@ext("std::bool::impl::then_some")
def _thensome(k):
    return opt(bool_of(k.args[0]), k.args[1])


@ext("std::bool::impl::then")
def _thenf(k):
    return under(k.ip, k.st, bool_of(k.args[0]), lambda s: some(k.ip.call_value(k.args[1], [], s, None)), lambda s: NONE)


# --- closures
@ext("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def _fncall(k):
    f = k.args[0]
    t = k.ip.expand(k.args[1])
    args = list(t.args[2:]) if t.op == "struct" else [k.args[1]]
    x = f
    n = 0
    while x.op == "ref" and n < 3:
        y = k.ip.deref(k.st, x)
        if y.op == "ref":
            x = y
            n += 1
            continue
        break
    return k.ip.call_value(x, args, k.st, k.dty)


# ---------------------------------------------------------------- iterators
def it(kind, *f):
    return mk("struct", "It::" + kind, 0, *f)


def _mkslice(ip, st, ref):
    base = ip.deref(st, ref)
    return it("Slice", ref, ZERO, ip.seqlen(base))


@ext("std::slice::slice_impl::iter", "std::slice::slice_impl::iter_mut", "std::collections::VecDeque::iter")
def _iter(k):
    return _mkslice(k.ip, k.st, k.args[0])


@ext("std::iter::IntoIterator::into_iter")
def _intoiter(k):
    t = k.selfty()
    v = k.args[0]
    if v.op == "struct" and isinstance(v.args[0], str) and (v.args[0].startswith("It::") or v.args[0].endswith(("ops::Range", "ops::RangeFrom"))):
        return v
    if v.op == "struct" and str(v.args[0]).endswith("RangeInclusive"):
        return mk("struct", "std::ops::Range", 0, v.args[2], vadd(v.args[3], ONE))
    if not isinstance(t, tuple):
        return None
    if t[0] == "ref":
        inner = t[2]
        h = inner[1].split("::")[-1] if inner[0] == "adt" else inner[0]
        if h in ("Vec", "SmallVec", "VecDeque", "array", "slice"):
            return _mkslice(k.ip, k.st, v)
        if h in ("HashMap", "AHashMap"):
            return _mapiter(k.ip, k.st, v, "kv")
        if h in ("HashSet", "AHashSet"):
            return _mapiter(k.ip, k.st, v, "k")
        return None
    h = t[1].split("::")[-1] if t[0] == "adt" else t[0]
    if h in ("Vec", "SmallVec", "VecDeque", "array"):
        return it("Val", v, ZERO, k.ip.seqlen(v))
    if h in ("HashMap", "AHashMap", "HashSet", "AHashSet"):
        ks = map_keys(k.ip, v)
        if ks is not None:
            if "Map" in h:
                ks = vmap(lambda q: mk("seq", *[tup2(x, k.ip.mget(v, x)) for x in q.args]), ks)
            return it("Val", ks, ZERO, k.ip.seqlen(ks))
    if h in ("HashMap", "AHashMap"):
        return it("Val", k.ip.typed(mk("entries", v), ("slice", ("tuple", tuple(t[2][:2])))), ZERO, k.ip.typed(mk("mlen", v), ("int", "usize")))
    if h in ("HashSet", "AHashSet"):
        return it("Val", k.ip.typed(mk("keysof", v), ("slice", t[2][0])), ZERO, k.ip.typed(mk("mlen", v), ("int", "usize")))
    if h == "Option":
        c = is_some(k.ip, v)
        return it("Val", mk("seq", payload(k.ip, v)), ZERO, vite(c, ONE, ZERO))
    return None


def _mapty(ip, st, ref):
    v = ip.deref(st, ref)
    return v, ip.tyof.get(v)


def map_items(ip, m):
    """every key a map built by known insertions may contain, in insertion order; None otherwise"""
    ks = []
    todo = [l for l, _ in leaves(m)]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "mnew":
            continue
        if x.op not in ("mput", "mdel"):
            return None
        if x.op == "mput" and x.args[1] not in ks:
            ks.append(x.args[1])
        todo += [l for l, _ in leaves(x.args[0])]
    ks.reverse()
    return ks


def gated_seq(ip, ks, cond):
    """those keys whose condition holds, without repetitions"""
    s = mk("seq")
    for i, key in enumerate(ks):
        c = cond(key)
        for j in range(i):
            c = band(c, bnot(ip.eq(key, ks[j])))
        s = vite(c, vmap(lambda y: mk("seq", *y.args, key), s), s)
    return s


def map_keys(ip, m):
    """keys of a map built by known insertions, as a sequence in insertion order (one of the orders iteration may take); None otherwise"""
    ks = map_items(ip, m)
    return None if ks is None else gated_seq(ip, ks, lambda key: bool_of(ip.mhas(m, key)))


def _setop(name, rule):
    @ext("std::collections::HashSet::" + name, "ahash::AHashSet::" + name)
    def _f(k):
        a, b = k.one(0), k.one(1)
        ka, kb = map_items(k.ip, a), map_items(k.ip, b)
        if ka is None or kb is None:
            return None
        has = lambda m, key: bool_of(k.ip.mhas(m, key))
        ks = gated_seq(k.ip, ka + [x for x in kb if x not in ka], lambda key: rule(has(a, key), has(b, key)))
        for key in ka + kb:
            k.st.mem[("K", key)] = key
        s = vmap(lambda q: mk("seq", *[mk("ref", ("K", x), ()) for x in q.args]), ks)
        return it("Val", s, ZERO, k.ip.seqlen(s))


_setop("intersection", lambda x, y: band(x, y))
_setop("union", lambda x, y: bor(x, y))
_setop("difference", lambda x, y: band(x, bnot(y)))
_setop("symmetric_difference", lambda x, y: bxor(x, y))


def _setrel(name, rule):
    @ext("std::collections::HashSet::" + name, "ahash::AHashSet::" + name)
    def _f(k):
        a, b = k.one(0), k.one(1)
        ka, kb = map_items(k.ip, a), map_items(k.ip, b)
        if ka is None or kb is None:
            return None
        has = lambda m, key: bool_of(k.ip.mhas(m, key))
        r = TRUE
        for key in ka + [x for x in kb if x not in ka]:
            r = band(r, rule(has(a, key), has(b, key)))
        return B(r)


_setrel("is_subset", lambda x, y: bor(bnot(x), y))
_setrel("is_superset", lambda x, y: bor(x, bnot(y)))
_setrel("is_disjoint", lambda x, y: bnot(band(x, y)))


def map_len(ip, m):
    s = map_keys(ip, m)
    return ip.typed(mk("mlen", m), ("int", "usize")) if s is None else ip.seqlen(s)


def _mapiter(ip, st, ref, what):
    m = ip.deref(st, ref)
    n = map_len(ip, m)
    return it("MapIt", ref, mk("str", what), ZERO, n)


@ext("std::collections::HashMap::iter", "ahash::AHashMap::iter", "std::collections::HashMap::iter_mut")
def _miter(k):
    return _mapiter(k.ip, k.st, k.args[0], "kv")


@ext("std::collections::HashMap::keys", "std::collections::HashSet::iter", "ahash::AHashSet::iter", "ahash::AHashMap::keys")
def _mkeys(k):
    return _mapiter(k.ip, k.st, k.args[0], "k")


@ext("std::collections::HashMap::values", "std::collections::HashMap::values_mut", "ahash::AHashMap::values")
def _mvals(k):
    return _mapiter(k.ip, k.st, k.args[0], "v")


def _adapt(name, kind):
    @ext("std::iter::Iterator::" + name)
    def f(k):
        a = list(k.args)
        if kind == "Enum":
            a.append(ZERO)
        if kind == "Peek":
            a.append(NONE)
        return it(kind, *a)


for _n, _k in (
    ("enumerate", "Enum"),
    ("map", "Map"),
    ("filter", "Filter"),
    ("filter_map", "FilterMap"),
    ("copied", "Copied"),
    ("cloned", "Copied"),
    ("rev", "Rev"),
    ("skip", "Skip"),
    ("take", "Take"),
    ("by_ref", "ByRef"),
):
    _adapt(_n, _k)


@ext("std::iter::Iterator::zip")
def _zip(k):
    b = k.args[1]
    c2 = {"path": "std::iter::IntoIterator::into_iter", "id": None, "args": [k.targs[1]] if len(k.targs) > 1 else [], "trait": "std::iter::IntoIterator", "name": "into_iter", "resolved": None}
    if not (b.op == "struct" and str(b.args[0]).startswith("It::")):
        b = k.ip.call(c2, {}, [b], [None], None, k.st, k.fr, k.line)
    return it("Zip", k.args[0], b)


def shape_iter(ip, st, x):
    """iterator over a value whose kind shows in its form; None otherwise"""
    if is_it(x) or x.op == "struct" and str(x.args[0]).endswith("ops::Range"):
        return x
    if x.op == "ref":
        y = ip.deref(st, x)
        return _mkslice(ip, st, x) if ip.expand(y).op in ("seq", "arr") else None
    y = ip.expand(x)
    if y.op in ("seq", "arr"):
        return it("Val", y, ZERO, num(len(y.args)))
    if all(l.op == "struct" and str(l.args[0]).endswith("option::Option") for l, _ in leaves(x)):
        return it("Val", mk("seq", payload(ip, x)), ZERO, vite(is_some(ip, x), ONE, ZERO))
    return None


def _flatten(k, v):
    """items of the items, taken at once: a live iterator keeps what it borrows from changing"""
    outer = cond_items(k.ip, k.st, v)
    if outer is None:
        return None
    s = mk("seq")
    for c, x in outer:
        i = shape_iter(k.ip, k.st, x)
        inner = None
        if i is not None and i.args[0] == "It::Val" and i.args[2].op == "seq" and len(i.args[2].args) == 1:
            inner = [(sgn(i.args[4])[1], i.args[2].args[0])]
        elif i is not None:
            inner = cond_items(k.ip, k.st, i)
        if inner is None:
            return None
        for c2, y in inner:
            s = vite(band(c, c2), vmap(lambda q: mk("seq", *q.args, y), s), s)
    return it("Val", s, ZERO, k.ip.seqlen(s))


@ext("std::iter::Iterator::flatten")
def _flat(k):
    return _flatten(k, k.args[0])


@ext("std::iter::Iterator::flat_map")
def _flatmap(k):
    return _flatten(k, it("Map", *k.args))


@ext("std::iter::Iterator::chain")
def _chain(k):
    b = k.args[1]
    if not (b.op == "struct" and (str(b.args[0]).startswith("It::") or str(b.args[0]).endswith("ops::Range"))):
        c2 = {"path": "std::iter::IntoIterator::into_iter", "id": None, "args": [k.targs[1]] if len(k.targs) > 1 else [], "trait": "std::iter::IntoIterator", "name": "into_iter", "resolved": None}
        b = k.ip.call(c2, {}, [b], [None], None, k.st, k.fr, k.line)
    return it("Chain", k.args[0], b)


@ext("std::slice::slice_impl::windows", "std::slice::slice_impl::chunks", "std::slice::slice_impl::chunks_exact")
def _windows(k):
    base = k.ip.deref(k.st, k.args[0])
    n = k.ip.seqlen(base)
    w = k.args[1]
    if k.path.endswith("windows"):
        end = vadd(vsub(n, w), ONE)
        end = vite(sgn(end)[2], ZERO, end)
        return it("Win", k.args[0], w, ONE, ZERO, end)
    return None


def it_len(ip, st, v):
    if ip.reps:
        v = with_reps(ip, v)
    kind = v.args[0]
    if kind == "It::Pick":
        return vsub(v.args[5], v.args[4])
    if kind == "It::Zip":
        x, y = v.args[2:]
        if x.args[0].endswith("ops::RangeFrom"):
            return it_len(ip, st, y)
        n = it_len(ip, st, x)
        if y.args[0].endswith("ops::RangeFrom"):
            return n
        m = it_len(ip, st, y)
        return vite(ip.cmp("Lt", m, n), m, n)
    if kind == "It::Slice" or kind == "It::Val":
        return vsub(v.args[4], v.args[3])
    if kind in ("It::Enum", "It::Map", "It::Copied", "It::Rev"):
        return it_len(ip, st, v.args[2])
    if kind.endswith("ops::Range"):
        return vsub(v.args[3], v.args[2])
    if kind == "It::MapIt":
        return vsub(v.args[5], v.args[4])
    raise_undecided("it_len " + str(kind))


def raise_undecided(m):
    from .interp import Undecided

    raise Undecided(m)


def with_reps(ip, v):
    """iteration over a whole table that is represented by a few named elements visits exactly these"""
    kind = v.args[0]
    a = v.args[2:]
    if kind.endswith("ops::Range"):
        if a[0] is ZERO and a[1] in ip.reps:
            r = ip.reps[a[1]]
            return it("Val", mk("seq", *r), ZERO, num(len(r)))
        return v
    if kind == "It::Slice" and a[1] is ZERO and a[2] in ip.reps:
        r = ip.reps[a[2]]
        return it("Pick", a[0], mk("seq", *r), ZERO, num(len(r)))
    if kind == "It::Val" and a[1] is ZERO and a[2] in ip.reps:
        r = ip.reps[a[2]]
        return it("Val", mk("seq", *[ip.select(a[0], x) for x in r]), ZERO, num(len(r)))
    if kind == "It::Enum" and a[1] is ZERO:
        src = a[0]
        while src.op == "struct" and src.args[0] in ("It::Copied", "It::Map"):
            src = src.args[2]
        if src.op == "struct" and src.args[0] in ("It::Slice", "It::Val") and src.args[3] is ZERO and src.args[4] in ip.reps:
            r = ip.reps[src.args[4]]
            return it("Zip", it("Val", mk("seq", *r), ZERO, num(len(r))), with_reps(ip, a[0]))
    if kind.startswith("It::") and kind not in ("It::Slice", "It::Val", "It::Pick", "It::MapIt", "It::ByRef") and a and isinstance(a[0], T) and is_it(a[0]):
        n = with_reps(ip, a[0])
        rest = a[1:]
        if kind in ("It::Zip", "It::Chain") and isinstance(a[1], T) and is_it(a[1]):
            rest = (with_reps(ip, a[1]),) + tuple(a[2:])
        if n is not a[0] or rest != a[1:]:
            return mk("struct", kind, 0, n, *rest)
    return v


def it_next(ip, st, v):
    """iterator value -> (cond, item, new iterator) ; mutates st through closures"""
    if ip.reps:
        v = with_reps(ip, v)
    kind = v.args[0]
    a = v.args[2:]
    if kind.endswith("ops::Range"):
        c = ip.cmp("Lt", a[0], a[1])
        return c, a[0], mk("struct", kind, 0, vite(c, vadd(a[0], ONE), a[0]), a[1])
    if kind.endswith("ops::RangeFrom"):
        return TRUE, a[0], mk("struct", kind, 0, vadd(a[0], ONE))
    if kind == "It::Slice":
        c = ip.cmp("Lt", a[1], a[2])
        ref = ip.mkref([(cc, r, p + (("i", a[1]),)) for cc, r, p in ip.refs_of(st, a[0])])
        return c, ref, it("Slice", a[0], vite(c, vadd(a[1], ONE), a[1]), a[2])
    if kind == "It::Pick":
        c = ip.cmp("Lt", a[2], a[3])
        ref = ip.mkref([(cc, r, p + (("i", ip.select(a[1], a[2])),)) for cc, r, p in ip.refs_of(st, a[0])]) if c != FALSE else UNDEF
        return c, ref, it("Pick", a[0], a[1], vite(c, vadd(a[2], ONE), a[2]), a[3])
    if kind == "It::Val":
        c = ip.cmp("Lt", a[1], a[2])
        return c, ip.select(a[0], a[1]), it("Val", a[0], vite(c, vadd(a[1], ONE), a[1]), a[2])
    if kind == "It::MapIt":
        c = ip.cmp("Lt", a[2], a[3])
        m = ip.deref(st, a[0])
        ty = ip.tyof.get(m)
        kt = ty[2][0] if ty and ty[0] == "adt" and ty[2] else None
        ks = map_keys(ip, m)
        key = ip.typed(mk("mkey", m, a[2]), kt) if ks is None else ip.select(ks, a[2])
        what = a[1].args[0]
        kref = mk("ref", ("K", key), ())
        st.mem[("K", key)] = key
        vref = ip.mkref([(cc, r, p + (("k", key),)) for cc, r, p in ip.refs_of(st, a[0])])
        item = {"k": kref, "v": vref, "kv": tup2(kref, vref)}[what]
        return c, item, it("MapIt", a[0], a[1], vite(c, vadd(a[2], ONE), a[2]), a[3])
    if kind == "It::Enum":
        c, x, n = it_next(ip, st, a[0])
        return c, tup2(a[1], x), it("Enum", n, vite(c, vadd(a[1], ONE), a[1]))
    if kind == "It::Copied":
        c, x, n = it_next(ip, st, a[0])
        return c, ip.deref(st, x), it("Copied", n)
    if kind == "It::Map":
        c, x, n = it_next(ip, st, a[0])
        clo = a[1]
        v2 = under(ip, st, c, lambda s: call_keep(ip, s, clo, [x]), lambda s: UNDEF)
        return c, v2, it("Map", n, clo)
    if kind == "It::Zip":
        c1, x, n1 = it_next(ip, st, a[0])
        c2, y, n2 = it_next(ip, st, a[1])
        return band(c1, c2), tup2(x, y), it("Zip", n1, n2)
    if kind == "It::Rev":
        return it_back(ip, st, a[0])
    if kind == "It::Win":
        ref, w, step, i, end = a
        c = ip.cmp("Lt", i, end)
        r = ip.mkref([(cc, ro, p + (("sub", i, vadd(i, w)),)) for cc, ro, p in ip.refs_of(st, ref)])
        return c, r, it("Win", ref, w, step, vite(c, vadd(i, step), i), end)
    if kind == "It::Skip":
        inner = skip_n(ip, st, a[0], a[1])
        if inner is None:
            raise_undecided("skip")
        return it_next(ip, st, inner)
    if kind == "It::Take":
        c0 = sgn(a[1])[1]
        c, x, n = it_next(ip, st, a[0])
        return band(c0, c), x, it("Take", n, vsub(a[1], ONE))
    if kind == "It::ByRef":
        inner = ip.deref(st, a[0])
        c, x, n = it_next(ip, st, inner)
        ip.write(st, ip.refs_of(st, a[0]), n)
        return c, x, v
    if kind in ("It::Filter", "It::FilterMap"):
        # concrete inner iterators only: peel until decided
        return filt_next(ip, st, v)
    if kind == "It::Chain":
        c1, x1, n1 = it_next(ip, st, a[0])
        if c1 == TRUE:
            return c1, x1, it("Chain", n1, a[1])
        c2, x2, n2 = it_next(ip, st, a[1])
        if c1 == FALSE:
            return c2, x2, it("Chain", n1, n2)
        return bor(c1, c2), vite(c1, x1, x2), it("Chain", n1, vite(c1, a[1], n2))
    raise_undecided("iterator " + str(kind))


def skip_n(ip, st, inner, n):
    k = inner.args[0]
    if k in ("It::Slice", "It::Val"):
        b, i, e = inner.args[2:]
        j = vadd(i, n)
        j = vite(ip.cmp("Gt", j, e), e, j)
        return mk("struct", k, 0, b, j, e)
    if k.endswith("ops::Range"):
        i, e = inner.args[2:]
        j = vadd(i, n)
        j = vite(ip.cmp("Gt", j, e), e, j)
        return mk("struct", k, 0, j, e)
    if k == "It::Enum":
        x = skip_n(ip, st, inner.args[2], n)
        return it("Enum", x, vadd(inner.args[3], n)) if x is not None else None
    if k == "It::Copied":
        x = skip_n(ip, st, inner.args[2], n)
        return it("Copied", x) if x is not None else None
    return None


def call_keep(ip, st, clo, args):
    if clo.op == "clo":
        root = ip.newroot(st, clo, "C")
        return ip.call_value(mk("ref", root, ()), args, st, None)
    return ip.call_value(clo, args, st, None)


def it_back(ip, st, v):
    if ip.reps:
        v = with_reps(ip, v)
    kind = v.args[0]
    a = v.args[2:]
    if kind.endswith("ops::Range"):
        c = ip.cmp("Lt", a[0], a[1])
        e = vite(c, vsub(a[1], ONE), a[1])
        return c, vsub(a[1], ONE), it("Rev", mk("struct", kind, 0, a[0], e))
    if kind in ("It::Slice", "It::Val"):
        c = ip.cmp("Lt", a[1], a[2])
        i = vsub(a[2], ONE)
        e = vite(c, i, a[2])
        if kind == "It::Slice":
            x = ip.mkref([(cc, r, p + (("i", i),)) for cc, r, p in ip.refs_of(st, a[0])])
        else:
            x = ip.select(a[0], i)
        return c, x, it("Rev", mk("struct", kind, 0, a[0], a[1], e))
    if kind == "It::Enum":
        n = it_len(ip, st, a[0])
        c, x, nx = it_back(ip, st, a[0])
        return c, tup2(vsub(vadd(a[1], n), ONE), x), it("Rev", it("Enum", nx.args[2], a[1]))
    if kind == "It::Copied":
        c, x, nx = it_back(ip, st, a[0])
        return c, ip.deref(st, x), it("Rev", it("Copied", nx.args[2]))
    if kind == "It::Rev":
        c, x, nx = it_next(ip, st, a[0])
        return c, x, it("Rev", it("Rev", nx))
    raise_undecided("rev " + str(kind))


def filt_next(ip, st, v):
    """filter over a concretely-sized inner iterator: gated search of the next accepted element"""
    kind = v.args[0]
    inner, clo = v.args[2], v.args[3]
    for _ in range(64):
        c, x, inner = it_next(ip, st, inner)
        if c == FALSE:
            return FALSE, UNDEF, mk("struct", kind, 0, inner, clo)
        if c != TRUE:
            break
        if kind == "It::Filter":
            r = mk("ref", ip.newroot(st, x), ())
            c = bool_of(call_keep(ip, st, clo, [r]))
        else:
            o = call_keep(ip, st, clo, [x])
            c, x = is_some(ip, o), payload(ip, o)
        if band(st.pc, c) == FALSE:
            continue
        if band(st.pc, bnot(c)) == FALSE:
            return TRUE, x, mk("struct", kind, 0, inner, clo)
        break
    raise_undecided("filter next")


def it_items(ip, st, v, limit=64):
    """all items of a concretely-sized iterator, or None"""
    out = []
    cur = v
    for _ in range(limit):
        c, x, n = it_next(ip, st, cur)
        if c == FALSE:
            return out
        if c != TRUE:
            if band(st.pc, c) == FALSE:
                return out
            if band(st.pc, bnot(c)) != FALSE:
                return None
        out.append(x)
        cur = n
    return None


def is_it(v):
    return v.op == "struct" and isinstance(v.args[0], str) and (v.args[0].startswith("It::") or v.args[0].endswith(("ops::Range", "ops::RangeFrom")))


@ext("std::iter::Iterator::next")
def _next(k):
    v = k.one(0)
    if not is_it(v):
        return None
    if k.ip.reps:
        v = with_reps(k.ip, v)
    try:
        c, x, n = it_next(k.ip, k.st, v)
    except Exception as e:
        if type(e).__name__ == "Undecided":
            return None
        raise
    k.ip.write(k.st, k.ref(0), n)
    if c == FALSE:
        return NONE
    dec = k.ip._dec[-1] if getattr(k.ip, "_dec", None) else None
    if dec is not None and dec["fr"] is k.fr and open_end(v):
        dec["open"] = True
    return opt(c, x)


def open_end(v):
    """does the iterator run up to a length that is not a known number"""
    a = v.args[2:]
    kind = v.args[0]
    if kind.endswith("ops::Range"):
        return any(l.op != "num" for l, _ in leaves(a[1])) and all(l.op == "num" for l, _ in leaves(a[0]))
    if kind in ("It::Slice", "It::Val"):
        return any(l.op != "num" for l, _ in leaves(a[2])) and all(l.op == "num" for l, _ in leaves(a[1]))
    if kind in ("It::Enum", "It::Copied", "It::Map", "It::Zip", "It::Filter", "It::FilterMap"):
        return isinstance(a[0], T) and is_it(a[0]) and open_end(a[0])
    return False


@ext("std::iter::DoubleEndedIterator::next_back")
def _nextback(k):
    v = k.one(0)
    if not is_it(v):
        return None
    c, x, n = it_back(k.ip, k.st, v)
    k.ip.write(k.st, k.ref(0), n.args[2])
    return opt(c, x)


def consume(k, v, init, step, finish, early=None):
    """fold over an iterator; fixed-size iterators are peeled, others become a summarised loop"""
    ip, st = k.ip, k.st
    flat = cond_items(ip, st, v)
    if flat is None:
        return None
    acc = init
    for c, x in flat:
        acc = step(st, c, x, acc)
    return finish(acc)


def cond_items(ip, st, v):
    """list of (cond, item) for concretely sized (possibly filtered) iterators"""
    if not is_it(v):
        return None
    if ip.reps:
        v = with_reps(ip, v)
    kind = v.args[0]
    if kind in ("It::Filter", "It::FilterMap", "It::Map", "It::Copied"):
        sub = cond_items(ip, st, v.args[2])
        if sub is None:
            return None

        def when(c, f):
            return f(st) if c == TRUE else under(ip, st, c, f, lambda s: UNDEF)

        out = []
        for c, x in sub:
            if band(st.pc, c) == FALSE:
                continue
            if kind == "It::Filter":
                r = mk("ref", ip.newroot(st, x), ())
                y = when(c, lambda s: call_keep(ip, s, v.args[3], [r]))
                out.append((band(c, brestrict(bool_of(y), c)), x))
            elif kind == "It::FilterMap":
                o = when(c, lambda s: call_keep(ip, s, v.args[3], [x]))
                o = vrestrict(o, c)
                out.append((band(c, is_some(ip, o)), payload(ip, o)))
            elif kind == "It::Map":
                out.append((c, vrestrict(when(c, lambda s: call_keep(ip, s, v.args[3], [x])), c)))
            else:
                out.append((c, ip.deref(st, x)))
        return out
    if kind.endswith("ops::Range") and not (v.args[2].op == "num" and v.args[3].op == "num"):
        # bounds that depend on the path taken but are known on each path
        los, his = num_leaves(v.args[2]), num_leaves(v.args[3])
        if los and his and max(his) - min(los) <= 16:
            out = []
            for i in range(int(min(los)), int(max(his))):
                x = ip.typed(num(i), ("int", "usize"))
                out.append((band(bnot(ip.cmp("Lt", x, v.args[2])), ip.cmp("Lt", x, v.args[3])), x))
            return out
    saved = dict(st.mem)
    try:
        items = it_items(ip, st, v)
    except Exception as e:
        if type(e).__name__ == "Undecided":
            st.mem = saved
            return None
        raise
    if items is None:
        st.mem = saved
        return None
    return [(TRUE, x) for x in items]


def num_leaves(v, limit=16):
    """the constants a value chooses between, or None"""
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x.op == "num":
            out.add(x.args[0])
        elif x.op == "ite" and len(todo) < limit:
            todo += [x.args[1], x.args[2]]
        else:
            return None
    return out


def quant(k, v, clo, exists, byref=False):
    """any / all over a symbolic iterator -> canonical quantifier atom, or None"""
    ip, st = k.ip, k.st
    ip.loopdepth += 1
    try:
        d = ip.loopdepth
        src = v
        chain = []
        while src.op == "struct" and src.args[0] in ("It::Map", "It::Copied", "It::Filter", "It::Enum"):
            chain.append(src)
            src = src.args[2]
        if src.op != "struct":
            return None
        kind = src.args[0]
        bv = ip.typed(mk("bv", d), ("int", "usize"))
        if kind in ("It::Slice", "It::Val"):
            lo, hi = src.args[3], src.args[4]
            one = mk("struct", kind, 0, src.args[2], bv, vadd(bv, ONE))
            rng = (lo, hi)
        elif kind.endswith("ops::Range"):
            lo, hi = src.args[2], src.args[3]
            one = mk("struct", kind, 0, bv, vadd(bv, ONE))
            rng = (lo, hi)
        elif kind == "It::MapIt":
            one = it("MapIt", src.args[2], src.args[3], bv, vadd(bv, ONE))
            rng = (src.args[4], src.args[5])
        else:
            return None
        cur = one
        for s in reversed(chain):
            if s.args[0] == "It::Enum":
                cur = it("Enum", cur, vadd(s.args[3], vsub(bv, rng[0])))
            else:
                cur = mk("struct", s.args[0], 0, cur, *s.args[3:])
        inrange = band(bnot(ip.cmp("Lt", bv, rng[0])), ip.cmp("Lt", bv, rng[1]))
        save_pc = st.pc
        s2 = type(st)(dict(st.mem), band(st.pc, inrange))
        before = dict(s2.mem)
        items = cond_items(ip, s2, cur)
        if items is None or len(items) != 1:
            return None
        c, x = items[0]
        body = bool_of(call_keep(ip, s2, clo, [x])) if clo is not None else None
        for r, val in before.items():
            if s2.mem.get(r) is not val:
                return None  # closure has effects
        f = band(c, body) if exists else band(c, bnot(body))
        f = brestrict(f, band(save_pc, inrange))
        if f == FALSE:
            return BF if exists else BT
        atom = bvar(("exists", d, rng[0], rng[1], B(f)))
        return B(atom if exists else bnot(atom))
    finally:
        ip.loopdepth -= 1


def _src(k, i=0):
    """iterator argument of a consumer (by value or by &mut)"""
    v = k.args[i]
    if v.op == "ref" or not is_it(v):
        w = k.ip.deref_all(k.st, v)
        if is_it(w):
            return w
    return v


@ext("std::iter::Iterator::any")
def _any(k):
    v = _src(k)
    if not is_it(v):
        return None
    fl = cond_items(k.ip, k.st, v)
    if fl is None:
        return quant(k, v, k.args[1], True)
    r = FALSE
    for c, x in fl:
        s = k.st
        go = band(c, bnot(r))
        b = under(k.ip, s, go, lambda s2: call_keep(k.ip, s2, k.args[1], [x]), lambda s2: BF)
        r = bor(r, band(c, bool_of(b)))
    return B(r)


@ext("std::iter::Iterator::all")
def _all(k):
    v = _src(k)
    if not is_it(v):
        return None
    fl = cond_items(k.ip, k.st, v)
    if fl is None:
        return quant(k, v, k.args[1], False)
    r = TRUE
    for c, x in fl:
        go = band(c, r)
        b = under(k.ip, k.st, go, lambda s2: call_keep(k.ip, s2, k.args[1], [x]), lambda s2: BT)
        r = band(r, bor(bnot(c), bool_of(b)))
    return B(r)


@ext("std::iter::Iterator::find")
def _find(k):
    v = _src(k)
    if not is_it(v):
        return None
    fl = cond_items(k.ip, k.st, v)
    if fl is None:
        return None
    res = []
    for c, x in fl:
        r = mk("ref", k.ip.newroot(k.st, x), ())
        b = bool_of(call_keep(k.ip, k.st, k.args[1], [r]))
        res.append((band(c, b), x))
    out = NONE
    for c, x in reversed(res):
        out = vite(c, some(x), out)
    return out


@ext("std::iter::Iterator::position")
def _position(k):
    v = _src(k)
    if not is_it(v):
        return None
    fl = cond_items(k.ip, k.st, v)
    if fl is None or any(c != TRUE for c, _ in fl):
        return None
    res = []
    for i, (c, x) in enumerate(fl):
        b = bool_of(call_keep(k.ip, k.st, k.args[1], [x]))
        res.append((b, num(i)))
    out = NONE
    for c, x in reversed(res):
        out = vite(c, some(x), out)
    return out


@ext("std::iter::Iterator::count")
def _count(k):
    v = _src(k)
    if not is_it(v):
        return None
    fl = cond_items(k.ip, k.st, v)
    if fl is None:
        return None
    n = ZERO
    for c, x in fl:
        n = vadd(n, vite(c, ONE, ZERO))
    return n


@ext("std::iter::Iterator::sum")
def _sum(k):
    v = _src(k)
    if not is_it(v):
        return None
    fl = cond_items(k.ip, k.st, v)
    if fl is None:
        return None
    n = ZERO
    for c, x in fl:
        n = vadd(n, vite(c, k.ip.deref_all(k.st, x), ZERO))
    return n


@ext("std::iter::Iterator::fold")
def _fold(k):
    v = _src(k)
    if not is_it(v):
        return None
    fl = cond_items(k.ip, k.st, v)
    if fl is None or any(c != TRUE for c, _ in fl):
        return None
    acc = k.args[1]
    for c, x in fl:
        acc = call_keep(k.ip, k.st, k.args[2], [acc, x])
    return acc


@ext("std::iter::Iterator::for_each")
def _foreach(k):
    v = _src(k)
    if not is_it(v):
        return None
    fl = cond_items(k.ip, k.st, v)
    if fl is None:
        return None
    for c, x in fl:
        under(k.ip, k.st, c, lambda s: call_keep(k.ip, s, k.args[1], [x]), lambda s: UNIT)
    return UNIT


@ext("std::iter::Iterator::collect")
def _collect(k):
    v = _src(k)
    if not is_it(v):
        return None
    t = k.dty
    h = t[1].split("::")[-1] if t and t[0] == "adt" else ""
    fl = cond_items(k.ip, k.st, v)
    if fl is None:
        return None
    if h in ("Vec", "SmallVec", "VecDeque"):
        if any(c != TRUE for c, _ in fl):
            s = mk("seq")
            for c, x in fl:
                s = vite(c, vmap(lambda y: mk("seq", *y.args, x), s), s)
            return s
        return mk("seq", *[x for _, x in fl])
    if h in ("HashSet", "AHashSet"):
        m = mk("mnew")
        for c, x in fl:
            m = vite(c, k.ip.mput(m, x, UNIT), m)
        return m
    if h in ("HashMap", "AHashMap"):
        m = mk("mnew")
        for c, x in fl:
            m = vite(c, k.ip.mput(m, k.ip.proj(x, ("f", 0, 0)), k.ip.proj(x, ("f", 0, 1))), m)
        return m
    return None


@ext("std::iter::Extend::extend")
def _iextend(k):
    t = strip_ref(k.selfty())
    h = t[1].split("::")[-1] if t and t[0] == "adt" else ""
    v = k.args[1]
    if not is_it(v):
        e = k.ip.expand(k.ip.deref_all(k.st, v))
        if e.op in ("mnew", "mput", "mdel"):
            e = map_keys(k.ip, e)
        if e is not None and e.op in ("arr", "seq"):
            fl = [(TRUE, x) for x in e.args]
        else:
            return None
    else:
        fl = cond_items(k.ip, k.st, v)
    if fl is None:
        return None
    s = k.one(0)
    for c, x in fl:
        if h in ("Vec", "SmallVec", "VecDeque"):
            s = vite(c, vmap(lambda y: mk("seq", *y.args, x) if y.op == "seq" else k.ip.typed(mk("push", y, x), k.ip.tyof.get(y)), s), s)
        elif h in ("HashSet", "AHashSet"):
            s = vite(c, k.ip.mput(s, x, UNIT), s)
        else:
            return None
    k.ip.write(k.st, k.ref(0), s)
    return UNIT


@ext("std::ops::RangeInclusive::new")
def _rinew(k):
    return mk("struct", "std::ops::RangeInclusive", 0, k.args[0], k.args[1], BF)


@ext("std::ops::RangeInclusive::contains", "std::ops::Range::contains")
def _rcontains(k):
    r = k.one(0)
    x = k.val(1)
    lo, hi = k.ip.proj(r, ("f", 0, 0)), k.ip.proj(r, ("f", 0, 1))
    up = k.ip.cmp("Le" if "Inclusive" in k.path else "Lt", x, hi)
    return B(band(k.ip.cmp("Ge", x, lo), up))


# ---------------------------------------------------------------- loop summaries
def closed_forms(ip, L, st, conds):
    """find the driving counter(s) of a summarised loop"""
    L.driver = None
    cands = []
    for k, m in L.mu.items():
        nx = L.next.get(k)
        if nx is None or not isinstance(m, T) or m.op != "mu":
            continue
        d = vsub(nx, m)
        if d is ONE:
            cands.append((k, m))
    for k, m in cands:
        # some exit requires mu >= end with invariant end
        for t, s in conds:
            for var in bsupport(s.pc):
                a = tm.ATOMS[var]
                if a[0] in ("Z", "P"):
                    p = poly(a[1])
                    cm = p.get(((m, 1),))
                    if cm is None:
                        continue
                    rest = frompoly({mm: c for mm, c in p.items() if mm != ((m, 1),)})
                    if mentions(rest, is_mu_of(L)):
                        continue
                    end = vneg(vdiv(rest, num(cm)))
                    # the exit must be impossible while mu < end
                    lt = ip.cmp("Lt", m, end)
                    if band(s.pc, lt) == FALSE and bimp(L.back_pc, lt):
                        L.driver = (k, m, L.init[k], end, t)
                        return


def is_mu_of(L):
    ms = set()
    for m in L.mu.values():
        if isinstance(m, T) and m.op == "mu":
            ms.add(m)
    atoms = set()
    for m in L.mu.values():
        if m.op == "bool":
            for v in bsupport(m.args[0]):
                atoms.add(tm.ATOMS[v])
    return lambda x: (isinstance(x, T) and x in ms) or (isinstance(x, tuple) and x in atoms)


def exit_rank(ip, L, cond):
    """the normal exit (driver exhausted) comes last"""
    t, s = cond
    if L.driver and L.driver[4] == t:
        return (1, str(t))
    return (0, str(t))


def exit_atom(ip, L, cond, j):
    t, s = cond
    if L.driver:
        k, m, lo, hi, _ = L.driver
        inr = band(L.entry_pc, bnot(ip.cmp("Lt", m, lo)), ip.cmp("Lt", m, hi))
        f = brestrict(s.pc, inr)
        bv = ip.typed(mk("bv", L.depth), ("int", "usize"))
        others = [x for x in L.mu.values() if x is not m]
        # equivalent counters (same step, e.g. iterator position and enumerate count)
        sub = {m: bv}
        for k2, m2 in L.mu.items():
            if m2 is m or not isinstance(m2, T) or m2.op != "mu":
                continue
            if vsub(L.next[k2], m2) is ONE:
                sub[m2] = vadd(bv, vsub(L.init[k2], lo))
        g = tsubst(B(f), sub)
        if not mentions(g, is_mu_of(L)):
            gf = bool_of(g)
            inr2 = band(bnot(ip.cmp("Lt", bv, lo)), ip.cmp("Lt", bv, hi))
            gf = brestrict(gf, inr2)
            if lo.op == "num" and hi.op == "num" and hi.args[0] - lo.args[0] <= 32:
                # few positions: name the first one that exits
                at, any_ = hi, FALSE
                for i in reversed(range(int(lo.args[0]), int(hi.args[0]))):
                    e = bool_of(tsubst(B(gf), {bv: num(i)}))
                    at, any_ = vite(e, num(i), at), bor(any_, e)
                L.firsts[t] = at
                return any_
            L.firsts[t] = ip.typed(mk("first", L.depth, lo, hi, B(gf)), ("int", "usize"))
            return bvar(("exists", L.depth, lo, hi, B(gf)))
    return bvar(("exit", L.fn, L.key[-1], j, len(ip.stack)))


def apply_post(ip, L, s, final, t):
    """on the normal exit the driver equals its bound, on an early exit it is the first index that meets the exit's condition"""
    at = None
    if L.driver:
        at = L.driver[3] if final else L.firsts.get(t)
    if at is not None:
        k, m, lo, hi, _ = L.driver
        hi = at
        sub = {m: hi}
        for k2, m2 in L.mu.items():
            if m2 is m or not isinstance(m2, T) or m2.op != "mu":
                continue
            if vsub(L.next[k2], m2) is ONE:
                sub[m2] = vadd(hi, vsub(L.init[k2], lo))
        for root, v in list(s.mem.items()):
            if mentions(v, lambda x: isinstance(x, T) and x in sub):
                s.mem[root] = tsubst(v, sub)
