"""C42: isotropic remeshing."""
from lib import *
from common import *
from mesh import *
from engine.terms import T
from collapse import mesh_of, SC

EXPLAIN = (
    "A round of remeshing is interpreted on small numbered meshes with unknown positions and an unknown positive target length, the local operations (split, "
    "collapse, flip, single-vertex smoothing) being services that succeed or fail. The path condition of every request has to imply that the edge is "
    "longer than a fixed multiple (at least 1) of the target, shorter than a fixed multiple (at most 1), or interior with a better smallest angle after the flip."
)
RULES = [
    "split requested => squared length > k * target^2 with k >= 1, at the midpoint",
    "collapse requested => the two vertices form an edge with squared length < k * target^2, k <= 1",
    "flip requested => both sides have faces and the larger smallest-angle cosine of the pair decreases",
    "in a round no split, collapse or flip follows a smoothing step, and the smoothing bound is a multiple >= 1 of the target",
    "default options: lower bound < target < upper bound",
]
PARALLEL = True
T_ = mk("sym", "target")
CASES = {
    "triangle": (["abc"], ["acb"]),
    "two triangles": (["abc", "bdc"], ["acdb"]),
    "three triangles": (["abc", "bdc", "cde"], ["acedb"]),
}
NUMS = [(0, 0, 0), (4, 1, 0), (1, 4, 1), (5, 5, 2), (2, 9, 1)]


def world(c, label, free):
    P = mesh_of(c, *CASES[label])
    if free is not None:
        for j, x in enumerate(P.vx):
            if x != free:
                P.pos[x] = [num(t) for t in NUMS[j]]
    return P


def services(c, P, log, moving):
    def op(name):
        def f(ip, st, args, atys, dty, r):
            b = bvar(("done", name, len(log)))
            me = ip.refs_of(st, args[0])[0]
            here = ip.proj(ip.read(st, me[1], me[2]), ("f", 0, P.mfields.index("vertices")))
            log.append((st.pc, name, here, [ip.deref_all(st, a) if i else None for i, a in enumerate(args)]))
            if name == "build_face_tree":
                return mk("sym", "tree")
            if name == "smooth_tangential":
                return B(b)
            n = len(log)
            if name == "collapse_edge" and moving:
                # the kept vertex moves
                for i, cnd in leaves(args[1], st.pc):
                    i = ip.expand(i)
                    if i.op != "num":
                        raise Undecided("collapsed vertex not known")
                    path = me[2] + (("f", 0, P.mfields.index("vertices")), ("i", i), ("f", 0, P.vf.index("position")))
                    old = ip.read(st, me[1], path)
                    new = mk("struct", c.adt_path("Point"), 0, mk("arr", *[mk("sym", "moved%d.%d" % (n, k)) for k in range(3)]))
                    for t in new.args[2].args:
                        ip.typed(t, TP)
                    ip.write(st, [(TRUE, me[1], path)], vite(band(b, cnd), new, old))
            return vite(b, mk("struct", "std::result::Result", 0, mk("sym", "done%d" % n)), mk("struct", "std::result::Result", 1, mk("sym", "failed%d" % n)))

        return f

    ov = {}
    for n in ("split_edge", "collapse_edge", "flip_edge", "smooth_tangential", "build_face_tree"):
        ov[mesh_fn(c, n).path] = op(n)

    def best(ip, st, args, atys, dty, r):
        # cosine of the smallest angle: the same for every order of the corners
        vs = []
        for a in args[1:]:
            a = ip.expand(a)
            if a.op != "num":
                raise Undecided("corner of a rated triangle not known")
            vs.append(int(a.args[0]))
        t = cosine_of(vs)
        ip.typed(t, ("f64",))
        return P.option(t)

    try:
        ov[mesh_fn(c, COS).path] = best
    except MissingAnchor:
        pass
    return ov


COS = "tri_min_angle_cos_f64"


def cosine_of(vs):
    return mk("sym", "mincos(%s)" % ",".join(map(str, sorted(vs))))


def options(c, target, rounds):
    p = c.adt_path("RemeshOptions")
    vals = {"target_edge_length": target, "max_iterations": num(rounds)}
    return mk("struct", p, 0, *[vals.get(f[0], mk("sym", "opt." + f[0])) for f in c.F.adts[p]["variants"][0][1]])


def square(P, a, b):
    d = vminus(P.pos[a], P.pos[b])
    return dot(d, d)


def lengths(ip, P, tab, i, j, cond, ok):
    """every current squared length of the edge satisfies ok"""
    k = P.vf.index("position")
    vals = [x for n in (i, j) for x in coords(ip, ip.proj(ip.select(tab, num(n)), ("f", 0, k)), 3)]

    def go(got, b):
        if len(got) == 6:
            d = vminus(got[:3], got[3:])
            return ok(b, dot(d, d))
        return all(go(got + [x], b2) for x, b2 in leaves(vals[len(got)], b) if b2 != FALSE)

    return go([], cond)


def factors(len2, t):
    """multiples k of t^2 that are compared with len2 anywhere"""
    t2 = vmul(t, t)
    out = []
    for a in list(tm.ATOMS):
        if a[0] != "P":
            continue
        d = poly(a[1])
        k2 = None
        ref = poly(len2)
        m0 = next((m for m in ref if m), None)
        if m0 is None:
            k0, kt = d.get(()), [x for m, x in d.items() if m]
            if k0 and len(kt) == 1:
                k2 = -kt[0] * ref[()] / k0
        elif m0 in d and t2.op != "num":
            mt = next(iter(poly(t2)))
            k2 = -d.get(mt, 0) * ref[m0] / d[m0]
        elif m0 in d:
            k2 = -(d.get((), 0) * ref[m0] / d[m0] - ref.get((), 0)) / poly(t2)[()]
        if k2 is not None and k2 > 0:
            out.append(k2)
    return sorted(set(out))


def bounded(cond, len2, ts, longer):
    """cond implies that len2 is beyond a multiple of the target"""
    for t in ts:
        if len2.op == "num" and t.op == "num":
            return len2.args[0] != t.args[0] ** 2 and (len2.args[0] > t.args[0] ** 2) == longer
        for k in factors(len2, t):
            if (k >= 1) != longer and k != 1:
                continue
            z, p, n = sgn(vsub(len2, vmul(num(k), vmul(t, t))))
            if band(cond, bnot(p if longer else n)) == FALSE:
                return True
    return False


def check(c):
    fn = mesh_fn(c, "isotropic_remesh")
    for label, free, fixed, moving in (
        ("triangle", None, None, True),
        ("two triangles", None, None, False),
        ("two triangles", "a", 4, True),
        ("two triangles", "b", 4, True),
        ("two triangles", "d", 3, True),
        ("two triangles", "c", 3, True),
        ("three triangles", "c", 4, False),
        ("three triangles", "a", 4, True),
    ):

        def th(label=label, free=free, fixed=fixed, moving=moving):
            P = world(c, label, free)
            m = P.value()
            log = []
            target = num(fixed) if fixed else T_
            pre = TRUE if fixed else band(Pos(T_), Pos(mk("approx", T_)))
            ts = [num(fixed)] if fixed else [mk("approx", T_), T_]
            opts = options(c, target, 1)

            def setup(ip):
                P.setup(ip)
                ip.typed(T_, TP)

            r = c.run(fn, P.env(), args=[("ref", m), ("ref", opts)], setup=setup, scalars=SC, overrides=services(c, P, log, moving), pre=pre, limit=150)
            ip = r.ip
            if band(pre, bnot(r.pc)) != FALSE:
                op = opaque_part(B(r.pc))
                return (None if op else False), "a round does not return when %s" % showb(bnot(r.pc), 3, 1)[:100]
            hes = list(P.he)
            vs = list(P.vx)
            count = {}
            smooth = None
            for pc, name, here, args in log:
                pc = band(pc, pre)
                if pc == FALSE or name == "build_face_tree":
                    continue
                if name == "smooth_tangential":
                    smooth = name
                    bound = args[3]
                    for b2, cnd in leaves(bound, pc):
                        ok = any(ratio(b2, vmul(t, t)) is not None and ratio(b2, vmul(t, t)) >= 1 for t in ts)
                        if not ok:
                            return (None if opaque_part(b2) else False), "the smoothing bound is not a multiple of the squared target"
                    count[name] = count.get(name, 0) + 1
                    continue
                if smooth:
                    return False, "%s is requested after smoothing in the same round" % name
                first = {"split_edge": 2, "collapse_edge": 1, "flip_edge": 1}[name]
                for i, cnd in leaves(args[first], pc):
                    i = ip.expand(i)
                    if i.op != "num":
                        return None, "%s: element not known" % name
                    i = int(i.args[0])
                    count[name] = count.get(name, 0) + 1
                    if name == "split_edge":
                        a, b = hes[i]
                        if not lengths(ip, P, here, vs.index(a), vs.index(b), cnd, lambda b_, l2: bounded(b_, l2, ts, True)):
                            return False, "edge %s%s is split without being longer than a bound above the target" % (a, b)
                        mid = [vdiv(x, num(2)) for x in vplus(P.pos[a], P.pos[b])]
                        for g, w in zip(coords(ip, args[3], 3), mid):
                            for leaf, c2 in leaves(g, cnd):
                                if leaf is not w:
                                    return (None if opaque_part(leaf) else False), "edge %s%s is not split at its midpoint" % (a, b)
                    elif name == "flip_edge":
                        a, b = hes[i]
                        f = next((x for x in CASES[label][0] if follows(x, a, b)), None)
                        g = next((x for x in CASES[label][0] if follows(x, b, a)), None)
                        if f is None or g is None:
                            return False, "border edge %s is flipped" % hes[i]
                        x = (set(f) - {a, b}).pop()
                        y = (set(g) - {a, b}).pop()
                        o = [cosine_of([vs.index(k) for k in q]) for q in (f, g)]
                        n = [cosine_of([vs.index(k) for k in q]) for q in ((a, x, y), (b, x, y))]
                        if not any(mentions_sym(cnd, k) for k in o + n):
                            try:
                                mesh_fn(c, COS)
                            except MissingAnchor:
                                return None, "rating of triangles not recognised"
                        better = FALSE
                        for p in o:
                            w = TRUE
                            for q in n:
                                w = band(w, Pos(vsub(p, q)))
                            better = bor(better, w)
                        ax = order_axioms(o + n)
                        for p in o:
                            for q in n:
                                for k in margins(p, q):
                                    ax = band(ax, imp(Pos(vsub(vsub(p, q), num(k))), Pos(vsub(p, q))))
                        if band(cnd, ax, bnot(better)) != FALSE:
                            return False, "edge %s%s is flipped although the smallest angle does not grow" % (a, b)
                    else:
                        for j, c2 in leaves(args[2], cnd):
                            j = ip.expand(j)
                            if j.op != "num":
                                return None, "collapse: vertex not known"
                            a, b = vs[i], vs[int(j.args[0])]
                            if not any({a, b} <= set(f) for f in CASES[label][0]):
                                return False, "%s and %s are collapsed without being joined" % (a, b)
                            if not lengths(ip, P, here, vs.index(a), vs.index(b), c2, lambda b_, l2: bounded(b_, l2, ts, False)):
                                return False, "edge %s%s is collapsed without being shorter than a bound below the target" % (a, b)
            if "smooth_tangential" not in count:
                return False, "a round does not smooth"
            return True, ", ".join("%d %s" % (v, k) for k, v in sorted(count.items()))

        c.guard("one round on %s%s" % (label, ", corner %s unknown, target %d" % (free, fixed) if free else ""), fn, th)

    # ---------------------------------------------------------------- rating of triangles
    def rated():
        try:
            fn = mesh_fn(c, COS)
        except MissingAnchor:
            return None, "rating of triangles not recognised"
        P = world(c, "triangle", None)
        m = P.value()
        r = c.run(fn, P.env(), args=[("ref", m), num(0), num(1), num(2)], setup=P.setup, scalars=SC)
        ip = r.ip
        side = lambda x, y: mk("approx", square(P, x, y))
        cs = []
        ok = TRUE
        sides = [side(*k) for k in ("ab", "bc", "ca")]
        for a, b, d in ("abc", "bca", "cab"):
            den = mk("sqrt", vmul(side(a, b), side(a, d)))
            cos = vdiv(vsub(vadd(side(a, b), side(a, d)), side(b, d)), vmul(num(2), den))
            cs.append(cos)
            ok = band(ok, Pos(den), Pos(side(a, b)), bnot(Pos(vsub(cos, ONE))), bnot(Neg(vadd(cos, ONE))))
        ok = band(ok, order_axioms(cs))
        some = band(r.pc, ip.isvar(r.ret, 1, "std::option::Option"))
        if band(ok, bnot(some)) != FALSE:
            return False, "a proper triangle is not rated"
        seen = set()
        for x, b in leaves(models.payload(ip, r.ret), band(ok, some)):
            if x not in cs:
                sq = vmul(x, x)
                same = [y for y in cs if vmul(y, y) is sq]
                if not same:
                    known = not mentions_op(sq, "sqrt") and all(a in sides for a in atoms_of(sq, "approx")) and not opaque_part(sq)
                    return (False if known else None), "the rating is not the cosine of a corner"
                x = same[0]
            for y in cs:
                if band(b, Pos(vsub(y, x))) != FALSE:
                    return False, "the rating is not the largest corner cosine"
            seen.add(x)
        return len(seen) == 3, "largest of the three corner cosines"

    c.guard("smallest angle of a triangle", fn, rated)

    def new():
        f = c.fn("RemeshOptions<_>::new")
        p = c.adt_path("RemeshOptions")
        fs = [x[0] for x in c.F.adts[p]["variants"][0][1]]
        r = c.run(f, {"T": TP}, args=[T_], setup=lambda ip: ip.typed(T_, TP), scalars=SC)
        ip = r.ip
        v = {k: ip.proj(r.ret, ("f", 0, fs.index(k))) for k in ("target_edge_length", "min_edge_length", "max_edge_length")}
        if v["target_edge_length"] is not T_:
            return False, "the target is not the given length"
        lo, hi = ratio(v["min_edge_length"], T_), ratio(v["max_edge_length"], T_)
        if lo is None or hi is None:
            return (None if opaque_part(r.ret) else False), "bounds are not multiples of the target"
        return 0 < lo < 1 < hi, "bounds %s and %s times the target" % (lo, hi)

    c.guard("default bounds bracket the target", fn, new)


def follows(f, a, b):
    return any(f[i] == a and f[(i + 1) % 3] == b for i in range(3))


def mentions_sym(b, t):
    return mentions_term(B(b), t)


def atoms_of(t, op):
    out = []
    models.mentions(t, lambda y: isinstance(y, T) and y.op == op and (out.append(y) or False))
    return out


def ratio(x, y):
    """x / y when that is a number"""
    q = vdiv(x, y)
    return q.args[0] if q.op == "num" else None


def margins(p, q):
    out = set()
    for a in list(tm.ATOMS):
        if a[0] != "P":
            continue
        d = dict(poly(a[1]))
        k = d.pop((), 0)
        if set(d) == set(poly(vsub(p, q))) and sum(d.values()) == 0:
            s = d[next(iter(poly(p)))]
            if -k / s > 0:
                out.add(-k / s)
    return out
