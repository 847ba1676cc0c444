"""C26: vertex insertion and the vertex grid."""
import itertools
from fractions import Fraction
from lib import *
from common import *
from mesh import *

EXPLAIN = (
    "The grid key functions are reduced to normal forms: the packed key by tracing each of its bits back to a bit of a cell coordinate, "
    "the cell coordinates by constant propagation and by comparing the three axes. Vertex insertion is interpreted on a mesh of numbered "
    "vertices whose grid is known, with the matching vertex in each of the 27 cells in turn."
)
RULES = [
    "every low bit and the sign of each cell coordinate appears unmixed in the packed key",
    "cell coordinate = floor(coordinate / cell size), axis by axis",
    "a coinciding live vertex in the own or any neighbouring cell is returned; otherwise a vertex is appended at the position and entered in the grid",
]
PARALLEL = True
RANGE = 40  # supported cell coordinates: below 2**RANGE in magnitude


class Bits(Exception):
    pass


def bits_of(ip, t, n=128):
    """provenance of the bits of an unsigned value: 0, 1 or (variable, bit)"""
    t = ip.expand(t) if isinstance(t, T) else t
    if t.op == "num":
        x = int(t.args[0]) % (1 << n)
        return [(x >> i) & 1 for i in range(n)]
    if t.op == "sym":
        return [(t, min(i, 63)) for i in range(n)]
    if t.op == "icast":
        return bits_of(ip, t.args[1], n)
    if t.op == "poly":
        out = [0] * n
        for m, k in poly(t).items():
            if m == ():
                b = bits_of(ip, num(k), n)
            else:
                if len(m) != 1 or m[0][1] != 1 or k <= 0 or k.denominator != 1 or int(k) & (int(k) - 1):
                    raise Bits("arithmetic")
                s = int(k).bit_length() - 1
                b = ([0] * s + bits_of(ip, m[0][0], n))[:n]
            out = join(out, b)
        return out
    if t.op == "bit":
        op = t.args[0]
        a = bits_of(ip, t.args[1], n)
        if op == "Shl":
            s = ip.expand(t.args[2])
            if s.op != "num":
                raise Bits("shift")
            return ([0] * int(s.args[0]) + a)[:n]
        b = bits_of(ip, t.args[2], n)
        if op == "BitAnd":
            return [y if x == 1 else x if y == 1 else 0 if 0 in (x, y) else x if x == y else _mix() for x, y in zip(a, b)]
        if op in ("BitOr", "BitXor"):
            return join(a, b, op == "BitOr")
    raise Bits(t.op)


def _mix():
    raise Bits("mixed bits")


def join(a, b, same=False):
    out = []
    for x, y in zip(a, b):
        if x == 0:
            out.append(y)
        elif y == 0:
            out.append(x)
        elif same and x == y:
            out.append(x)
        else:
            out.append("mixed")
    return out


def check(c):
    pk = mesh_fn(c, "pack_key3")
    hk = mesh_fn(c, "position_to_hash_key")
    SC = ("T", "TS", "M")

    def packed():
        ks = [mk("sym", "k%d" % i) for i in range(3)]
        r = c.run(pk, {"T": TP, "N": ("cval", 3)}, args=ks, setup=lambda ip: [ip.typed(k, ("int", "i64")) for k in ks], scalars=SC)
        try:
            b = bits_of(r.ip, r.ret)
        except Bits as e:
            return None, "key not traced to bits: %s" % e
        for i, k in enumerate(ks):
            for j in range(RANGE):
                if (k, j) not in b:
                    return False, "bit %d of cell coordinate %d does not reach the key" % (j, i)
            if not any(x[0] is k and x[1] >= RANGE for x in b if isinstance(x, tuple)):
                return False, "the sign of cell coordinate %d does not reach the key" % i
        return True, "bits traced"

    c.guard("packed keys differ for different cells", pk, packed)

    for N in (2, 3):
        P = Patch(c, N)
        P.concrete = True
        P.vx["o"] = ()
        P.pos["o"] = [mk("sym", "q%d" % i) for i in range(N)]
        m = P.value()
        inv = mk("sym", "inv")

        def axes():
            P.extra["hash_inv"] = inv
            m = P.value()
            q = P.pos["o"]

            def su(ip):
                P.setup(ip)
                for x in q:
                    ip.typed(x, TP)
                ip.typed(inv, F64)

            r = c.run(hk, P.env(), args=[("ref", m), ("ref", P.point("o"))], setup=su, scalars=SC)
            ip = r.ip
            f0 = ip.proj(r.ret, ("f", 0, 0))
            op = opaque_part(f0)
            if op:
                return None, "contains " + op
            for i in range(1, N):
                got = ip.proj(r.ret, ("f", 0, i))
                want = models.tsubst(f0, {q[0]: q[i]})
                if got is not want:
                    return False, "axis %d is not treated like axis 0: %s" % (i, show(got, 4)[:200])
            if N == 2 and ip.expand(ip.proj(r.ret, ("f", 0, 2))).op != "num":
                return False, "third cell coordinate of a plane point varies"
            return True, ""

        c.guard("cell coordinates treat the axes alike N=%d" % N, hk, axes)

        def floors():
            n = 0
            for x in (Fraction(0), Fraction(1, 4), Fraction(999, 1000), Fraction(1), Fraction(3, 2), Fraction(-1, 4), Fraction(-1), Fraction(-3, 2), Fraction(4003, 4), Fraction(-4003, 4), Fraction(2**40 + 1, 2), Fraction(-(2**40) - 1, 2)):
                P.extra["hash_inv"] = num(8)
                m = P.value()
                qv = mk("struct", c.adt_path("Point"), 0, mk("arr", *[num((x + i) / 8) for i in range(N)]))
                r = c.run(hk, P.env(), args=[("ref", m), ("ref", qv)], setup=P.setup, scalars=SC)
                for i in range(N):
                    got = deround(r.ip.expand(r.ip.proj(r.ret, ("f", 0, i))))
                    want = (x + i).__floor__()
                    if got.op != "num":
                        return None, "not folded: %s" % show(got, 4)[:120]
                    if got.args[0] != want:
                        return False, "coordinate %s lies in cell %d, reported %s" % (x + i, want, show(got, 2))
                    n += 1
            return True, "%d values" % n

        c.guard("cell coordinates round down N=%d" % N, hk, floors)

    new = mesh_fn(c, "new")

    def grid():
        r = c.run(new, {"T": c.ty("CgarF64"), "N": ("cval", 3)})
        P = Patch(c, 3)
        ip = r.ip
        at = lambda k: deround(ip.expand(ip.proj(r.ret, ("f", 0, P.mfields.index(k)))))
        inv = at("hash_inv")
        if inv.op != "num":
            return None, "grid scale not folded: %s" % show(inv, 3)[:100]
        if inv.args[0] <= 0:
            return False, "grid scale %s is not positive" % show(inv, 2)
        if 1 / inv.args[0] < Fraction(1, 10**10):
            return False, "grid cells are smaller than the merge tolerance"
        if ip.expand(ip.proj(r.ret, ("f", 0, P.mfields.index("vertex_spatial_hash")))) is not mk("mnew"):
            return False, "a new mesh has a used grid"
        return True, "scale %s" % show(inv, 2)

    c.guard("new meshes have a grid at least as coarse as the tolerance", new, grid)

    # ---------------------------------------------------------------- insertion
    gi, av = mesh_fn(c, "get_or_insert_vertex"), mesh_fn(c, "add_vertex")
    f64 = c.ty("CgarF64")
    cf = c.adt_path("CgarF64")
    real = lambda x: mk("struct", cf, 0, num(x))

    def keyof(cell):
        r = c.run(pk, {"T": f64, "N": ("cval", 3)}, args=[num(x) for x in cell])
        return r.ip.expand(r.ret)

    def place(N, same, i):
        at = [Fraction(1, 4)] * N
        if same is False:
            return [Fraction(100 + 10 * i + j) for j in range(N)]
        if same is not True:  # (axis, distance)
            at[same[0]] += same[1]
        return at

    def world(N, here, content, removed=""):
        """mesh with the vertices of content = {name: (cell, coincides)}; the inserted point lies in cell here"""
        P = Patch(c, N)
        P.concrete = True
        grid = mk("mnew")
        buckets = {}
        for i, (v, (cell, same)) in enumerate(content.items()):
            P.vx[v] = ()
            P.pos[v] = [real(x) for x in place(N, same, i)]
            buckets.setdefault(cell, []).append(i)
            if v in removed:
                P.dead.add(("v", v))
        for cell, b in buckets.items():
            grid = mk("mput", grid, keyof(cell), mk("seq", *[num(i) for i in b]))
        P.extra["vertex_spatial_hash"] = grid
        P.extra["hash_inv"] = num(1)
        q = mk("struct", c.adt_path("Point"), 0, mk("arr", *[real(Fraction(1, 4)) for _ in range(N)]))

        def key(ip, st, args, atys, dty, r):
            return mk("struct", "tuple", 0, *[num(x) for x in here])

        return P, q, {hk.path: key}, buckets

    def appended(ip, P, fin, q, N, n, buckets, here):
        v = View(ip, P, fin)
        if v.len("vertices") is not num(n + 1):
            return "vertex table has length %s for %d" % (show(v.len("vertices"), 2), n + 1)
        pos = v.v(num(n), "position")
        if coords(ip, pos, N) != coords(ip, q, N):
            return "new vertex at another position"
        if bool_of(v.v(num(n), "removed")) != FALSE:
            return "new vertex is marked removed"
        g = v.tab("vertex_spatial_hash")
        for cell in set(list(buckets) + [here]):
            k = keyof(cell)
            want = buckets.get(cell, []) + ([n] if cell == here else [])
            if bool_of(ip.mhas(g, k)) != TRUE:
                return "grid lacks the cell of the new vertex" if cell == here else "grid lost a cell"
            got = ip.expand(ip.mget(g, k))
            if got.op != "seq":
                return None
            if sorted(x.args[0] for x in got.args if x.op == "num") != want:
                return "grid cell holds %s for %s" % ([show(x, 2) for x in got.args], want)
        return ""

    def untouched(ip, P, m0, fin):
        a, b = View(ip, P, m0), View(ip, P, fin)
        return a.tab("vertices") is b.tab("vertices") and a.tab("vertex_spatial_hash") is b.tab("vertex_spatial_hash")

    def insert(N, here, content, want, removed=""):
        """want: name of the vertex to be found, or None for a new one"""
        P, q, ov, buckets = world(N, here, content, removed)
        m = P.value()
        env = {"T": f64, "N": ("cval", N)}
        r = c.run(gi, env, args=[("ref", m), ("ref", q)], setup=P.setup, overrides=ov, limit=120)
        ip = r.ip
        if r.pc != TRUE:
            op = opaque_part(B(r.pc))
            return (None if op else False), "does not return when %s" % (op or showb(bnot(r.pc), 3, 1))
        idx, found = ip.expand(ip.proj(r.ret, ("f", 0, 0))), bool_of(ip.proj(r.ret, ("f", 0, 1)))
        if idx.op != "num" or found not in (TRUE, FALSE):
            op = opaque_part(r.ret)
            return None, "result not decided" + (" (contains %s)" % op if op else "")
        fin = ip.read(r.st, r.roots[0], ())
        if want is not None:
            i = list(content).index(want)
            if idx.args[0] != i or found != TRUE:
                return False, "vertex in reach is not returned: index %s, found %s" % (show(idx, 2), found == TRUE)
            return untouched(ip, P, m, fin), "grid or vertices changed although the vertex was found"
        n = len(content)
        if idx.args[0] != n or found != FALSE:
            return False, "index %s, found %s for a new vertex %d" % (show(idx, 2), found == TRUE, n)
        why = appended(ip, P, fin, q, N, n, buckets, here)
        return (None, "grid cell not known") if why is None else (why == "", why)

    for N, here in ((3, (7, -3, 100)), (3, (0, 0, -1)), (2, (-5, 12, 0))):
        hn = "cell %s N=%d" % (",".join(map(str, here)), N)
        for off in itertools.product((-1, 0, 1), repeat=3):
            if N == 2 and off[2]:
                continue
            cell = tuple(a + b for a, b in zip(here, off))
            at = ",".join("%+d" % x for x in off)

            def found():
                res = insert(N, here, {"o": (cell, False), "w": (cell, True), "x": (here, False)}, "w")
                if res[0] is not True:
                    return res
                return insert(N, here, {"w": (cell, True)}, "w")

            c.guard("coinciding vertex at %s of %s is returned" % (at, hn), gi, found)

        def fresh():
            near = tuple(a + 1 for a in here[:2]) + (here[2],)
            for content in ({}, {"o": (here, False)}, {"o": (here, False), "u": (near, False)}, {"u": (near, False), "x": ((1000, 1000, 0), False)}):
                res = insert(N, here, content, None)
                if res[0] is not True:
                    return res
            return res

        c.guard("new vertex is appended and indexed, %s" % hn, gi, fresh)

        def apart():
            near = (here[0] + 1,) + here[1:]
            for cell in (here, near):
                for axis in range(N):
                    for d in (Fraction(1, 100), Fraction(-1, 100)):
                        res = insert(N, here, {"u": (cell, (axis, d))}, None)
                        if res[0] is not True:
                            return res
            return res

        c.guard("vertices elsewhere are not returned, %s" % hn, gi, apart)

        def close():
            near = here[:1] + (here[1] - 1,) + here[2:]
            for cell in (here, near):
                for axis in range(N):
                    for d in (Fraction(1, 10**12), -Fraction(1, 10**12)):
                        res = insert(N, here, {"w": (cell, (axis, d))}, "w")
                        if res[0] is not True:
                            return res
            return res

        c.guard("vertices within tolerance are returned, %s" % hn, gi, close)

        def gone():
            near = (here[0] - 1,) + here[1:]
            for cell in (here, near):
                res = insert(N, here, {"r": (cell, True)}, None, "r")
                if res[0] is not True:
                    return res
                res = insert(N, here, {"r": (cell, True), "w": (cell, True)}, "w", "r")
                if res[0] is not True:
                    return res
            return res

        c.guard("removed vertices are not returned, %s" % hn, gi, gone)

        def add():
            for content in ({}, {"o": (here, False)}, {"w": (here, True)}):
                P, q, ov, buckets = world(N, here, content)
                m = P.value()
                r = c.run(av, {"T": f64, "N": ("cval", N)}, args=[("ref", m), q], setup=P.setup, overrides=ov)
                if r.pc != TRUE:
                    return False, "does not return"
                if r.ip.expand(r.ret) is not num(len(content)):
                    return False, "returned index %s for %d" % (show(r.ret, 2), len(content))
                why = appended(r.ip, P, r.ip.read(r.st, r.roots[0], ()), q, N, len(content), buckets, here)
                if why is None:
                    return None, "grid cell not known"
                if why:
                    return False, why
            return True, ""

        c.guard("add_vertex appends and indexes, %s" % hn, av, add)
