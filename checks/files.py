"""Written and read files as token lists."""
from lib import *
from common import *
from mesh import *
from collapse import mesh_of, SC
from engine import text as tx


def free_fn(c, name):
    if c.has(name):
        return c.fn(name)
    raise MissingAnchor("no function `%s`" % name)


def written(c, fn, P, pre=TRUE):
    """(result, pieces) of a writer on the mesh of P"""
    m = P.value()
    r = c.run(fn, P.env(P=("str",)), args=[("ref", m), mk("sym", "path")], setup=P.setup, scalars=SC, pre=pre)
    out = []
    for pc, ps in r.ip.sink or []:
        if band(pre, bnot(pc)) != FALSE and pc != FALSE:
            return r, m, None
        if pc != FALSE:
            out += ps
    return r, m, out


def reading(c, fn, lines, pre=TRUE, triangle=None, log=None):
    """a reader on the given lines; triangle: override for face insertion"""
    P = Patch(c, 3)

    def vertex(ip, st, args, atys, dty, r):
        root, path = ip.refs_of(st, args[0])[0][1:]
        path += (("f", 0, P.mfields.index("vertices")),)
        old = ip.read(st, root, path)
        vf = c.F.adts[P.vpath]["variants"][0][1]
        val = dict(position=args[1], half_edge=P.none(), removed=B(FALSE))
        new = mk("struct", P.vpath, 0, *[val.get(f[0], mk("zst", "phantom")) for f in vf])
        if any(l.op != "seq" for l, _ in leaves(old)):
            raise Undecided("vertex table not known")
        if log:
            log(ip, st, args[1])
        ip.write(st, [(TRUE, root, path)], vmap(lambda s: mk("seq", *s.args, new), old))
        return vmap(lambda s: num(len(s.args)), old)

    ov = {mesh_fn(c, "add_vertex").path: vertex}
    if triangle is not None:
        ov[mesh_fn(c, "add_triangle").path] = triangle

    def setup(ip):
        P.setup(ip)
        P.concrete = True
        ip.source = lines
        ip.UNROLL = max(ip.UNROLL, 256)

    r = c.run(fn, {"T": TP, "P": ("str",)}, args=[mk("sym", "path")], setup=setup, scalars=SC, overrides=ov, pre=pre, limit=150)
    return r, P


def line(*words):
    """a line of space-separated words: literals and unknown tokens"""
    ps = []
    for i, w in enumerate(words):
        if i:
            ps.append(mk("str", " "))
        ps.append(mk("str", w) if isinstance(w, str) else w)
    return tx.text(ps)


def readable(lines):
    b = TRUE
    for i in range(len(lines)):
        b = band(b, bvar(("readable", i)))
    return b


MESHES = {
    "no faces": ([], [], ()),
    "one triangle": (["abc"], ["acb"], ()),
    "two triangles": (["abc", "bdc"], ["acdb"], ()),
    "two triangles, first removed": (["abc", "bdc"], ["acdb"], ("f:abc",)),
    "two triangles, second removed": (["abc", "bdc"], ["acdb"], ("f:bdc",)),
    "three triangles, middle removed": (["abc", "bdc", "cde"], ["acedb"], ("f:bdc",)),
    "tetrahedron": (["acb", "abd", "bcd", "cad"], [], ()),
    "tetrahedron, two removed": (["acb", "abd", "bcd", "cad"], [], ("f:acb", "f:bcd")),
    "disc": (*fan(5, True), ()),
    "removed vertex": (["bdc"], ["bcd"], ("v:a",)),
}


def sample(c, label):
    F, R, dead = MESHES[label]
    if label == "no faces":
        P = Patch(c, 3)
        P.concrete = True
        for x in "ab":
            P.vx[x] = []
            P.pos[x] = [mk("sym", "m.p(%s)%d" % (x, i)) for i in range(3)]
            for t in P.pos[x]:
                P.types.append((t, TP))
        return P
    if label == "removed vertex":
        # vertex a comes first in the table and is not used
        P = mesh_of(c, F, R)
        vx, pos = P.vx, P.pos
        P.vx = {"a": []}
        P.vx.update(vx)
        P.pos["a"] = [mk("sym", "m.p(a)%d" % i) for i in range(3)]
        for t in P.pos["a"]:
            P.types.append((t, TP))
    else:
        P = mesh_of(c, F, R)
    for d in dead:
        P.dead.add(tuple(d.split(":")))
    for x in P.vx:
        P.point(x)
    return P


def live(label):
    F, R, dead = MESHES[label]
    return [f for f in F if "f:" + f not in dead]


def rounded(P, x):
    """coordinates of a vertex after printing and reading"""
    return tuple(mk("approx", t) for t in P.pos[x])


def shown(w, ty=None):
    """printed value of a word"""
    if w.op == "shown" and (ty is None or w.args[1] == ty or ty == "int" and w.args[1] not in ("f64", "f32")):
        return w.args[0]
    if w.op == "str":
        return tx.number(w.args[0], "f64" if ty == "f64" else "usize")
    return None


def lit(w):
    return w.args[0] if w.op == "str" else None


def table(P, words):
    """coordinate triple printed by three words"""
    v = tuple(shown(w, "f64") for w in words)
    return None if None in v else v


def cyc(t):
    t = tuple(t)
    return min(t[i:] + t[:i] for i in range(len(t)))


def recreated(r, P, Q, pre, want_tris, want_vertices=True):
    """the read mesh has the given triangles of vertex positions (and, optionally, all vertices in order)"""
    ip = r.ip
    # coordinates are finite numbers
    for a in list(tm.ATOMS):
        if a[0] in ("finite", "infinite", "nan"):
            pre = band(pre, bvar(a) if a[0] == "finite" else bnot(bvar(a)))
    if band(pre, bnot(r.pc)) != FALSE:
        op = opaque_part(B(r.pc))
        return (None if op else False), "reading does not return when %s" % (op or showb(band(pre, bnot(r.pc)), 3, 1)[:120])
    good = ip.isvar(r.ret, 0, "std::result::Result")
    if band(pre, bnot(good)) != FALSE:
        return (None if opaque_part(B(good)) else False), "reading reports an error"
    D = Decoded(ip, Q, ip.proj(r.ret, ("f", 0, 0)), under=pre)
    if D.why:
        return None, D.why
    w = D.wrong()
    if w:
        return False, "the read mesh is broken: " + w
    pos = [D.pos(ip, i, 3) for i in range(len(D.v))]
    if want_vertices:
        exp = [rounded(P, x) for x in P.vx]
        if len(pos) != len(exp):
            return False, "%d vertices read, %d written" % (len(pos), len(exp))
        for i, (g, e) in enumerate(zip(pos, exp)):
            if g != e:
                return (None if opaque_part(g) else False), "vertex %d is read at another position" % i
    got = sorted(cyc(tuple(tuple(y.id for y in pos[i]) for i in t)) for t in D.triangles())
    exp = sorted(cyc(tuple(tuple(y.id for y in rounded(P, x)) for x in f)) for f in want_tris)
    if got != exp:
        return False, "triangles read differ from those written"
    return True, "%d vertices, %d triangles" % (len(pos), len(got))


def printed(c, fn, label):
    """(patch, list of lines as word lists, reason)"""
    P = sample(c, label)
    r, m, out = written(c, fn, P)
    if r.pc != TRUE:
        op = opaque_part(B(r.pc))
        return P, None, ((None if op else False), "writing does not return when %s" % (op or showb(bnot(r.pc), 3, 1)[:120]))
    if out is None or not out:
        return P, None, (None, "output not interpreted")
    good = r.ip.isvar(r.ret, 0, "std::result::Result")
    if good != TRUE:
        return P, None, (None, "outcome not interpreted")
    ls = tx.lines(out)
    if any(w.op not in ("str", "shown") for l in ls for w in tx.words(tx.pieces(l))):
        return P, None, (False, "fields are not separated")
    return P, ls, None
