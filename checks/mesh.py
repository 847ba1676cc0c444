"""Symbolic mesh patches: a few named elements with known links inside an otherwise unknown mesh.

Index names are pairwise different within their space (half-edges, vertices, faces), lie below the
length of their table and are not the sentinel; nothing else is assumed about the rest of the mesh.
"""
from lib import *
from common import *

MAXI = 2**64 - 1
_space = {}  # index symbol -> space
_lens = {}  # length term -> space
_least = {}  # length term -> number of named elements


def _oracle(p):
    """sign of linear expressions over patch indices and table lengths"""
    d = poly(p)
    if len(d) > 3:
        return None
    k = Fraction(0)
    idx, ln = [], []
    for m, c in d.items():
        if m == ():
            k = c
            continue
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            return None
        a = m[0][0]
        if a in _space:
            idx.append((_space[a], c))
        elif a in _lens:
            ln.append((_lens[a], c))
            least = _least.get(a, 0)
        else:
            return None
    if len(idx) == 2 and not ln and k == 0 and idx[0][0] == idx[1][0] and idx[0][1] == -idx[1][1]:
        q = bvar(("P", p))
        return FALSE, q, bnot(q)
    if len(idx) == 1 and len(ln) == 1 and idx[0][0] == ln[0][0] and idx[0][1] == -ln[0][1]:
        # c * (len - idx) + k with len - idx >= 1
        c = ln[0][1]
        if c > 0 and k >= -1 + 1:
            return FALSE, TRUE, FALSE
        if c < 0 and k <= 0:
            return FALSE, FALSE, TRUE
        return None
    if len(idx) + len(ln) == 1:
        c = (idx + ln)[0][1]
        if abs(k) >= 2**62:
            return (FALSE, TRUE, FALSE) if k > 0 else (FALSE, FALSE, TRUE)
        # c * (value >= 0) + k
        if c > 0 and k > 0:
            return FALSE, TRUE, FALSE
        if c < 0 and k < 0:
            return FALSE, FALSE, TRUE
        if ln and c > 0 and k > -least:
            return FALSE, TRUE, FALSE
        if ln and c < 0 and k < least:
            return FALSE, FALSE, TRUE
        if k == 0 and ln:
            return None
    return None


tm.SIGN_ORACLE[0] = _oracle


class Patch:
    """builder of a symbolic mesh value"""

    def __init__(self, c, N, tag="m"):
        self.c = c
        self.N = N
        self.tag = tag
        self.types = []  # (term, type)
        self.he = {}  # name -> dict
        self.fc = {}
        self.vx = {}
        self.keys = []  # (u, v, he) entries known to be in the edge map
        self.gone = []  # (u, v) known not to be in the edge map
        F = c.F
        self.mpath = c.adt_path("Mesh")
        self.mfields = [f[0] for f in F.adts[self.mpath]["variants"][0][1]]
        self.hpath, self.vpath, self.fpath = c.adt_path("HalfEdge"), c.adt_path("Vertex"), c.adt_path("Face")
        self.hf = [f[0] for f in F.adts[self.hpath]["variants"][0][1]]
        self.vf = [f[0] for f in F.adts[self.vpath]["variants"][0][1]]
        self.ff = [f[0] for f in F.adts[self.fpath]["variants"][0][1]]
        for need, have in (("vertices half_edges faces edge_map", self.mfields), ("vertex face next prev twin removed", self.hf), ("half_edge removed", self.ff), ("position half_edge removed", self.vf)):
            for n in need.split():
                if n not in have:
                    raise MissingAnchor("mesh tables have no field `%s`" % n)
        self.pos = {}
        self.closed = False  # whole-table iteration visits exactly the named elements
        self.reps = {}
        self.concrete = False  # the mesh consists of the named elements, numbered in order of their definition
        self.extra = {}  # values of other mesh fields
        self.dead = set()  # removed vertices (v, name) and faces (f, name)

    # ---------------------------------------------------------- names
    def table(self, space):
        return {"he": self.he, "v": self.vx, "f": self.fc}[space]

    def idx(self, space, name):
        if self.concrete:
            return num(list(self.table(space)).index(name))
        t = mk("sym", "%s.%s:%s" % (self.tag, space, name))
        _space[t] = (self.tag, space)
        self.types.append((t, USIZE))
        return t

    def H(self, n):
        return self.idx("he", n)

    def V(self, n):
        return self.idx("v", n)

    def Fc(self, n):
        return self.idx("f", n)

    # ---------------------------------------------------------- content
    def half(self, name, head, nxt=None, prev=None, twin=None, face=None, removed=False):
        """face: face name, None (border)"""
        self.he[name] = dict(head=head, next=nxt, prev=prev, twin=twin, face=face, removed=removed)

    def tri(self, f, es, vs, twins=None):
        """face f = vs in order, es[i] runs vs[i] -> vs[i+1]; representative es[0]"""
        for i in range(3):
            self.half(es[i], vs[(i + 1) % 3], es[(i + 1) % 3], es[(i + 2) % 3], twins[i] if twins else None, f)
            self.keys.append((vs[i], vs[(i + 1) % 3], es[i]))
            self.vx.setdefault(vs[i], None)
        self.fc[f] = es[0]

    def twin(self, a, b):
        self.he[a]["twin"] = b
        if b in self.he:
            self.he[b]["twin"] = a

    def outside(self, name, head, twin, face="?", removed=False):
        """half-edge of the surrounding mesh with known head and twin, unknown other links"""
        self.he[name] = dict(head=head, next=None, prev=None, twin=twin, face=face, removed=removed)

    def link(self, a, b):
        self.he[a]["next"] = b
        self.he[b]["prev"] = a

    def spoke(self, v, *hes):
        """the recorded half-edge of vertex v is one of hes (names) or, for None, some other live one"""
        self.vx[v] = hes

    # ---------------------------------------------------------- values
    def _sym(self, name, ty):
        t = mk("sym", "%s.%s" % (self.tag, name))
        self.types.append((t, ty))
        return t

    def point(self, v):
        if v not in self.pos:
            cs = [self._sym("p(%s)%d" % (v, j), TP) for j in range(self.N)]
            self.pos[v] = cs
        return mk("struct", self.c.adt_path("Point"), 0, mk("arr", *self.pos[v]))

    def option(self, x):
        return models.some(x)

    def none(self):
        return mk("struct", "std::option::Option", 0)

    def he_value(self, n):
        d = self.he[n]

        def link(k):
            return self.H(d[k]) if d[k] is not None else self._sym("%s(%s)" % (k, n), USIZE)

        f = d["face"]
        if f is None:
            face = self.none()
        elif f == "?":
            face = self._sym("face(%s)" % n, self.hty("face"))
        elif isinstance(f, int):
            face = self.option(num(f))
        else:
            face = self.option(self.Fc(f))
        vals = dict(vertex=self.V(d["head"]), face=face, next=link("next"), prev=link("prev"), twin=link("twin"), removed=B(TRUE if d["removed"] else FALSE))
        return mk("struct", self.hpath, 0, *[vals[k] if k in vals else self._sym("%s(%s)" % (k, n), self.hty(k)) for k in self.hf])

    def hty(self, k):
        return dict((a, b) for a, b, *_ in self.c.F.adts[self.hpath]["variants"][0][1])[k]

    def vert_value(self, v):
        s = self.vx[v]
        if s is None:
            h = self.option(self.H("spoke(%s)" % v))
        elif len(s) == 0:
            h = self.none()
        else:
            h = None
            for i, n in enumerate(s):
                x = self.option(self.H(n if n is not None else "spoke(%s)" % v))
                h = x if h is None else vite(bvar(("case", self.tag, v, i)), x, h)
        vals = dict(position=self.point(v), half_edge=h, removed=B(TRUE if ("v", v) in self.dead else FALSE))
        fields = self.c.F.adts[self.vpath]["variants"][0][1]
        return mk("struct", self.vpath, 0, *[vals[f[0]] if f[0] in vals else mk("zst", "phantom") for f in fields])

    def face_value(self, f):
        vals = dict(half_edge=self.H(self.fc[f]), removed=B(TRUE if ("f", f) in self.dead else FALSE))
        return mk("struct", self.fpath, 0, *[vals[k] for k in self.ff])

    def value(self):
        F = self.c.F
        fields = F.adts[self.mpath]["variants"][0][1]
        env = dict(zip(F.adts[self.mpath]["generics"], (TP, ("cval", self.N))))
        out = []
        for fl in fields:
            n, ty = fl[0], subst(fl[1], env)
            base = self._sym(n, ty)
            if n in self.extra:
                base = self.extra[n]
                self.types.append((base, ty))
            elif n in ("vertices", "half_edges", "faces"):
                sp = {"vertices": "v", "half_edges": "he", "faces": "f"}[n]
                if self.concrete:
                    val = mk("seq", *[{"v": self.vert_value, "he": self.he_value, "f": self.face_value}[sp](k) for k in self.table(sp)])
                    self.types.append((val, ty))
                    out.append(val)
                    continue
                ln = mk("len", base)
                _lens[ln] = (self.tag, sp)
                self.types.append((ln, USIZE))
                names = self.table(sp)
                _least[ln] = len(names)
                if self.closed:
                    self.reps[ln] = [self.idx(sp, k) for k in names]
                mkv = {"v": self.vert_value, "he": self.he_value, "f": self.face_value}[sp]
                for k in names:
                    i = self.idx(sp, k)
                    nb = mk("store", base, i, mkv(k))
                    self.types.append((nb, ty))
                    base = nb
            elif n == "edge_map":
                if self.closed or self.concrete:
                    base = mk("mnew")
                for u, v in self.gone:
                    nb = mk("mdel", base, models.tup2(self.V(u), self.V(v)))
                    self.types.append((nb, ty))
                    base = nb
                for u, v, h in self.keys:
                    nb = mk("mput", base, models.tup2(self.V(u), self.V(v)), self.H(h))
                    self.types.append((nb, ty))
                    base = nb
            out.append(base)
        return mk("struct", self.mpath, 0, *out)

    def setup(self, ip):
        for t, ty in self.types:
            if ty is not None:
                ip.typed(t, ip.norm(ty))
        ip.reps.update(self.reps)
        if self.closed or self.concrete:
            ip.UNROLL = max(ip.UNROLL, 64, 4 * len(self.he))

    def env(self, **kw):
        e = {"T": TP, "N": ("cval", self.N)}
        e.update(kw)
        return e


class View:
    """reads of a (final) mesh value"""

    def __init__(self, ip, patch, m):
        self.ip, self.p, self.m = ip, patch, m

    def tab(self, n):
        return self.ip.proj(self.m, ("f", 0, self.p.mfields.index(n)))

    def h(self, i, k):
        return self.ip.proj(self.ip.select(self.tab("half_edges"), i), ("f", 0, self.p.hf.index(k)))

    def v(self, i, k):
        return self.ip.proj(self.ip.select(self.tab("vertices"), i), ("f", 0, self.p.vf.index(k)))

    def f(self, i, k):
        return self.ip.proj(self.ip.select(self.tab("faces"), i), ("f", 0, self.p.ff.index(k)))

    def len(self, n):
        return self.ip.seqlen(self.tab(n))

    def has(self, u, v):
        return bool_of(self.ip.mhas(self.tab("edge_map"), models.tup2(u, v)))

    def get(self, u, v):
        return self.ip.mget(self.tab("edge_map"), models.tup2(u, v))


def mesh_fn(c, name, N=None):
    """inherent method of Mesh"""
    for k in ("Mesh<_, _>::" + name, "Mesh<_, %s>::%s" % (N, name), "Mesh<_, 3>::" + name, "Mesh<_, 2>::" + name):
        if c.has(k):
            return c.fn(k)
    raise MissingAnchor("no mesh operation `%s`" % name)


def exclusive():
    """an unknown index equals at most one of the differently named ones"""
    groups = {}
    for a in list(tm.ATOMS):
        if a[0] != "Z":
            continue
        d = poly(a[1])
        if len(d) != 2 or any(len(m) != 1 or m[0][1] != 1 for m in d) or sum(d.values()) != 0:
            continue
        x, y = [m[0][0] for m in d]
        for p, q in ((x, y), (y, x)):
            if p in _space and q not in _space:
                groups.setdefault((q, _space[p]), []).append(bvar(a))
    out = []
    for g in groups.values():
        none, one = TRUE, FALSE  # none so far / exactly one so far
        for b in sorted(g, reverse=True):
            none, one = band(none, bnot(b)), bor(band(one, bnot(b)), band(none, b))
        out.append(bor(none, one))
    return out


def search_axioms(ip, patch):
    """facts about index searches: a patch element that meets the condition makes the search succeed, and a successful search returns an index that meets it"""
    out = []
    for a in list(tm.ATOMS):
        if a[0] != "exists":
            continue
        d, lo, hi, f = a[1:]
        if lo is not ZERO:
            continue
        x = bvar(a)
        bv = mk("bv", d)
        sp = [_lens[l] for l in _lens if ip.cmp("Lt", hi, l) == FALSE]
        first = mk("first", d, lo, hi, f)
        if not mentions_term(f, bv):
            continue
        for tag, space in sp[:1]:
            if tag != patch.tag:
                continue
            for n in {"he": patch.he, "v": patch.vx, "f": patch.fc}[space]:
                out.append(imp(bool_of(models.tsubst(f, {bv: patch.idx(space, n)})), x))
        out.append(imp(x, bool_of(models.tsubst(f, {bv: first}))))
        out.append(imp(x, ip.cmp("Lt", first, hi)))
    return out


def mentions_op(t, op):
    return models.mentions(t, lambda y: isinstance(y, T) and y.op == op)


def mentions_term(t, x):
    return models.mentions(t, lambda y: y is x)


# -------------------------------------------------------------------- structural rules on a final mesh
class Rules:
    """collects broken structural facts of a final mesh under a condition"""

    def __init__(self, c, r, patch, init, root=0, pc=None):
        self.c, self.r, self.ip, self.p = c, r, r.ip, patch
        self.fin = View(r.ip, patch, r.ip.read(r.st, r.roots[root], ()))
        self.ini = View(r.ip, patch, init)
        self.pc = r.pc if pc is None else pc
        self.ax = None
        self.bad = None
        self.und = None
        self.n = 0

    def fail(self, msg, bdd):
        if self.bad is None:
            self.bad = msg + (" when " + showb(bdd, 3, 1) if bdd not in (TRUE,) else "")

    def refine(self, b):
        """conjoin the facts about searches and unknown indices that concern condition b"""
        if b == FALSE or not any(tm.ATOMS[v][0] == "exists" or tm.ATOMS[v][0] == "Z" and mentions_op(tm.ATOMS[v][1], "first") for v in bsupport(b)):
            return b
        if self.ax is None:
            self.ax = [(set(bsupport(x)), x) for x in search_axioms(self.ip, self.p) if x != TRUE]
            self.ax += [(set(bsupport(x)), x) for x in exclusive()]
        for _ in range(2):
            for sup, x in self.ax:
                if b != FALSE and sup & set(bsupport(b)):
                    b = band(b, x)
        return b

    def true(self, cond, msg):
        self.n += 1
        b = self.refine(band(self.pc, bnot(cond)))
        if b != FALSE:
            # a condition the analysis could not interpret decides nothing
            for v in bsupport(cond):
                if opaque_part(mk("bool", bnode(v, FALSE, TRUE))):
                    self.und = self.und or msg + ": depends on an uninterpreted condition"
                    return
            self.fail(msg, b)

    def eq(self, a, b, msg):
        self.n += 1
        if a is b:
            return
        ok, d = self.c.same(self.ip, a, b, self.pc)
        if ok is False:
            self.bad = self.bad or "%s%s" % (msg, d)
        elif ok is None:
            self.und = self.und or "%s: %s" % (msg, d)

    def some(self, v, msg):
        """payload of an option that must be present"""
        self.true(self.ip.isvar(v, 1, "std::option::Option"), msg + " is missing")
        return self.ip.proj(v, ("f", 1, 0))

    def result(self):
        if self.bad:
            return False, self.bad
        if self.und:
            return None, self.und
        return True, "%d facts" % self.n

    # ---------------------------------------------------------- triangles and their surroundings
    def triangle(self, f, vs, label):
        """face f is the oriented triangle vs (vertex terms); every link is followed through the public tables"""
        V, ip = self.fin, self.ip
        hs = []
        for i in range(3):
            u, v = vs[i], vs[(i + 1) % 3]
            nm = "%s edge %d" % (label, i)
            self.true(V.has(u, v), nm + " is not in the edge lookup")
            hs.append(V.get(u, v))
        for i in range(3):
            u, v = vs[i], vs[(i + 1) % 3]
            h = hs[i]
            nm = "%s edge %d " % (label, i)
            self.eq(V.h(h, "vertex"), v, nm + "head")
            self.true(bnot(bool_of(V.h(h, "removed"))), nm + "is retired")
            self.eq(V.h(h, "next"), hs[(i + 1) % 3], nm + "next")
            self.eq(V.h(h, "prev"), hs[(i + 2) % 3], nm + "prev")
            self.eq(self.some(V.h(h, "face"), nm + "face"), f, nm + "face")
            t = V.h(h, "twin")
            self.eq(V.h(t, "twin"), h, nm + "twin of twin")
            self.eq(V.h(t, "vertex"), u, nm + "head of twin")
            self.true(bnot(bool_of(V.h(t, "removed"))), nm + "twin is retired")
            self.true(V.has(v, u), nm + "opposite direction is not in the edge lookup")
            self.eq(V.get(v, u), t, nm + "lookup of the opposite direction")
        self.true(bnot(bool_of(V.f(f, "removed"))), label + " is retired")
        rep = V.f(f, "half_edge")
        self.true(bor(*[ip.eq(rep, h) for h in hs]), label + " representative half-edge is not one of its own")
        return hs

    def border(self, u, v, label):
        """u -> v is a live face-less half-edge with mutual twin; next/prev mutually inverse"""
        V = self.fin
        self.true(V.has(u, v), label + " is not in the edge lookup")
        h = V.get(u, v)
        self.eq(V.h(h, "vertex"), v, label + " head")
        self.true(bnot(bool_of(V.h(h, "removed"))), label + " is retired")
        self.true(self.ip.isvar(V.h(h, "face"), 0, "std::option::Option"), label + " has a face")
        self.eq(V.h(V.h(h, "twin"), "twin"), h, label + " twin of twin")
        return h

    def loop(self, hs, label):
        V = self.fin
        for i, h in enumerate(hs):
            n = hs[(i + 1) % len(hs)]
            self.eq(V.h(h, "next"), n, "%s next of %d" % (label, i))
            self.eq(V.h(n, "prev"), h, "%s prev of %d" % (label, (i + 1) % len(hs)))

    def retired_face(self, f, label):
        self.true(bool_of(self.fin.f(f, "removed")), label + " is still live")

    def retired_half(self, h, label):
        self.true(bool_of(self.fin.h(h, "removed")), label + " is still live")

    def absent(self, u, v, label):
        self.true(bnot(self.fin.has(u, v)), label + " is still in the edge lookup")

    def spoke(self, v, label):
        """the vertex's recorded half-edge is live and leaves it"""
        V = self.fin
        o = V.v(v, "half_edge")
        pc0 = self.pc
        for leaf, cnd in leaves(self.some(o, label + " recorded half-edge"), pc0):
            cnd = self.refine(cnd)
            if cnd == FALSE or leaf is UNDEF:
                continue
            self.pc = cnd
            if leaf in _space and self.ini.tab("half_edges") is not None and not any(leaf is self.p.H(n) for n in self.p.he):
                self.same_half(leaf, label + " recorded half-edge")
                continue
            self.true(bnot(bool_of(V.h(leaf, "removed"))), label + " recorded half-edge is retired")
            if mentions_op(leaf, "first"):
                # found by a search: its tail is known through the previous half-edge or through the twin
                self.true(bor(self.ip.eq(V.h(V.h(leaf, "twin"), "vertex"), v), self.ip.eq(V.h(V.h(leaf, "prev"), "vertex"), v)), label + " recorded half-edge does not leave it")
                continue
            self.eq(V.h(V.h(leaf, "twin"), "vertex"), v, label + " recorded half-edge does not leave it")
        self.pc = pc0

    # ---------------------------------------------------------- frame
    def same_half(self, h, label, skip=()):
        for k in self.p.hf:
            if k not in skip:
                self.eq(self.fin.h(h, k), self.ini.h(h, k), "%s %s" % (label, k))

    def frame(self, hes=True, faces=True, verts=True, keys=True):
        p = self.p
        if hes:
            self.same_half(p.H("anywhere else"), "a half-edge outside the edit:")
        if faces:
            x = p.Fc("anywhere else")
            for k in p.ff:
                self.eq(self.fin.f(x, k), self.ini.f(x, k), "a face outside the edit: " + k)
        if verts:
            x = p.V("anywhere else")
            for k in ("position", "half_edge", "removed"):
                self.eq(self.fin.v(x, k), self.ini.v(x, k), "a vertex outside the edit: " + k)
        if keys:
            u, v = p.V("anywhere else"), p.V("another one")
            a = band(self.fin.has(u, v))
            self.true(iff(a, self.ini.has(u, v)), "an edge lookup outside the edit changed")
            self.eq(self.fin.get(u, v), self.ini.get(u, v), "an edge lookup outside the edit")

    def unchanged(self, label="refused edit"):
        """no table differs from its initial value"""
        for i, n in enumerate(self.p.mfields):
            a, b = self.fin.tab(n), self.ini.tab(n)
            if a is b:
                self.n += 1
                continue
            a = vrestrict(a, self.pc) if self.pc != FALSE else b
            if a is b or self.pc == FALSE:
                self.n += 1
                continue
            hit = False
            for leaf, cnd in leaves(a, self.pc):
                if cnd != FALSE and leaf is not b:
                    d = self.tabdiff(n, leaf, b, cnd)
                    if d is None:
                        self.und = self.und or "%s: %s written, values not compared" % (label, n)
                    else:
                        self.bad = self.bad or "%s modifies %s%s" % (label, n, d)
                    hit = True
                    break

    def tabdiff(self, n, a, b, cnd):
        """a difference between two tables, '' if only lengths were comparable, None if unknown"""
        if n in ("vertices", "half_edges", "faces"):
            la, lb = self.ip.seqlen(a), self.ip.seqlen(b)
            if not req(la, lb):
                return " (length)"
            op = opaque_part(a)
            if op:
                return None
            sp = {"vertices": "v", "half_edges": "he", "faces": "f"}[n]
            for k in list({"v": self.p.vx, "he": self.p.he, "f": self.p.fc}[sp]) + ["anywhere else"]:
                i = self.p.idx(sp, k)
                d = self.c.diff(self.ip, self.ip.select(a, i), self.ip.select(b, i), cnd)
                if d:
                    return " entry %s: %s" % (k, d)
            return ""
        return None if opaque_part(a) else " when " + showb(cnd, 3, 1)


def insertion(c, P, log=None):
    """overrides for the vertex insertion, face box and box tree services used by the split operations (each has its own property)"""
    fresh = bvar(("case", P.tag, "point is new"))

    def goi(ip, st, args, atys, dty, r):
        me, pos = args
        i = P.mfields.index("vertices")
        vs = ip.refs_of(st, me)
        root, path = vs[0][1], vs[0][2] + (("f", 0, i),)
        old = ip.read(st, root, path)
        w = ip.seqlen(old)
        vf = c.F.adts[P.vpath]["variants"][0][1]
        val = dict(position=ip.deref_all(st, pos), half_edge=P.none(), removed=B(FALSE))
        new = vmap(lambda s: ip.typed(mk("push", s, mk("struct", P.vpath, 0, *[val.get(f[0], mk("zst", "phantom")) for f in vf])), ip.tyof.get(s)), old)
        ip.write(st, [(TRUE, root, path)], vite(fresh, new, old))
        idx = vite(fresh, w, P.V("reused"))
        return mk("struct", "tuple", 0, idx, B(bnot(fresh)))

    def addv(ip, st, args, atys, dty, r):
        me, pos = args
        i = P.mfields.index("vertices")
        vs = ip.refs_of(st, me)
        root, path = vs[0][1], vs[0][2] + (("f", 0, i),)
        old = ip.read(st, root, path)
        w = ip.seqlen(old)
        vf = c.F.adts[P.vpath]["variants"][0][1]
        val = dict(position=pos, half_edge=P.none(), removed=B(FALSE))
        new = vmap(lambda s: ip.typed(mk("push", s, mk("struct", P.vpath, 0, *[val.get(f[0], mk("zst", "phantom")) for f in vf])), ip.tyof.get(s)), old)
        ip.write(st, [(TRUE, root, path)], new)
        return w

    def box(ip, st, args, atys, dty, r):
        return vmap(lambda x: ip.typed(mk("boxof", x), dty), args[1])

    def ins(ip, st, args, atys, dty, r):
        if log is not None:
            log.append((st.pc, "insert", args[1], args[2]))
        return mk("struct", "tuple", 0)

    def inv(ip, st, args, atys, dty, r):
        if log is not None:
            log.append((st.pc, "invalidate", ip.deref_all(st, args[1])))
        return mk("struct", "tuple", 0)

    ov = {}
    for name, f in (("get_or_insert_vertex", goi), ("add_vertex", addv), ("face_aabb", box)):
        ov[mesh_fn(c, name).path] = f
    for k, f in c.find(r"^AabbTree<.*>::(insert|invalidate)$"):
        ov[f.path] = ins if f.name == "insert" else inv
    return ov, fresh


def tree_events(R, log, upd, old, new):
    """box tree kept in step: exactly the old faces invalidated, exactly the new ones inserted, when asked to"""
    ip = R.ip
    for f, label in old:
        hit = FALSE
        for e in log:
            if e[1] == "invalidate":
                hit = bor(hit, band(e[0], ip.eq(e[2], f)))
        R.true(iff(hit, upd), "%s is not dropped from the box tree" % label)
    for f, label in new:
        hit = FALSE
        for e in log:
            if e[1] == "insert":
                same = ip.eq(e[3], f)
                hit = bor(hit, band(e[0], same))
                R.true(bor(bnot(e[0]), bnot(same), ip.eq(e[2], vmap(lambda x: mk("boxof", x), f))), "%s enters the box tree with another face's box" % label)
        R.true(iff(hit, upd), "%s is not entered in the box tree" % label)
    for e in log:
        allowed = FALSE
        for f, label in (old if e[1] == "invalidate" else new):
            allowed = bor(allowed, ip.eq(e[2] if e[1] == "invalidate" else e[3], f))
        R.true(imp(e[0], allowed), "another face is %s in the box tree" % ("dropped" if e[1] == "invalidate" else "entered"))


# -------------------------------------------------------------------- patches given by their triangles
def arcs(ring):
    """directed edges of a vertex cycle"""
    n = len(ring)
    return [ring[i] + ring[(i + 1) % n] for i in range(n)]


def surface(c, N, faces, rings, closed=False, tag="m"):
    """patch with the given triangles (vertex strings) and border loops; half-edges are named tail+head, faces by their string"""
    P = Patch(c, N, tag)
    P.closed = closed
    for vs in faces:
        P.tri(vs, arcs(vs), tuple(vs))
    for ring in rings:
        hs = arcs(ring)
        for i, h in enumerate(hs):
            P.half(h, h[1], hs[(i + 1) % len(hs)], hs[i - 1], None, None)
            P.keys.append((h[0], h[1], h))
            P.vx.setdefault(h[0], None)
    for h in P.he:
        P.he[h]["twin"] = h[1] + h[0]
    for v in sorted({h[0] for h in P.he}):
        P.vx[v] = tuple(h for h in P.he if h[0] == v)
    return P


RIM = "abcdefghijklmnopqrstu"


def fan(k, closed):
    """(triangles, border loops) around vertex v with k neighbours a, b, ... in counter-clockwise order"""
    rim = RIM[:k]
    if closed:
        return ["v" + rim[i] + rim[(i + 1) % k] for i in range(k)], [rim[0] + rim[:0:-1]]
    return ["v" + rim[i] + rim[i + 1] for i in range(k - 1)], [rim[0] + "v" + rim[:0:-1]]


def names_of(ip, P, seq, space):
    """names of the elements of a concrete sequence of patch indices; None if not concrete"""
    e = ip.expand(seq)
    if e.op not in ("seq", "arr"):
        return None
    table = {P.idx(space, n): n for n in P.table(space)}
    out = []
    for x in e.args:
        out.append(table.get(x))
    return out


def rotations(xs):
    xs = list(xs)
    return [xs[i:] + xs[:i] for i in range(len(xs))]


# -------------------------------------------------------------------- meshes of numbered elements
class Decoded:
    """final mesh whose tables and links are all known numbers"""

    def __init__(self, ip, P, m, under=TRUE):
        """under: condition assumed of every table entry"""
        self.why = None
        v = View(ip, P, m)

        def settled(t):
            if under == TRUE or t.op != "ite":
                return t
            r = UNDEF
            for x, b in leaves(t, under):
                r = x if r is UNDEF else vite(b, x, r)
            return r

        def seq(t, what):
            e = ip.expand(settled(t))
            if e.op not in ("seq", "arr"):
                self.why = self.why or "%s is not a known list%s" % (what, " (contains %s)" % opaque_part(t) if opaque_part(t) else "")
                return []
            return list(e.args)

        def number(t, what):
            t = ip.expand(settled(t))
            if t.op != "num":
                self.why = self.why or "%s is not known" % what
                return None
            return int(t.args[0])

        def flag(t, what):
            b = bool_of(t)
            if band(under, b) == FALSE:
                b = FALSE
            if band(under, bnot(b)) == FALSE:
                b = TRUE
            if b not in (TRUE, FALSE):
                self.why = self.why or "%s is not known" % what
            return b == TRUE

        def maybe(t, what):
            t = settled(t)
            s = ip.isvar(t, 1, "std::option::Option")
            if s == FALSE:
                return None
            if s != TRUE:
                self.why = self.why or "%s is not known" % what
                return None
            return number(models.payload(ip, t), what)

        f = lambda x, names, k: settled(ip.proj(settled(x), ("f", 0, names.index(k))))
        self.v, self.h, self.f = [], [], []
        for i, x in enumerate(seq(v.tab("vertices"), "vertex table")):
            self.v.append(dict(pos=f(x, P.vf, "position"), half_edge=maybe(f(x, P.vf, "half_edge"), "half-edge of vertex %d" % i), removed=flag(f(x, P.vf, "removed"), "removed flag of vertex %d" % i)))
        for i, x in enumerate(seq(v.tab("half_edges"), "half-edge table")):
            d = {k: number(f(x, P.hf, k), "%s of half-edge %d" % (k, i)) for k in ("vertex", "next", "prev", "twin")}
            d["face"] = maybe(f(x, P.hf, "face"), "face of half-edge %d" % i)
            d["removed"] = flag(f(x, P.hf, "removed"), "removed flag of half-edge %d" % i)
            self.h.append(d)
        for i, x in enumerate(seq(v.tab("faces"), "face table")):
            self.f.append(dict(half_edge=number(f(x, P.ff, "half_edge"), "half-edge of face %d" % i), removed=flag(f(x, P.ff, "removed"), "removed flag of face %d" % i)))
        em = settled(v.tab("edge_map"))
        self.edges = {}
        ks = models.map_keys(ip, em)
        for k in seq(ks, "edge lookup") if ks is not None else []:
            a, b = (number(ip.proj(k, ("f", 0, i)), "edge lookup key") for i in (0, 1))
            self.edges[a, b] = number(ip.mget(em, k), "edge lookup entry")
        if ks is None:
            self.why = self.why or "edge lookup is not known"

    def pos(self, ip, i, N):
        return tuple(coords(ip, self.v[i]["pos"], N)) if 0 <= i < len(self.v) else None

    def wrong(self):
        """first broken structural rule among live elements, or None"""
        nh, nv, nf = len(self.h), len(self.v), len(self.f)
        live = [i for i, d in enumerate(self.h) if not d["removed"]]
        for i in live:
            d = self.h[i]
            for k in ("next", "prev", "twin"):
                if not 0 <= d[k] < nh:
                    return "%s of half-edge %d out of range" % (k, i)
                if self.h[d[k]]["removed"]:
                    return "%s of half-edge %d is removed" % (k, i)
            if self.h[d["next"]]["prev"] != i or self.h[d["prev"]]["next"] != i:
                return "next and prev of half-edge %d are not inverse" % i
            if self.h[d["twin"]]["twin"] != i or d["twin"] == i:
                return "twin of half-edge %d is not mutual" % i
            if not 0 <= d["vertex"] < nv:
                return "head of half-edge %d out of range" % i
            if self.v[d["vertex"]]["removed"]:
                return "head of half-edge %d is removed" % i
            if self.h[self.h[d["twin"]]["prev"]]["vertex"] != d["vertex"]:
                return "twin of half-edge %d does not start at its head" % i
            if d["face"] is not None:
                if not 0 <= d["face"] < nf:
                    return "face of half-edge %d out of range" % i
                if self.f[d["face"]]["removed"]:
                    return "face of half-edge %d is removed" % i
                if self.h[d["next"]]["face"] != d["face"]:
                    return "face loop at half-edge %d changes face" % i
        for i, d in enumerate(self.f):
            if d["removed"]:
                continue
            if not 0 <= d["half_edge"] < nh or self.h[d["half_edge"]]["removed"]:
                return "half-edge of face %d is not live" % i
            if self.h[d["half_edge"]]["face"] != i:
                return "half-edge of face %d belongs to another face" % i
        for i, d in enumerate(self.v):
            if d["removed"] or d["half_edge"] is None:
                continue
            h = d["half_edge"]
            if not 0 <= h < nh or self.h[h]["removed"]:
                return "half-edge of vertex %d is not live" % i
            if self.h[self.h[h]["prev"]]["vertex"] != i:
                return "half-edge of vertex %d starts elsewhere" % i
        for i in live:
            u, w = self.h[self.h[i]["prev"]]["vertex"], self.h[i]["vertex"]
            if self.v[u]["half_edge"] is None:
                return "vertex %d has edges but records none" % u
            if self.edges.get((u, w)) is None:
                return "edge lookup lacks (%d,%d)" % (u, w)
        for (u, w), h in self.edges.items():
            if not 0 <= h < nh or self.h[h]["removed"]:
                return "edge lookup (%d,%d) leads to a removed half-edge" % (u, w)
            if self.h[h]["vertex"] != w or self.h[self.h[h]["prev"]]["vertex"] != u:
                return "edge lookup (%d,%d) leads to half-edge %d running elsewhere" % (u, w, h)
        return None

    def triangles(self):
        """corner indices of the live faces, starting anywhere"""
        out = []
        for i, d in enumerate(self.f):
            if d["removed"]:
                continue
            h, vs = d["half_edge"], []
            for _ in range(4):
                vs.append(self.h[h]["vertex"])
                h = self.h[h]["next"]
                if h == d["half_edge"]:
                    break
            out.append(tuple(vs))
        return out


def cyclic(t):
    """canonical rotation"""
    t = tuple(t)
    return min(t[i:] + t[:i] for i in range(len(t)))
