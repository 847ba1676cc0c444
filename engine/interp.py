"""Value-flow analysis over MIR: a forward dataflow analysis whose domain is hash-consed value terms.

Control-flow joins merge states with decision diagrams over the branch predicates (gated single
assignment), calls to crate functions are analysed in context, loops with a fixed trip count are
peeled, other loops are summarised by loop-carried symbols.  No path enumeration, no solver.
"""
from .terms import *
from . import terms as tm
from .facts import subst, unify, strip_ref
from . import text
from fractions import Fraction
import ast
import struct as _struct

INT = "int"


class Undecided(Exception):
    pass


class NotConcrete(Exception):
    """a trial unrolling met an iteration whose continuation is not decided"""


class State:
    __slots__ = ("mem", "pc")

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def copy(self):
        return State(dict(self.mem), self.pc)


class Loop:
    __slots__ = ("header", "blocks", "children", "parent")


class LoopSummary:
    """what one iteration of a summarised loop does"""

    __slots__ = ("fn", "key", "init", "mu", "next", "back_pc", "exits", "entry_pc", "line", "pre", "depth", "driver", "firsts", "post")


class Frame:
    __slots__ = ("fn", "env", "fid", "blocks", "locals", "caller", "line", "ltc")


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


def cfg_info(key_obj, blocks):
    """rpo, loop forest for a body (list of block dicts)"""
    c = key_obj.cache.get(id(blocks)) if key_obj is not None else None
    if c:
        return c
    n = len(blocks)
    succ = [succs(b["t"]) for b in blocks]
    # unreachable-only targets are kept; they vanish by pc
    order = []
    seen = [False] * n
    stack = [(0, iter(succ[0]))]
    seen[0] = True
    onst = {0}
    back = []
    while stack:
        b, it = stack[-1]
        for s in it:
            if not seen[s]:
                seen[s] = True
                onst.add(s)
                stack.append((s, iter(succ[s])))
                break
            elif s in onst:
                back.append((b, s))
        else:
            stack.pop()
            onst.discard(b)
            order.append(b)
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    pred = [[] for _ in range(n)]
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    loops = {}
    for b, h in back:
        body = loops.setdefault(h, {h})
        st = [b]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(pred[x])
    # nesting: innermost loop for each block
    lst = sorted(loops.items(), key=lambda kv: -len(kv[1]))
    inner = {}
    for h, body in lst:
        for b in body:
            inner[b] = h
    parent = {}
    for h, body in lst:
        cand = [(len(b2), h2) for h2, b2 in loops.items() if h2 != h and h in b2]
        parent[h] = min(cand)[1] if cand else None
    info = (succ, rpo, pos, loops, inner, parent)
    if key_obj is not None:
        key_obj.cache[id(blocks)] = info
    return info


class Interp:
    MAXDEPTH = 40
    RECUR = 2
    premem = {}
    sink = None  # text written to files
    source = None  # lines of the file being read
    FLOATATOM = False  # floating-point arithmetic kept as opaque values
    UNROLL = 24

    def __init__(self, facts, scalars=("T",), opaque=(), overrides=None, abs_opaque=False, maxatoms=4000):
        self.F = facts
        self.scalars = set(scalars)
        self.opaque = set(opaque)
        self.overrides = overrides or {}
        self.abs_opaque = abs_opaque
        self.tyof = {}
        self.nfid = 0
        self.nheap = 0
        self.panics = []
        self.events = []
        self.loops = []
        self.unknown = []
        self.stack = []
        self.watch = {}
        self.fns_seen = set()
        self.callsites = 0
        self.loopdepth = 0
        self.fresh_n = 0
        self.reps = {}  # length of a table -> the elements that represent it in whole-table iteration
        self.record = True
        self.maxatoms = maxatoms
        from . import models

        self.models = models

    # ------------------------------------------------------------ types
    def norm(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "alias":
            args = tuple(self.norm(a) for a in t[2])
            path = t[1]
            s = strip_ref(args[0]) if args else None
            if isinstance(s, tuple) and s and s[0] == "param" and s[1] in self.scalars:
                return s
            trait, _, name = path.rpartition("::")
            im, e = self.find_impl(trait, args)
            if im and name in im["types"]:
                return self.norm(subst(im["types"][name], e))
            if s and s[0] in ("int", "float"):
                return s
            return ("alias", path, args)
        if t[0] in ("param", "cparam", "cval", "int", "float", "bool"):
            return t
        return tuple(self.norm(x) for x in t)

    def find_impl(self, trait, args):
        for im in self.F.trait_impls.get(trait, ()):
            e = {}
            pats = im["trait"]["args"]
            if len(pats) <= len(args) and all(unify(p, a, e, im["generics"]) for p, a in zip(pats, args)):
                # a blanket impl over a bare parameter must not capture the abstract scalar by accident
                return im, e
        return None, None

    def adt(self, ty):
        """(path, args, variants) of a crate ADT type"""
        if isinstance(ty, tuple) and ty and ty[0] == "adt":
            a = self.F.adts.get(ty[1])
            if a:
                return ty[1], ty[2], a
        return None

    def field_ty(self, ty, var, i):
        if not isinstance(ty, tuple) or not ty:
            return None
        a = self.adt(ty)
        if a:
            env = dict(zip(a[2]["generics"], a[1]))
            vs = a[2]["variants"]
            if var < len(vs) and i < len(vs[var][1]):
                return self.norm(subst(vs[var][1][i][1], env))
            return None
        if ty[0] == "tuple":
            return ty[1][i] if i < len(ty[1]) else None
        if ty[0] == "adt":
            p = ty[1]
            if p.endswith("option::Option") and var == 1:
                return ty[2][0]
            if p.endswith("result::Result"):
                return ty[2][var]
            if p.endswith("sync::Arc") or p.endswith("rc::Rc"):
                return ty[2][0]
            if p.endswith("ops::Range"):
                return ty[2][0]
        return None

    def elem_ty(self, ty):
        if not isinstance(ty, tuple) or not ty:
            return None
        if ty[0] in ("array", "slice"):
            return ty[1]
        if ty[0] == "adt":
            h = ty[1].split("::")[-1]
            if h in ("Vec", "VecDeque"):
                return ty[2][0]
            if h == "SmallVec":
                x = ty[2][0]
                return x[1] if x[0] == "array" else None
            if h in ("HashMap", "AHashMap", "BTreeMap"):
                return ty[2][1]
        return None

    def typed(self, t, ty):
        if ty is not None and t.op not in ("num", "bool", "struct", "ref", "ite", "arr"):
            self.tyof.setdefault(t, ty)
        return t

    def is_scalar_ty(self, ty):
        return isinstance(ty, tuple) and ty and (ty[0] in ("int", "float") or (ty[0] == "param" and ty[1] in self.scalars) or (ty[0] == "adt" and ty[1] in ("rug::Rational", "rug::Integer")))

    # ------------------------------------------------------------ symbols
    def sym(self, name, ty=None):
        t = mk("sym", name)
        return self.typed(t, self.norm(ty) if ty else None)

    def expand(self, t):
        """opaque aggregate -> explicit constructor of opaque components"""
        if t.op in ("struct", "arr", "seq", "clo", "ref", "num", "poly", "bool", "ite"):
            return t
        ty = self.tyof.get(t)
        if ty is None:
            return t
        a = self.adt(ty)
        if a and a[2]["kind"] == "Struct":
            fs = a[2]["variants"][0][1]
            return mk("struct", a[0], 0, *[self.proj1(t, ("f", 0, i)) for i in range(len(fs))])
        if ty[0] == "tuple":
            return mk("struct", "tuple", 0, *[self.proj1(t, ("f", 0, i)) for i in range(len(ty[1]))])
        if ty[0] == "array" and ty[2][0] == "cval" and ty[2][1] <= 16:
            return mk("arr", *[self.select1(t, num(i)) for i in range(ty[2][1])])
        return t

    def full(self, t, depth=6):
        """recursively expand opaque aggregates"""
        if depth == 0:
            return t
        if t.op == "ite":
            return vmap(lambda x: self.full(x, depth), t)
        t = self.expand(t)
        if t.op in ("struct", "clo"):
            return mk(t.op, t.args[0], t.args[1], *[self.full(x, depth - 1) for x in t.args[2:]])
        if t.op in ("arr", "seq"):
            return mk(t.op, *[self.full(x, depth - 1) for x in t.args])
        return t

    # ------------------------------------------------------------ memory
    def getroot(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "O":
                t = root[1]
                if t.op in text.TEXT:
                    # texts stand for themselves behind any number of references
                    st.mem[root] = t
                    return t
                ty = self.tyof.get(t)
                inner = None
                if ty and ty[0] in ("ref", "ptr"):
                    inner = ty[2]
                elif ty and ty[0] == "adt" and ty[1].endswith("boxed::Box"):
                    inner = ty[2][0]
                v = self.typed(mk("deref", t), inner)
                if inner and inner[0] == "ref":
                    pass
            else:
                v = UNDEF
            st.mem[root] = v
        return v

    def proj1(self, v, p):
        k = p[0]
        if v is UNDEF:
            return UNDEF
        if k == "f":
            if v.op == "struct":
                if v.args[1] != p[1]:
                    return UNDEF
                i = 2 + p[2]
                return v.args[i] if i < len(v.args) else UNDEF
            if v.op == "clo":
                return v.args[2 + p[2]]
            if v.op == "arr":
                return v.args[p[2]]
            if v.op == "ref":
                return v
            ty = self.tyof.get(v)
            if ty and ty[0] == "adt" and ty[1].endswith(("boxed::Box", "ptr::Unique", "ptr::NonNull")):
                return v
            if v.op == "updf" and v.args[1] == (p[1], p[2]):
                return v.args[2]
            if v.op == "updf":
                return self.proj(v.args[0], p)
            return self.typed(mk("fld", p[1], p[2], v), self.field_ty(ty, p[1], p[2]))
        if k == "i":
            return self.select(v, p[1])
        if k == "k":
            return self.mget(v, p[1])
        if k == "sub":
            return self.subseq(v, p[1], p[2])
        return mk("proj", k, v)

    def subseq(self, v, lo, hi):
        def one(x, l, h):
            x2 = x
            if x2.op in ("arr", "seq") and l.op == "num" and h.op == "num":
                return mk(x2.op, *x2.args[int(l.args[0]) : int(h.args[0])])
            if l is ZERO and h is self.seqlen1(x):
                return x
            r = mk("subseq", x, l, h)
            ty = self.tyof.get(x)
            if ty:
                e = self.elem_ty(ty)
                if e:
                    self.typed(r, ("slice", e))
            return r

        return vmap(lambda x: vmap2(lambda l, h: one(x, l, h), lo, hi), v)

    def proj(self, v, p):
        if v.op == "ite":
            return vmap(lambda x: self.proj1(x, p), v)
        return self.proj1(v, p)

    def eq_idx(self, a, b):
        return self.eq(a, b)

    def select1(self, s, i):
        """s, i leaves"""
        if s is UNDEF or i is UNDEF:
            return UNDEF
        if s.op in ("arr", "seq"):
            if i.op == "num":
                k = int(i.args[0])
                return s.args[k] if 0 <= k < len(s.args) else UNDEF
            r = UNDEF
            for k in range(len(s.args) - 1, -1, -1):
                z = self.eq(i, num(k))
                r = vite(z, s.args[k], r) if r is not UNDEF else s.args[k]
            return r
        if s.op == "store":
            e = self.eq_idx(s.args[1], i)
            if e == TRUE:
                return s.args[2]
            rest = self.select(s.args[0], i)
            return vite(e, s.args[2], rest)
        if s.op == "push":
            e = self.eq_idx(self.seqlen(s.args[0]), i)
            if e == TRUE:
                return s.args[1]
            return vite(e, s.args[1], self.select(s.args[0], i))
        if s.op == "fill":
            return s.args[0]
        if s.op == "subseq":
            return self.select(s.args[0], vadd(s.args[1], i))
        if s.op == "revseq":
            return self.select(s.args[0], vsub(vsub(self.seqlen(s.args[0]), ONE), i))
        if s.op == "concat":
            pass
        if s.op == "mapseq":
            return self.subst_bv(s.args[2], s.args[1], self.select(s.args[0], i), i)
        ty = self.tyof.get(s)
        return self.typed(mk("sel", s, i), self.elem_ty(ty))

    def select(self, s, i):
        if s.op == "ite" or i.op == "ite":
            return vmap2(self.select1, s, i)
        return self.select1(s, i)

    def store1(self, s, i, v):
        if s is UNDEF:
            return UNDEF
        s2 = s
        if i.op == "num":
            s2 = self.expand(s)
        if s2.op in ("arr", "seq") and i.op == "num":
            k = int(i.args[0])
            if 0 <= k < len(s2.args):
                a = list(s2.args)
                a[k] = v
                return mk(s2.op, *a)
            return UNDEF
        if s2.op in ("arr", "seq"):
            return mk(s2.op, *[vite(self.eq(i, num(k)), v, x) for k, x in enumerate(s2.args)])
        # overwrite same index
        if s.op == "store" and s.args[1] is i:
            s = s.args[0]
        if self.select1(s, i) is v:
            return s
        r = mk("store", s, i, v)
        ty = self.tyof.get(s)
        if ty:
            self.typed(r, ty)
        return r

    def seqlen1(self, s):
        if s.op in ("arr", "seq"):
            return num(len(s.args))
        if s.op == "store":
            return self.seqlen(s.args[0])
        if s.op == "push":
            return vadd(self.seqlen(s.args[0]), ONE)
        if s.op == "fill":
            return s.args[1]
        if s.op == "subseq":
            return vsub(s.args[2], s.args[1])
        if s.op in ("revseq", "mapseq"):
            return self.seqlen(s.args[0])
        ty = self.tyof.get(s)
        if ty and ty[0] == "array" and ty[2][0] == "cval":
            return num(ty[2][1])
        return self.typed(mk("len", s), ("int", "usize"))

    def seqlen(self, s):
        return vmap(self.seqlen1, s)

    # maps
    def mhas1(self, m, k):
        if m.op == "mnew":
            return BF
        if m.op == "mput":
            return B(bor(self.eq(m.args[1], k), bool_of(self.mhas(m.args[0], k))))
        if m.op == "mdel":
            return B(band(bnot(self.eq(m.args[1], k)), bool_of(self.mhas(m.args[0], k))))
        return B(bvar(("has", m, self.canon(k))))

    def mhas(self, m, k):
        return vmap(lambda x: self.mhas1(x, k), m)

    def mget1(self, m, k):
        if m.op == "mnew":
            return UNDEF
        if m.op == "mput":
            e = self.eq(m.args[1], k)
            if e == TRUE:
                return m.args[2]
            return vite(e, m.args[2], self.mget(m.args[0], k))
        if m.op == "mdel":
            return self.mget(m.args[0], k)
        return self.typed(mk("mget", m, self.canon(k)), self.elem_ty(self.tyof.get(m)))

    def mget(self, m, k):
        return vmap(lambda x: self.mget1(x, k), m)

    def canon(self, v):
        """eta-contract a constructor of all fields of one opaque value"""
        if v.op == "struct":
            base = None
            for i, f in enumerate(v.args[2:]):
                if f.op != "fld" or f.args[0] != v.args[1] or f.args[1] != i:
                    base = None
                    break
                if base is None:
                    base = f.args[2]
                elif base is not f.args[2]:
                    base = None
                    break
            if base is not None:
                ty = self.tyof.get(base)
                if ty and ((ty[0] == "adt" and ty[1] == v.args[0]) or (ty[0] == "tuple" and v.args[0] == "tuple")):
                    a = self.adt(ty)
                    n = len(a[2]["variants"][0][1]) if a else (len(ty[1]) if ty[0] == "tuple" else -1)
                    if n == len(v.args) - 2:
                        return base
        return v

    def read(self, st, root, path):
        v = self.getroot(st, root)
        for p in path:
            v = self.proj(v, p)
        return v

    def upd(self, v, path, val):
        if not path:
            return val
        if v.op == "ite":
            # update each leaf
            return vmap(lambda x: self.upd(x, path, val), v)
        p = path[0]
        if p[0] == "f":
            e = self.expand(v)
            if e.op in ("struct", "clo"):
                if e.args[1] != p[1] and e.op == "struct":
                    return v
                i = 2 + p[2]
                a = list(e.args)
                if i >= len(a):
                    return v
                a[i] = self.upd(a[i], path[1:], val)
                return mk(e.op, *a)
            if e.op == "ref":
                return self.upd(e, path[1:], val) if len(path) > 1 else val
            ty = self.tyof.get(v)
            a = self.adt(ty)
            if a:
                fs = a[2]["variants"][p[1]][1]
                s = mk("struct", a[0], p[1], *[self.proj1(v, ("f", p[1], i)) for i in range(len(fs))])
                return self.upd(s, path, val)
            if ty and ty[0] == "adt" and ty[1].endswith("option::Option"):
                return mk("struct", ty[1], 1, self.upd(self.proj1(v, p), path[1:], val))
            if v is UNDEF:
                return UNDEF
            r = mk("updf", v, (p[1], p[2]), self.upd(self.proj1(v, p), path[1:], val))
            return self.typed(r, ty)
        if p[0] == "i":
            old = self.select(v, p[1]) if len(path) > 1 else UNDEF
            new = self.upd(old, path[1:], val) if len(path) > 1 else val
            return vmap(lambda i: self.store1(v, i, new), p[1]) if p[1].op != "ite" else self._store_ite(v, p[1], path, val)
        if p[0] == "k":
            old = self.mget(v, p[1]) if len(path) > 1 else UNDEF
            new = self.upd(old, path[1:], val) if len(path) > 1 else val
            return self.mput(v, p[1], new)
        return mk("updq", v, path, val)

    def _store_ite(self, v, idx, path, val):
        def f(i):
            old = self.select(v, i) if len(path) > 1 else UNDEF
            new = self.upd(old, path[1:], val) if len(path) > 1 else val
            return self.store1(v, i, new)

        return vmap(f, idx)

    def mput(self, m, k, v):
        def one(x):
            if x.op == "mput" and x.args[1] is k:
                x = x.args[0]
            r = mk("mput", x, k, v)
            ty = self.tyof.get(x)
            if ty:
                self.typed(r, ty)
            return r

        return vmap(one, m)

    def mdel(self, m, k):
        def one(x):
            if x.op == "mnew":
                return x
            r = mk("mdel", x, k)
            ty = self.tyof.get(x)
            if ty:
                self.typed(r, ty)
            return r

        return vmap(one, m)

    def write(self, st, place, val):
        """place: list of (cond, root, path)"""
        if len(place) == 1:
            c, root, path = place[0]
            if not path:
                st.mem[root] = val
            else:
                v = self.getroot(st, root)
                st.mem[root] = self.upd(v, path, val)
            return
        for c, root, path in place:
            v = self.getroot(st, root)
            st.mem[root] = vite(c, self.upd(v, path, val), v)

    def readp(self, st, place):
        if len(place) == 1:
            return self.read(st, place[0][1], place[0][2])
        r = UNDEF
        for c, root, path in reversed(place):
            r = vite(c, self.read(st, root, path), r)
        return r

    def refs_of(self, st, v):
        """value of reference type -> list of (cond, root, path)"""
        out = []
        for leaf, c in leaves(v, TRUE if v.op != "ite" else TRUE):
            if leaf.op == "ref":
                out.append((c, leaf.args[0], leaf.args[1]))
            elif leaf is UNDEF:
                continue
            else:
                out.append((c, ("O", leaf), ()))
        if not out:
            out = [(TRUE, ("O", UNDEF), ())]
        return out

    def deref(self, st, v):
        """read through a reference value (all layers the value itself has: one)"""
        return self.readp(st, self.refs_of(st, v))

    def deref_all(self, st, v):
        """follow references until a non-reference value"""
        n = 0
        while n < 6:
            if v.op == "ref" or (v.op == "ite" and any(l.op == "ref" for l, _ in leaves(v))):
                v = self.deref(st, v)
                n += 1
                continue
            ty = self.tyof.get(v)
            if ty and ty[0] == "ref":
                v = self.deref(st, v)
                n += 1
                continue
            break
        return v

    def mkref(self, place):
        r = UNDEF
        for c, root, path in reversed(place):
            x = mk("ref", root, path)
            r = x if r is UNDEF else vite(c, x, r)
        return r

    def newroot(self, st, val, tag="H"):
        self.nheap += 1
        root = (tag, self.nheap)
        st.mem[root] = val
        return root

    def fresh(self, tag, ty=None):
        self.fresh_n += 1
        return self.typed(mk("havoc", tag, self.fresh_n), ty)

    # ------------------------------------------------------------ equality
    def eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == "ite" or b.op == "ite":
            return bool_of(vmap2(lambda x, y: B(self.eq1(x, y)), a, b))
        return self.eq1(a, b)

    def eq1(self, a, b):
        if a is b:
            return TRUE
        if a is UNDEF or b is UNDEF:
            return FALSE
        ao, bo = a.op, b.op
        if ao == "num" and bo == "num":
            return TRUE if a.args[0] == b.args[0] else FALSE
        if ao in ("num", "poly") or bo in ("num", "poly"):
            return sign_parts(psub(a, b))[0]
        if ao == "bool" or bo == "bool":
            return bnot(bxor(bool_of(a), bool_of(b)))
        if ao in text.TEXT and bo in text.TEXT:
            e = text.text_eq(a, b)
            if e is not None:
                return e
        if ao == "char" and bo == "char":
            return FALSE
        ta, tb = self.tyof.get(a), self.tyof.get(b)
        if self.is_scalar_ty(ta) or self.is_scalar_ty(tb):
            return sign_parts(psub(a, b))[0]
        if ao == "struct" and bo != "struct":
            b = self.expand(b)
            bo = b.op
        elif bo == "struct" and ao != "struct":
            a = self.expand(a)
            ao = a.op
        if ao == "struct" and bo == "struct":
            if a.args[1] != b.args[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.args[2:], b.args[2:]):
                r = band(r, self.eq(x, y))
            return r
        if ao == "struct" or bo == "struct":
            # enum constructor against opaque enum
            s, o = (a, b) if ao == "struct" else (b, a)
            r = self.isvar(o, s.args[1], s.args[0])
            for i, y in enumerate(s.args[2:]):
                r = band(r, self.eq(self.proj(o, ("f", s.args[1], i)), y))
            return r
        if ao in ("arr", "seq") or bo in ("arr", "seq"):
            a2, b2 = self.expand(a), self.expand(b)
            if a2.op in ("arr", "seq") and b2.op in ("arr", "seq"):
                if len(a2.args) != len(b2.args):
                    return FALSE
                r = TRUE
                for x, y in zip(a2.args, b2.args):
                    r = band(r, self.eq(x, y))
                return r
        if ta and ta == tb:
            ea, eb = self.expand(a), self.expand(b)
            if ea is not a and eb is not b:
                return self.eq1(ea, eb)
        x, y = (a, b) if a.id <= b.id else (b, a)
        return bvar(("eq", x, y))

    # enum discriminants
    def nvariants(self, t, path=None):
        ty = self.tyof.get(t)
        if path is None and ty and ty[0] == "adt":
            path = ty[1]
        if path:
            if path.endswith("option::Option") or path.endswith("result::Result"):
                return 2
            if path.endswith("cmp::Ordering"):
                return 3
            if path.endswith("ops::ControlFlow"):
                return 2
            a = self.F.adts.get(path)
            if a:
                return len(a["variants"])
        return None

    def isvar(self, t, k, path=None):
        """bdd: leaf enum term t has variant k"""
        if t.op == "struct":
            return TRUE if t.args[1] == k else FALSE
        if t.op == "ite":
            return bool_of(vmap(lambda x: B(self.isvar(x, k, path)), t))
        n = self.nvariants(t, path)
        if n is None:
            return bvar(("var", t, k))
        # chain encoding: variant n-1 asked first ... variant 0 is the rest
        r = TRUE
        for j in range(n - 1, -1, -1):
            if j == 0:
                return r
            x = bvar(("var", t, j))
            if j == k:
                return band(r, x)
            r = band(r, bnot(x))
        return FALSE

    def discr(self, v, ty):
        def one(x):
            if x is UNDEF:
                return UNDEF
            if x.op == "struct":
                k = x.args[1]
                if str(x.args[0]).endswith("cmp::Ordering"):
                    return num(k - 1)
                return num(k)
            path = ty[1] if ty and ty[0] == "adt" else None
            if path:
                self.tyof.setdefault(x, ty)
            n = self.nvariants(x, path)
            if n is None:
                return self.typed(mk("discr", x), ("int", "isize"))
            off = -1 if path and path.endswith("cmp::Ordering") else 0
            r = num(0 + off)
            for k in range(1, n):
                r = vite(self.isvar(x, k, path), num(k + off), r)
            return r

        return vmap(one, v)

    # ------------------------------------------------------------ constants and operands
    def const(self, fr, st, c, ty=None):
        k = c[0]
        if k == "int":
            return num(int(c[1]))
        if k == "bool":
            return BT if c[1] else BF
        if k == "char":
            return mk("char", c[1])
        if k == "f64":
            return self.f64const(int(c[2]))
        if k == "named":
            return self.const(fr, st, c[2])
        if k == "str":
            return mk("str", c[1])
        if k == "zst":
            t = self.norm(subst(tuple(_t(c[1])), fr.env))
            if t[0] == "closure":
                return mk("clo", t[2], _envkey(fr.env))
            if t[0] == "tuple":
                return mk("struct", "tuple", 0)
            if t[0] == "adt":
                return mk("struct", t[1], 0)
            return mk("zst", t)
        if k == "fn":
            return mk("fn", _freeze(c[1]), _envkey(fr.env))
        if k == "cparam":
            v = fr.env.get(c[1])
            if v and v[0] == "cval":
                return num(v[1])
            return self.typed(mk("sym", c[1]), ("int", "usize"))
        if k == "promoted":
            fn = self.F.fns.get(c[1])
            if fn is None:
                return self.fresh("promoted")
            key = ("PR", c[1], c[2], _envkey(fr.env))
            body = fn.promoted[c[2]]
            env = dict(fr.env) if fn is fr.fn else dict(zip(fn.generics, [self.norm(subst(_t(a), fr.env)) for a in c[3]]))
            return self.run_body(fn, body["locals"], body["blocks"], env, [], st, keep=True, fid=key)
        if k == "uneval":
            fn = self.F.fns.get(c[2])
            if fn is not None:
                env = dict(zip(fn.generics, [self.norm(subst(_t(a), fr.env)) for a in c[3]]))
                return self.run_body(fn, fn.locals, fn.blocks, env, [], st)
            return self.typed(mk("const", c[1]), self.norm(subst(_t(c[4]), fr.env)))
        if k == "bits":
            return num(int(c[1]))
        if k == "text" and str(c[1]).startswith('b"'):
            try:
                return mk("bytes", ast.literal_eval(c[1]).decode("latin-1"))
            except (ValueError, SyntaxError):
                pass
        return mk("const", str(c[1:2]))

    def f64const(self, bits):
        f = _struct.unpack("<d", _struct.pack("<Q", bits))[0]
        if f != f:
            return mk("fconst", "nan")
        if f in (float("inf"), float("-inf")):
            return mk("fconst", "inf" if f > 0 else "-inf")
        return num(Fraction(f))

    def lty(self, fr, i):
        t = fr.ltc.get(i)
        if t is None:
            t = self.norm(subst(_t(fr.locals[i][0]), fr.env))
            fr.ltc[i] = t
        return t

    def place(self, fr, st, p):
        alts = [(TRUE, (fr.fid, p[0]), ())]
        var = 0
        for e in p[1]:
            k = e[0]
            if k == "deref" or k == "boxderef":
                v = self.readp(st, alts)
                v = vrestrict(v, st.pc) if v.op == "ite" else v
                alts = self.refs_of(st, v)
                var = 0
            elif k == "field":
                alts = [(c, r, q + (("f", var, e[1]),)) for c, r, q in alts]
                var = 0
            elif k == "downcast":
                var = e[1]
            elif k == "index":
                iv = self.read(st, (fr.fid, e[1]), ())
                iv = vrestrict(iv, st.pc) if iv.op == "ite" else iv
                alts = [(c, r, q + (("i", iv),)) for c, r, q in alts]
            elif k == "cindex":
                if e[3]:
                    base = self.readp(st, alts)
                    iv = vsub(self.seqlen(base), num(e[1]))
                else:
                    iv = num(e[1])
                alts = [(c, r, q + (("i", iv),)) for c, r, q in alts]
            elif k == "subslice":
                base = self.readp(st, alts)
                hi = vsub(self.seqlen(base), num(e[2])) if e[3] else num(e[2])
                alts = [(c, r, q + (("sub", num(e[1]), hi),)) for c, r, q in alts]
        return alts

    def operand(self, fr, st, o):
        if o[0] in ("copy", "move"):
            v = self.readp(st, self.place(fr, st, o[1]))
            if v.op == "ite":
                v = vrestrict(v, st.pc)
            # remember type of opaque values
            if not o[1][1] and v.op not in ("num", "bool", "struct", "ref", "ite", "arr", "poly"):
                ty = self.lty(fr, o[1][0])
                self.tyof.setdefault(v, ty)
            return v
        return self.const(fr, st, o[1])

    # ------------------------------------------------------------ rvalues
    def cmp(self, op, a, b):
        d = vsub(a, b)
        z, p, n = sgn(d)
        return {
            "Lt": n,
            "Le": bor(n, z),
            "Gt": p,
            "Ge": bor(p, z),
            "Eq": z,
            "Ne": bnot(z),
        }[op]

    def is_boolish(self, v):
        return v.op == "bool" or (v.op == "ite" and all(l.op == "bool" for l, _ in leaves(v)))

    def binop(self, op, a, b, ty):
        ty = ty or ("?",)
        if op in ("Eq", "Ne"):
            e = self.eq(a, b)
            return B(e if op == "Eq" else bnot(e))
        if ty[0] == "bool" or (self.is_boolish(a) and self.is_boolish(b)):
            x, y = bool_of(a), bool_of(b)
            if op == "BitAnd":
                return B(band(x, y))
            if op == "BitOr":
                return B(bor(x, y))
            if op == "BitXor":
                return B(bxor(x, y))
            if op == "Lt":
                return B(band(bnot(x), y))
            if op == "Gt":
                return B(band(x, bnot(y)))
            if op == "Le":
                return B(bor(bnot(x), y))
            if op == "Ge":
                return B(bor(x, bnot(y)))
        if op in ("Lt", "Le", "Gt", "Ge"):
            return B(self.cmp(op, a, b))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if self.FLOATATOM and ty[0] == "float" and base in ("Add", "Sub", "Mul", "Div") and not (a.op == "num" and b.op == "num"):
            return self.typed(mk("flop", base, a, b), ty)
        if base == "Add":
            r = vadd(a, b)
        elif base == "Sub":
            r = vsub(a, b)
        elif base == "Mul":
            r = vmul(a, b)
        elif base == "Div":
            if ty[0] == "int":
                r = vmap2(self._idiv, a, b)
            else:
                r = vdiv(a, b)
        elif base == "Rem":
            r = vmap2(self._rem, a, b)
        elif base == "Cmp":
            z, p, n = sgn(vsub(a, b))
            O = "std::cmp::Ordering"
            r = vite(z, mk("struct", O, 1), vite(p, mk("struct", O, 2), mk("struct", O, 0)))
        elif base in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
            r = vmap2(lambda x, y: self._bit(base, x, y), a, b)
        elif base == "Offset":
            r = mk("offset", a, b)
        else:
            r = mk("bin", base, a, b)
        if "WithOverflow" in op:
            return mk("struct", "tuple", 0, r, BF)
        return r

    def _idiv(self, a, b):
        if a.op == "num" and b.op == "num" and b.args[0] != 0:
            x, y = int(a.args[0]), int(b.args[0])
            q = abs(x) // abs(y)
            return num(q if (x >= 0) == (y >= 0) else -q)
        return self.typed(mk("idiv", a, b), ("int", "usize"))

    def _rem(self, a, b):
        if a.op == "num" and b.op == "num" and b.args[0] != 0:
            x, y = int(a.args[0]), int(b.args[0])
            r = abs(x) % abs(y)
            return num(r if x >= 0 else -r)
        return self.typed(mk("rem", a, b), ("int", "usize"))

    def _bit(self, op, a, b):
        if a.op == "num" and b.op == "num":
            x, y = int(a.args[0]), int(b.args[0])
            return num({"Shl": x << y if y < 200 else 0, "Shr": x >> y if y < 200 else 0, "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
        if op in ("BitAnd", "BitOr", "BitXor") and a.id > b.id:
            a, b = b, a
        return self.typed(mk("bit", op, a, b), ("int", "usize"))

    def rvalue(self, fr, st, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            return self.mkref(self.place(fr, st, r[2]))
        if k == "bin":
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            return self.binop(r[1], a, b, self.norm(subst(_t(r[4]), fr.env)))
        if k == "un":
            a = self.operand(fr, st, r[2])
            if r[1] == "Not":
                ty = self.norm(subst(_t(r[3]), fr.env))
                if ty[0] == "bool":
                    return B(bnot(bool_of(a)))
                w = _W.get(ty[1]) if ty[0] == "int" else None
                return vmap(lambda x: num(_wrap(~int(x.args[0]), ty[1])) if w and x.op == "num" else self.typed(mk("bitnot", x), ty), a)
            if r[1] == "Neg":
                return vneg(a)
            if r[1] == "PtrMetadata":
                return self.seqlen(self.deref(st, a))
            return mk("un", r[1], a)
        if k == "cast":
            a = self.operand(fr, st, r[2])
            return self.cast(st, a, r[1], self.norm(subst(_t(r[3]), fr.env)), self.norm(subst(_t(r[4]), fr.env)))
        if k == "discr":
            v = self.readp(st, self.place(fr, st, r[1]))
            if v.op == "ite":
                v = vrestrict(v, st.pc)
            return self.discr(v, self.norm(subst(_t(r[2]), fr.env)))
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "tuple":
                return self.canon(mk("struct", "tuple", 0, *ops))
            if kk[0] == "array":
                return mk("arr", *ops)
            if kk[0] == "adt":
                return self.canon(mk("struct", kk[1], kk[2], *ops))
            if kk[0] == "closure":
                return mk("clo", kk[2], _envkey(fr.env), *ops)
            if len(ops) == 1:
                return ops[0]
            return mk("agg", *ops)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = subst(_t(r[2]), fr.env)
            if n[0] == "cval" and n[1] <= 64:
                return mk("arr", *([v] * n[1]))
            return mk("fill", v, num(n[1]) if n[0] == "cval" else mk("sym", str(n)))
        return self.fresh("rvalue:" + str(k))

    def cast(self, st, a, kind, to, frm):
        if "Pointer" in kind or "Ptr" in kind or "Transmute" in kind or "Unsize" in kind or "Subtype" in kind:
            if "Transmute" in kind and to[0] == "float":
                return vmap(lambda x: mk("frombits", x), a)
            return a
        if kind.startswith("FloatToInt"):
            def f2i(x):
                if x.op == "num":
                    v = x.args[0]
                    return num(int(v))
                return self.typed(mk("f2i", to[1], x), to)
            return vmap(f2i, a)
        if kind.startswith("IntToFloat"):
            return a
        if kind.startswith("FloatToFloat"):
            if to[1] == "f32":
                return vmap(lambda x: x if x.op == "num" else mk("tof32", x), a)
            return a
        if kind.startswith("IntToInt"):
            if self.is_boolish(a):
                return vite(bool_of(a), ONE, ZERO)
            if to[0] == "int" and frm[0] == "int":
                if _widening(frm[1], to[1]):
                    return a
                def f(x):
                    if x.op == "num":
                        return num(_wrap(int(x.args[0]), to[1]))
                    if x.op == "icast" and x.args[0] == frm[1] and False:
                        return x
                    return self.typed(mk("icast", to[1], x), to)
                return vmap(f, a)
            return a
        return vmap(lambda x: self.typed(mk("cast", str(to), x), to), a)

    # ------------------------------------------------------------ running bodies
    def run_fn(self, fn, env, args, st):
        if fn is None:
            return self.fresh("nofn")
        depth = len(self.stack)
        if depth > self.MAXDEPTH or sum(1 for f in self.stack if f.fn is fn) >= self.RECUR:
            raise Undecided("recursion " + fn.path)
        self.fns_seen.add(fn.path)
        return self.run_body(fn, fn.locals, fn.blocks, env, args, st)

    def run_body(self, fn, locs, blocks, env, args, st, keep=False, fid=None):
        fr = Frame()
        fr.fn = fn
        fr.env = env
        fr.locals = locs
        fr.blocks = blocks
        fr.ltc = {}
        if fid is None:
            self.nfid += 1
            fid = self.nfid
        fr.fid = fid
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        self.stack.append(fr)
        info = cfg_info(fn if blocks is fn.blocks else None, blocks)
        try:
            rets = []
            exits = self.region(fr, info, None, 0, st, rets)
            assert not exits
        finally:
            self.stack.pop()
        if not rets:
            st.pc = FALSE
            ret = UNDEF
        else:
            m = self.merge(rets)
            st.mem = m.mem
            st.pc = m.pc
            ret = st.mem.get((fid, 0), UNDEF)
            if ret.op == "ite":
                ret = vrestrict(ret, st.pc)
            ty = self.lty(fr, 0)
            if ty[0] == "tuple" and not ty[1] and ret is UNDEF:
                ret = mk("struct", "tuple", 0)
        if not keep:
            for k in [k for k in st.mem if k[0] == fid]:
                del st.mem[k]
        return ret

    def merge(self, states):
        if len(states) == 1:
            return states[0]
        acc = states[0].copy()
        for s in states[1:]:
            pc = bor(acc.pc, s.pc)
            c = brestrict(acc.pc, pc)
            mem = acc.mem
            for k, v in s.mem.items():
                w = mem.get(k)
                if w is None:
                    mem[k] = v
                elif w is not v:
                    mem[k] = vite(c, w, v)
            acc.pc = pc
        return acc

    def region(self, fr, info, loop, entry, st, rets):
        """execute blocks of the function (loop=None) or of one iteration of `loop`; returns exits
        {target: [states]} where target may be the header (back edge) or a block outside"""
        succ, rpo, pos, loops, inner, parent = info
        body = loops[loop] if loop is not None else None
        pend = {entry: [st]}
        out = {}
        order = [b for b in rpo if (body is None or b in body)]
        skip = set()
        for b in order:
            if b in skip:
                continue
            ss = pend.pop(b, None)
            if not ss:
                continue
            ss = [s for s in ss if s.pc != FALSE]
            if not ss:
                continue
            s = self.merge(ss)
            if inner.get(b) != loop and b in loops and b != loop and parent[b] == loop:
                ex = self.exec_loop(fr, info, b, s, rets)
                skip |= loops[b]
            else:
                ex = self.exec_block(fr, info, b, s, rets, loop)
            for tgt, sts in ex:
                if tgt == entry and loop is not None and b is not None:
                    out.setdefault(tgt, []).append(sts)
                elif body is not None and tgt not in body:
                    out.setdefault(tgt, []).append(sts)
                else:
                    pend.setdefault(tgt, []).append(sts)
        return out

    def exec_loop(self, fr, info, header, st, rets):
        """returns list of (target, state)"""
        loopblocks = info[3][header]
        exits = []
        cur = st
        saved = (len(self.panics), len(self.events), len(self.loops), len(rets))
        start = st.copy()
        it = 0
        ok = True
        natoms = len(tm.ATOMS)
        while True:
            self.ctl = None
            prev_ctl = getattr(self, "_ctlstack", None)
            entry_pc = cur.pc
            dec = {"first": None, "loop": loopblocks, "fr": fr, "atoms": natoms}
            self._dec = getattr(self, "_dec", [])
            self._dec.append(dec)
            try:
                out = self.region(fr, info, header, header, cur.copy(), rets)
            except NotConcrete as e:
                if e.args[0] is not dec:
                    raise
                ok = False
                break
            finally:
                self._dec.pop()
            backs = out.pop(header, [])
            backs = [s for s in backs if s.pc != FALSE]
            if dec["first"] is False or it > self.UNROLL:
                ok = False
                break
            for t, ss in out.items():
                for s in ss:
                    if s.pc != FALSE:
                        exits.append((t, s))
            if not backs:
                break
            cur = self.merge(backs)
            it += 1
        if ok:
            return exits
        # not a fixed trip count: forget the partial unrolling, summarise
        del self.panics[saved[0] :]
        del self.events[saved[1] :]
        del self.loops[saved[2] :]
        del rets[saved[3] :]
        line = fr.blocks[header]["t"][-1]

        def once(s):
            r2 = []
            out = self.region(fr, info, header, header, s, r2)
            backs = [x for x in out.pop(header, []) if x.pc != FALSE]
            ex = [(t, x) for t, xs in out.items() for x in xs if x.pc != FALSE]
            ex += [("ret", x) for x in r2]
            return backs, ex

        exs = self.summarise(start, once, fr, ("loop", fr.fn.path, header))
        res = []
        for t, s in exs:
            if t == "ret":
                rets.append(s)
            else:
                res.append((t, s))
        return res

    # ---- symbolic loops
    def summarise(self, st, once, fr, key):
        self.loopdepth += 1
        depth = self.loopdepth
        try:
            mus = {}  # (root, path) -> mu symbol

            def with_mu(base):
                s = base.copy()
                for (root, path), m in mus.items():
                    v = s.mem.get(root, UNDEF)
                    s.mem[root] = self.upd(v, path, m) if path else m
                return s

            for rnd in range(12):
                s = with_mu(st)
                pre = s.copy()
                saved = (len(self.panics), len(self.events), len(self.loops))
                backs, ex = once(s.copy())
                new = {}
                for b in backs:
                    for root, v in b.mem.items():
                        old = pre.mem.get(root)
                        if old is None or old is v:
                            continue
                        self.diffpaths(root, (), old, v, new, depth)
                added = False
                for kk, m in new.items():
                    if kk in mus:
                        continue
                    # drop if an ancestor already is havocked
                    if any((kk[0], kk[1][:n]) in mus for n in range(len(kk[1]))):
                        continue
                    # remove descendants
                    for k2 in [k2 for k2 in mus if k2[0] == kk[0] and k2[1][: len(kk[1])] == kk[1]]:
                        del mus[k2]
                    mus[kk] = m
                    added = True
                if not added:
                    break
                del self.panics[saved[0] :]
                del self.events[saved[1] :]
                del self.loops[saved[2] :]
            else:
                raise Undecided("loop summary does not stabilise " + str(key))
            L = LoopSummary()
            L.fn = fr.fn.path if fr else "?"
            L.key = key
            L.depth = depth
            L.mu = dict(mus)
            L.init = {k: self.read(st, k[0], k[1]) for k in mus}
            L.pre = pre
            L.entry_pc = st.pc
            if backs:
                mb = self.merge(backs)
                L.back_pc = mb.pc
                L.next = {k: vrestrict(self.read(mb, k[0], k[1]), mb.pc) for k in mus}
            else:
                L.back_pc = FALSE
                L.next = {}
            L.exits = []
            L.driver = None
            L.firsts = {}
            L.post = {}
            groups = {}
            for t, s in ex:
                groups.setdefault(t, []).append(s)
            tg = list(groups)
            res = []
            self.loops.append(L)
            conds = []
            for t in tg:
                s = self.merge(groups[t])
                conds.append((t, s))
                L.exits.append((t, s.pc, s))
            self.models.closed_forms(self, L, st, conds)
            # which exit is taken: one choice atom per extra exit; the first (normal) exit is the rest
            rest = st.pc
            n = len(conds)
            order = sorted(range(n), key=lambda i: self.models.exit_rank(self, L, conds[i]))
            for j, i in enumerate(order):
                t, s = conds[i]
                s = s.copy()
                if j == n - 1:
                    s.pc = rest
                else:
                    x = self.models.exit_atom(self, L, conds[i], j)
                    s.pc = band(rest, x)
                    rest = band(rest, bnot(x))
                self.models.apply_post(self, L, s, j == n - 1, t)
                res.append((t, s))
            return res
        finally:
            self.loopdepth -= 1

    def diffpaths(self, root, path, old, new, out, depth):
        if old is new:
            return
        if len(path) < 4:
            eo, en = self.expand(old), self.expand(new)
            if eo.op == "struct" and en.op == "struct" and eo.args[:2] == en.args[:2] and len(eo.args) == len(en.args) and not self.isenum(eo):
                for i in range(2, len(eo.args)):
                    self.diffpaths(root, path + (("f", eo.args[1], i - 2),), eo.args[i], en.args[i], out, depth)
                return
            if eo.op == "arr" and en.op == "arr" and len(eo.args) == len(en.args):
                for i in range(len(eo.args)):
                    self.diffpaths(root, path + (("i", num(i)),), eo.args[i], en.args[i], out, depth)
                return
        ty = self.valty(old) or self.valty(new)
        m = mk("mu", depth, root, path)
        if ty:
            self.tyof.setdefault(m, ty)
        if ty and ty[0] == "bool":
            m = B(bvar(("mu", depth, root, path)))
        out[(root, path)] = m

    def isenum(self, s):
        p = s.args[0]
        if isinstance(p, str):
            if p.endswith(("option::Option", "result::Result", "cmp::Ordering")):
                return True
            a = self.F.adts.get(p)
            return bool(a and a["kind"] == "Enum")
        return False

    def valty(self, v):
        if v.op == "bool":
            return ("bool",)
        if v.op == "ite":
            for l, _ in leaves(v):
                t = self.valty(l)
                if t:
                    return t
            return None
        t = self.tyof.get(v)
        if t:
            return t
        if v.op in ("num", "poly"):
            if v.op == "poly":
                for m, c in v.args[0]:
                    for a, e in m:
                        t = self.tyof.get(a)
                        if self.is_scalar_ty(t):
                            return t
            return ("int", "usize") if v.op == "poly" or v.args[0].denominator == 1 else ("float", "f64")
        if v.op == "struct" and isinstance(v.args[0], str):
            p = v.args[0]
            if p.endswith("option::Option"):
                inner = self.valty(v.args[2]) if v.args[1] == 1 else None
                return ("adt", p, (inner,))
            if p in self.F.adts and not self.F.adts[p]["generics"]:
                return ("adt", p, ())
        return None

    # ------------------------------------------------------------ blocks
    def exec_block(self, fr, info, b, st, rets, loop):
        if len(tm.ATOMS) > self.maxatoms + getattr(self, "_atoms0", 0):
            raise TooBig("atoms")
        blk = fr.blocks[b]
        for s in blk["s"]:
            if s[0] == "assign":
                dp = s[1]
                val = self.rvalue(fr, st, s[2], None)
                pl = [(TRUE, (fr.fid, dp[0]), ())] if not dp[1] else self.place(fr, st, dp)
                if not dp[1] and val.op not in ("num", "bool", "struct", "ref", "ite", "arr", "poly"):
                    self.tyof.setdefault(val, self.lty(fr, dp[0]))
                self.write(st, pl, val)
            elif s[0] == "setdiscr":
                self.write(st, self.place(fr, st, s[1]), self.fresh("setdiscr"))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            rets.append(st)
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            v = self.operand(fr, st, t[1])
            ty = self.norm(subst(_t(t[4]), fr.env))
            rest = TRUE
            outs = []
            for val, tgt in t[2]:
                x = int(val)
                if ty[0] == "bool":
                    bb = bool_of(v)
                    c = bb if x else bnot(bb)
                elif ty[0] == "char":
                    c = self.eq(v, mk("char", chr(x)))
                else:
                    if ty[0] == "int" and ty[1].startswith("i"):
                        x = _wrap(x, ty[1] if ty[1] != "isize" else "i64")
                    c = self.eq(v, num(x))
                outs.append((c, tgt))
                rest = band(rest, bnot(c))
            outs.append((rest, t[3]))
            # loop control bookkeeping
            res = []
            npos = 0
            for c, tgt in outs:
                pc = band(st.pc, c)
                if pc == FALSE:
                    continue
                npos += 1
                res.append((tgt, pc))
            dec = self._dec[-1] if getattr(self, "_dec", None) else None
            if dec is not None and dec["fr"] is fr and dec["first"] is None and b in dec["loop"]:
                tgts = [tgt for c, tgt in outs]
                leaving = [x for x in tgts if self.leaves_loop(fr, x, dec["loop"])]
                if leaving:
                    # concrete iff the exit side is decided
                    e = [x for x, pc in res if x in leaving]
                    i = [x for x, pc in res if x not in leaving]
                    # concrete iff the exit side is decided, or decided by predicates known before the loop
                    dec["first"] = (not (e and i) and not (i and dec.get("open"))) or (bool(e) and all(x < dec["atoms"] for c, _ in outs for x in bsupport(c)))
                    if not dec["first"]:
                        raise NotConcrete(dec)
            return [(tgt, State(dict(st.mem) if n else st.mem, pc)) for n, (tgt, pc) in enumerate(reversed(res))][::-1]
        if k == "assert":
            if t[4] in ("bounds", "overflow", "div0", "rem0"):
                if self.record:
                    self.panics.append((st.pc, "assert:" + t[4], fr.fn.path, t[5]))
                if t[4] == "bounds" and bool_of(self.operand(fr, st, t[1])) == (FALSE if t[2] else TRUE):
                    return []
                return [(t[3], st)]
            c = bool_of(self.operand(fr, st, t[1]))
            st.pc = band(st.pc, c if t[2] else bnot(c))
            return [(t[3], st)] if st.pc != FALSE else []
        if k == "call":
            return self.do_call(fr, st, t)
        return []

    def leaves_loop(self, fr, b, body):
        if b not in body:
            # unreachable blocks don't count as exits
            return fr.blocks[b]["t"][0] != "unreachable"
        return False

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, t):
        args = [self.operand(fr, st, o) for o in t[2]]
        f = t[1]
        self.callsites += 1
        dty = self.norm(subst(_t(t[7]), fr.env))
        atys = [self.norm(subst(_t(a), fr.env)) for a in t[6]]
        for v, ty in zip(args, atys):
            if v.op not in ("num", "bool", "struct", "ref", "ite", "arr", "poly"):
                self.tyof.setdefault(v, ty)
        if f[0] == "const" and f[1][0] == "fn":
            val = self.call(f[1][1], fr.env, args, atys, dty, st, fr, t[5])
        else:
            fv = self.operand(fr, st, f)
            val = self.call_value(fv, args, st, dty)
        if t[4] is None or st.pc == FALSE:
            if t[4] is None and st.pc != FALSE:
                if self.record:
                    self.panics.append((st.pc, "diverge", fr.fn.path, t[5]))
            return []
        if val.op not in ("num", "bool", "struct", "ref", "ite", "arr", "poly"):
            self.tyof.setdefault(val, dty)
        dp = t[3]
        pl = [(TRUE, (fr.fid, dp[0]), ())] if not dp[1] else self.place(fr, st, dp)
        self.write(st, pl, val)
        return [(t[4], st)]

    def resolve(self, c, env):
        """-> ('local', fn, env) | ('scalar', name, args) | ('ext', path, args)"""
        args = tuple(self.norm(subst(_t(a), env)) for a in c["args"])
        if c["trait"]:
            if args:
                s = strip_ref(args[0])
                if isinstance(s, tuple) and s and s[0] == "param" and s[1] in self.scalars:
                    return ("scalar", c["name"], args, c)
            r = c["resolved"]
            if r and r["id"] is not None and r["id"] in self.F.fns:
                fn = self.F.fns[r["id"]]
                if fn.kind != "Closure":
                    rargs = [self.norm(subst(_t(a), env)) for a in r["args"]]
                    return ("local", fn, dict(zip(fn.generics, rargs)))
            im, e = self.find_impl(c["trait"], args)
            if im:
                nt = len(im["trait"]["args"])
                mid = im["map"].get(c["name"])
                if mid is not None and mid in self.F.fns:
                    fn = self.F.fns[mid]
                    env2 = dict(e)
                    own = [g for g in fn.generics if g not in im["generics"]]
                    env2.update(zip(own, args[nt:]))
                    return ("local", fn, env2)
                # default method
                if c["id"] in self.F.fns:
                    fn = self.F.fns[c["id"]]
                    return ("local", fn, dict(zip(fn.generics, args)))
            return ("ext", c["path"], args, c)
        if c["id"] is not None and c["id"] in self.F.fns:
            fn = self.F.fns[c["id"]]
            return ("local", fn, dict(zip(fn.generics, args)))
        return ("ext", c["path"], args, c)

    def call(self, c, env, args, atys, dty, st, fr, line):
        r = self.resolve(c, env)
        name = r[1].path if r[0] == "local" else (c["path"])
        w = self.watch.get(name) or self.watch.get(name.split("::")[-1])
        if w:
            self.events.append((st.pc, name, tuple(args), fr.fn.path, line))
            if callable(w):
                w(self, st, name, args, fr, line)
        ov = self.overrides.get(name)
        if ov is None and r[0] == "local":
            ov = self.overrides.get(r[1].name)
        if ov:
            v = ov(self, st, args, atys, dty, r)
            if v is not None:
                return v
        if r[0] == "scalar":
            return self.models.scalar(self, st, r[1], args, atys, dty, r)
        if r[0] == "local":
            fn = r[1]
            if fn.path in self.opaque or fn.name in self.opaque:
                return self.uninterp(fn.path, args, atys, dty, st)
            m = self.models.LOCAL.get(fn.path)
            if m:
                return m(self, st, args, atys, dty, r)
            try:
                snap = st.copy()
                return self.run_fn(fn, r[2], args, st)
            except Undecided as e:
                if "recursion" in str(e):
                    st.mem = snap.mem
                    st.pc = snap.pc
                    return self.uninterp(fn.path, args, atys, dty, st)
                raise
        return self.models.external(self, st, r[1], r[2], args, atys, dty, c, fr, line)

    def snapshot(self, st, v, depth=4):
        """value with references replaced by what they point to (for uninterpreted calls)"""
        if depth == 0:
            return v
        if v.op == "ref":
            return self.snapshot(st, self.deref(st, v), depth - 1)
        if v.op == "ite":
            return vmap(lambda x: self.snapshot(st, x, depth), v)
        if v.op in ("struct", "clo"):
            if any(x.op in ("ref", "ite", "struct") for x in v.args[2:]):
                return self.canon(mk(v.op, v.args[0], v.args[1], *[self.snapshot(st, x, depth - 1) for x in v.args[2:]]))
            return self.canon(v)
        ty = self.tyof.get(v)
        if ty and ty[0] == "ref":
            return self.snapshot(st, self.deref(st, v), depth - 1)
        return v

    def uninterp(self, name, args, atys, dty, st):
        snaps = tuple(self.snapshot(st, a) for a in args)
        self.unknown.append((name, st.pc))
        for i, (a, ty) in enumerate(zip(args, atys)):
            if ty and ty[0] == "ref" and ty[1]:
                for cnd, root, path in self.refs_of(st, a):
                    old = self.read(st, root, path)
                    nv = mk("eff", name, i, *snaps)
                    vt = self.valty(old) or ty[2]
                    self.typed(nv, vt)
                    self.write(st, [(cnd, root, path)], nv) if cnd == TRUE else self.write(st, [(cnd, root, path), (bnot(cnd), root, path)], nv)
        if dty and dty[0] == "tuple" and not dty[1]:
            return mk("struct", "tuple", 0)
        if dty and dty[0] == "bool":
            return B(bvar(("call", name) + snaps))
        return self.typed(mk("call", name, *snaps), dty)

    def call_value(self, fv, args, st, dty):
        """call a closure / fn item value with already-spread args"""
        if fv.op == "ite":
            ls = leaves(fv)
            if all(l.op in ("clo", "fn") for l, _ in ls) and len(ls) <= 3:
                outs = []
                pc0 = st.pc
                for l, c in ls:
                    s2 = State(dict(st.mem), band(pc0, c))
                    if s2.pc == FALSE:
                        continue
                    v = self.call_value(l, args, s2, dty)
                    s2.mem[("tmp", 0)] = v
                    outs.append(s2)
                m = self.merge([o for o in outs if o.pc != FALSE])
                st.mem, st.pc = m.mem, m.pc
                return st.mem.pop(("tmp", 0))
        if fv.op == "ref":
            inner = self.deref(st, fv)
            if inner.op == "clo":
                fn = self.F.fns[inner.args[0]]
                return self.run_clo(fn, inner, args, st, fv)
            return self.call_value(inner, args, st, dty)
        if fv.op == "clo":
            fn = self.F.fns[fv.args[0]]
            return self.run_clo(fn, fv, args, st, None)
        if fv.op == "fn":
            c = _thaw(fv.args[0])
            env = dict(fv.args[1])
            atys = [None] * len(args)
            return self.call(c, env, args, atys, dty, st, self.stack[-1], 0)
        return self.uninterp("dyncall", [fv] + args, [None] * (len(args) + 1), dty, st)

    def run_clo(self, fn, clo, args, st, ref):
        env = dict(clo.args[1])
        selfty = fn.locals[1][0]
        if selfty[0] == "ref":
            if ref is None:
                root = self.newroot(st, clo, "C")
                ref = mk("ref", root, ())
            return self.run_fn(fn, env, [ref] + list(args), st)
        return self.run_fn(fn, env, [clo] + list(args), st)

    # ------------------------------------------------------------ entry
    def analyse(self, fn, env=None, args=None, names=None, pre=None):
        """analyse one function; returns Result"""
        self._atoms0 = len(tm.ATOMS)
        st = State(dict(self.premem), TRUE)
        if pre is not None:
            st.pc = pre
        env = env or {}
        fr = Frame()
        fr.fn, fr.env, fr.locals, fr.ltc, fr.fid = fn, env, fn.locals, {}, -1
        vals = []
        roots = []
        for i in range(fn.nargs):
            ty = self.lty(fr, i + 1)
            nm = (names[i] if names and i < len(names) else None) or fn.locals[i + 1][1] or "a%d" % i
            if args and i < len(args) and args[i] is not None:
                a = args[i]
                if isinstance(a, tuple):  # ("ref", value)
                    root = ("P", nm)
                    st.mem[root] = a[1]
                    vals.append(mk("ref", root, ()))
                    roots.append(root)
                else:
                    vals.append(a)
                    roots.append(None)
                continue
            v, root = self.param(st, nm, ty)
            vals.append(v)
            roots.append(root)
        res = Result()
        res.args = vals
        res.roots = roots
        res.init = dict(st.mem)
        res.ret = self.run_fn(fn, env, vals, st)
        res.st = st
        res.pc = st.pc
        res.ip = self
        return res

    def param(self, st, nm, ty):
        if ty[0] == "ref":
            root = ("P", nm)
            if ty[2][0] == "ref":
                inner, _ = self.param(st, nm + "*", ty[2])
                st.mem[root] = inner
            elif ty[2][0] == "bool":
                st.mem[root] = B(bvar(("p", nm)))
            else:
                st.mem[root] = self.sym(nm, ty[2])
            return mk("ref", root, ()), root
        if ty[0] == "bool":
            return B(bvar(("p", nm))), None
        return self.sym(nm, ty), None


class Result:
    __slots__ = "args roots init ret st pc ip".split()


# ------------------------------------------------------------------ helpers
_tc = {}


def _t(x):
    if isinstance(x, tuple):
        return x
    if isinstance(x, list):
        return tuple(_t(y) for y in x)
    return x


def _envkey(env):
    return tuple(sorted(env.items()))


def _freeze(c):
    return (
        c["path"],
        c["id"],
        _t(c["args"]),
        c["trait"],
        c["name"],
        (c["resolved"]["path"], c["resolved"]["id"], _t(c["resolved"]["args"])) if c["resolved"] else None,
    )


def _thaw(f):
    return {
        "path": f[0],
        "id": f[1],
        "args": f[2],
        "trait": f[3],
        "name": f[4],
        "resolved": {"path": f[5][0], "id": f[5][1], "args": f[5][2]} if f[5] else None,
    }


_W = {"u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "usize": (64, 0), "u128": (128, 0), "i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "isize": (64, 1), "i128": (128, 1)}


def _widening(a, b):
    if a == b:
        return True
    wa, sa = _W[a]
    wb, sb = _W[b]
    if sa == sb:
        return wb >= wa
    if sb and not sa:
        return wb > wa
    return False


def _wrap(x, t):
    w, s = _W[t]
    x &= (1 << w) - 1
    if s and x >> (w - 1):
        x -= 1 << w
    return x
