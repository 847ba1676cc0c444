"""C48: thread safety of the public types, absence of unsafe code and of influential global state."""
import json
from lib import *

EXPLAIN = (
    "The compiler's trait solver answers, for every type of the crate and every scalar kind, whether it is Send and Sync; the syntax tree is "
    "searched for unsafe blocks and unsafe impls; and every reference to a mutable static or thread-local is followed by a forward taint "
    "analysis over the MIR (data and control dependence) to a function result."
)
RULES = [
    "every public type is Send and Sync for every scalar kind",
    "no unsafe block, unsafe function or hand-written unsafe impl",
    "no static mut; no value read from shared mutable state or a thread-local reaches a result",
    "caches of lazy numbers are write-once cells",
]
MUST = ("CgarF64", "CgarRational", "LazyExact", "Point", "Vector", "Segment", "Plane", "Mesh", "AabbTree", "Aabb")
ONCE = ("OnceCell", "OnceLock", "OnceBox", "LazyLock", "Lazy")
CELLS = ("Cell", "RefCell", "UnsafeCell", "Mutex", "RwLock", "Atomic", "AtomicBool", "AtomicUsize", "AtomicU64", "AtomicI64", "AtomicU32", "AtomicPtr", "LocalKey")


def mentions(t, names):
    if isinstance(t, (list, tuple)):
        if len(t) > 1 and t[0] == "adt" and str(t[1]).split("::")[-1] in names:
            return True
        return any(mentions(x, names) for x in t)
    return False


def locals_in(x, out):
    """locals read by an operand / rvalue"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("copy", "move") and isinstance(x[1], list):
            out.add(x[1][0])
            return out
        if x and x[0] == "ref" and len(x) >= 3:
            out.add(x[2][0])
            return out
        if x and x[0] == "discr":
            out.add(x[1][0])
            return out
        for y in x:
            locals_in(y, out)
    return out


def source_in(x, shared):
    """does this operand / rvalue refer to shared mutable state"""
    if isinstance(x, list):
        if x and x[0] == "text":
            if len(x) > 3 and x[3] in shared:
                return True
            return mentions(x[2], ("LocalKey",))
        if x and x[0] in ("uneval", "named", "zst", "promoted"):
            return any(mentions(y, ("LocalKey",)) for y in x[1:])
        if x and x[0] == "unknown" and "ThreadLocalRef" in str(x[1]):
            return True
        return any(source_in(y, shared) for y in x)
    return False


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


def zero_sized(t):
    return t in (["tuple", []], ("tuple", ())) or t == ("never",)


PRINTS = ("print", "eprint", "fmt", "panic", "write_fmt", "Arguments", "assert_failed")


def influence(F, fn, shared, returning):
    """why a result of fn depends on shared mutable state, or None"""
    blocks = fn.blocks
    n = len(blocks)
    live = [i for i in range(n) if not blocks[i]["cleanup"]]
    can = set()  # blocks from which the function returns
    change = True
    while change:
        change = False
        for i in live:
            if i not in can and (blocks[i]["t"][0] == "return" or any(s in can for s in succs(blocks[i]["t"]))):
                can.add(i)
                change = True
    # post-dominators over returning blocks
    pd = {i: set(can) for i in can}
    for i in can:
        if blocks[i]["t"][0] == "return":
            pd[i] = {i}
    change = True
    while change:
        change = False
        for i in can:
            ss = [s for s in succs(blocks[i]["t"]) if s in can]
            if not ss:
                continue
            new = set.intersection(*[pd[s] for s in ss]) | {i}
            if new != pd[i]:
                pd[i] = new
                change = True
    tainted = set()
    hot = set()  # blocks executed depending on shared state
    seen_source = False
    while True:
        before = (len(tainted), len(hot))
        for i in live:
            b = blocks[i]
            for s in b["s"]:
                if s[0] == "assign":
                    if source_in(s[2], shared):
                        seen_source = True
                        tainted.add(s[1][0])
                    elif locals_in(s[2], set()) & tainted or i in hot:
                        if i not in hot or not zero_sized(fn.locals[s[1][0]][0]):
                            tainted.add(s[1][0])
            t = b["t"]
            if t[0] == "call":
                f = t[1][1][1] if t[1][0] == "const" and t[1][1][0] == "fn" else {}
                r = f.get("resolved") or f
                src = source_in(t[2], shared) or r.get("id") in returning
                seen_source = seen_source or src
                if src or locals_in(t[2], set()) & tainted or i in hot:
                    if not zero_sized(fn.locals[t[3][0]][0]):
                        tainted.add(t[3][0])
            if t[0] in ("switch", "assert") and t[0] == "switch" and locals_in(t[1], set()) & tainted and i in can:
                ss = [x for x in succs(t) if x in can]
                if len(set(ss)) > 1:
                    join = pd[i] - {i}
                    todo = [x for x in ss if x not in join]
                    while todo:
                        x = todo.pop()
                        if x in hot or x not in can or x in join:
                            continue
                        hot.add(x)
                        todo += succs(blocks[x]["t"])
        if (len(tainted), len(hot)) == before:
            break
    if not seen_source:
        return None
    if 0 in tainted and not zero_sized(fn.locals[0][0]):
        return "returned value"
    for p in range(1, fn.nargs + 1):
        t = fn.locals[p][0]
        if p in tainted and t[0] == "ref" and t[1]:
            return "parameter changed through a reference"
    for i in hot:
        t = blocks[i]["t"]
        if t[0] == "call":
            for o, ty in zip(t[2], t[6]):
                if ty and ty[0] == "ref" and ty[1] and not any(w in json.dumps(t[1]) for w in PRINTS):
                    return "call changing a value"
    return None


def check(c):
    F = c.F
    pub = [a for a in F.auto if a[2]]
    c.ob("types analysed", len(pub) >= 20, None, "%d public type instances" % len(pub))
    heads = {a[0].split("::")[-1] for a in F.auto}
    for h in MUST:
        c.ob("type %s exists" % h, h in heads, None, "no type %s" % h)
    for path, text, public, send, sync in F.auto:
        if public:
            name = text.replace("cgar::", "")
            short = "::".join(path.split("::")[-1:]) + text[text.find("<"):] if "<" in text else path.split("::")[-1]
            c.ob("Send %s" % short, send, None, "%s cannot be moved to another thread" % name)
            c.ob("Sync %s" % short, sync, None, "%s cannot be shared between threads" % name)
    own = lambda u: not str(u[2]).endswith("TrivialClone") if u[0] == "unsafe impl" else not str(u[1]).startswith("/")  # not from std macros and derives
    bad = [u for u in F.unsafe if own(u)]
    for u in bad:
        c.ob("no unsafe code: %s %s" % (u[0], u[1]), False, None, "%s in %s %s" % tuple(u))
    c.ob("no unsafe code", not bad, None, "%d unsafe constructs" % len(bad))

    shared = set()
    for path, ty, mut, freeze in F.statics:
        if mut:
            c.ob("no static mut: %s" % path.split("::")[-1], False, None, "%s is a mutable static" % path)
        if mut or (not freeze and not mentions(ty[:2], ONCE)):
            shared.add(path)
    # values that shared state flows into, through accessors without arguments
    returning = set()
    hits = {}
    while True:
        n = len(returning)
        for fn in F.fns.values():
            if fn.id in returning or fn.id in hits:
                continue
            why = influence(F, fn, shared, returning)
            if why is None:
                continue
            if why == "returned value" and (fn.nargs == 0 or fn.kind == "Closure"):
                returning.add(fn.id)
            else:
                hits[fn.id] = why
        if len(returning) == n:
            break
    for i, why in hits.items():
        fn = F.fns[i]
        c.ob("result independent of global state: %s" % fn_key(F, fn), False, fn, "%s depends on shared mutable state" % why)
    c.ob("no function result depends on shared mutable state", not hits, None, "%d functions analysed, %d shared statics" % (len(F.fns), len(shared)))

    # interior mutability of the lazy number
    lz = c.adt_path("LazyExact")
    todo, seen = [("adt", lz, ())], set()
    while todo:
        t = todo.pop()
        if not isinstance(t, tuple) or t in seen:
            continue
        seen.add(t)
        if t and t[0] == "adt" and t[1] in F.adts:
            for _, fields in F.adts[t[1]]["variants"]:
                for f, ft, _ in fields:
                    head = ft[1].split("::")[-1] if ft[0] == "adt" else ""
                    if head in ONCE:
                        c.ob("cache %s is write-once" % f, True)
                    elif head in CELLS:
                        c.ob("cache %s is write-once" % f, None, None, "interior mutability %s" % head)
                    todo.append(ft)
        else:
            todo += [x for x in t if isinstance(x, tuple)]
