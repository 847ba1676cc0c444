"""C46: malformed mesh files."""
from files import *

EXPLAIN = (
    "Each reader is interpreted on files whose words are unknown: an unknown word may or may not parse, and may parse to any number. On every path the reader "
    "has to return; where a needed field is missing, does not parse, is not finite or names no vertex it has to return an error; whenever a triangle is added, "
    "its corners have to be vertices added before. Records are shortened field by field and files word by word or line by line."
)
RULES = [
    "the path condition of returning covers all values of the unknown words (no panic, no failed index or overflow assertion)",
    "at each triangle insertion every index is below the number of vertices on that path; at each vertex insertion the coordinates are finite",
    "missing or unparsable needed field, index out of range => error value; well-formed record => no error",
]
PARALLEL = True
TOP = 6


def tok(n):
    return mk("tok", n)


def integer(n):
    """what is known of an unknown word read as index: a natural number"""
    x = mk("sym", "read %s as usize" % n)
    b = bnot(Neg(x))
    ks = [num(k) for k in range(TOP + 1)]
    b = band(b, order_axioms([x] + ks))
    for k in range(TOP):
        b = band(b, bnot(band(Pos(vsub(x, ks[k])), Neg(vsub(x, ks[k + 1])))))
    return b


def value(n):
    return mk("sym", "read %s as usize" % n)


def natural(n, lo, hi):
    """word n is a number in lo..hi-1"""
    x = value(n)
    return band(bvar(("parses", n, "usize")), bnot(Neg(vsub(x, num(lo)))), Neg(vsub(x, num(hi))))


def double(n):
    x = mk("sym", "read %s as f64" % n)
    return band(bvar(("parses", n, "f64")), bvar(("finite", x)))


def distinct(*ns):
    b = TRUE
    for i, x in enumerate(ns):
        for y in ns[:i]:
            b = band(b, bnot(Z(vsub(value(x), value(y)))))
    return b


def robust(c, rd, lines, toks=(), good=None, bad=FALSE, extra=TRUE, faces=None):
    pre = extra
    for t in toks:
        pre = band(pre, integer(t))
    calls, points = [], []

    def triangle(ip, st, args, atys, dty, r):
        root, path = ip.refs_of(st, args[0])[0][1:]
        vs = ip.read(st, root, path + (("f", 0, P0.mfields.index("vertices")),))
        for l, pc in leaves(vs, st.pc):
            if l.op != "seq":
                raise Undecided("vertex table not known")
            calls.append((pc, args[1:], len(l.args)))
        return num(len(calls))

    P0 = Patch(c, 3)

    def vertex(ip, st, p):
        points.append((st.pc, coords(ip, p, 3)))

    r, Q = reading(c, rd, lines, pre, triangle=triangle, log=vertex)
    ip = r.ip
    rest = band(pre, bnot(r.pc))
    if rest != FALSE:
        op = opaque_part(B(r.pc))
        return (None if op else False), "the reader does not return when %s" % (op or showb(rest, 3, 1)[:160])
    for pc, ix, n in calls:
        for x in ix:
            for t, d in leaves(x, band(pre, pc)):
                out = bor(Neg(t), bnot(Neg(vsub(t, num(n)))))
                if band(d, out) != FALSE:
                    op = opaque_part(t) or opaque_part(B(pc))
                    return (None if op else False), "a triangle with corner %s is added to %d vertices" % (show(t)[:60], n)
    for pc, ps in points:
        for x in ps:
            for t, d in leaves(x, band(pre, pc)):
                if t.op != "num" and band(d, bnot(bvar(("finite", t)))) != FALSE:
                    op = opaque_part(t) or opaque_part(B(pc))
                    return (None if op else False), "a vertex with coordinate %s is added without the number being finite" % show(t)[:60]
    err = ip.isvar(r.ret, 1, "std::result::Result")
    op = opaque_part(B(err))
    w = band(pre, bad, bnot(err))
    if w != FALSE:
        return (None if op else False), "no error although the file is malformed: %s" % showb(w, 3, 1)[-300:]
    if good is not None:
        w = band(pre, good, err)
        if w != FALSE:
            return (None if op else False), "an error although the file is well-formed: %s" % showb(w, 3, 1)[-300:]
        if faces is not None and not any(band(pre, good, pc) != FALSE for pc, _, _ in calls) and faces:
            return False, "the triangle of a well-formed file is not added"
    return True, "%d triangle, %d vertex insertions" % (len(calls), len(points))


OBJ = [("v", "0", "0", "0"), ("v", "1", "0", "0"), ("v", "0", "1", "0")]
OFF = ["OFF", "3", "1", "0", "0", "0", "0", "1", "0", "0", "0", "1", "0", "3", "0", "1", "2"]
STL = [
    ("solid", "mesh"),
    ("facet", "normal", "0", "0", "1"),
    ("outer", "loop"),
    ("vertex", "0", "0", "0"),
    ("vertex", "1", "0", "0"),
    ("vertex", "0", "1", "0"),
    ("endloop",),
    ("endfacet",),
    ("endsolid", "mesh"),
]


def obj(c):
    rd = free_fn(c, "read_obj")

    def on(label, recs, *a, **k):
        c.guard("OBJ, " + label, rd, lambda: robust(c, rd, [line(*x) for x in recs], *a, **k))

    on("whole file", OBJ + [("f", "1", "2", "3")], good=band(*[bvar(("readable", i)) for i in range(4)]), faces=1)
    names = ["x", "y", "z", "w"]
    for n in range(5):
        ts = names[:n]
        ok = band(*[double(t) for t in ts[:3]]) if n >= 3 else FALSE
        ok = band(ok, *[bvar(("readable", i)) for i in range(4)])
        on("vertex record with %d unknown fields" % n, OBJ + [("v", *map(tok, ts))], ts, good=ok if n == 3 else None, bad=bnot(ok) if n < 4 else FALSE)
        ok = band(*[natural(t, 1, 4) for t in ts[:3]]) if n >= 3 else FALSE
        ok = band(ok, *[bvar(("readable", i)) for i in range(4)])
        on("face record with %d unknown fields" % n, OBJ + [("f", *map(tok, ts))], ts, good=band(ok, distinct(*ts)) if n == 3 else None, bad=bnot(ok) if n < 4 else FALSE, faces=1 if n == 3 else None)
        on("face record with %d unknown fields before any vertex" % n, [("f", *map(tok, ts))] + OBJ, ts)
        on("face record with %d unknown fields between vertices" % n, OBJ[:2] + [("f", *map(tok, ts))] + OBJ[2:], ts)
        kw = band(bnot(band(bvar(("reads", "k", "v")), bvar(("reads", "k", "f")))))
        on("unknown record with %d unknown fields" % n, OBJ + [(tok("k"), *map(tok, ts))], ts, extra=kw)
    for k in range(3):
        t = ["1", "2", "3"]
        t[k] = tok("x")
        ok = band(natural("x", 1, 4), *[bvar(("readable", i)) for i in range(4)])
        on("face record with unknown field %d" % k, OBJ + [("f", *t)], ["x"], bad=bnot(ok), good=band(ok, natural("x", k + 1, k + 2)), faces=1)
        for bad in ("0", "4", "-1", "x", "1.5", "99999999999999999999", "1/1/1"):
            t[k] = bad
            on("face record with field %d being %s" % (k, bad), OBJ + [("f", *t)], bad=TRUE)
        t = ["0", "0", "0"]
        for bad in ("x", "0,5", "nan", "inf", "1e999"):
            t[k] = bad
            on("vertex record with field %d being %s" % (k, bad), OBJ + [("v", *t)], bad=TRUE)


def off(c):
    rd = free_fn(c, "read_off")

    def on(label, ws, *a, **k):
        c.guard("OFF, " + label, rd, lambda: robust(c, rd, [line(*x) for x in ws], *a, **k))

    def lay(ws):
        ws = list(ws)
        out, i = [], 0
        for n in (1, 3, 3, 3, 3, 4):
            out.append(ws[i : i + n])
            i += n
        out.append(ws[i:])
        return [x for x in out if x]

    full = lambda n: band(*[bvar(("readable", i)) for i in range(n)])
    on("whole file", lay(OFF), good=full(6), bad=bnot(full(6)), faces=1)
    for n in range(len(OFF)):
        on("only the first %d words" % n, lay(OFF[:n]), bad=TRUE)
    what = ["header", "vertex count", "face count", "edge count"] + ["coordinate"] * 9 + ["corner count", "corner", "corner", "corner"]
    for i, w in enumerate(what):
        ws = list(OFF)
        ws[i] = tok("x")
        k = {}
        if w == "header":
            k = dict(bad=bnot(bvar(("reads", "x", "OFF"))), good=band(bvar(("reads", "x", "OFF")), full(6)))
        elif w == "vertex count":
            k = dict(bad=bnot(natural("x", 0, 4)), good=band(natural("x", 3, 4), full(6)))
        elif w == "face count":
            k = dict(bad=bnot(natural("x", 0, 2)), good=band(natural("x", 1, 2), full(6)))
        elif w == "edge count":
            k = dict(good=band(bvar(("parses", "x", "usize")), full(6)))
        elif w == "coordinate":
            k = dict(bad=bnot(double("x")), good=band(double("x"), full(6)))
        elif w == "corner count":
            k = dict(bad=bnot(natural("x", 0, 4)), good=band(natural("x", 3, 4), full(6)))
        else:
            k = dict(bad=bnot(natural("x", 0, 3)), good=band(natural("x", i - 14, i - 13), full(6)))
        on("word %d (%s) unknown" % (i, w), lay(ws), ["x"], **k)
        if w == "corner count":
            on("short corner count", lay(ws), ["x"], extra=band(bvar(("parses", "x", "usize")), Neg(vsub(value("x"), num(TOP)))), bad=bnot(natural("x", 0, 4)))
        for b in {"header": ("COFF", "3"), "coordinate": ("x", "nan", "inf", "1e999")}.get(w, ("x", "-1", "1.5", "99999999999999999999")):
            ws[i] = b
            on("word %d (%s) being %s" % (i, w, b), lay(ws), bad=TRUE)
        if w == "corner":
            for b in ("3", "4", "1000000"):
                ws[i] = b
                on("word %d (%s) being %s" % (i, w, b), lay(ws), bad=TRUE)
    ts = ["x", "y", "z"]
    ok = band(*[natural(t, 0, 3) for t in ts])
    on("face with three unknown corners", lay(OFF[:14] + [tok(t) for t in ts]), ts, good=band(ok, distinct(*ts), full(6)), bad=bnot(ok), faces=1)
    on("no vertices, face with three unknown corners", [("OFF",), ("0", "1", "0"), ("3", *[tok(t) for t in ts])], ts, bad=TRUE)
    for n in (0, 1, 2, 4, 5):
        for k in range(n):
            on("polygon of %d corners, %d given" % (n, k), lay(OFF[:13]) + [[str(n)] + ["0"] * k], bad=TRUE)
        on("polygon of %d corners" % n, lay(OFF[:13]) + [[str(n)] + ["0"] * n])


def stl(c):
    rd = free_fn(c, "read_stl")

    def on(label, recs, *a, **k):
        c.guard("STL, " + label, rd, lambda: robust(c, rd, [line(*x) for x in recs], *a, **k))

    full = lambda n: band(*[bvar(("readable", i)) for i in range(n)])
    on("whole file", STL, good=full(9), faces=1)
    for n in range(len(STL)):
        on("only the first %d lines" % n, STL[:n])
    names = ["x", "y", "z", "w"]
    for at in (3, 4, 5):
        for n in range(5):
            ts = names[:n]
            ok = band(full(9), *[double(t) for t in ts[:3]]) if n >= 3 else FALSE
            on("vertex record %d with %d unknown fields" % (at - 3, n), STL[:at] + [("vertex", *map(tok, ts))] + STL[at + 1 :], ts, good=ok if n == 3 else None, bad=bnot(ok) if n < 4 else FALSE, faces=1 if n == 3 else None)
    for k in range(3):
        t = ["0", "0", "0"]
        for bad in ("x", "0,5", "nan", "inf", "1e999"):
            t[k] = bad
            on("vertex record with field %d being %s" % (k, bad), STL[:4] + [("vertex", *t)] + STL[5:], bad=TRUE)
    for n in range(8):
        V = [("vertex", str(i), str(i * i), "1") for i in range(n)]
        on("facet with %d vertices" % n, STL[:3] + V + STL[6:])
        on("facet with %d vertices and no end" % n, STL[:3] + V)
        on("end of facet after %d vertices outside" % n, V + STL[7:])
        on("facet with %d vertices and a second facet" % n, STL[:3] + V + STL[1:])
    for i in range(len(STL)):
        on("line %d missing" % i, STL[:i] + STL[i + 1 :])
        on("line %d twice" % i, STL[: i + 1] + STL[i:])
        ks = ["solid", "facet", "vertex", "endfacet", "endsolid", "outer", "endloop", "normal", "loop"]
        kw = TRUE
        for a in range(len(ks)):
            for b in range(a):
                kw = band(kw, bnot(band(bvar(("reads", "k", ks[a])), bvar(("reads", "k", ks[b])))))
        for n in (0, 3):
            ts = names[:n]
            on("line %d an unknown record with %d unknown fields" % (i, n), STL[:i] + [(tok("k"), *map(tok, ts))] + STL[i + 1 :], ts, extra=kw)


def check(c):
    obj(c)
    off(c)
    stl(c)
