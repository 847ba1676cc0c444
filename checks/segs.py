"""Values of intersection segments."""
from lib import *
from common import *
from mesh import *
from collapse import mesh_of, SC

OPT = "std::option::Option"


def none():
    return mk("struct", OPT, 0)


def some(x):
    return mk("struct", OPT, 1, x)


def record(c, name, vals, default=None):
    """a value of the crate's record type with the given fields"""
    p = c.adt_path(name)
    fs = c.F.adts[p]["variants"][0][1]
    have = [f[0] for f in fs]
    for k in vals:
        if k not in have:
            raise MissingAnchor("`%s` has no field `%s`" % (name, k))
    return mk("struct", p, 0, *[vals[f] if f in vals else (default(f) if default else mk("sym", "%s.%s" % (name, f))) for f in have])


def field(c, ip, v, name, f):
    p = c.adt_path(name)
    have = [x[0] for x in c.F.adts[p]["variants"][0][1]]
    if f not in have:
        raise MissingAnchor("`%s` has no field `%s`" % (name, f))
    return ip.proj(v, ("f", 0, have.index(f)))


def point(c, xs):
    return mk("struct", c.adt_path("Point"), 0, mk("arr", *[x if not isinstance(x, int) else num(x) for x in xs]))


def end(c, vertex=None, **kw):
    v = {k: none() for k in ("vertex_hint", "half_edge_hint", "half_edge_u_hint", "faces_hint", "barycentric_hint")}
    v["resulting_vertex"] = none() if vertex is None else some(vertex if not isinstance(vertex, int) else num(vertex))
    v.update(kw)
    return record(c, "IntersectionEndPoint", v)


def segment(c, p, q, ref, coplanar=FALSE, va=None, vb=None, a=None, b=None):
    seg = record(c, "Segment", {"a": p, "b": q})
    return record(
        c,
        "IntersectionSegment",
        {
            "a": a or end(c, va),
            "b": b or end(c, vb),
            "segment": seg,
            "initial_face_reference": ref if not isinstance(ref, int) else num(ref),
            "links": mk("seq"),
            "coplanar": B(coplanar),
            "invalidated": B(FALSE),
            "split": B(TRUE),
        },
    )
