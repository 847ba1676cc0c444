"""Text: strings, formatting, writers and line readers.

A text is a list of pieces: literal strings, printed numbers `shown(x, type)` and unknown tokens `tok(name)`. Printed numbers and tokens contain no whitespace."""
import ast
import re
from .terms import *
from .models import ext, ok, err, opt, some, NONE, UNIT, it, simp_path
from . import models

TEXT = ("str", "text", "tok", "shown", "bytes")
WS = " \t\r\n\x0b\x0c"


def pieces(v):
    """pieces of a text value, None if unknown"""
    if v.op in ("str",):
        return (v,) if v.args[0] else ()
    if v.op in ("tok", "shown"):
        return (v,)
    if v.op == "text":
        return v.args
    if v.op == "bytes":
        return (mk("str", v.args[0]),)
    return None


def text(ps):
    out = []
    for p in ps:
        if p.op == "str":
            if not p.args[0]:
                continue
            if out and out[-1].op == "str":
                out[-1] = mk("str", out[-1].args[0] + p.args[0])
                continue
        out.append(p)
    if not out:
        return mk("str", "")
    return out[0] if len(out) == 1 else mk("text", *out)


def cut(ps, sep):
    """split pieces at the characters accepted by sep"""
    parts = [[]]
    for p in ps:
        if p.op != "str":
            parts[-1].append(p)
            continue
        cur = ""
        for ch in p.args[0]:
            if sep(ch):
                parts[-1].append(mk("str", cur))
                parts.append([])
                cur = ""
            else:
                cur += ch
        parts[-1].append(mk("str", cur))
    return [text(x) for x in parts]


def words(ps):
    return [x for x in cut(ps, lambda ch: ch in WS) if pieces(x)]


def lines(ps):
    out = cut(ps, lambda ch: ch == "\n")
    if out and not pieces(out[-1]):
        out.pop()
    return out


def template(raw):
    """pieces of a compiled format template: literals, ('arg', i or None, options)"""
    b = raw
    i = 0
    out = []
    nxt = 0
    u16 = lambda j: b[j] | b[j + 1] << 8
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i : i + n].decode("utf-8"))
            i += n
        elif n == 0x80:
            k = u16(i)
            i += 2
            out.append(b[i : i + k].decode("utf-8"))
            i += k
        else:
            o = {}
            if n & 1:
                o["flags"] = u16(i) | u16(i + 2) << 16
                i += 4
            if n & 2:
                o["width"] = u16(i)
                i += 2
            if n & 4:
                o["precision"] = u16(i)
                i += 2
            if n & 8:
                nxt = u16(i)
                i += 2
            if n & 48:
                o["dynamic"] = n & 48
            out.append((nxt, o))
            nxt += 1
    return out


def text_eq(a, b):
    """condition under which two texts are equal, None if unknown"""
    pa, pb = pieces(a), pieces(b)
    if pa is None or pb is None:
        return None
    if pa == pb:
        return TRUE
    la = all(p.op == "str" for p in pa)
    lb = all(p.op == "str" for p in pb)
    if la and lb:
        return FALSE
    if lb:
        pa, pb, la, lb = pb, pa, lb, la
    if la and len(pb) == 1:
        s = "".join(p.args[0] for p in pa)
        if not s or any(ch in WS for ch in s):
            return FALSE
        if pb[0].op == "tok":
            return bvar(("reads", pb[0].args[0], s))
        if pb[0].op == "shown":
            return FALSE if not number(s, "f64") else None
    return None


def number(s, ty):
    """value of a literal, None when it does not parse"""
    if ty in ("usize", "u64", "u32", "u16", "u8", "i64", "i32", "isize"):
        if re.fullmatch(r"\+?\d+" if ty[0] == "u" else r"[+-]?\d+", s):
            bits = 64 if ty.endswith("size") else int(ty[1:])
            lo, hi = (0, 2**bits) if ty[0] == "u" else (-(2 ** (bits - 1)), 2 ** (bits - 1))
            return num(int(s)) if lo <= int(s) < hi else None
        return None
    if re.fullmatch(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)", s):
        from fractions import Fraction

        x = float(s)
        return mk("fconst", "inf" if x > 0 else "-inf") if x in (float("inf"), float("-inf")) else num(Fraction(x))
    if re.fullmatch(r"[+-]?(inf|infinity|nan)", s, re.I):
        return mk("fconst", s.lower())
    return None


# ---------------------------------------------------------------- strings
def _same(k):
    v = k.val(0)
    return v if all(l.op in TEXT for l, _ in leaves(v)) else None


ext(
    "std::string::ToString::to_string", "std::string::String::as_str", "std::string::String::from", "std::str::to_owned", "std::str::to_string",
    "std::hint::must_use", "std::str::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes", "std::str::as_str", "std::str::to_owned", "std::string::String::into_boxed_str",
)(_same)


def over(k, f, i=0):
    """lift f over the alternatives of a text argument"""
    v = k.val(i)
    if not all(l.op in TEXT for l, _ in leaves(v)):
        return None
    return vmap(f, v)


@ext("std::str::split_whitespace", "std::str::split_ascii_whitespace")
def _words(k):
    q = over(k, lambda x: mk("seq", *words(pieces(x))))
    return None if q is None else it("Val", q, ZERO, k.ip.seqlen(q))


@ext("std::str::lines")
def _lines(k):
    q = over(k, lambda x: mk("seq", *lines(pieces(x))))
    return None if q is None else it("Val", q, ZERO, k.ip.seqlen(q))


def _sep(k, i):
    s = k.args[i]
    if s.op == "char":
        ch = s.args[0]
        if isinstance(ch, str) and len(ch) > 1:
            ch = ast.literal_eval(ch) if ch[0] in "'\"" else ch
        if isinstance(ch, int):
            ch = chr(ch)
        return lambda c: c == ch
    if s.op == "str" and len(s.args[0]) == 1:
        return lambda c: c == s.args[0]
    return None


@ext("std::str::split")
def _split(k):
    sep = _sep(k, 1)
    if sep is None:
        return None
    q = over(k, lambda x: mk("seq", *cut(pieces(x), sep)))
    return None if q is None else it("Val", q, ZERO, k.ip.seqlen(q))


def _strip(x, left=True, right=True):
    ps = list(pieces(x))
    if left and ps and ps[0].op == "str":
        ps[0] = mk("str", ps[0].args[0].lstrip(WS))
    if right and ps and ps[-1].op == "str":
        ps[-1] = mk("str", ps[-1].args[0].rstrip(WS))
    return text(ps)


@ext("std::str::trim", "std::str::trim_start", "std::str::trim_end")
def _trim(k):
    return over(k, lambda x: _strip(x, not k.path.endswith("_end"), not k.path.endswith("_start")))


@ext("std::str::is_empty", "std::string::String::is_empty")
def _empty(k):
    v = k.val(0)
    if not all(l.op in TEXT for l, _ in leaves(v)):
        return None
    return vmap(lambda x: B(FALSE if pieces(x) else TRUE), v)


@ext("std::str::starts_with", "std::str::strip_prefix")
def _prefix(k):
    v, p = k.val(0), k.args[1]
    if p.op == "char":
        p = mk("str", p.args[0])
    p = k.ip.deref_all(k.st, p)
    if p.op != "str" or not all(l.op in TEXT for l, _ in leaves(v)):
        return None
    r = []
    for l, _ in leaves(v):
        ps = pieces(l)
        if ps and ps[0].op != "str" and ps[0].op != "shown":
            return None
    s = lambda x: pieces(x)[0].args[0] if pieces(x) and pieces(x)[0].op == "str" else ""
    if k.path.endswith("starts_with"):
        return vmap(lambda x: B(TRUE if s(x).startswith(p.args[0]) else FALSE), v)
    return vmap(lambda x: some(text((mk("str", s(x)[len(p.args[0]) :]),) + tuple(pieces(x)[1:]))) if s(x).startswith(p.args[0]) else NONE, v)


@ext("std::str::parse", "std::str::FromStr::from_str")
def _parse(k):
    t = k.targs[0] if k.targs else None
    if not isinstance(t, tuple):
        return None
    ty = t[1] if t[0] in ("int", "float") else None
    if ty is None:
        return None
    fail = err(mk("sym", "parse error"))

    def one(x):
        ps = pieces(x)
        if len(ps) == 1 and ps[0].op == "shown":
            v, st = ps[0].args
            if ty in ("f64", "f32"):
                return ok(v)
            return ok(v) if st not in ("f64", "f32") else mk("sym", "parsed")
        if len(ps) == 1 and ps[0].op == "tok":
            n = k.ip.typed(mk("sym", "read %s as %s" % (ps[0].args[0], ty)), t)
            return vite(bvar(("parses", ps[0].args[0], ty)), ok(n), fail)
        if all(p.op == "str" for p in ps):
            v = number("".join(p.args[0] for p in ps), ty)
            return fail if v is None else ok(v)
        return fail

    return over(k, one)


@ext("std::string::String::push_str", "std::string::String::push")
def _push(k):
    new = k.val(1)
    if new.op == "char":
        new = mk("str", new.args[0])
    old = k.one(0)
    if old.op == "seq" and not old.args:
        old = mk("str", "")
    if pieces(old) is None or pieces(new) is None:
        return None
    k.ip.write(k.st, k.ref(0), text(pieces(old) + pieces(new)))
    return UNIT


# ---------------------------------------------------------------- formatting
def _arg(k):
    v = k.val(0)
    t = k.targs[0] if k.targs else None
    while isinstance(t, tuple) and t and t[0] == "ref":
        t = t[2]
    return mk("farg", k.path.split("new_")[-1], v, t[1] if isinstance(t, tuple) and t[0] in ("int", "float") else "")


ext("std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::new_debug", "std::fmt::rt::Argument::new_lower_exp", "std::fmt::rt::Argument::new_upper_exp")(_arg)


@ext("std::fmt::Arguments::new")
def _arguments(k):
    t, a = k.val(0), k.ip.expand(k.val(1))
    if t.op != "bytes" or a.op not in ("arr", "seq"):
        return None
    out = []
    for p in template(t.args[0].encode("latin-1")):
        if isinstance(p, str):
            out.append(mk("str", p))
            continue
        i, o = p
        if i >= len(a.args):
            return None
        g = a.args[i]
        if g.op != "farg":
            return None
        kind, v, ty = g.args
        v = k.ip.deref_all(k.st, v)
        ps = pieces(v)
        if ps is not None and kind == "display" and not o:
            out += ps
            continue
        if not ty:
            return None
        if ty in ("f64", "f32") and ("precision" in o or o.get("dynamic", 0) & 32):
            v = vmap(lambda x: mk("printed", x, o.get("precision", -1)), v)
        if "width" in o or o.get("dynamic", 0) & 16:
            out.append(mk("str", " "))
        out.append(mk("shown", v, ty))
    return text(out)


@ext("std::fmt::Arguments::from_str", "std::fmt::Arguments::new_const", "std::fmt::format")
def _plain(k):
    v = k.val(0)
    return v if pieces(v) is not None else None


# ---------------------------------------------------------------- files
@ext("std::fs::File::create")
def _create(k):
    return ok(mk("sym", "created file"))


@ext("std::fs::File::open")
def _open(k):
    return ok(mk("sym", "opened file"))


@ext("std::io::BufWriter::new", "std::io::BufWriter::with_capacity", "std::io::LineWriter::new")
def _writer(k):
    return mk("struct", "std::io::BufWriter", 0, mk("str", ""))


def _emit(k, ps):
    old = k.one(0)
    if old.op == "ref":
        return None
    if old.op != "struct" or old.args[0] != "std::io::BufWriter" or pieces(old.args[2]) is None:
        return None
    new = text(pieces(old.args[2]) + tuple(ps))
    k.ip.write(k.st, k.ref(0), mk("struct", "std::io::BufWriter", 0, new))
    if k.ip.sink is None:
        k.ip.sink = []
    k.ip.sink.append((k.st.pc, tuple(ps)))
    return ok(UNIT)


@ext("std::io::Write::write_fmt", "std::io::Write::write_all", "std::fmt::Write::write_str", "std::fmt::Write::write_fmt")
def _write(k):
    v = k.val(1)
    ps = pieces(v)
    return None if ps is None else _emit(k, ps)


@ext("std::io::Write::flush")
def _flush(k):
    return ok(UNIT)


@ext("std::io::BufReader::new", "std::io::BufReader::with_capacity")
def _reader(k):
    return k.args[-1]


@ext("std::io::BufRead::lines")
def _flines(k):
    src = k.ip.source
    if src is None:
        return None
    fail = err(mk("sym", "read error"))
    q = mk("seq", *[vite(bvar(("readable", i)), ok(x), fail) for i, x in enumerate(src)])
    return it("Val", q, ZERO, num(len(src)))


@ext("std::io::Read::read_to_string", "std::fs::read_to_string", "std::io::read_to_string")
def _all(k):
    src = k.ip.source
    if src is None:
        return None
    ps = []
    for x in src:
        ps += list(pieces(x)) + [mk("str", "\n")]
    if k.path.endswith("Read::read_to_string"):
        k.ip.write(k.st, k.ref(1), text(ps))
        return vite(bvar(("readable", 0)), ok(mk("sym", "size")), err(mk("sym", "read error")))
    return vite(bvar(("readable", 0)), ok(text(ps)), err(mk("sym", "read error")))
