"""Shared machinery of the checks: anchors, obligations, evidence, verdicts."""
import json, os, re, resource, select, signal, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(200000)
from engine import facts, interp, models, terms as tm
from engine.terms import *
from engine.interp import Undecided, _t
from engine.facts import strip_ref, subst, unify

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = 6
EVID = os.path.join(ROOT, "evidence")
TP = ("param", "T")
USIZE = ("int", "usize")
F64 = ("float", "f64")


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class MissingAnchor(Exception):
    pass


def fmt_ty(t):
    """type printed without module paths and with generic parameters as _"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k in ("int", "float"):
        return t[1]
    if k in ("bool", "char", "str", "never"):
        return k
    if k in ("param", "cparam"):
        return "_"
    if k == "cval":
        return str(t[1])
    if k == "adt":
        h = t[1].split("::")[-1]
        return h + ("<" + ", ".join(fmt_ty(a) for a in t[2]) + ">" if t[2] else "")
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + fmt_ty(t[2])
    if k == "array":
        return "[%s; %s]" % (fmt_ty(t[1]), fmt_ty(t[2]))
    if k == "slice":
        return "[%s]" % fmt_ty(t[1])
    if k == "tuple":
        return "(%s)" % ", ".join(fmt_ty(x) for x in t[1])
    return k


def fn_key(F, f):
    if f.kind == "Closure":
        return "closure in " + f.path
    if f.impl is not None and f.impl in F.impl_by_id:
        im = F.impl_by_id[f.impl]
        s = fmt_ty(im["self"])
        if im["trait"]:
            tr = im["trait"]["path"].split("::")[-1]
            ta = im["trait"]["args"][1:]
            return "<%s as %s%s>::%s" % (s, tr, "<" + ", ".join(fmt_ty(a) for a in ta) + ">" if ta else "", f.name)
        return "%s::%s" % (s, f.name)
    if f.trait is not None:
        return "%s::%s" % (str(f.trait).split("::")[-1], f.name)
    return f.name


OPAQUE_OPS = {"call", "eff", "havoc", "mu", "bin", "un", "cast", "const", "updq", "proj", "agg", "offset", "frombits", "deref?", "zst"}
OPAQUE_ATOMS = {"call", "exit", "mu"}


def opaque_part(t):
    """first construct the analysis could not interpret inside t, or None"""
    hit = []

    def pred(x):
        if isinstance(x, T):
            if x.op in OPAQUE_OPS or x is UNDEF:
                hit.append(show(x, 3))
                return True
        return False

    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in OPAQUE_OPS:
                return "%s(%s)" % (x.op, x.args[0] if x.args else "")
            if x.op == "bool":
                for v in bsupport(x.args[0]):
                    a = tm.ATOMS[v]
                    if a[0] in OPAQUE_ATOMS:
                        return "%s(%s)" % (a[0], a[1])
                    stack.append(a)
            elif x.op == "ite":
                a = tm.ATOMS[x.args[0]]
                if a[0] in OPAQUE_ATOMS:
                    return "%s(%s)" % (a[0], a[1])
                stack.append(a)
                stack.extend(x.args[1:])
            else:
                stack.extend(x.args)
        elif isinstance(x, tuple):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x)
    return None


class Ctx:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.F = facts.load()
        self.obs = []  # dicts
        self.fns = set()
        self.callsites = 0
        self.loops = 0
        self.blocks = 0
        self.assumptions = []
        self.notes = []
        self.rules = []
        self.until = None
        self.deadline = 600
        self.parallel = False
        self.tasks = []
        self.running = {}
        self.keys = {}
        for f in self.F.fns.values():
            if f.kind in ("Fn", "AssocFn"):
                self.keys.setdefault(fn_key(self.F, f), []).append(f)
        signal.signal(signal.SIGALRM, _alarm)

    # ---------------------------------------------------------- anchors
    def fn(self, key):
        fs = self.keys.get(key)
        if not fs:
            raise MissingAnchor("no function `%s` in the crate" % key)
        return fs[0]

    def has(self, key):
        return key in self.keys

    def find(self, pat):
        r = re.compile(pat)
        return [(k, f) for k, fs in sorted(self.keys.items()) for f in fs if r.search(k)]

    def adt_path(self, name):
        for p in self.F.adts:
            if p.split("::")[-1] == name:
                return p
        raise MissingAnchor("no type `%s` in the crate" % name)

    def ty(self, name, *args):
        return ("adt", self.adt_path(name), tuple(args))

    def trait_path(self, name):
        for p in list(self.F.traits) + list(self.F.trait_impls):
            if p.split("::")[-1] == name:
                return p
        raise MissingAnchor("no trait `%s`" % name)

    def method(self, trait, targs, name):
        """(fn, env) of trait method `name` for the given trait arguments (Self first)"""
        tp = self.trait_path(trait) if "::" not in trait else trait
        ip = interp.Interp(self.F)
        im, e = ip.find_impl(tp, tuple(targs))
        if not im:
            raise MissingAnchor("no impl of %s for %s" % (trait, fmt_ty(targs[0])))
        mid = im["map"].get(name)
        if mid is not None and mid in self.F.fns:
            return self.F.fns[mid], e
        t = self.F.traits.get(tp)
        if t:
            for n, i, d in t["items"]:
                if n == name and i in self.F.fns:
                    f = self.F.fns[i]
                    return f, dict(zip(f.generics, tuple(targs)))
        raise MissingAnchor("no method %s of %s for %s" % (name, trait, fmt_ty(targs[0])))

    def impls(self, trait, head):
        """impls of a std/crate trait whose Self (refs stripped) is the ADT named head"""
        out = []
        for p, ims in self.F.trait_impls.items():
            if p.split("::")[-1] != trait:
                continue
            for im in ims:
                s = strip_ref(im["self"])
                if isinstance(s, tuple) and s and s[0] == "adt" and s[1].split("::")[-1] == head:
                    out.append(im)
        return out

    # ---------------------------------------------------------- running the analysis
    def run(self, fn, env=None, args=None, names=None, pre=None, limit=60, **kw):
        ip = interp.Interp(self.F, **{k: v for k, v in kw.items() if k in ("scalars", "opaque", "overrides", "abs_opaque", "maxatoms")})
        if "watch" in kw:
            ip.watch = kw["watch"]
        if "setup" in kw:
            kw["setup"](ip)
        left = self.until - time.time() if self.until else 1e9
        signal.setitimer(signal.ITIMER_REAL, max(0.01, min(limit, left)))
        try:
            res = ip.analyse(fn, env or {}, args, names, pre)
        except Timeout:
            raise Undecided("analysis budget exceeded")
        except tm.TooBig as e:
            raise Undecided("normal form too large: %s" % e)
        except (RecursionError, MemoryError) as e:
            raise Undecided("normal form too large: %s" % type(e).__name__)
        finally:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, self.until - time.time()) if self.until else 0)
        self.count(ip)
        return res

    def count(self, ip):
        self.fns |= ip.fns_seen
        self.callsites += ip.callsites
        self.loops += len(ip.loops)

    # ---------------------------------------------------------- obligations
    def ob(self, name, ok, fn=None, detail="", line=None):
        """record one obligation; ok: True / False / None (undecided)"""
        where = None
        if fn is not None:
            where = {"file": fn.file, "function": fn_key(self.F, fn), "line": line or fn.line}
        self.obs.append({"name": name, "ok": ok, "where": where, "detail": detail})
        return ok

    def guard(self, name, fn, thunk, per=200):
        """run thunk() -> (ok, detail); analysis limits become undecided obligations"""
        if self.parallel:
            return self.spawn(name, fn, thunk, per)
        return self.guarded(name, fn, thunk, per)

    def spawn(self, name, fn, thunk, per):
        """decide one obligation in a process of its own: obligations run side by side and one blow-up cannot affect another"""
        while len(self.running) >= JOBS:
            self.collect()
        sys.stdout.flush()
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 12 << 30))
                except Exception:
                    pass
                self.parallel = False
                self.obs, self.fns, self.callsites, self.loops = [], set(), 0, 0
                self.guarded(name, fn, thunk, per)
                with os.fdopen(wr, "w") as f:
                    json.dump([self.obs, sorted(self.fns), self.callsites, self.loops], f)
                code = 0
            except BaseException:
                if os.environ.get("CHECK_DEBUG"):
                    traceback.print_exc(file=sys.stdout)
                    sys.stdout.flush()
            finally:
                os._exit(code)
        os.close(wr)
        self.running[rd] = (pid, len(self.tasks), [])
        self.tasks.append([name, fn, None])

    def collect(self):
        ready, _, _ = select.select(list(self.running), [], [], 5)
        for rd in ready:
            pid, i, buf = self.running[rd]
            data = os.read(rd, 1 << 16)
            if data:
                buf.append(data)
                continue
            os.close(rd)
            os.waitpid(pid, 0)
            del self.running[rd]
            try:
                self.tasks[i][2] = json.loads(b"".join(buf))
            except ValueError:
                pass
            if os.environ.get("CHECK_LIVE"):
                for o in (self.tasks[i][2] or [[]])[0]:
                    print("%6.1f %s %s | %s" % (time.time() - self.t0, o["ok"], o["name"], o["detail"][:int(os.environ["CHECK_LIVE"])]), flush=True)

    def flush(self):
        while self.running:
            self.collect()
        for name, fn, res in self.tasks:
            if res is None:
                self.ob(name, None, fn, "not interpreted: analysis process ended without an answer")
                continue
            obs, fns, cs, loops = res
            self.obs += obs
            self.fns |= set(fns)
            self.callsites += cs
            self.loops += loops
        self.tasks = []

    def guarded(self, name, fn, thunk, per=200):
        left = self.deadline - (time.time() - self.t0)
        if left <= 1:
            return self.ob(name, None, fn, "not interpreted: time budget of the check used up")
        self.until = time.time() + min(per, left)
        signal.setitimer(signal.ITIMER_REAL, min(per, left))
        try:
            r = thunk()
        except (Undecided, tm.TooBig) as e:
            return self.ob(name, None, fn, "not interpreted: %s" % e)
        except RecursionError as e:
            return self.ob(name, None, fn, "not interpreted: recursion depth")
        except Timeout:
            return self.ob(name, None, fn, "not interpreted: budget")
        except MissingAnchor as e:
            return self.ob(name, False, fn, str(e))
        except MemoryError:
            return self.ob(name, None, fn, "not interpreted: memory budget")
        except Exception as e:
            if os.environ.get("CHECK_DEBUG"):
                raise
            return self.ob(name, None, fn, "not interpreted: %s %s" % (type(e).__name__, e))
        finally:
            self.until = None
            signal.setitimer(signal.ITIMER_REAL, 0)
        if r is None:
            return None
        ok, detail = r if isinstance(r, tuple) else (r, "")
        return self.ob(name, ok, fn, detail)

    def same(self, ip, got, want, pc=TRUE):
        """(ok, detail): do two values have the same normal form under pc"""
        d = self.diff(ip, got, want, pc)
        if d is None:
            return True, ""
        op = opaque_part(ip.full(got)) if isinstance(got, T) else None
        if op:
            return None, "contains %s" % op
        return False, d

    def diff(self, ip, a, b, pc=TRUE, path=""):
        if a is b or pc == FALSE:
            return None
        if a.op == "ite" or b.op == "ite":
            for x, c in leaves(a, pc):
                for y, c2 in leaves(b, c):
                    d = self.diff(ip, x, y, c2, path)
                    if d:
                        return d + (" when " + showb(c2, 4, 1) if " when " not in d else "")
            return None
        a, b = ip.expand(a), ip.expand(b)
        if a is b:
            return None
        if a is UNDEF or b is UNDEF:
            return "%s: undefined value" % path
        if a.op == "bool" or b.op == "bool":
            try:
                x = band(pc, bxor(bool_of(a), bool_of(b)))
            except Exception:
                return "%s: %s instead of %s" % (path, show(a, 5), show(b, 5))
            if x == FALSE:
                return None
            return "%s: differs when %s" % (path, showb(x, 5, 1))
        if a.op in ("struct", "clo") and b.op == a.op:
            if a.args[1] != b.args[1]:
                return "%s: variant %s instead of %s" % (path, show(a, 3), show(b, 3))
            if len(a.args) != len(b.args):
                return "%s: different shape" % path
            for i in range(2, len(a.args)):
                d = self.diff(ip, a.args[i], b.args[i], pc, path + ".%d" % (i - 2))
                if d:
                    return d
            return None
        if a.op in ("arr", "seq") and b.op in ("arr", "seq"):
            if len(a.args) != len(b.args):
                return "%s: %d elements instead of %d" % (path, len(a.args), len(b.args))
            for i in range(len(a.args)):
                d = self.diff(ip, a.args[i], b.args[i], pc, path + "[%d]" % i)
                if d:
                    return d
            return None
        sc = ("num", "poly", "inv")
        if a.op in sc or b.op in sc or ip.is_scalar_ty(ip.valty(a)) or ip.is_scalar_ty(ip.valty(b)):
            if a.op in ("struct", "arr", "seq") or b.op in ("struct", "arr", "seq"):
                return "%s: %s instead of %s" % (path, show(a, 4), show(b, 4))
            if req(a, b):
                return None
            # equal under the branch condition (e.g. x where x==0 is known)
            z = sign_parts(psub(a, b))[0]
            if band(pc, bnot(z)) == FALSE:
                return None
            return "%s: %s instead of %s" % (path, show(a, 6), show(b, 6))
        e = ip.eq(a, b)
        if band(pc, bnot(e)) == FALSE:
            return None
        return "%s: %s instead of %s" % (path, show(a, 4), show(b, 4))


# -------------------------------------------------------------------- known findings
def known_findings():
    """exact keys of recorded findings that are not fixed: {(property, obligation)}"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=(.+?) :: (.*)$", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def finish(ctx, technique_note):
    known = known_findings()
    viol, kn, und, okc = [], [], [], 0
    for o in ctx.obs:
        if o["ok"] is True:
            okc += 1
        elif o["ok"] is None:
            und.append(o)
        else:
            k = (ctx.pid, o["name"])
            if k in known:
                kn.append((o, known[k]))
            else:
                viol.append(o)
    ev = {
        "property": ctx.pid,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "other",
        "coverage": {
            "explanation": technique_note,
            "obligations": len(ctx.obs),
            "discharged": okc,
            "undecided": len(und),
            "known_findings": len(kn),
            "functions_analysed": len(ctx.fns),
            "call_sites_interpreted": ctx.callsites,
            "loops_summarised": ctx.loops,
            "rules": ctx.rules,
            "functions": sorted(ctx.fns)[:400],
            "obligation_list": [
                {"name": o["name"], "status": {True: "holds", False: "violated", None: "undecided"}[o["ok"]], "where": o["where"], "detail": o["detail"][:400]}
                for o in ctx.obs
            ][:1500],
        },
        "assumptions": ctx.assumptions,
        "violations": [{"key": o["name"], "where": o["where"], "detail": o["detail"]} for o in viol],
        "wall_s": round(time.time() - ctx.t0, 3),
    }
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, ctx.pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for o, txt in kn:
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, txt))
    print("%s: %d obligations, %d hold, %d undecided, %d functions analysed, %.1fs" % (ctx.pid, len(ctx.obs), okc, len(und), len(ctx.fns), ev["wall_s"]))
    if viol:
        rp = os.path.join(EVID, ctx.pid + ".replay.txt")
        with open(rp, "w") as f:
            for o in viol:
                w = o["where"] or {}
                f.write("%s\n  at %s:%s in %s\n  %s\n" % (o["name"], w.get("file"), w.get("line"), w.get("function"), o["detail"]))
            f.write("\nreplay: cd /verif && python3 checks/run.py %s\n" % ctx.pid)
        for o in viol[:20]:
            w = o["where"] or {}
            print("  broken: %s at %s:%s (%s): %s" % (o["name"], w.get("file"), w.get("line"), w.get("function"), o["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    return 0
