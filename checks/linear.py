"""Emptiness of a decision in the domain of linear inequalities: sign atoms are read as linear constraints
over their monomials (a relaxation, so only genuinely impossible combinations are discarded)."""
from fractions import Fraction
import engine.terms as tm

LIMIT = 4000
ROWS = 400


def _row(p):
    d = tm.poly(p)
    return {m: c for m, c in d.items() if m != ()}, d.get((), Fraction(0))


def _empty(eqs, ges, gts):
    """no solution of eqs = 0, ges >= 0, gts > 0; None when too large"""
    rows = [(dict(r), k, 0) for r, k in eqs]
    ineq = [(dict(r), k, False) for r, k in ges] + [(dict(r), k, True) for r, k in gts]

    def subst(r, k, v, s, sk):
        f = r.pop(v, None)
        if f is None:
            return r, k
        for m, c in s.items():
            x = r.get(m, 0) + f * c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r, k + f * sk

    while rows:
        r, k, _ = rows.pop()
        if not r:
            if k != 0:
                return True
            continue
        v = next(iter(r))
        f = r[v]
        s = {m: -c / f for m, c in r.items() if m != v}
        sk = -k / f
        rows = [(*subst(x, y, v, s, sk), z) for x, y, z in rows]
        ineq = [(*subst(x, y, v, s, sk), z) for x, y, z in ineq]
    while True:
        todo = []
        seen = set()
        for r, k, st in ineq:
            if not r:
                if k < 0 or st and k == 0:
                    return True
                continue
            n = abs(next(iter(sorted(r.items(), key=lambda x: str(x[0]))))[1])
            key = (frozenset((m, c / n) for m, c in r.items()), k / n, st)
            if key not in seen:
                seen.add(key)
                todo.append((r, k, st))
        if not todo:
            return False
        if len(todo) > ROWS:
            return None
        vs = {}
        for r, k, st in todo:
            for m, c in r.items():
                a = vs.setdefault(m, [0, 0])
                a[c < 0] += 1
        v = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        up = [x for x in todo if x[0].get(v, 0) > 0]
        dn = [x for x in todo if x[0].get(v, 0) < 0]
        ineq = [x for x in todo if v not in x[0]]
        for r, k, st in up:
            for q, l, sq in dn:
                f, g = -q[v], r[v]
                n = {}
                for m, c in r.items():
                    n[m] = c * f
                for m, c in q.items():
                    n[m] = n.get(m, 0) + c * g
                ineq.append(({m: c for m, c in n.items() if c}, k * f + l * g, st or sq))


def possible(b, limit=LIMIT):
    """True: some way of the decision is not linearly contradictory; False: all are; None: too many to tell"""
    count = [0]
    unsure = [False]

    def leaf(lits):
        by = {}
        for (k, p), v in lits.items():
            if k in ("Z", "P") and isinstance(p, tm.T):
                by.setdefault(p, {})[k] = v
        eqs, ges, gts, ne = [], [], [], []
        for p, d in by.items():
            r, k = _row(p)
            neg = ({m: -c for m, c in r.items()}, -k)
            z, q = d.get("Z"), d.get("P")
            if z:
                eqs.append((r, k))
            elif z is False:
                if q is None:
                    ne.append((r, k))
                else:
                    gts.append((r, k) if q else neg)
            elif q is not None:
                ges.append((r, k) if q else neg)
        e = _empty(eqs, ges, gts)
        if e:
            return False
        if e is None:
            unsure[0] = True
            return False
        for r, k in ne:
            # a forced zero
            neg = ({m: -c for m, c in r.items()}, -k)
            if _empty(eqs, ges, gts + [(r, k)]) and _empty(eqs, ges, gts + [neg]):
                return False
        return True

    def go(x, lits):
        if x == tm.FALSE:
            return False
        if x == tm.TRUE:
            count[0] += 1
            if count[0] > limit:
                unsure[0] = True
                return False
            return leaf(lits)
        if unsure[0] and count[0] > limit:
            return False
        v = tm._bv[x]
        a = tm.ATOMS[v]
        for y, val in ((tm._bl[x], False), (tm._bh[x], True)):
            if y == tm.FALSE:
                continue
            n = lits
            if isinstance(a, tuple) and len(a) == 2:
                n = dict(lits)
                n[a] = val
            if go(y, n):
                return True
        return False

    if go(b, {}):
        return True
    return None if unsure[0] else False
