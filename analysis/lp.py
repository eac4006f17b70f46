"""Linear arithmetic over the facts of a state: is a form non-negative in every state they
allow?  Decided by looking for a non-negative combination of the facts that equals the form
(Farkas), with exact rational arithmetic.  This is the entailment test of the polyhedra domain."""
from fractions import Fraction
from dom import *
import dom

MAXVARS, MAXROWS = 40, 160


def entails(l, F, splits=4):
    """l >= 0 holds wherever F does (sound, incomplete over the integers)"""
    if l[0] == 'c' and l[1] >= 0:
        return True
    lo, hi = bounds(l, F)
    if lo >= 0:
        return True
    return _entails(l, F, splits, frozenset())


def _entails(l, F, splits, done):
    rows, vs = system(l, F)
    for v in sorted(vs, key=repr):
        # a truth value inside a sum is considered both ways
        if splits and v not in done and is_bool(v) and F.get(('eq', v)) is None and v in lin(l)[1]:
            c, d = lin(l)
            for x in (0, 1):
                F2 = assume(v, x, F)
                if F2 is None:
                    continue
                if not _entails(mk(c + d[v] * x, {a: b for a, b in d.items() if a != v}), F2, splits - 1, done | {v}):
                    return False
            return True
    if len(vs) > MAXVARS or len(rows) > MAXROWS:
        return False
    return farkas(l, rows)


def infeasible(F, seed):
    """the facts connected to the atoms of seed contradict each other"""
    rows, vs = system(seed, F)
    if len(vs) > MAXVARS or len(rows) > MAXROWS:
        return False
    return farkas(C(-1), rows)


def inner(t):
    """atoms of the number a quotient or conversion is taken of"""
    x = t[1] if t[0] == 'div' else t[3][0]
    out = set()
    for a in lin(x)[1]:
        out.add(a)
        if a[0] == 'div' or a[0] == 'op' and a[1] == 'wrap':
            out |= inner(a)
    return out


def system(l, F):
    """facts connected to l: forms that are >= 0"""
    forms = [lin(k[1]) for k in F if k[0] == 'ge']
    vs, todo, rows = set(), list(lin(l)[1]), []
    used = set()
    by = {}
    for i, (c, d) in enumerate(forms):
        for t in d:
            by.setdefault(t, []).append(i)
            if t[0] == 'div' or t[0] == 'op' and t[1] == 'wrap':
                for x in inner(t):
                    by.setdefault(x, []).append(i)
    while todo:
        t = todo.pop()
        if t in vs:
            continue
        vs.add(t)
        if t[0] == 'lin':
            continue
        lo, hi = bounds(t, F)
        if lo > -INF:
            rows.append((-lo, {t: 1}))
        if hi < INF:
            rows.append((hi, {t: -1}))
        if t[0] == 'div':
            c, d = lin(t[1])
            k = t[2]
            up = dict(d)
            up[t] = up.get(t, 0) - k
            rows.append((c, {a: b for a, b in up.items() if b}))
            dn = {a: -b for a, b in up.items() if b}
            rows.append((k - 1 - c, dn))
            todo.extend(d)
        if t[0] == 'op' and t[1] == 'wrap':
            # a conversion that cannot overflow changes nothing
            lo, hi = dom.TYPES.intrange(t[2])
            a, b = bounds(t[3][0], F)
            if lo <= a and b <= hi:
                c, d = lin(t[3][0])
                eq = {x: -y for x, y in d.items()}
                eq[t] = eq.get(t, 0) + 1
                rows.append((-c, eq))
                rows.append((c, {x: -y for x, y in eq.items()}))
                todo.extend(d)
        for i in by.get(t, ()):
            if i not in used:
                used.add(i)
                rows.append(forms[i])
                todo.extend(forms[i][1])
        if len(vs) > MAXVARS:
            break
    return rows, vs


def farkas(l, rows):
    """some non-negative combination of rows, with constant at most that of l (+1, exclusive),
    has the coefficients of l"""
    c0, d0 = lin(l)
    vs = sorted({v for _, d in rows for v in d} | set(d0), key=repr)
    have = {v for _, d in rows for v in d}
    if any(v not in have for v in d0):
        # l constrains something the facts do not mention: only a contradiction could help
        return False
    m, n = len(vs), len(rows)
    if not n:
        return False
    # columns: rows then artificials;  A x = b, x >= 0
    T = []
    for i, v in enumerate(vs):
        b = Fraction(d0.get(v, 0))
        r = [Fraction(d.get(v, 0)) for _, d in rows]
        if b < 0:
            r = [-x for x in r]
            b = -b
        T.append(r + [Fraction(1 if j == i else 0) for j in range(m)] + [b])
    basis = [n + i for i in range(m)]
    cost = [Fraction(0)] * n + [Fraction(1)] * m
    if not simplex(T, basis, cost, n + m, None):
        return False
    if any(T[i][-1] for i in range(m) if basis[i] >= n):
        return False
    # drive artificials out where possible, then minimise the constant
    for i in range(m):
        if basis[i] >= n:
            for j in range(n):
                if T[i][j]:
                    pivot(T, basis, i, j)
                    break
    cost = [Fraction(c) for c, _ in rows] + [Fraction(0)] * m
    limit = Fraction(c0 + 1)
    return simplex(T, basis, cost, n, limit)


def pivot(T, basis, i, j):
    p = T[i][j]
    row = T[i] = [x / p if x else x for x in T[i]]
    for k in range(len(T)):
        if k != i:
            f = T[k][j]
            if f:
                T[k] = [a - f * b if b else a for a, b in zip(T[k], row)]
    basis[i] = j


def simplex(T, basis, cost, n, limit):
    """Minimises cost; with a limit, true as soon as the value is below it."""
    m = len(T)
    # reduced costs
    z = list(cost) + [Fraction(0)]
    for i in range(m):
        f = cost[basis[i]]
        if f:
            z = [a - f * b if b else a for a, b in zip(z, T[i])]
    for _ in range(400):
        if limit is not None and -z[-1] < limit:
            return True
        j = next((j for j in range(n) if z[j] < 0), None)
        if j is None:
            return limit is None
        best = None
        for i in range(m):
            if T[i][j] > 0:
                q = T[i][-1] / T[i][j]
                if best is None or q < best[0] or q == best[0] and basis[i] < basis[best[1]]:
                    best = (q, i)
        if best is None:
            return limit is not None     # unbounded below
        pivot(T, basis, best[1], j)
        f = z[j]
        z = [a - f * b if b else a for a, b in zip(z, T[best[1]])]
    return False
