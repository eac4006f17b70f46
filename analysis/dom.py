"""Abstract values: constants, linear forms over value numbers, bit-set forms, aggregates,
references, and the facts (branch conditions) known about them.

A value is a tuple whose first element is its tag:
  c n                     integer / boolean constant
  lin c0 ((t,k),..)       c0 + sum k*t   (two or more terms, or a scaled / shifted one)
  bits c ((t,mask),..)    c | OR (t & mask)
  div t k                 floor(t / k), k a positive constant
  ge0 L, eq0 L            truth value of L >= 0, L == 0
  not/and/or/xor          boolean combinations
  discr v ty              discriminant of a value whose variant is not known
  s name ty ctx age       value number: result of the named primitive at call context ctx
  f v variant i ty        field of a value that is not known structurally
  elem base i ty          element of a collection
  a variant fields        structure, tuple, array or enum with known variant
  r root proj meta        reference (meta: slice length / None)
  d L / i L               Duration / Instant, in nanoseconds
  ns v                    nanoseconds of an unknown Duration/Instant
  coll kind base over len cap     Vec / HashMap
"""

U64 = (1 << 64) - 1
INF = float('inf')


def C(n):
    return ('c', int(n))


TRUE = ('c', 1)
FALSE = ('c', 0)
UNIT = ('a', None, ())


class Types:
    def __init__(self, types):
        self.t = types

    def __getitem__(self, i):
        return self.t[i]

    def kind(self, i):
        return self.t[i]['k'] if i is not None else None

    def path(self, i):
        return self.t[i].get('p') if i is not None else None

    def is_enum(self, i):
        t = self.t[i]
        return t['k'] == 'adt' and t['ak'] == 'enum'

    def intrange(self, i):
        if i is None:
            return (-INF, INF)
        t = self.t[i]
        if t['k'] == 'bool':
            return (0, 1)
        if t['k'] == 'int':
            b = 8 * t['size']
            if t['sg']:
                return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
            return (0, (1 << b) - 1)
        return (-INF, INF)

    def wrap(self, n, i):
        t = self.t[i]
        if t['k'] == 'bool':
            return n & 1
        if t['k'] != 'int':
            return n
        b = 8 * t['size']
        n &= (1 << b) - 1
        if t['sg'] and n >> (b - 1):
            n -= 1 << b
        return n

    def discrs(self, i):
        """variant index -> discriminant"""
        t = self.t[i]
        out = []
        for v in t['v']:
            d = v['d']
            if d >= 1 << 127:
                d -= 1 << 128
            out.append(d)
        return out

    def field(self, i, variant, k):
        t = self.t[i]
        kd = t['k']
        if kd == 'adt':
            vs = t['v']
            v = vs[variant if variant is not None else 0]
            return v['f'][k][1]
        if kd in ('tuple', 'closure'):
            return t['f'][k]
        if kd in ('array', 'slice'):
            return t['e']
        return None

    def nfields(self, i, variant):
        t = self.t[i]
        kd = t['k']
        if kd == 'adt':
            return len(t['v'][variant if variant is not None else 0]['f'])
        if kd in ('tuple', 'closure'):
            return len(t['f'])
        if kd == 'array':
            return t['n']
        return 0

    def name(self, i):
        if i is None:
            return '?'
        t = self.t[i]
        k = t['k']
        if k == 'adt':
            a = [self.name(x) if isinstance(x, int) else str(x) for x in t['a']]
            return t['p'] + ('<' + ','.join(a) + '>' if a else '')
        if k == 'int':
            return t['n']
        if k in ('ref', 'ptr'):
            return ('&' if k == 'ref' else '*') + ('mut ' if t['m'] else '') + self.name(t['to'])
        if k == 'tuple':
            return '(' + ','.join(self.name(x) for x in t['f']) + ')'
        if k in ('array', 'slice'):
            return '[' + self.name(t['e']) + ']'
        return k


_key = {}


def skey(t):
    k = _key.get(t)
    if k is None:
        k = _key[t] = repr(t)
    return k


TYPES = None  # current Types (set per program)


def set_types(t):
    global TYPES
    TYPES = t
    _rng.clear()


_rng = {}


def trange(t):
    """Range of a term from its type alone."""
    tag = t[0]
    if tag == 'c':
        return (t[1], t[1])
    r = _rng.get(t)
    if r is not None:
        return r
    if tag in ('ge0', 'eq0', 'not', 'and', 'or', 'xor', 'has'):
        r = (0, 1)
    elif tag == 's':
        r = TYPES.intrange(t[2])
    elif tag == 'f':
        r = TYPES.intrange(t[4])
    elif tag in ('elem', 'op', 'un'):
        r = TYPES.intrange(t[3] if tag == 'elem' else t[2] if tag == 'op' else t[1])
    elif tag == 'discr':
        ds = TYPES.discrs(t[2])
        r = (min(ds), max(ds))
    elif tag in ('fd', 'fdof'):
        r = (0, (1 << 31) - 1)
    elif tag == 'ns':
        m = U64 * 10**9 + 999999999
        r = (-INF if t[1][:2] == ('s', 'rem') else 0, m)
    elif tag == 'nzv':
        r = (1, U64)
    elif tag in ('lenof', 'capof'):
        r = (0, (1 << 63) - 1)
    elif tag == 'bits':
        m = t[1]
        for _, k in t[2]:
            m |= k
        r = (t[1], m)
    elif tag == 'div':
        lo, hi = trange(t[1])
        r = (lo // t[2] if lo > -INF else lo, hi // t[2] if hi < INF else hi)
    elif tag == 'lin':
        lo = hi = t[1]
        for x, k in t[2]:
            a, b = trange(x)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        r = (lo, hi)
    else:
        r = (-INF, INF)
    _rng[t] = r
    return r


def is_bool(t):
    if t[0] in ('ge0', 'eq0', 'not', 'and', 'or', 'xor', 'has'):
        return True
    ty = t[2] if t[0] in ('s', 'op') else t[4] if t[0] == 'f' else t[3] if t[0] == 'elem' else None
    return ty is not None and TYPES.kind(ty) == 'bool'


def lin(v):
    """-> (c0, {term: coef})"""
    if v[0] == 'c':
        return v[1], {}
    if v[0] == 'lin':
        return v[1], dict(v[2])
    return 0, {v: 1}


def mk(c0, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return ('c', c0)
    if c0 == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('lin', c0, tuple(sorted(d.items(), key=lambda x: skey(x[0]))))


def add(a, b, kb=1):
    c, d = lin(a)
    c2, d2 = lin(b)
    c += kb * c2
    for t, k in d2.items():
        d[t] = d.get(t, 0) + kb * k
    return mk(c, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin(a)
    return mk(c * k, {t: x * k for t, x in d.items()})


def neg(a):
    return scale(a, -1)


def fdiv(x, k):
    """floor(x / k) for x >= 0, k > 0 constant."""
    if k == 1:
        return x
    if x[0] == 'c':
        return ('c', x[1] // k)
    c, d = lin(x)
    out = {}
    rest = {}
    for t, q in d.items():
        if q % k == 0:
            out[t] = q // k
        else:
            rest[t] = q
    oc = c // k
    rc = c - oc * k
    r = mk(rc, rest)
    if r[0] == 'c':
        dv = ('c', r[1] // k)
    elif r[0] == 'div':
        dv = fdiv_nested(r, k)
    else:
        # sum q*t with t = div(..): floor((x - a*div(x,a)) / k) with k | a
        dv = None
        rd = lin(r)[1]
        for t, q in rd.items():
            if t[0] == 'div' and q < 0 and (-q) == t[2] and (-q) % k == 0:
                # handled by divisibility above
                pass
        if dv is None:
            dv = ('div', r, k)
    return add(mk(oc, out), dv)


def fdiv_nested(r, k):
    return ('div', r[1], r[2] * k)


def frem(x, k):
    return sub(x, scale(fdiv(x, k), k))


# ---- bit sets -----------------------------------------------------------------------

def bits(v, width=128):
    """-> (const, {term: mask}) or None if v is not representable."""
    if v[0] == 'c':
        return (v[1], {}) if v[1] >= 0 else None
    if v[0] == 'bits':
        return v[1], dict(v[2])
    if v[0] == 'lin':
        return None
    lo, hi = trange(v)
    if lo < 0 or hi == INF:
        return None
    return 0, {v: (1 << int(hi).bit_length()) - 1}


def mkbits(c, d):
    d = {t: m & ~c for t, m in d.items() if m & ~c}
    if not d:
        return ('c', c)
    if c == 0 and len(d) == 1:
        (t, m), = d.items()
        lo, hi = trange(t)
        if hi != INF and m == (1 << int(hi).bit_length()) - 1:
            return t
    return ('bits', c, tuple(sorted(d.items(), key=lambda x: skey(x[0]))))


def band(a, b, mask):
    if b[0] != 'c':
        a, b = b, a
    if b[0] == 'c':
        bv = b[1] & mask
        if a[0] == 'c':
            return ('c', a[1] & bv)
        x = bits(a)
        if x:
            return mkbits(x[0] & bv, {t: m & bv for t, m in x[1].items()})
    return None


def bor(a, b):
    x, y = bits(a), bits(b)
    if x is None or y is None:
        return None
    d = dict(x[1])
    for t, m in y[1].items():
        d[t] = d.get(t, 0) | m
    return mkbits(x[0] | y[0], d)


# ---- booleans -----------------------------------------------------------------------

def ge0(l):
    if l[0] == 'c':
        return TRUE if l[1] >= 0 else FALSE
    lo, hi = trange(l)
    if lo >= 0:
        return TRUE
    if hi < 0:
        return FALSE
    return ('ge0', l)


def eq0(l):
    if l[0] == 'c':
        return TRUE if l[1] == 0 else FALSE
    if l[0] == 'lin' and l[2][0][1] < 0:
        l = neg(l)
    lo, hi = trange(l)
    if lo > 0 or hi < 0:
        return FALSE
    # boolean terms
    if is_bool(l):
        return bnot(l)
    if l[0] == 'lin' and len(l[2]) == 1 and l[2][0][1] == 1 and l[1] == -1 and is_bool(l[2][0][0]):
        return l[2][0][0]
    return ('eq0', l)


def bnot(b):
    if b[0] == 'c':
        return ('c', 1 - b[1])
    if b[0] == 'not':
        return b[1]
    return ('not', b)


def band2(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE or a == b:
        return a
    return ('and', a, b)


def bor2(a, b):
    return bnot(band2(bnot(a), bnot(b)))


# ---- atoms --------------------------------------------------------------------------

_atoms = {}
LEAF = ('s', 'fd', 'un')


def atoms(t):
    """Set of leaf atoms (tag s / fd / un) occurring in a value."""
    if not isinstance(t, tuple):
        return frozenset()
    r = _atoms.get(t)
    if r is None:
        if t and t[0] in LEAF:
            r = frozenset([t])
        else:
            r = frozenset()
            for x in t:
                if isinstance(x, tuple):
                    r |= atoms(x)
        _atoms[t] = r
    return r


def subst(t, m):
    """Replace whole subterms; re-normalises linear forms."""
    if not isinstance(t, tuple) or not t:
        return t
    if t in m:
        return m[t]
    if not (atoms(t) & m.keys()):
        return t
    if t[0] == 'lin':
        r = ('c', t[1])
        for x, k in t[2]:
            r = add(r, subst(x, m), k)
        return r
    if t[0] == 'bits':
        d = {}
        c = t[1]
        for x, k in t[2]:
            y = bits(subst(x, m))
            if y is None:
                y = (0, {subst(x, m): k})
            c |= y[0] & k
            for z, kk in y[1].items():
                d[z] = d.get(z, 0) | (kk & k)
        return mkbits(c, d)
    if t[0] == 'ge0':
        return ge0(subst(t[1], m))
    if t[0] == 'eq0':
        return eq0(subst(t[1], m))
    if t[0] == 'not':
        return bnot(subst(t[1], m))
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


# ---- facts --------------------------------------------------------------------------
# keys: ('eq',term) -> const ; ('ne',term) -> frozenset(consts) ; ('ge',lin) -> 1 ;
#       ('kb',term) -> (known0, known1)

def bounds(t, F, depth=2):
    tag = t[0]
    if tag == 'c':
        return (t[1], t[1])
    e = F.get(('eq', t))
    if e is not None:
        return (e, e)
    lo, hi = trange(t)
    if tag == 'lin':
        l2 = h2 = t[1]
        for x, k in t[2]:
            a, b = bounds(x, F, depth)
            if k > 0:
                l2 += k * a
                h2 += k * b
            else:
                l2 += k * b
                h2 += k * a
        lo, hi = max(lo, l2), min(hi, h2)
    elif tag == 'div':
        a, b = bounds(t[1], F, depth)
        if a < 0 and ('ge', t[1]) in F:
            a = 0
        if a > -INF:
            lo = max(lo, a // t[2])
        if b < INF:
            hi = min(hi, b // t[2])
    elif tag == 'bits':
        c, m = t[1], t[1]
        for x, k in t[2]:
            kb = F.get(('kb', x))
            m |= k & ~(kb[0] if kb else 0)
            c |= k & (kb[1] if kb else 0)
        lo, hi = max(lo, c), min(hi, m)
    elif tag in ('ge0', 'eq0', 'not', 'and'):
        d = decide(t, F, 0)
        if d is not None:
            return (d, d)
    b = F.get(('b', t))
    if b is not None:
        lo, hi = max(lo, b[0]), min(hi, b[1])
    if tag == 'discr':
        ds = [d for d in TYPES.discrs(t[2])]
        ne = F.get(('ne', t))
        if ne:
            ds = [d for d in ds if d not in ne]
        if ds:
            lo, hi = max(lo, min(ds)), min(hi, max(ds))
    elif tag != 'lin':
        ne = F.get(('ne', t))
        if ne:
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
    return lo, hi


_splitting = set()     # booleans whose two cases are being considered


def prove_ge0(l, F, depth=2):
    if l[0] == 'c':
        return l[1] >= 0
    lo, hi = bounds(l, F)
    if lo >= 0:
        return True
    if hi < 0 or depth == 0:
        return False
    c, d = lin(l)
    # case split on booleans
    for t, k in d.items():
        if is_bool(t) and F.get(('eq', t)) is None and t not in _splitting:
            _splitting.add(t)
            try:
                for v in (0, 1):
                    F2 = assume(t, v, F)
                    if F2 is None:
                        continue
                    d2 = {x: y for x, y in d.items() if x != t}
                    if not prove_ge0(mk(c + k * v, d2), F2, depth):
                        return False
            finally:
                _splitting.discard(t)
            return True
    # quotient bounds: k*div(x,k) in [x-(k-1), x]; an integer is >= 0 iff k times it is > -k
    for t, q in d.items():
        if t[0] == 'div':
            k = t[2]
            rest = mk(c, {x: y for x, y in d.items() if x != t})
            # scale everything by k to stay integral:  k*rest + q*(k*div)
            if q > 0:
                cand = add(scale(rest, k), sub(t[1], C(k - 1)), q)
            else:
                cand = add(scale(rest, k), t[1], q)
            cand = add(cand, C(k - 1))
            if prove_ge0(cand, F, depth - 1):
                return True
    # subtract a known non-negative form that shares a term
    for key in F:
        if key[0] == 'ge':
            fl = key[1]
            fc, fd = lin(fl)
            for t, q in fd.items():
                if t in d and (d[t] > 0) == (q > 0) and d[t] % q == 0:
                    m = d[t] // q
                    if prove_ge0(add(l, fl, -m), F, depth - 1):
                        return True
                    break
    return False


def decide(b, F, depth=2):
    """Truth value of a boolean term under the facts, or None."""
    if b[0] == 'c':
        return b[1]
    e = F.get(('eq', b))
    if e is not None:
        return e
    tag = b[0]
    if tag == 'not':
        r = decide(b[1], F, depth)
        return None if r is None else 1 - r
    if tag == 'and':
        x, y = decide(b[1], F, depth), decide(b[2], F, depth)
        if x == 0 or y == 0:
            return 0
        if x == 1 and y == 1:
            return 1
        return None
    if tag == 'ge0':
        if prove_ge0(b[1], F, depth):
            return 1
        if prove_ge0(add(neg(b[1]), C(-1)), F, depth):
            return 0
        return None
    if tag == 'eq0':
        l = b[1]
        if l[0] == 'c':
            return 1 if l[1] == 0 else 0
        bt = bits_eq(l)
        if bt == 'never':
            return 0
        if bt:
            m, want, t = bt
            k0, k1 = F.get(('kb', t), (0, 0))
            if (k1 & m & ~want) or (k0 & want):
                return 0
            if (k0 | k1) & m == m:
                return 1
        lo, hi = bounds(l, F)
        if lo > 0 or hi < 0:
            return 0
        if lo == hi == 0:
            return 1
        c, d = lin(l)
        if len(d) == 1:
            (t, k), = d.items()
            if (-c) % k:
                return 0
            v = -c // k
            ne = F.get(('ne', t))
            if ne and v in ne:
                return 0
            if t[0] == 'discr' and v not in TYPES.discrs(t[2]):
                return 0
        if depth:
            p = prove_ge0(l, F, depth)
            q = prove_ge0(neg(l), F, depth)
            if p and q:
                return 1
            if prove_ge0(add(l, C(-1)), F, depth) or prove_ge0(add(neg(l), C(-1)), F, depth):
                return 0
        return None
    return None


def bits_eq(l):
    """l == 0 as (t & m) == want for a single bit-set term t."""
    c, d = lin(l)
    if len(d) != 1:
        return None
    (t, k), = d.items()
    if abs(k) != 1:
        return None
    val = -c * k
    if t[0] == 'bits':
        cc, parts = t[1], t[2]
        if len(parts) != 1:
            return None
        (x, m), = parts
        m &= ~cc
        if val < 0 or (cc & ~val) or (val & ~(cc | m)):
            return 'never'
        return (m, val & m, x)
    lo, hi = trange(t)
    if lo >= 0 and hi < INF and t[0] in ('s', 'f', 'elem') and not is_bool(t) and val >= 0:
        return ((1 << int(hi).bit_length()) - 1, val, t)
    return None


def assume(b, v, F):
    """Facts extended with b == v (0/1), or None if that contradicts them."""
    d = decide(b, F)
    if d is not None:
        if d != v:
            return None
        if b[0] == 'ge0':
            # a derived fact outlives the values it was derived from
            l = b[1] if v else add(neg(b[1]), C(-1))
            if l[0] == 'lin' and len(l[2]) > 1 and ('ge', l) not in F and bounds(l, F)[0] < 0:
                F = dict(F)
                F[('ge', l)] = 1
        return F
    F = dict(F)
    if not _assume(b, v, F):
        return None
    return F


def _assume(b, v, F):
    tag = b[0]
    if tag == 'not':
        return _assume(b[1], 1 - v, F)
    if tag == 'and':
        if v:
            return _sub(b[1], 1, F) and _sub(b[2], 1, F)
        x, y = decide(b[1], F), decide(b[2], F)
        if x == 1:
            return _sub(b[2], 0, F)
        if y == 1:
            return _sub(b[1], 0, F)
        F[('eq', b)] = 0
        return True
    if tag == 'ge0':
        l = b[1] if v else add(neg(b[1]), C(-1))
        F[('ge', l)] = 1
        _tight(l, F)
        if len(lin(l)[1]) > 1 and prove_ge0(neg(l), F, 1):
            # both bounds: the form is zero
            return _sub(eq0(l), 1, F)
        return True
    if tag == 'eq0':
        l = b[1]
        bt = bits_eq(l)
        c, d = lin(l)
        if bt and bt != 'never' and bt[0]:
            m, want, t = bt
            k0, k1 = F.get(('kb', t), (0, 0))
            if v:
                k1 |= want
                k0 |= m & ~want
                F[('kb', t)] = (k0, k1)
            elif m & (m - 1) == 0:
                if want:
                    k0 |= m
                else:
                    k1 |= m
                F[('kb', t)] = (k0, k1)
            else:
                F[('eq', b)] = v
        if len(d) == 1:
            (t, k), = d.items()
            val = -c // k
            if v:
                F[('eq', t)] = val
            elif t[0] != 'bits':
                F[('ne', t)] = F.get(('ne', t), frozenset()) | {val}
                if t[0] == 'discr':
                    left = [x for x in TYPES.discrs(t[2]) if x not in F[('ne', t)]]
                    if len(left) == 1:
                        F[('eq', t)] = left[0]
            return True
        if v:
            F[('ge', l)] = 1
            F[('ge', neg(l))] = 1
            F[('eq', b)] = 1
        else:
            F[('eq', b)] = 0
            for x in (l, neg(l)):
                if prove_ge0(x, F, 1):
                    F[('ge', add(x, C(-1)))] = 1
        return True
    F[('eq', b)] = v
    return True


def _sub(b, v, F):
    d = decide(b, F)
    if d is not None:
        return d == v
    return _assume(b, v, F)


def _tight(l, F):
    """k*t + c >= 0  gives a bound on t."""
    c, d = lin(l)
    if len(d) == 1:
        (t, k), = d.items()
        lo, hi = F.get(('b', t), (-INF, INF))
        if k > 0:
            lo = max(lo, -(c // k))
        else:
            hi = min(hi, c // -k)
        F[('b', t)] = (lo, hi)
        if t[0] == 'div':
            for x in ([sub(t[1], C(lo * t[2]))] if lo > -INF else []) + \
                    ([sub(C(hi * t[2] + t[2] - 1), t[1])] if hi < INF else []):
                if bounds(x, F)[0] < 0:
                    F[('ge', x)] = 1
                    _tight(x, F)


def fact_atoms(key):
    return atoms(key[1])


# ---- evaluation under an assignment (decision tables) ---------------------------------

def ev(t, env):
    """Integer value of a term under an assignment of terms to integers; None if unknown."""
    if t in env:
        return env[t]
    tag = t[0]
    if tag == 'c':
        return t[1]
    if tag == 'lin':
        r = t[1]
        for x, k in t[2]:
            y = ev(x, env)
            if y is None:
                return None
            r += k * y
        return r
    if tag == 'bits':
        r = t[1]
        for x, k in t[2]:
            y = ev(x, env)
            if y is None:
                return None
            r |= y & k
        return r
    if tag == 'div':
        y = ev(t[1], env)
        return None if y is None else y // t[2]
    if tag == 'ge0':
        y = ev(t[1], env)
        return None if y is None else int(y >= 0)
    if tag == 'eq0':
        y = ev(t[1], env)
        if y is None:
            # a partially known bit set may still be decidable
            return None
        return int(y == 0)
    if tag == 'not':
        y = ev(t[1], env)
        return None if y is None else 1 - y
    if tag in ('and', 'or', 'xor'):
        x, y = ev(t[1], env), ev(t[2], env)
        if tag == 'and' and (x == 0 or y == 0):
            return 0
        if tag == 'or' and (x == 1 or y == 1):
            return 1
        if x is None or y is None:
            return None
        return (x & y) if tag == 'and' else (x | y) if tag == 'or' else (x ^ y)
    return None


def consistent(F, env):
    """False if the facts definitely contradict the assignment."""
    for key, v in F.items():
        k = key[0]
        x = ev(key[1], env)
        if x is None:
            continue
        if k == 'eq' and x != v:
            return False
        if k == 'ne' and x in v:
            return False
        if k == 'ge' and x < 0:
            return False
        if k == 'kb' and (x & v[0] or v[1] & ~x):
            return False
        if k == 'b' and not (v[0] <= x <= v[1]):
            return False
    return True
