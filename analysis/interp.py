"""Abstract interpreter over the extracted MIR.

Builds, for one entry point, the graph of reachable abstract states: nodes are program points
(with the full inlined call stack) and abstract memories, edges carry the sequence of modelled
operations (system calls, lock and atomic operations, collection updates, returns, panics)
with their abstract arguments.  States that agree are merged, loops are widened, so the graph
is finite.  No statement is executed and no path is enumerated: rules are evaluated on the graph.
"""
import sys
from dom import *
import dom

sys.setrecursionlimit(20000)


MAPS = ('std::collections::HashMap', 'std::collections::BTreeMap',
        'std::collections::HashSet', 'std::collections::BTreeSet')


class Bug(Exception):
    """The analysis cannot handle a construct: fail closed."""


class Program:
    def __init__(self, dump, config):
        self.config = config
        self.d = dump
        self.types = Types(dump['types'])
        self.insts = dump['insts']
        self.files = dump['files']
        self.roots = dump['roots']
        self._live = {}
        self._succ = {}
        self._reach = {}
        set_types(self.types)

    def root(self, name):
        i = self.roots.get('vharness::' + name)
        if i is None:
            i = self.roots.get(name)
        if i is None:
            raise Bug('entry point %s is missing from the extracted program' % name)
        return i

    def loc(self, sp):
        if sp is None:
            return None
        return '%s:%d' % (self.files[sp[0]], sp[1])

    # --- liveness and control flow ----------------------------------------------------
    def live_in(self, inst):
        """per block: set of locals whose value may still be used"""
        r = self._live.get(inst)
        if r is not None:
            return r
        body = self.insts[inst]['body']
        blocks = body['b']
        n = len(blocks)
        borrowed = set()
        use, deff, succ = [], [], []

        def pl_use(p, u, d):
            l = p[0]
            if l not in d:
                u.add(l)
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ('c', 'm'):
                pl_use(o[1], u, d)

        def rv_use(r, u, d):
            k = r[0]
            if k in ('ref', 'addr'):
                p = r[1]
                if '*' not in p[1]:
                    borrowed.add(p[0])
                pl_use(p, u, d)
            elif k in ('discr', 'len'):
                pl_use(r[1], u, d)
            elif k == 'agg':
                for o in r[3]:
                    op_use(o, u, d)
            elif k in ('bin', 'cbin'):
                op_use(r[2], u, d)
                op_use(r[3], u, d)
            elif k == 'cast':
                op_use(r[2], u, d)
            elif k in ('use', 'rep'):
                op_use(r[1], u, d)
            elif k == 'un':
                op_use(r[2], u, d)

        def pl_def(p, u, d):
            if not p[1]:
                d.add(p[0])
            else:
                pl_use(p, u, d)

        for ss, term, _ in blocks:
            u, d = set(), set()
            for s in ss:
                if s[0] == '=':
                    rv_use(s[2], u, d)
                    pl_def(s[1], u, d)
                elif s[0] == 'sd':
                    pl_use(s[1], u, d)
                elif s[0] == 'cpy':
                    for o in s[1:]:
                        op_use(o, u, d)
                elif s[0] in ('dead', 'live'):
                    d.add(s[1])
            k = term[0]
            sc = []
            if k == 'goto':
                sc = [term[1]]
            elif k == 'sw':
                op_use(term[1], u, d)
                sc = [b for _, b in term[2]] + [term[3]]
            elif k == 'drop':
                pl_use(term[1], u, d)
                borrowed.add(term[1][0])
                sc = [term[4]]
            elif k == 'call':
                for o in term[2]:
                    op_use(o, u, d)
                if isinstance(term[6], list):
                    op_use(term[6], u, d)
                pl_def(term[3], u, d)
                sc = [term[4]] if term[4] is not None else []
            elif k == 'assert':
                op_use(term[1], u, d)
                sc = [term[3]]
            elif k == 'ret':
                if 0 not in d:
                    u.add(0)
            use.append(u)
            deff.append(d)
            succ.append(sc)
        inn = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in succ[b]:
                    out |= inn[s]
                x = use[b] | (out - deff[b])
                if x != inn[b]:
                    inn[b] = x
                    ch = True
        # borrowed locals stay until their storage dies
        res = [frozenset(x | borrowed) for x in inn]
        preds = [0] * n
        heads = set()
        color = {}
        stack = [(0, iter(succ[0]))] if n else []
        color[0] = 1
        preds[0] += 1
        seen_edges = set()
        for b in range(n):
            for s in succ[b]:
                if (b, s) not in seen_edges:
                    seen_edges.add((b, s))
                    preds[s] += 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    heads.add(s)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                color[b] = 2
                stack.pop()
        joins = frozenset(b for b in range(n) if preds[b] >= 2)
        self._succ[inst] = succ
        r = self._live[inst] = (res, joins, frozenset(heads), inn)
        return r


    def can_reach(self, prims):
        """(instances that may call one of the primitives, inst -> blocks from which they may)"""
        r = self._reach.get(prims)
        if r is not None:
            return r
        calls = {}
        S = set()
        for i, x in enumerate(self.insts):
            if x['d'] in prims:
                S.add(i)
            if x['body']:
                calls[i] = {b[1][1] for b in x['body']['b'] if b[1][0] == 'call' and isinstance(b[1][1], int)}
        ch = True
        while ch:
            ch = False
            for i, cs in calls.items():
                if i not in S and cs & S:
                    S.add(i)
                    ch = True
        blocks = {}
        for i in S & calls.keys():
            bs = self.insts[i]['body']['b']
            self.live_in(i)
            ok = {n for n, b in enumerate(bs) if b[1][0] == 'call' and b[1][1] in S}
            ch = True
            while ch:
                ch = False
                for n in range(len(bs)):
                    if n not in ok and ok & set(self._succ[i][n]):
                        ok.add(n)
                        ch = True
            blocks[i] = frozenset(ok)
        if not blocks:
            raise Bug('none of %s is called' % ', '.join(sorted(prims)))
        r = self._reach[prims] = blocks
        return r


class State:
    __slots__ = ('frames', 'mem', 'F', 'stmt', 'tmp')

    def __init__(self, frames, mem, F):
        self.frames = frames  # tuple of (inst, bb, retplace, rettarget, site)
        self.mem = mem
        self.F = F

    def copy(self):
        return State(self.frames, dict(self.mem), dict(self.F))


class Edge:
    __slots__ = ('src', 'dst', 'ev')

    def __init__(self, src, dst, ev):
        self.src, self.dst, self.ev = src, dst, ev


class Ev(dict):
    """One modelled operation."""
    __getattr__ = dict.get

    def __hash__(self):
        return id(self)


class Graph:
    def __init__(self):
        self.nodes = []
        self.edges = []
        self.out = {}
        self.terminals = {}  # node -> (kind, value, state)

    def add_edge(self, src, dst, ev):
        e = Edge(src, dst, tuple(ev))
        self.edges.append(e)
        self.out.setdefault(src, []).append(e)


LOST = ('un', 'lost')


class Lost(Exception):
    pass


LIMIT_NODES = 60000
MAX_DEPTH = 60


class Interp:
    def __init__(self, prog, models, budget=LIMIT_NODES):
        self.p = prog
        self.T = prog.types
        self.models = models
        self.ctxs = {}
        self.ctx_list = []
        self.used = set()
        self.unmodelled = {}
        self.budget = budget
        self.pinned = set()
        self.hooks = {}
        self.folds = set()
        self._mcache = {}

    # --- naming ------------------------------------------------------------------------
    def ctx(self, st):
        key = tuple((f[0], f[1]) for f in st.frames)
        c = self.ctxs.get(key)
        if c is None:
            c = self.ctxs[key] = len(self.ctx_list)
            self.ctx_list.append(key)
        return c

    def where(self, st, sp):
        """Innermost frame of the analysed crate, with its source line."""
        loc = sp
        for i in range(len(st.frames) - 1, -1, -1):
            f = st.frames[i]
            inst = self.p.insts[f[0]]
            if inst['cr'] in ('polling',):
                return inst['d'], self.p.loc(loc)
            loc = f[4]
        return self.p.insts[st.frames[0][0]]['d'], self.p.loc(sp)

    def stack(self, st):
        return tuple(self.p.insts[f[0]]['d'] for f in st.frames
                     if self.p.insts[f[0]]['cr'] == 'polling')

    def fresh(self, st, name, ty, extra=None):
        """A new value number for the current call context; older ones are renamed."""
        c = self.ctx(st)
        a = ('s', name, ty, (c, extra) if extra is not None else c, 0)
        self.age(st, a)
        return a

    def folding(self, v, F, which):
        """Remember collection entries that are about to be summarised, for rules whose
        invariant must hold for each of them."""
        if isinstance(v, tuple) and v:
            if v[0] == 'coll' and v[3]:
                es = tuple(e for e in v[3] if which(e[0]))
                if es:
                    self.folds.add((v[1], v[2], es, frozenset(F.items())))
            elif v[0] == 'a':
                for x in v[2]:
                    self.folding(x, F, which)

    def fresh_fd(self, st, kind):
        a = ('fd', kind, self.ctx(st), 0)
        self.age(st, a)
        return a

    def age(self, st, a):
        present = set()
        for v in st.mem.values():
            present |= atoms(v)
        for k in st.F:
            present |= atoms(k[1])
        for r in st.mem:
            present |= atoms(r)
        if a not in present:
            return
        m = {}
        x = a
        while x in present:
            y = x[:-1] + (x[-1] + 1,)
            m[x] = y
            x = y
        if x[-1] > 12:
            raise Bug('value number ages without bound: %r' % (a,))
        aged = set(m.values())
        for v in st.mem.values():
            if atoms(v) & m.keys():
                self.folding(v, st.F, lambda t: atoms(t) & m.keys())

        def fold(v):
            # collection entries addressed by an aged index are summarised
            if isinstance(v, tuple) and v:
                if v[0] == 'coll' and v[3]:
                    keep = tuple(e for e in v[3] if not (atoms(e[0]) & aged))
                    if len(keep) != len(v[3]):
                        v = ('coll', v[1], hv(v[2]), keep, v[4], v[5])
                if v[0] == 'a':
                    return ('a', v[1], tuple(fold(x) for x in v[2]))
            return v
        nm = {}
        for r, v in st.mem.items():
            if atoms(v) & m.keys():
                v = fold(subst(v, m))
            if atoms(r) & m.keys():
                r = subst(r, m)
            nm[r] = v
        st.mem = nm
        nf = {}
        for k, v in st.F.items():
            if atoms(k[1]) & m.keys():
                k = (k[0], subst(k[1], m))
            nf[k] = v
        st.F = nf

    # --- symbolic values ---------------------------------------------------------------
    def canon(self, v, ty):
        """Normal representation of a value that is not known structurally."""
        if v[0] not in ('s', 'f', 'elem', 'op') or ty is None:
            return v
        t = self.T[ty]
        k = t['k']
        if k == 'adt':
            p = t['p']
            if p == 'std::time::Duration':
                return ('d', ('ns', v))
            if p == 'std::time::Instant':
                return ('i', ('ns', v))
            if p in ('std::os::fd::OwnedFd', 'std::os::fd::BorrowedFd'):
                return ('fdof', v)
            if p == 'std::num::NonZero':
                return ('nzv', v)
            if p == 'std::vec::Vec':
                return ('coll', 'vec', v, (), ('lenof', v), ('capof', v))
            if p in MAPS:
                return ('coll', 'map', v, (), ('lenof', v), ('capof', v))
            if t['ak'] == 'enum' and len(t['v']) == 1:
                return ('a', 0, tuple(self.canon(('f', v, 0, i, f[1]), f[1])
                                      for i, f in enumerate(t['v'][0]['f'])))
            if t['ak'] == 'struct' and t.get('size') == 0 and not t['v'][0]['f']:
                return ('a', None, ())
        elif k == 'tuple' and not t['f']:
            return UNIT
        elif k == 'ref' or k == 'ptr':
            to = self.T[t['to']]
            meta = ('lenof', v) if to['k'] in ('slice', 'str') else None
            if k == 'ref':
                return ('r', ('O', v, t['to']), (), meta)
        return v

    def expand(self, v, ty, variant):
        """Structure with fields for an opaque value, so that one can be replaced."""
        n = self.T.nfields(ty, variant)
        if n is None:
            return None
        return ('a', variant, tuple(self.getf(v, ty, variant, i) for i in range(n)))

    def zero(self, ty):
        t = self.T[ty]
        k = t['k']
        if k in ('int', 'bool'):
            return C(0)
        if k == 'adt' and t['ak'] == 'struct':
            if t['p'] == 'std::time::Duration':
                return ('d', C(0))
            return ('a', None, tuple(self.zero(f[1]) for f in t['v'][0]['f']))
        if k == 'tuple':
            return ('a', None, tuple(self.zero(f) for f in t['f']))
        if k == 'array' and t['n'] is not None:
            return ('rep', self.zero(t['e']), t['n'])
        return ('op', 'zero', ty, ())

    def const(self, ty, v):
        t = self.T[ty]
        k = t['k']
        if 'i' in v:
            return C(v['i'])
        if 'fn' in v:
            return ('fn', v['fn'])
        if k == 'adt' and t['p'] == 'std::time::Duration' and 'a' in v:
            s = v['a'][0].get('i')
            n = v['a'][1]
            n = n.get('i', n['a'][0].get('i') if 'a' in n else None)
            if s is not None and n is not None:
                return ('d', C(s * 10**9 + n))
        if k == 'adt' and t['p'] == 'std::num::NonZero' and 'a' in v:
            x = v
            while 'a' in x:
                x = x['a'][0]
            if 'i' in x:
                return C(x['i'])
        if 'z' in v or 'a' in v:
            xs = v.get('a', [])
            if k == 'adt':
                if t['ak'] == 'union':
                    return ('op', 'const', ty, ())
                var = v.get('v', 0)
                fs = t['v'][var]['f'] if t['v'] else []
                if 'z' in v:
                    xs = [{'z': 1}] * len(fs)
                return ('a', var if t['ak'] == 'enum' else None,
                        tuple(self.const(f[1], x) for f, x in zip(fs, xs)))
            if k in ('tuple', 'closure'):
                if 'z' in v:
                    xs = [{'z': 1}] * len(t['f'])
                return ('a', None, tuple(self.const(f, x) for f, x in zip(t['f'], xs)))
            if k in ('array', 'slice'):
                if 'z' in v and t.get('n'):
                    xs = [{'z': 1}] * t['n']
                return ('a', None, tuple(self.const(t['e'], x) for x in xs))
            if k == 'fndef':
                return ('fn', t['i'])
            return UNIT
        if 'ref' in v:
            x = v['ref']
            to = t['to']
            if 'str' in x:
                return ('r', ('K', ('str', x['str'])), (), C(len(x['str'])))
            val = self.const(to, x)
            meta = C(len(x['a'])) if self.T.kind(to) == 'slice' and 'a' in x else None
            return ('r', ('K', val), (), meta)
        if 'static' in v:
            return ('r', ('S', v['static'], t.get('to')), (), None)
        if 'addr' in v:
            return C(v['addr'])
        return ('op', 'const', ty, ())

    # --- memory ------------------------------------------------------------------------
    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == 'O':
            return self.canon(root[1], root[2]) if isinstance(root[1], tuple) else \
                self.canon(('s', 'obj:' + str(root[1]), root[2], 0, 0), root[2])
        if root[0] == 'K':
            return root[1]
        if root[0] == 'S':
            return self.canon(('s', 'static:' + root[1], root[2], 0, 0), root[2])
        return ('un', None)

    def root_ty(self, st, root):
        if root[0] == 'L':
            return self.p.insts[st.frames[root[1]][0]]['body']['l'][root[2]] \
                if root[1] < len(st.frames) else None
        if root[0] in ('O', 'S'):
            return root[2]
        return None

    def getf(self, v, ty, variant, i):
        tag = v[0]
        if tag == 'a':
            if variant is not None and v[1] is not None and v[1] != variant:
                return ('un', None)
            if i < len(v[2]):
                return v[2][i]
            return ('un', None)
        if tag == 'un':
            return v
        if tag == 'union':
            if v[1] == i:
                return v[2]
            fty = self.T.field(ty, None, i) if ty is not None else None
            return ('op', 'unionfield', fty, (v, i))
        if tag == 'rep':
            return v[1]
        if tag == 'box':
            return ('r', v[1], (), None)
        if tag == 'r' and i == 0 and ty is not None and self.T.nfields(ty, variant) <= 2:
            return v
        fty = self.T.field(ty, variant, i) if ty is not None else None
        if tag in ('d', 'i', 'coll', 'fdof', 'fd', 'c', 'nzv'):
            # peeling a newtype around a canonical value
            if ty is not None and self.T.nfields(ty, variant) == 1:
                return v
            return ('op', 'fieldof', fty, (v, variant, i))
        return self.canon(('f', v, variant, i, fty), fty)

    def index_get(self, st, v, t, ety):
        """Element of an array-like value.  Returns the value (no fork: overlay entries must
        match syntactically or be provably distinct; otherwise the select term is kept)."""
        tag = v[0]
        if tag == 'a':
            if t[0] == 'c' and 0 <= t[1] < len(v[2]):
                return v[2][t[1]]
            lo, hi = bounds(t, st.F)
            if lo == hi and 0 <= lo < len(v[2]):
                return v[2][lo]
            if len(v[2]) == 1:
                return v[2][0]
            return ('op', 'index', ety, (v, t))
        if tag == 'rep':
            return v[1]
        if tag == 'coll':
            for k, x in reversed(v[3]):
                d = 1 if k == t else decide(eq0(sub(k, t)), st.F)
                if d == 1:
                    return x if x is not None else ('un', None)
                if d is None:
                    return self.canon(('elem', ('sel', v[2], v[3]), t, ety), ety)
            if v[2][0] == 'pollres':
                _, b, ov, at = v[2]
                old = self.index_get(st, ('coll', v[1], b, ov, v[4], v[5]), t, ety)
                return self.set_revents(old, ety, ('elem', ('revents', at), t, None) if at != C(0) else C(0))
            return self.canon(('elem', v[2], t, ety), ety)
        if tag == 'un':
            return v
        return self.canon(('elem', v, t, ety), ety)

    def set_revents(self, v, ty, new):
        """poll entry with its revents field replaced"""
        t = self.T[ty]
        if t['k'] == 'adt' and t['ak'] == 'struct' and t['v'][0]['f']:
            fs = t['v'][0]['f']
            names = [f[0] for f in fs]
            if v[0] != 'a':
                v = self.expand(v, ty, None)
            if 'revents' in names:
                i = names.index('revents')
                if new != C(0):
                    new = new[:3] + (fs[i][1],)
                return ('a', None, v[2][:i] + (new,) + v[2][i + 1:])
            return ('a', None, (self.set_revents(v[2][0], fs[0][1], new),) + v[2][1:])
        raise Bug('unknown poll entry type %s' % self.T.name(ty))

    def read(self, st, root, proj):
        v = self.root_value(st, root)
        ty = self.root_ty(st, root)
        for e in proj:
            if e[0] == 'f':
                v = self.getf(v, ty if ty is not None else e[4] if len(e) > 4 else None, e[1], e[2])
                ty = e[3]
            elif e[0] == 'ix':
                v = self.index_get(st, v, e[1], e[2])
                ty = e[2]
            elif e[0] == 'as':
                ty = e[1]
            elif e[0] == 'off':
                raise Bug('part of a collection used as a whole')
            v = self.canon(v, ty)
        return v

    def update(self, st, v, ty, proj, new):
        if not proj:
            return new
        e = proj[0]
        if e[0] == 'as':
            return self.update(st, v, e[1], proj[1:], new)
        if e[0] == 'f':
            variant, i, fty = e[1], e[2], e[3]
            if v[0] == 'union':
                if v[1] == i:
                    return ('union', i, self.update(st, v[2], fty, proj[1:], new))
            if ty is not None and self.T.kind(ty) == 'adt' and self.T[ty]['ak'] == 'union':
                old = self.getf(v, ty, variant, i)
                return ('union', i, self.update(st, old, fty, proj[1:], new))
            if v[0] != 'a' or (variant is not None and v[1] != variant):
                if ty is None:
                    return ('op', 'partial', None, (v, new))
                n = self.T.nfields(ty, variant)
                if v[0] in ('d', 'i', 'coll', 'fdof', 'fd', 'c', 'nzv', 'lin') and n == 1:
                    return self.update(st, v, fty, proj[1:], new)
                if v[0] == 'a':
                    v = ('a', variant, (('un', None),) * n)
                elif v[0] == 'un':
                    v = ('a', variant, (('un', None),) * n)
                else:
                    v = self.expand(v, ty, variant)
            fs = list(v[2])
            if i >= len(fs):
                return ('op', 'partial', ty, (v, new))
            fs[i] = self.update(st, fs[i], fty, proj[1:], new)
            return ('a', v[1] if variant is None else variant, tuple(fs))
        if e[0] == 'ix':
            t, ety = e[1], e[2]
            if v[0] == 'coll':
                old = self.index_get(st, v, t, ety)
                nv = self.update(st, old, ety, proj[1:], new)
                ov = tuple(x for x in v[3] if x[0] != t) + ((t, nv),)
                return ('coll', v[1], v[2], ov, v[4], v[5])
            if v[0] == 'rep' and v[2] is not None and v[2] <= 64:
                v = ('a', None, (v[1],) * v[2])
            if v[0] == 'a':
                lo, hi = bounds(t, st.F)
                if lo == hi and 0 <= lo < len(v[2]):
                    fs = list(v[2])
                    fs[lo] = self.update(st, fs[lo], ety, proj[1:], new)
                    return ('a', None, tuple(fs))
                return ('op', 'storeix', ty, (v, t, new))
            return ('op', 'storeix', ty, (v, t, new))
        raise Bug('update through %r' % (e,))

    def write(self, st, root, proj, new):
        if not proj:
            st.mem[root] = new
            return
        st.mem[root] = self.update(st, self.root_value(st, root), self.root_ty(st, root), proj, new)
        if 'wrote' in self.hooks and root[0] != 'L':
            self.hooks['wrote'](self, st, root, proj, new)

    def deref(self, st, v, ty=None):
        """(root, proj, meta) designated by a reference value."""
        if v[0] == 'r':
            return v[1], v[2], v[3]
        if v[0] in ('s', 'f', 'elem', 'op'):
            to = None
            if ty is not None and self.T.kind(ty) in ('ref', 'ptr'):
                to = self.T[ty]['to']
            meta = ('lenof', v) if to is not None and self.T.kind(to) in ('slice', 'str') else None
            return ('O', v, to), (), meta
        if v[0] == 'box':
            return v[1], (), None
        if v[0] == 'a' and len(v[2]) >= 1:   # Box / Unique / NonNull wrappers
            return self.deref(st, v[2][0])
        return ('O', ('op', 'deref', None, (v,)), None), (), None

    def place(self, st, pl):
        """-> root, proj, ty, meta"""
        depth = len(st.frames) - 1
        body = self.p.insts[st.frames[-1][0]]['body']
        root, proj = ('L', depth, pl[0]), ()
        ty = body['l'][pl[0]]
        variant = None
        meta = None
        for e in pl[1]:
            if e == '*':
                v = self.canon(self.read(st, root, proj), ty)
                root, proj, meta = self.deref(st, v, ty)
                t = self.T[ty]
                if t['k'] in ('ref', 'ptr'):
                    ty = t['to']
                elif t['k'] == 'adt' and t['p'] == 'std::boxed::Box':
                    ty = t['a'][0]
                variant = None
            elif e[0] == 'f':
                proj = proj + (('f', variant, e[1], e[2]),)
                ty = e[2]
                variant = None
                meta = None
            elif e[0] == 'd':
                variant = e[1]
            elif e[0] == 'i':
                t = self.read(st, ('L', depth, e[1]), ())
                ety = self.T[ty].get('e')
                if proj and proj[-1][0] == 'off':
                    t, proj = add(t, proj[-1][1]), proj[:-1]
                proj = proj + (('ix', t, ety),)
                ty = ety
            elif e[0] == 'ci':
                ety = self.T[ty].get('e')
                if e[2]:
                    n = meta if meta is not None else C(self.T[ty]['n'] or 0)
                    t = add(n, C(-e[1]))
                else:
                    t = C(e[1])
                if proj and proj[-1][0] == 'off':
                    t, proj = add(t, proj[-1][1]), proj[:-1]
                proj = proj + (('ix', t, ety),)
                ty = ety
            elif e[0] == 'oc':
                ty = e[1]
            else:
                raise Bug('projection %r' % (e,))
        return root, proj, ty, meta, variant

    def read_place(self, st, pl):
        root, proj, ty, meta, variant = self.place(st, pl)
        v = self.read(st, root, proj)
        return self.canon(v, ty), ty

    def write_place(self, st, pl, v):
        root, proj, ty, meta, variant = self.place(st, pl)
        self.write(st, root, proj, v)

    def operand(self, st, o):
        if o[0] == 'k':
            return self.const(o[1], o[2]), o[1]
        return self.read_place(st, o[1])

    # --- expressions -------------------------------------------------------------------
    def simp(self, st, v):
        """Replace a term known to be constant by its value."""
        if v[0] in ('c', 'a', 'r', 'd', 'i', 'coll', 'fd', 'fn'):
            return v
        e = st.F.get(('eq', v))
        if e is not None:
            return C(e)
        return v

    def binop(self, st, op, a, b, ta, tb, checked=False):
        """-> value (and overflow flag when checked)"""
        T = self.T
        a, b = self.simp(st, a), self.simp(st, b)
        cmpops = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}
        if op in cmpops:
            if a[0] == 'r' and b[0] == 'r':
                same = a[1:3] == b[1:3]
                if op in ('Eq', 'Ne') and same:
                    return C(op == 'Eq'), None
                return ('op', 'ptrcmp', None, (op, a, b)), None
            a, b = self.num(a), self.num(b)
            if a is None or b is None:
                return ('op', 'cmp' + op, self.boolty(), ()), None
            for x in (a, b):
                # a widened counter of an unsigned type
                if x[0] == 'lin' and any(y[0] == 's' and y[1] == 'step' for y in lin(x)[1]) and \
                        T.intrange(ta)[0] == 0 and decide(ge0(x), st.F) is None:
                    st.F = assume(ge0(x), 1, st.F) or st.F
            if op in ('Eq', 'Ne') and T.kind(ta) == 'bool':
                if b[0] != 'c':
                    a, b = b, a
                if b[0] == 'c':
                    r = a if b[1] else bnot(a)
                else:
                    r = bor2(band2(a, b), band2(bnot(a), bnot(b)))
                return (r if op == 'Eq' else bnot(r)), None
            if op == 'Eq':
                r = eq0(sub(a, b))
            elif op == 'Ne':
                r = bnot(eq0(sub(a, b)))
            elif op == 'Ge':
                r = ge0(sub(a, b))
            elif op == 'Le':
                r = ge0(sub(b, a))
            elif op == 'Lt':
                r = bnot(ge0(sub(a, b)))
            else:
                r = bnot(ge0(sub(b, a)))
            return r, None
        if op == 'Cmp':
            return ('op', 'threeway', None, (a, b)), None
        if op == 'Offset':
            return ('op', 'offset', ta, (a, b)), None
        na, nb = self.num(a), self.num(b)
        lo, hi = T.intrange(ta)
        isb = T.kind(ta) == 'bool'
        if na is not None and nb is not None:
            base = op.replace('Unchecked', '')
            if base in ('Add', 'Sub', 'Mul') and not isb:
                if base == 'Add':
                    r = add(na, nb)
                elif base == 'Sub':
                    r = sub(na, nb)
                elif nb[0] == 'c':
                    r = scale(na, nb[1])
                elif na[0] == 'c':
                    r = scale(nb, na[1])
                else:
                    r = ('op', 'mul', ta, (na, nb))
                if checked or op.endswith('Unchecked'):
                    if r[0] == 'op':
                        return r, ('op', 'ovf', self.boolty(), (na, nb))
                    ov = FALSE
                    for x in (add(r, C(-lo)), sub(C(hi), r)):
                        c = ge0(x)
                        if decide(c, st.F) is None and prove_ge0(x, st.F):
                            c = TRUE
                        ov = bor2(ov, bnot(c))
                    return r, ov
                l, h = bounds(r, st.F)
                if l >= lo and h <= hi:
                    return r, None
                if r[0] == 'c':
                    return C(T.wrap(r[1], ta)), None
                if prove_ge0(add(r, C(-lo)), st.F) and prove_ge0(sub(C(hi), r), st.F):
                    return r, None
                return ('op', 'wrap', ta, (r,)), None
            if base in ('Div', 'Rem') and nb[0] == 'c' and nb[1] > 0:
                l, h = bounds(na, st.F)
                if l >= 0 or prove_ge0(na, st.F):
                    return (fdiv(na, nb[1]) if base == 'Div' else frem(na, nb[1])), None
            if base in ('BitAnd', 'BitOr', 'BitXor'):
                if isb:
                    if base == 'BitAnd':
                        return band2(na, nb), None
                    if base == 'BitOr':
                        return bor2(na, nb), None
                    return bor2(band2(na, bnot(nb)), band2(bnot(na), nb)), None
                full = (1 << (8 * T[ta]['size'])) - 1 if T.kind(ta) == 'int' else None
                if full:
                    xa = C(na[1] & full) if na[0] == 'c' else na
                    xb = C(nb[1] & full) if nb[0] == 'c' else nb
                    r = None
                    if base == 'BitAnd':
                        r = band(xa, xb, full)
                    elif base == 'BitOr':
                        r = bor(xa, xb)
                    elif xa[0] == 'c' and xb[0] == 'c':
                        r = C(xa[1] ^ xb[1])
                    elif base == 'BitXor' and xb[0] == 'c' and bits(xa):
                        c, d = bits(xa)
                        used = c
                        for m in d.values():
                            used |= m
                        if used & xb[1] == 0:
                            r = bor(xa, xb)
                    if r is not None:
                        if r[0] == 'c':
                            r = C(T.wrap(r[1], ta))
                        return r, None
            if base in ('Shl', 'Shr') and nb[0] == 'c':
                if na[0] == 'c':
                    n = na[1] << nb[1] if base == 'Shl' else na[1] >> nb[1]
                    return C(T.wrap(n, ta)), (FALSE if checked else None)
                if base == 'Shr' and bounds(na, st.F)[0] >= 0:
                    return fdiv(na, 1 << nb[1]), (FALSE if checked else None)
                if base == 'Shl':
                    r = scale(na, 1 << nb[1])
                    l, h = bounds(r, st.F)
                    if l >= lo and h <= hi:
                        return r, (FALSE if checked else None)
        r = ('op', op, ta, (a, b))
        return r, (('op', 'ovf' + op, self.boolty(), (a, b)) if checked else None)

    _bt = None

    def boolty(self):
        if self._bt is None or self._bt[0] is not self.T:
            for i, t in enumerate(self.T.t):
                if t['k'] == 'bool':
                    self._bt = (self.T, i)
                    break
        return self._bt[1]

    def num(self, v):
        """Value as an integer term, peeling single-field wrappers."""
        tag = v[0]
        if tag in ('c', 'lin', 'bits', 'div', 's', 'f', 'elem', 'op', 'fd', 'fdof', 'discr', 'ns', 'nzv',
                   'lenof', 'capof', 'ge0', 'eq0', 'not', 'and', 'or', 'xor', 'has'):
            return v
        if tag == 'a' and v[1] is None and len(v[2]) == 1:
            return self.num(v[2][0])
        return None

    def cast(self, st, v, kind, src, dst):
        T = self.T
        if kind.startswith('PointerCoercion'):
            if 'Unsize' in kind:
                if v[0] == 'r':
                    ts, td = T[src], T[dst]
                    if 'to' in ts and 'to' in td:
                        a, b = T[ts['to']], T[td['to']]
                        if a['k'] == 'array' and b['k'] == 'slice':
                            return ('r', v[1], v[2], C(a['n']) if a['n'] is not None else None)
                        if b['k'] == 'dyn':
                            return ('r', v[1], v[2], ('vt', ts['to']))
                return v
            if 'Reify' in kind or 'ClosureFn' in kind:
                return v
            return v
        if kind.startswith('PtrToPtr') or kind.startswith('FnPtrToPtr'):
            if v[0] == 'r' and T.kind(dst) == 'ptr':
                to = T[dst]['to']
                if T.kind(to) not in ('slice', 'str', 'dyn'):
                    return ('r', v[1], v[2], None)
            return v
        if 'Transmute' in kind or kind.startswith('Subtype'):
            return self.transmute(st, v, src, dst)
        if kind.startswith('IntToInt'):
            n = self.num(v)
            if n is None:
                # enum to integer
                if v[0] == 'a' and v[1] is not None:
                    n = C(T.discrs(src)[v[1]])
                else:
                    return ('op', 'cast', dst, (v,))
            lo, hi = T.intrange(dst)
            if n[0] == 'c':
                return C(T.wrap(n[1], dst))
            l, h = bounds(n, st.F)
            if (l >= lo and h <= hi) or (prove_ge0(add(n, C(-lo)), st.F) and prove_ge0(sub(C(hi), n), st.F)):
                return n
            size = 8 * T[dst]['size'] if T.kind(dst) == 'int' else 1
            if lo == 0 and T.kind(dst) == 'int' and l >= 0:
                r = band(n, C((1 << size) - 1), (1 << size) - 1)
                if r is not None:
                    return r
            return ('op', 'wrap', dst, (n,))
        if kind.startswith('PointerExpose') or kind.startswith('PointerWithExposed'):
            return ('op', 'ptrint', dst, (v,))
        return ('op', 'cast', dst, (v,))

    def transmute(self, st, v, src, dst):
        T = self.T
        if src == dst:
            return v
        td, ts = T[dst], T[src]
        if td['k'] in ('int', 'bool'):
            n = self.num(v)
            if n is not None:
                if td['k'] == 'int' and n[0] == 'c':
                    return C(T.wrap(n[1], dst))
                if ts['k'] == 'int' or n[0] in ('fd', 'fdof', 'nzv', 'bits', 'lin', 'div') or True:
                    l, h = bounds(n, st.F)
                    lo, hi = T.intrange(dst)
                    if l >= lo and h <= hi:
                        return n
                    if T.kind(src) == 'int':
                        return self.cast(st, n, 'IntToInt', src, dst)
                    return ('op', 'transmute', dst, (n,))
        if td['k'] == 'adt' and td['ak'] in ('struct', 'union') and len(td['v'][0]['f']) == 1 and \
                v[0] not in ('a', 's', 'f', 'elem'):
            if td['p'] in ('std::os::fd::OwnedFd', 'std::os::fd::BorrowedFd', 'std::num::NonZero',
                           'std::time::Duration'):
                return v
            if td['ak'] == 'struct':
                return ('a', None, (self.transmute(st, v, src, td['v'][0]['f'][0][1]),))
        if v[0] == 'r':
            return v
        if td['k'] == 'array' and v[0] == 'a':
            return v
        # same shape
        if td['k'] == ts['k'] == 'adt' and td['p'] == ts['p']:
            return v
        if v[0] == 'a' and v[1] is None and len(v[2]) == 1 and ts['k'] == 'adt':
            return self.transmute(st, v[2][0], T.field(src, None, 0), dst)
        if v[0] == 'rep' and v[1] == C(0):
            return self.zero(dst)
        return self.canon(('op', 'transmute', dst, (v,)), dst)

    def discr(self, st, v, ty):
        if v[0] == 'a' and v[1] is not None:
            return C(self.T.discrs(ty)[v[1]])
        if v[0] == 'un':
            return ('un', None)
        t = self.T[ty]
        if t['k'] == 'adt' and t['ak'] == 'enum':
            if len(t['v']) == 1:
                return C(self.T.discrs(ty)[0])
            return self.simp(st, ('discr', v, ty))
        return C(0)

    def rvalue(self, st, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])[0]
        if k in ('ref', 'addr'):
            root, proj, ty, meta, _ = self.place(st, r[1])
            if root[0] == 'K' and not proj and k == 'addr':
                pass
            return ('r', root, proj, meta)
        if k == 'agg':
            vals = []
            for o in r[3]:
                vals.append(self.operand(st, o)[0])
            kind, extra = r[1], r[2]
            if kind == 'adt':
                if self.T[dty].get('p') in ('std::num::NonZero',) and len(vals) == 1:
                    return vals[0]
                return ('a', extra[0] if extra[1] else None, tuple(vals))
            if kind == 'union':
                return ('union', extra[1], vals[0])
            if kind == 'rawptr':
                v = vals[0]
                if v[0] == 'r':
                    return ('r', v[1], v[2], vals[1] if vals[1] != UNIT else None)
                return v
            return ('a', None, tuple(vals))
        if k == 'bin':
            a, ta = self.operand(st, r[2])
            b, tb = self.operand(st, r[3])
            if r[1] == 'Cmp':
                return ('op', 'threeway', dty, (a, b))
            return self.binop(st, r[1], a, b, ta, tb)[0]
        if k == 'cbin':
            a, ta = self.operand(st, r[2])
            b, tb = self.operand(st, r[3])
            v, ov = self.binop(st, r[1], a, b, ta, tb, checked=True)
            return ('a', None, (v, ov if ov is not None else FALSE))
        if k == 'cast':
            v, ty = self.operand(st, r[2])
            return self.canon(self.cast(st, v, r[1], ty, r[3]), r[3])
        if k == 'discr':
            v, ty = self.read_place(st, r[1])
            return self.discr(st, v, ty)
        if k == 'len':
            root, proj, ty, meta, _ = self.place(st, r[1])
            if meta is not None:
                return meta
            v = self.read(st, root, proj)
            return self.length(v, ty)
        if k == 'rep':
            v, _ = self.operand(st, r[1])
            n = r[2]
            return ('rep', v, n)
        if k == 'un':
            v, ty = self.operand(st, r[2])
            if r[1] == 'PtrMetadata':
                if v[0] == 'r' and v[3] is not None:
                    return v[3]
                return ('op', 'meta', dty, (v,)) if dty is not None else v
            v = self.simp(st, v)
            n = self.num(v)
            if n is not None:
                if r[1] == 'Not':
                    if self.T.kind(ty) == 'bool':
                        return bnot(n)
                    if n[0] == 'c':
                        return C(self.T.wrap(~n[1], ty))
                    lo, hi = self.T.intrange(ty)
                    if lo == 0:
                        # complement of an unsigned value
                        return ('op', 'compl', ty, (n,))
                if r[1] == 'Neg':
                    if n[0] == 'c':
                        return C(self.T.wrap(-n[1], ty))
                    return neg(n)
            return ('op', r[1], ty, (v,))
        if k == 'tls':
            return ('op', 'tls', dty, ())
        raise Bug('rvalue %r' % (k,))

    def length(self, v, ty):
        if v[0] == 'coll':
            return v[4]
        if v[0] == 'a':
            return C(len(v[2]))
        if v[0] == 'rep' and v[2] is not None:
            return C(v[2])
        if ty is not None and self.T.kind(ty) == 'array':
            return C(self.T[ty]['n'])
        return ('lenof', v)

    # --- exploration -------------------------------------------------------------------
    def initial(self, inst, args, mem=None, F=None):
        body = self.p.insts[inst]['body']
        if body is None:
            raise Bug('no body for %s' % self.p.insts[inst]['n'])
        m = dict(mem or {})
        for i, a in enumerate(args):
            m[('L', 0, i + 1)] = a
        return State(((inst, 0, None, None, None),), m, dict(F or {}))

    def explore(self, inits, keep_facts=None):
        """inits: list of (label, State).  Returns Graph; node 0 is a virtual root."""
        g = Graph()
        g.nodes.append(('start',))
        self.index = {}
        self.g = g
        self.parent = {0: None}
        self.ctrl = {0: None}
        self.states = {}
        self.headstate = {}
        self.join_prims = self.hooks.get('join')
        work = []
        for label, st in inits:
            n, new = self.intern(g, st, 0)
            g.add_edge(0, n, (Ev(k='entry', label=label),))
            if new:
                work.append(n)
        while work:
            n = work.pop()
            st = self.states.pop(n)
            try:
                succ = self.run(st)
            except Bug:
                raise
            except (TypeError, KeyError, IndexError, AttributeError, RecursionError) as e:
                f = self.curst.frames if self.curst else st.frames
                raise Bug('internal: %s: %s in %s' % (type(e).__name__, e, ' > '.join(
                    '%s bb%s' % (self.p.insts[x[0]]['d'], x[1]) for x in f[-4:]))) from e
            for evs, res in succ:
                kind = res[0]
                if kind == 'state':
                    m, new = self.intern(g, res[1], n)
                    g.add_edge(n, m, evs)
                    if new:
                        work.append(m)
                else:
                    m = len(g.nodes)
                    g.nodes.append((kind,))
                    g.terminals[m] = res
                    g.add_edge(n, m, evs)
            if len(g.nodes) > self.budget:
                raise Bug('state budget exceeded')
        g.states = None
        return g

    def prune(self, st):
        frames = st.frames
        mem = st.mem
        keep = {}
        top = len(frames) - 1
        lives = []
        for i, f in enumerate(frames):
            res, joins, heads, inn = self.p.live_in(f[0])
            if i == top:
                lives.append(res[f[1]])
            else:
                tgt = frames[i + 1][3]
                s = set(res[tgt]) if tgt is not None else set()
                rp = frames[i + 1][2]
                if rp is not None and rp[1]:
                    s.add(rp[0])
                lives.append(s)
        # references into other frames' locals keep those alive
        for r, v in mem.items():
            if r[0] == 'L':
                if r[1] < len(lives) and r[2] in lives[r[1]]:
                    keep[r] = v
        # reachability
        work = list(keep.values())
        objs = {r: v for r, v in mem.items() if r not in keep}
        seen = set()
        while work:
            v = work.pop()
            if not isinstance(v, tuple):
                continue
            if v in seen:
                continue
            seen.add(v)
            if v and v[0] == 'r' and v[1] in objs:
                r = v[1]
                keep[r] = objs.pop(r)
                work.append(keep[r])
            if v and v[0] in ('g', 'box') and len(v) > 1 and v[1] in objs:
                keep[v[1]] = objs.pop(v[1])
                work.append(keep[v[1]])
            for x in v:
                if isinstance(x, tuple):
                    work.append(x)
        for r in list(objs):
            if r[0] == 'G' or r[0] == 'O' and r[1] in self.pinned_roots:
                keep[r] = objs[r]
        st.mem = keep
        alive = set()
        for v in keep.values():
            alive |= atoms(v)
        for r in keep:
            alive |= atoms(r)
        nf = {}
        for k, v in st.F.items():
            a = atoms(k[1])
            if all(x in alive or self.is_pinned(x) for x in a):
                nf[k] = v
        if any(k[0] == 'ge' and k not in nf for k in st.F):
            self.eliminate(st.F, nf, alive)
        st.F = nf

    def eliminate(self, F, nf, alive):
        """Consequences, for surviving points in time, of facts about points in time that are
        no longer referred to (Fourier-Motzkin over unit coefficients)."""
        def isdead(t):
            return not all(x in alive or self.is_pinned(x) for x in atoms(t))
        forms, dead = [], set()
        for k in F:
            if k[0] != 'ge' or k in nf:
                continue
            c, d = lin(k[1])
            if c > 0 or any(abs(q) != 1 for q in d.values()):
                continue
            ds = [t for t in d if isdead(t)]
            if ds and all(t[0] == 'ns' and abs(d[t]) == 1 for t in ds):
                forms.append(mk(0, d))
                dead.update(ds)
        # no point in time and no delay is negative
        forms += [mk(0, {x: 1}) for x in sorted(dead, key=skey)]
        for x in sorted(dead, key=skey):
            pos = [f for f in forms if lin(f)[1].get(x, 0) == 1]
            neg_ = [f for f in forms if lin(f)[1].get(x, 0) == -1]
            forms = [f for f in forms if x not in lin(f)[1]]
            for a in pos:
                for b in neg_:
                    r = add(a, b)
                    if r[0] == 'c' or r in forms or trange(r)[0] >= 0:
                        continue
                    d = lin(r)[1]
                    if len(d) > 6 or any(abs(q) != 1 for q in d.values()):
                        continue
                    forms.append(r)
            if len(forms) > 200:
                return
        for f in forms:
            nf[('ge', f)] = 1
        # keep the irredundant ones, so that equal knowledge is represented equally
        cand = [k for k in nf if k[0] == 'ge' and k[1][0] == 'lin' and k[1][1] == 0 and len(k[1][2]) > 1 and
                all(t[0] == 'ns' for t, _ in k[1][2])]
        for k in sorted(cand, key=lambda k: (-len(k[1][2]), skey(k[1]))):
            del nf[k]
            if not prove_ge0(k[1], nf, 3):
                nf[k] = 1

    pinned_roots = frozenset()

    def is_pinned(self, a):
        return a[0] == 's' and isinstance(a[1], str) and a[1].startswith('in:')

    def intern(self, g, st, parent):
        if self.join_prims and any(r[0] == 'G' and v != LOST for r, v in st.mem.items()) and \
                st.frames[-1][1] in self.p.live_in(st.frames[-1][0])[2] and self.past(st):
            # a loop after the last use; no further use is expected of the ghost values: forget them
            for r in st.mem:
                if r[0] == 'G':
                    st.mem[r] = LOST
        self.prune(st)
        key = (st.frames, frozenset(st.mem.items()), frozenset(st.F.items()))
        n = self.index.get(key)
        if n is not None:
            return n, False
        top = st.frames[-1]
        ctrl = tuple((f[0], f[1]) for f in st.frames)
        if top[1] in self.p.live_in(top[0])[2]:
            # loop head: widen against the previous visit on this path
            d = len(st.frames)
            x = parent
            prev = []
            while x:
                c = self.ctrl.get(x)
                if c is None or len(c) < d or c[:d - 1] != ctrl[:d - 1]:
                    break
                if c == ctrl:
                    prev.append(x)
                    if len(prev) >= 3:
                        break
                x = self.parent[x]
            if len(prev) >= 2:
                old = self.headstate.get(prev[0])
                if old is not None and not counted(old, st):
                    st = self.widen(old, st, ctrl)
                    self.prune(st)
                    key = (st.frames, frozenset(st.mem.items()), frozenset(st.F.items()))
                    n = self.index.get(key)
                    if n is not None:
                        return n, False
        n = len(g.nodes)
        g.nodes.append(ctrl)
        self.index[key] = n
        self.parent[n] = parent
        self.ctrl[n] = ctrl
        self.states[n] = st
        if top[1] in self.p.live_in(top[0])[2]:
            self.headstate[n] = st.copy()
        return n, True

    def past(self, st):
        """the innermost function that calls one of the primitives will not do so again"""
        blocks = self.p.can_reach(self.join_prims)
        for d in range(len(st.frames) - 1, -1, -1):
            f = st.frames[d]
            if f[0] in blocks:
                bb = f[1] if d == len(st.frames) - 1 else st.frames[d + 1][3]
                return bb is None or bb not in blocks[f[0]]
        return False

    curst = None

    def widen(self, old, new, ctrl):
        st = new.copy()
        c = self.ctxs.setdefault(('w',) + ctrl, len(self.ctx_list))
        if c == len(self.ctx_list):
            self.ctx_list.append(ctrl)
        W = {}
        done = []
        numtags = ('c', 'lin', 's', 'f', 'elem', 'div', 'lenof', 'capof', 'op', 'bits', 'discr')
        # counters that advance in step share one widened value
        groups = {}

        def delta(a, b):
            if a[0] == 'op' or b[0] == 'op':
                return None
            d = sub(b, a)
            return d[1] if d[0] == 'c' else None

        def scan(a, b):
            if not a or not b or not isinstance(a, tuple) or not isinstance(b, tuple):
                return
            if a[0] in numtags and b[0] in numtags:
                d = delta(a, b)
                for w in atoms(a):
                    if w[0] == 's' and w[1] == 'step' and w[3][0] == c:
                        k = lin(a)[1].get(w)
                        groups.setdefault(w, set()).add(None if d is None or k not in (1, -1) else d * k)
                return
            if a[0] == b[0] == 'coll' and a[1] == b[1]:
                scan(a[4], b[4])
                scan(a[5], b[5])
            elif a[0] == b[0] == 'a' and len(a[2]) == len(b[2]):
                for x, y in zip(a[2], b[2]):
                    scan(x, y)
            elif a[0] == b[0] and a[0] in ('d', 'i'):
                scan(a[1], b[1])
            elif a[0] == b[0] == 'union' and a[1] == b[1]:
                scan(a[2], b[2])
        for r in st.mem:
            if r in old.mem:
                scan(old.mem[r], st.mem[r])

        def step(a, b):
            d = delta(a, b)
            if not d:
                return None
            sign, d = (1, d) if d > 0 else (-1, -d)     # counters may run in opposite directions
            w = ('s', 'step', None, (c, d), 0)
            for x in atoms(a):
                if x[0] == 's' and x[1] == 'step' and x[3][0] == c and \
                        (x != w or groups.get(x, {d}) != {d} or lin(a)[1].get(w) != sign):
                    return None
                if x[0] == 's' and x[1] == 'widened' and x[3][0] == c:
                    return None
            if groups.get(w, {d}) != {d}:
                return None
            W[w] = (d, INF)
            return add(subst(a, {w: C(0)}), scale(w, sign))

        def go(a, b, path):
            if a == b:
                return b
            if a and b and a[0] in numtags and b[0] in numtags:
                if a[0] == b[0] == 'op' and a[2] != b[2]:
                    return b
                v = step(a, b)
                if v is not None:
                    return v
                for a0, b0, w in done:
                    # values that keep their distance keep it
                    if a[0] == 'op' or b[0] == 'op':
                        break
                    d = sub(a, a0)
                    if d[0] == 'c' and d == sub(b, b0):
                        return add(w, d)
                w = ('s', 'widened', None, (c, path), 0)
                if a[0] != 'op' and b[0] != 'op':
                    done.append((a, b, w))
                la, lb = bounds(a, old.F), bounds(b, new.F)
                # the widened value itself may be what is being widened again
                lo = min(la[0], lb[0]) if a != w or lb[0] >= la[0] else -INF
                hi = la[1] if lb[1] <= la[1] else INF
                if path[-1] == 'd':
                    # a Duration is never negative
                    lo, hi = max(lo, 0), min(hi, self.models.MAXDUR)
                W[w] = (lo, hi)
                return w
            if a and b and a[0] == 'coll' and b[0] == 'coll' and a[1] == b[1]:
                if ground(a[2]) != ground(b[2]) and a[4] == ('lenof', ground(a[2])) and \
                        b[4] == ('lenof', ground(b[2])) and not b[3]:
                    return b    # another collection altogether, not a growing one
                base = b[2] if a[2] == b[2] else hv(b[2])
                if a[3] != b[3]:
                    self.folding(b, new.F, lambda t: True)
                    base = hv(base)
                    ov = ()
                else:
                    ov = b[3]
                return ('coll', b[1], base, ov, go(a[4], b[4], path + ('len',)),
                        go(a[5], b[5], path + ('cap',)))
            if a and b and a[0] == b[0] and a[0] in ('a', 'd', 'i', 'union', 'rep', 'it') and len(a) == len(b):
                if a[0] == 'a':
                    if a[1] != b[1] or len(a[2]) != len(b[2]):
                        return b
                    return ('a', b[1], tuple(go(x, y, path + (i,))
                                             for i, (x, y) in enumerate(zip(a[2], b[2]))))
                if b == ('d', C(0)) and 'join' in self.hooks:
                    return b
                if a[0] == 'd' and 'join' in self.hooks and a[1] != b[1] and \
                        all(x[0] == 'ns' for x in lin(b[1])[1]):
                    # a name of its own, related to the other points in time
                    named.append((r0, b[1]))
                    return ('d', ('s', 'named', None, len(named) - 1, 0))
                if a[0] in ('d', 'i'):
                    return (b[0], go(a[1], b[1], path + (b[0],)))
                if a[0] == 'union' and a[1] == b[1]:
                    return ('union', b[1], go(a[2], b[2], path + ('u',)))
            return b
        named = []
        for r0 in list(st.mem):
            if r0 in old.mem:
                st.mem[r0] = go(old.mem[r0], st.mem[r0], (r0,))
        for i, (r0, b) in enumerate(named):
            st.mem[('G', 'tmp', i)] = ('d', b)
        for i, (r0, b) in enumerate(named):
            w = ('ns', self.fresh(st, 'rest', None, i))
            b = st.mem.pop(('G', 'tmp', i))[1]
            st.F[('ge', sub(w, b))] = 1
            st.F[('ge', sub(b, w))] = 1
            st.mem[r0] = subst(st.mem[r0], {('s', 'named', None, i, 0): w})
        if W:
            F = {k: v for k, v in st.F.items() if not (atoms(k[1]) & W.keys())}
            for w, (lo, hi) in W.items():
                F[('b', w)] = (lo, hi)
                if lo > -INF:
                    F[('ge', add(w, C(-lo)))] = 1
            st.F = F
        return st

    def run(self, st):
        """Advance one state to the next node(s)."""
        out = []
        stack = [(st, [], False)]
        steps = 0
        while stack:
            st, evs, moved = stack.pop()
            while True:
                steps += 1
                if steps > 20000:
                    raise Bug('no progress')
                f = st.frames[-1]
                inst, bb = f[0], f[1]
                if moved and bb in self.p.live_in(inst)[1]:
                    out.append((evs, ('state', st)))
                    break
                moved = True
                r = self.block(st, evs)
                if r is None:
                    continue
                if isinstance(r, tuple):
                    out.append((evs, r))
                    break
                # fork
                if len(r) == 1:
                    st, more = r[0]
                    evs = evs + more
                    continue
                for s2, more in reversed(r):
                    stack.append((s2, evs + more, True))
                break
        return out

    def goto(self, st, bb):
        f = st.frames[-1]
        st.frames = st.frames[:-1] + ((f[0], bb) + f[2:],)

    def event(self, st, sp, **kw):
        fn, loc = self.where(st, sp)
        e = Ev(fn=fn, loc=loc, stack=self.stack(st), **kw)
        h = self.hooks.get('event')
        if h:
            h(self, st, e)
        e['facts'] = dict(st.F)
        return e

    def assumed(self, st, t, v):
        if 'assume' not in self.hooks:
            return Ev(k='assume', t=t, v=v)
        e = Ev(k='assume', t=t, v=v)
        self.hooks['event'](self, st, e)
        e['facts'] = dict(st.F)
        return e

    def block(self, st, evs):
        f = st.frames[-1]
        self.curst = st
        inst, bb = f[0], f[1]
        self.used.add(inst)
        body = self.p.insts[inst]['body']
        ss, term, tsp = body['b'][bb]
        depth = len(st.frames) - 1
        for s in ss:
            if s[0] == '=':
                root, proj, ty, meta, variant = self.place(st, s[1])
                v = self.rvalue(st, s[2], ty)
                self.write(st, root, proj, v)
                if root[0] != 'L' and 'store' in self.hooks:
                    e = self.hooks['store'](self, st, root, proj, v, ty, s[3])
                    if e:
                        evs.append(e)
            elif s[0] == 'dead':
                st.mem.pop(('L', depth, s[1]), None)
            elif s[0] == 'sd':
                root, proj, ty, meta, variant = self.place(st, s[1])
                n = self.T.nfields(ty, s[2])
                old = self.read(st, root, proj)
                if old[0] == 'a' and old[1] == s[2]:
                    pass
                else:
                    self.write(st, root, proj, ('a', s[2], tuple(
                        old[2][i] if old[0] == 'a' and i < len(old[2]) else ('un', None)
                        for i in range(n))))
            elif s[0] == 'cpy':
                raise Bug('copy_nonoverlapping in %s' % self.p.insts[inst]['n'])
        k = term[0]
        if k == 'goto':
            self.goto(st, term[1])
            return None
        if k == 'sw':
            v, ty = self.operand(st, term[1])
            return self.switch(st, v, ty, term[2], term[3])
        if k == 'ret':
            return self.ret(st, evs, tsp)
        if k == 'call':
            return self.call(st, term, tsp, evs)
        if k == 'drop':
            inst2 = term[2]
            if inst2 is None:
                self.goto(st, term[4])
                return None
            root, proj, ty, meta, _ = self.place(st, term[1])
            return self.invoke(st, inst2, [('r', root, proj, meta)], None, term[4], tsp, evs, drop=True)
        if k == 'assert':
            v, ty = self.operand(st, term[1])
            v = self.simp(st, v)
            want = 1 if term[2] else 0
            if term[5] in ('misaligned', 'nullptr'):
                # compiler-inserted check of a pointer made from a reference or box
                self.goto(st, term[3])
                return None
            n = self.num(v)
            d = decide(n, st.F) if n is not None else None
            if d is None:
                F = assume(n, want, st.F) if n is not None else st.F
                evs.append(self.event(st, tsp, k='maypanic', what=term[5], cond=n, want=want))
                if F is not None:
                    st.F = F
            elif d != want:
                evs.append(self.event(st, tsp, k='panic', what=term[5]))
                return ('panic', None, st)
            self.goto(st, term[3])
            return None
        if k == 'unr':
            return ('unreachable', None, st)
        if k in ('resume', 'abort'):
            return ('panic', None, st)
        if k == 'asm':
            raise Bug('inline assembly reached in %s' % self.p.insts[inst]['n'])
        raise Bug('terminator %s' % k)

    def switch(self, st, v, ty, branches, otherwise):
        v = self.simp(st, v)
        n = self.num(v)
        vals = [self.T.wrap(b[0], ty) for b in branches]
        if n is None:
            raise Bug('switch on %r' % (v,))
        lo, hi = bounds(n, st.F)
        if lo == hi:
            for val, (_, b) in zip(vals, branches):
                if val == lo:
                    self.goto(st, b)
                    return None
            self.goto(st, otherwise)
            return None
        res = []
        if n[0] == 'un':
            raise Bug('switch on uninitialised value in %s bb%d' % (
                self.p.insts[st.frames[-1][0]]['n'], st.frames[-1][1]))
        isb = self.T.kind(ty) == 'bool'
        F = st.F
        for val, (_, b) in zip(vals, branches):
            if isb:
                t, want = n, val
            else:
                t, want = eq0(add(n, C(-val))), 1
            F2 = assume(t, want, F)
            if F2 is not None:
                s2 = State(st.frames, dict(st.mem), F2)
                self.goto(s2, b)
                res.append((s2, [self.assumed(s2, t, want)]))
            F = assume(t, 1 - want, F)
            if F is None:
                break
        if F is not None:
            lo, hi = bounds(n, F)
            if lo <= hi and not (isb and len(vals) == 2):
                s2 = State(st.frames, dict(st.mem), F)
                self.goto(s2, otherwise)
                res.append((s2, [self.assumed(s2, n, None)]))
        if not res:
            return ('infeasible', None, st)
        return res

    def ret(self, st, evs, tsp):
        depth = len(st.frames) - 1
        v = st.mem.get(('L', depth, 0), UNIT)
        f = st.frames[-1]
        if depth == 0:
            # strip frame
            evs.append(self.event(st, tsp, k='return', value=v))
            return ('return', v, st)
        ev = None
        inst = self.p.insts[f[0]]
        if 'return' in self.hooks and inst['cr'] == 'polling':
            ev = self.event(st, tsp, k='fnret', name=inst['d'], value=v)
            evs.append(ev)
        for r in [r for r in st.mem if r[0] == 'L' and r[1] == depth]:
            del st.mem[r]
        st.frames = st.frames[:-1]
        if f[2] is not None:
            self.write_place(st, f[2], v)
        if f[3] is None:
            return ('diverge', None, st)
        self.goto(st, f[3])
        return None

    def call(self, st, term, tsp, evs):
        callee, args, dest, target, unwind, indirect = term[1:7]
        vals = []
        tys = []
        for o in args:
            v, ty = self.operand(st, o)
            vals.append(v)
            tys.append(ty)
        if callee is None:
            if isinstance(indirect, list):
                fv, fty = self.operand(st, indirect)
                if fv[0] == 'r':
                    fv = self.read(st, fv[1], fv[2])
                if fv[0] == 'fn':
                    callee = fv[1]
            if callee is None:
                return self.unknown(st, str(indirect), vals, tys, dest, target, tsp, evs)
        self.cur_tys = tys
        return self.invoke(st, callee, vals, dest, target, tsp, evs, tys=tys)

    def invoke(self, st, callee, vals, dest, target, tsp, evs, drop=False, tys=None):
        inst = self.p.insts[callee]
        m = self._mcache.get(callee, 0)
        if m == 0:
            m = self._mcache[callee] = self.models.lookup(self, inst)
        dty = None
        if dest is not None:
            dty = self.place_ty(st, dest)
        if m is not None:
            self.used.add(callee)
            res = m(self, st, inst, vals, dty, tsp, tys)
            if res is not None:
                outs = []
                for r in res:
                    s2, v = r[0], r[1]
                    e = r[2] if len(r) > 2 else []
                    if v == 'panic':
                        outs.append((None, e, s2))
                        continue
                    if dest is not None and v is not None:
                        self.write_place(s2, dest, self.canon(v, dty))
                    if target is None:
                        outs.append((None, e, s2))
                        continue
                    self.goto(s2, target)
                    outs.append((s2, e, s2))
                if len(outs) == 1 and outs[0][0] is None:
                    evs.extend(outs[0][1])
                    return ('panic', None, outs[0][2])
                good = [(s, e) for s, e, _ in outs if s is not None]
                # panicking alternatives are recorded on the surviving ones' source as events
                for s, e, s2 in outs:
                    if s is None:
                        for x in e:
                            evs.append(x)
                if len(good) == 1 and good[0][0] is st:
                    evs.extend(good[0][1])
                    return None
                return good
        if inst['k'] == 'intrinsic' or inst['body'] is None:
            return self.unknown(st, inst['d'], vals, tys or [None] * len(vals), dest, target, tsp, evs, inst, dty)
        # enter
        body = inst['body']
        if len(st.frames) >= MAX_DEPTH:
            raise Bug('call depth exceeded at %s' % inst['n'])
        if inst['d'].endswith('}') and len(vals) == 2 and inst['k'] == 'item' and body['spread'] is None:
            tup = vals[1]
            n = body['n'] - 1
            if tup[0] == 'a':
                vals = [vals[0]] + list(tup[2])
            elif n == 0:
                vals = [vals[0]]
            else:
                tty = tys[1] if tys else None
                vals = [vals[0]] + [self.getf(tup, tty, None, i) for i in range(n)]
        if len(vals) != body['n']:
            raise Bug('argument mismatch calling %s' % inst['n'])
        depth = len(st.frames)
        st.frames = st.frames + ((callee, 0, tuplify(dest), target, tuple(tsp)),)
        for i, v in enumerate(vals):
            st.mem[('L', depth, i + 1)] = v
        if 'enter' in self.hooks and inst['cr'] == 'polling':
            evs.append(self.event(st, tsp, k='fncall', name=inst['d'], args=tuple(vals)))
        return None

    def place_ty(self, st, pl):
        ty = self.p.insts[st.frames[-1][0]]['body']['l'][pl[0]]
        for e in pl[1]:
            if e == '*':
                t = self.T[ty]
                ty = t['to'] if 'to' in t else t['a'][0]
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.T[ty]['e']
            elif e[0] == 'oc':
                ty = e[1]
        return ty

    def unknown(self, st, name, vals, tys, dest, target, tsp, evs, inst=None, dty=None):
        """A function that is neither analysed nor modelled: anything may be returned and
        everything reachable through mutable references may change."""
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        if dest is not None and dty is None:
            dty = self.place_ty(st, dest)
        evs.append(self.event(st, tsp, k='unknown', name=name,
                              args=tuple(self.deep(st, v) for v in vals)))
        for v, ty in zip(vals, tys):
            if v[0] == 'r' and ty is not None and self.T.kind(ty) in ('ref', 'ptr') and self.T[ty]['m']:
                to = self.T[ty]['to']
                self.write(st, v[1], v[2], self.canon(self.fresh(st, 'hv', to, ('arg',)), to))
        if target is None:
            return ('panic', None, st)
        if dest is not None:
            self.write_place(st, dest, self.canon(self.fresh(st, 'ret:' + name, dty), dty))
        self.goto(st, target)
        return None

    def deep(self, st, v, depth=3):
        """Value with references replaced by ('&', pointee)."""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'r' and depth > 0:
            try:
                x = self.read(st, v[1], v[2])
            except Bug:
                x = ('un', None)
            return ('&', self.deep(st, x, depth - 1), v[1:3], v[3])
        if v[0] == 'a':
            return ('a', v[1], tuple(self.deep(st, x, depth) for x in v[2]))
        return v


def counted(old, new):
    """the loop advances through a small range with constant bounds: let it run its course"""
    def go(a, b):
        if a == b or not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b or a[0] != b[0]:
            return False
        if a[0] == 'ita':
            return a[1:4] == b[1:4]
        if a[0] == 'a' and len(a) == 3 and len(a[2]) == len(b[2]):
            if len(a[2]) == 2 and all(x[0] == 'c' for x in a[2] + b[2]):
                (i, n), (j, m) = [[x[1] for x in v[2]] for v in (a, b)]
                return n == m and j == i + 1 and j <= n <= 64 or i == j and m == n - 1 and i <= m <= 64
            return any(go(x, y) for x, y in zip(a[2], b[2]))
        if a[0] in ('union', 'd', 'i'):
            return go(a[-1], b[-1])
        return False
    return any(r in old.mem and go(old.mem[r], v) for r, v in new.mem.items())


def tuplify(x):
    if isinstance(x, list):
        return tuple(tuplify(y) for y in x)
    return x


def ground(base):
    while base and base[0] in ('hv', 'pollres'):
        base = base[1]
    return base


def hv(base):
    return base if base and base[0] == 'hv' else ('hv', base)
