"""Registry operations on the poll(2) backend: the interest set and the per-source data live in
two collections under one lock.  The rules look at what an operation leaves behind when it
releases the lock, as a difference against what it found."""
import itertools
from rules import *
from dom import *
import p_registry as R


class Shape:
    """Where the interest set, the per-source data and their fields are, derived from what wait
    hands to poll(2) and what add leaves behind."""

    def __init__(self, ctx):
        self.ctx = ctx
        T = self.T = ctx.T
        g = ctx.graph('wait')
        refs = set()
        for e in g.edges:
            for x in e.ev:
                if x.k == 'sys' and x.name == 'kwait' and x.setref is not None:
                    refs.add(x.setref[1:3])
        if len(refs) != 1:
            raise Bug('poll(2) is not called on a single collection (%d found)' % len(refs))
        root, self.vproj = refs.pop()
        if root[0] != 'O' or root[1][0] != 'mxc':
            raise Bug('the set given to poll(2) is not protected by a lock')
        self.cty = root[2]
        self.mutex = root[1][1:]
        # the map lives beside the vector
        maps = set()
        for r, op, m in R.ops(ctx, ('add',)):
            for e in ctx.graph(r).edges:
                for x in e.ev:
                    if x.k == 'coll' and x.op == 'insert' and x.place[0][0] == 'O' and \
                            x.place[0][1][0] == 'mxc' and x.place[0][1][1:] == self.mutex:
                        maps.add(x.place[1])
        if len(maps) != 1:
            raise Bug('add does not record its source in a single map (%d found)' % len(maps))
        self.mproj = maps.pop()
        self.vty = self.proj_ty(self.vproj)
        self.mty = self.proj_ty(self.mproj)
        self.ety = T[self.vty]['a'][0]
        self.dty = T[self.mty]['a'][1]
        self.I = ctx.world.interp()
        self.leaf = None
        self.find_fields()

    def proj_ty(self, proj):
        t = self.cty
        for e in proj:
            t = e[3]
        return t

    def get(self, v, proj):
        ty = self.cty
        v = self.I.canon(v, ty)
        for e in proj:
            v = self.I.canon(self.I.getf(v, ty, e[1], e[2]), e[3])
            ty = e[3]
        return v

    def vec(self, contents):
        v = self.get(contents, self.vproj)
        if v[0] != 'coll':
            raise Bug('interest set is not a vector')
        return v

    def map(self, contents):
        v = self.get(contents, self.mproj)
        if v[0] != 'coll':
            raise Bug('source data is not a map')
        return v

    def named(self, v, ty, name):
        """field of that name, searched through nested structures"""
        t = self.T[ty]
        if t['k'] != 'adt' or t['ak'] != 'struct' or not t['v'][0]['f']:
            return None
        v = self.I.canon(v, ty)
        for i, f in enumerate(t['v'][0]['f']):
            if f[0] == name:
                return self.I.canon(self.I.getf(v, ty, None, i), f[1])
        for i, f in enumerate(t['v'][0]['f']):
            r = self.named(self.I.getf(v, ty, None, i), f[1], name)
            if r is not None:
                return r
        return None

    def entry(self, v):
        """(descriptor, events) of an interest-set entry"""
        fd, evs = self.named(v, self.ety, 'fd'), self.named(v, self.ety, 'events')
        if fd is None or evs is None:
            raise Bug('interest-set entry %s has no fd/events' % self.T.name(self.ety))
        n = self.I.num(evs)
        return peel_fd(fd), n if n is not None else evs

    def leaves(self):
        """[(chain of (field, type)), type] of the fields of the per-source data; structures of the
        crate are taken apart"""
        if self.leaf is None:
            def split(ty, chain, out):
                t = self.T[ty]
                if t['k'] == 'tuple' or t['k'] == 'adt' and t['ak'] == 'struct' and (
                        not chain or t['p'].startswith(('polling::', 'crate::')) or t.get('cr') == 'polling'):
                    n = len(t['v'][0]['f']) if t['k'] == 'adt' else len(t['f'])
                    for i in range(n):
                        split(self.T.field(ty, None, i), chain + ((i, ty),), out)
                else:
                    out.append((chain, ty))
                return out
            self.leaf = split(self.dty, (), [])
        return self.leaf

    def data(self, v):
        """the values of those fields"""
        out = []
        for chain, ty in self.leaves():
            x = v
            for i, t in chain:
                x = self.I.getf(self.I.canon(x, t), t, None, i)
            out.append(self.I.canon(x, ty))
        return out

    def indexes(self, i):
        return [c[0] for c in self.leaves()[i][0]]

    def find_fields(self):
        """index / key fields of the per-source data, from what add stores"""
        self.ix = self.key = cut = None
        kt = R.key_term(self.ctx)
        for r, op, m in R.ops(self.ctx, ('add',)):
            for c in final(self.ctx, r, self):
                if c is None or not c.ok:
                    continue
                vec, mp = self.vec(c.contents), self.map(c.contents)
                for k, d in mp[3]:
                    if d is None:
                        continue
                    fs = self.data(d)
                    for t, _ in vec[3]:
                        for i, f in enumerate(fs):
                            if f == t:
                                self.ix = i
                            elif f[0] != 'c' and t[0] != 'c' and t in subterms(f):
                                # converted to a narrower integer
                                w = self.T[self.leaves()[i][1]]
                                if w.get('size', 8) < 4:
                                    cut = self.T.name(self.leaves()[i][1])
                    for i, f in enumerate(fs):
                        if f == kt:
                            self.key = i
        if self.ix is None:
            if cut and self.ctx.rep.prop == 'P17':
                self.ctx.rep.bad(self.ctx.config, 'src::add', 'position-cut', 'add',
                                 'add: the position of the source is recorded in %s, which cannot hold every position' % cut)
            raise Bug('no field of %s records the position in the interest set' % self.T.name(self.dty))

    def idx_of(self, base, k):
        """position recorded for source k in the map as it was found"""
        return self.data(('elem', base, k, self.dty))[self.ix]

    def fd_at(self, base, t):
        """descriptor at position t of the interest set as it was found"""
        return self.entry(self.I.canon(('elem', base, t, self.ety), self.ety))[0]


class Final:
    """The state an operation leaves when it releases the lock, and its result."""

    def __init__(self, contents, facts, ok, ev, uev):
        self.contents, self.facts, self.ok, self.ev, self.uev = contents, facts, ok, ev, uev


def pure(x):
    """an invariant-contradicting path?  decided by Inv.dead"""


def final(ctx, root, sh):
    """Final states of every path of an operation that took the lock (deduplicated)."""
    g = ctx.graph(root)
    out = []
    seen = set()

    def step(fl, q, e):
        if e.k == 'unlock' and e.place == sh.mutex:
            return (e.contents, frozenset(e.facts.items()), e)
        if e.k == 'return':
            ok = is_ok(e.value)
            if ok is None:
                raise Bug('%s: result is neither Ok nor Err' % root)
            if not q:
                key = (None, ok, frozenset(e.facts.items()))
                f = Final(None, e.facts, ok, e, None)
            else:
                key = (q[0], ok, q[1])
                f = Final(q[0], dict(q[1]), ok, e, q[2])
            if key not in seen:
                seen.add(key)
                f.path = fl.path()
                out.append(f)
            return None
        return q
    flow(ctx, root, g, (), step)
    return out


class Inv:
    """Reasoning with the invariant assumed on entry:
      I1  0 < idx(k) < len for every recorded source k
      I2  fd_at(idx(k)) = k
      I3  every position t > 0 holds a recorded source, and idx(fd_at(t)) = t"""

    def __init__(self, sh, contents):
        self.sh = sh
        self.vec, self.map = sh.vec(contents), sh.map(contents)
        self.vb, self.mb = base_of(self.vec[2]), base_of(self.map[2])

    def known(self, F, k):
        """is k a source recorded on entry?"""
        if F.get(('eq', ('has', self.mb, k))) == 1:
            return True
        return self.is_fd_at(k) is not None

    def is_fd_at(self, k):
        """t if k is syntactically the descriptor at position t"""
        for x in subterms(k):
            if x[0] == 'elem' and x[1] == self.vb:
                if peel_fd(self.sh.fd_at(self.vb, x[2])) == peel_fd(k):
                    return x[2]
        return None

    def idx(self, k):
        t = self.is_fd_at(k)
        return t if t is not None else self.sh.idx_of(self.mb, wrap_like(k))

    def dead(self, F):
        """facts contradict the invariant"""
        for key, v in F.items():
            if key[0] == 'eq' and key[1][0] == 'has' and key[1][1] == self.mb and v == 0:
                if self.is_fd_at(key[1][2]) is not None:
                    return True
            if key[0] == 'eq' and key[1][0] == 'eq0' and v == 1 or key[0] == 'ge' and False:
                # fd_at(t) = k  implies idx(k) = t
                c, d = lin(key[1][1])
                if c == 0 and len(d) == 2:
                    (a, ka), (b, kb) = d.items()
                    if ka == -kb:
                        for x, y in ((a, b), (b, a)):
                            t = self.is_fd_at(x)
                            if t is not None and self.is_fd_at(y) is None:
                                if decide(eq0(sub(self.sh.idx_of(self.mb, y), t)), F) == 0:
                                    return True
        return False


def base_of(b):
    """the collection as found under the lock, below poll(2) results and summaries"""
    while b and b[0] in ('pollres', 'hv', 'shift'):
        b = b[1]
    return b


def wrap_like(k):
    return k


_subs = {}


def subterms(t):
    r = _subs.get(t)
    if r is None:
        r = [t] if t and isinstance(t[0], str) else []
        for x in t:
            if isinstance(x, tuple) and x:
                r = r + subterms(x)
        _subs[t] = r
    return r


def unchanged(sh, c):
    """nothing differs from what was found under the lock"""
    if c[0] == 's':
        return True
    for v in (sh.vec(c), sh.map(c)):
        if v[3] and not all(x is not None and untouched(v[2], k, x) for k, x in v[3]) or v[4] != ('lenof', v[2]) or v[2][0] in ('pollres', 'hv', 'shift', 'empty'):
            return False
    return True


def untouched(base, k, x):
    """x is what the collection held under k all along"""
    if x == ('elem', base, k, x[3] if len(x) > 3 else None):
        return True
    if x[0] == 'a':
        return bool(x[2]) and all(y[0] == 'f' and y[3] == i and y[1][:3] == ('elem', base, k)
                                  for i, y in enumerate(x[2]))
    return False


def eqt(a, b, F):
    return a == b or peel_fd(a) == peel_fd(b) or decide(eq0(sub(peel_fd(a), peel_fd(b))), F) == 1


def same(a, b, F):
    """equal values, of any type"""
    if a == b:
        return True
    try:
        return decide(eq0(sub(a, b)), F) == 1
    except (Bug, TypeError, IndexError, KeyError, ValueError):
        return False


def is_mine(inv, fd, F):
    """is fd the descriptor of the given source, or the one at the position recorded for it?"""
    if is_src(fd):
        return True
    at = inv.is_fd_at(fd)
    return at is not None and any(
        k[0] == 'eq' and v == 1 and k[1][0] == 'has' and k[1][1] == inv.mb and is_src(k[1][2]) and
        eqt(inv.sh.idx_of(inv.mb, k[1][2]), at, F) for k, v in F.items())


def other_changes(rep, sh, inv, F):
    """what an operation changes of sources other than the given one, besides the position:
    {index of a field of the per-source data, 'entry'}"""
    out = set()
    for k, d in inv.map[3]:
        if d is None or is_src(peel_fd(k)):
            continue
        rep.ob('records of other sources')
        was = sh.data(('elem', inv.mb, k, sh.dty))
        out |= {i for i, x in enumerate(sh.data(d)) if i != sh.ix and not same(x, was[i], F)}
    for t, x in inv.vec[3]:
        fd, evs = sh.entry(x)
        at = inv.is_fd_at(fd)
        if at is None or is_mine(inv, fd, F):
            continue
        rep.ob('entries of other sources')
        if not same(evs, sh.entry(sh.I.canon(('elem', inv.vb, at, sh.ety), sh.ety))[1], F):
            out.add('entry')
    return out


def others_kept(ctx, sh, what, rule, msg):
    """no operation changes the given part of the state of another source"""
    for root, op, m in R.ops(ctx):
        for f in final(ctx, root, sh):
            if f.contents is None or not f.ok:
                continue
            inv = Inv(sh, f.contents)
            if not inv.dead(f.facts) and what in other_changes(ctx.rep, sh, inv, f.facts):
                ctx.rep.bad(ctx.config, root, rule, op, '%s changes %s of another source' % (op, msg), f.path)


def wait_keeps(ctx, sh, i, rule, msg, fine=lambda v: False):
    """no wait changes field i of the data of any source (to a value that is not `fine`)"""
    rep = ctx.rep

    def check(base, ents, F, bad):
        for k, d in ents:
            if d is None:
                continue
            rep.ob('records a wait rewrites')
            new = sh.data(d)[i]
            if any(same(sh.data(('elem', b, k, sh.dty))[i], new, F) for b in {base, base_of(base)}) or fine(new):
                continue
            b, ch = (new, ())
            while isinstance(b, tuple) and b and b[0] == 'f':
                b = b[1]
            if b and b[0] == 'elem' and base_of(b[1]) == base_of(base) and b[2] == k and \
                    same(sh.data(('elem', b[1], k, sh.dty))[i], new, F):
                continue
            bad()
    g = ctx.graph('wait')
    done = set()

    def step(fl, q, e):
        c = None
        if e.k == 'unlock' and e.place == sh.mutex:
            c = e.contents
        elif e.k == 'cvwait' and e.released is not None:
            c = e.released
        if c is not None and (c, e.loc) not in done:
            done.add((c, e.loc))
            mp = sh.map(c)
            check(mp[2], mp[3], e.facts, lambda: fl.bad(rule, e, 'wait changes %s of a source' % msg))
        return q
    flow(ctx, 'wait', g, 0, step)
    for kind, base, ents, F in sorted(ctx.world.interps['wait'].folds, key=repr):
        if kind == 'map' and any(t[0] == 'locked' for t in [base_root(base)]):
            check(base, ents, dict(F), lambda: rep.bad(
                ctx.config, 'wait', rule, 'wait', 'wait changes %s of a source, in a loop' % msg))


def base_root(b):
    """the name of the leaf a collection term is read from"""
    for a in atoms(b):
        if a[0] == 's' and a[1] == 'locked':
            return (a[1],)
    return ('',)


def ctx_shape(ctx):
    s = getattr(ctx, '_shape', None)
    if s is None:
        s = ctx._shape = Shape(ctx)
    return s


def is_src(t):
    return param_root(t) == 'a1'


def internal_fds(ctx):
    return {a for _, v, _ in ctx.world.pollers() for a in atoms(v) if a[0] == 'fd'}


def is_internal(ctx, F):
    """facts imply the source is one of the poller's own descriptors"""
    for f in internal_fds(ctx):
        for k, v in F.items():
            if k[0] == 'eq' and v == 1 and k[1][0] == 'eq0' and f in atoms(k[1]) and \
                    any(a[0] == 's' and a[1] == 'in:a1' for a in atoms(k[1])):
                return True
    return False


def excluded(F, f):
    """facts rule out that the source is the poller's own descriptor f"""
    return any(k[0] == 'eq' and v == 0 and k[1][0] == 'eq0' and f in atoms(k[1]) and
               any(a[0] == 's' and a[1] == 'in:a1' for a in atoms(k[1])) for k, v in F.items())


def src_term(ctx, sh, root):
    """the descriptor term of the source parameter of this entry point (peeled)"""
    g = ctx.graph(root)
    for e in g.edges:
        for x in e.ev:
            if x.k == 'coll' and x.key is not None and is_src(x.key):
                return x.key
    raise Bug('%s never looks its source up' % root)


def p15(ctx):
    """Each operation applies to exactly the given source: Ok iff it was applied; what is left
    behind is precisely the documented change."""
    rep = ctx.rep
    sh = ctx_shape(ctx)
    for root, op, m in R.ops(ctx):
        for f in final(ctx, root, sh):
            rep.ob('final states')
            where = f.ev.fn

            def bad(rule, msg):
                rep.bad(ctx.config, root, rule, op, '%s: %s' % (op, msg), f.path)
            if f.contents is None:
                if f.ok:
                    bad('ok-without-effect', 'returns Ok without taking the lock')
                elif op != 'delete' and R.key_reserved(ctx, f.facts) is True:
                    rep.ob('reserved-key rejections')
                elif err_kind(ctx, err_of(f.ev.value)) == 'InvalidInput' and is_internal(ctx, f.facts):
                    rep.ob('internal-descriptor rejections')
                else:
                    bad('rejected', 'fails before looking the source up')
                continue
            inv = Inv(sh, f.contents)
            if inv.dead(f.facts):
                continue
            has = None
            for k, v in f.facts.items():
                if k[0] == 'eq' and k[1][0] == 'has' and k[1][1] == inv.mb and is_src(k[1][2]):
                    has = v
            if is_internal(ctx, f.facts):
                bad('internal-fd', 'one of the poller\'s own descriptors is accepted')
            if not f.ok:
                kind = err_kind(ctx, err_of(f.ev.value))
                if op == 'add' and has == 1:
                    if kind != 'AlreadyExists':
                        bad('kind-exists', 'a source that is already registered is rejected with the wrong kind')
                elif op != 'add' and has == 0:
                    if kind != 'NotFound':
                        bad('kind-missing', 'a source that is not registered is rejected with the wrong kind')
                elif kind == 'Unsupported' and op != 'delete':
                    pass
                else:
                    bad('refused', 'fails although the source is %sregistered' % ('' if has else 'not '))
                continue
            # Ok
            if op == 'add' and has != 0:
                bad('add-existing', 'succeeds without establishing that the source is not registered yet')
                continue
            if op == 'add':
                for fd in sorted(internal_fds(ctx), key=str):
                    if not excluded(f.facts, fd):
                        bad('internal-fd', 'succeeds without ruling out the poller\'s own descriptor %s' % show_term(fd))
                        break
            if op != 'add' and has != 1:
                bad('missing', 'succeeds for a source that is not registered')
                continue
            vec, mp = inv.vec, inv.map
            if other_changes(rep, sh, inv, f.facts):
                bad('other-source', 'the data or the interest-set entry of a source other than the given one changes')
                continue
            n0, m0 = ('lenof', inv.vb), ('lenof', inv.mb)
            dv, dm = sub(vec[4], n0), sub(mp[4], m0)
            want = {'add': 1, 'modify': 0, 'delete': -1}[op]
            if dv != C(want) or dm != C(want):
                bad('count', 'the number of registered sources changes by %s / %s instead of %d' % (
                    show_term(dv), show_term(dm), want))
                continue
            if op == 'delete':
                gone = [k for k, d in mp[3] if d is None]
                if not (len(gone) == 1 and is_src(gone[0])):
                    bad('wrong-source', 'a source other than the given one is removed')
                continue
            mine = [(k, d) for k, d in mp[3] if d is not None and is_src(k)]
            if len(mine) != 1:
                bad('wrong-source', 'the data of the given source is written %d times' % len(mine))
                continue
            ents = [x for t, x in vec[3] if is_mine(inv, sh.entry(x)[0], f.facts) or
                    inv.is_fd_at(sh.entry(x)[0]) is None]
            if len(ents) != 1:
                bad('wrong-entry', '%d interest-set entries of the source change instead of one' % len(ents))
                continue
            if not is_mine(inv, sh.entry(ents[0])[0], f.facts):
                bad('wrong-entry', 'the interest-set entry written names another descriptor')
                continue
            rep.ob('registry call sites on paths')
    rep.require('registry call sites on paths', 2)
    rep.require('internal-descriptor rejections', 1)


def p03(ctx):
    rep = ctx.rep
    sh = ctx_shape(ctx)
    for root, op, m in R.ops(ctx, ('add', 'modify')):
        g = ctx.graph(root)

        def step(fl, q, e):
            if e.k == 'sys' or e.k in ('lock', 'coll', 'atomic'):
                if not q and R.key_reserved(ctx, e.facts) is not False:
                    return e.k if e.k != 'sys' else e.name
            if e.k == 'return':
                r = R.key_reserved(ctx, e.facts)
                rep.ob('paths classified by key')
                if r is not False:
                    if is_ok(e.value):
                        fl.bad('reserved-accepted', e, '%s lets the reserved key through' % op)
                    elif q and r is True:
                        fl.bad('reserved-effect', e, 'the reserved key is rejected only after %s' % q)
                    elif r is True and err_kind(ctx, err_of(e.value)) != 'InvalidInput':
                        fl.bad('reserved-kind', e, 'the reserved key is rejected with a kind other than InvalidInput')
                return None
            return q
        flow(ctx, root, g, (), step)


def p16(ctx):
    """A failing operation leaves both collections as they were."""
    rep = ctx.rep
    sh = ctx_shape(ctx)
    for root, op, m in R.ops(ctx):
        for f in final(ctx, root, sh):
            rep.ob('return paths')
            if f.ok or f.contents is None:
                continue
            rep.ob('failing paths that held the lock')
            if not unchanged(sh, f.contents):
                if Inv(sh, f.contents).dead(f.facts):
                    continue
                what = []
                c = f.contents
                if sh.vec(c)[3] or sh.vec(c)[4] != ('lenof', sh.vec(c)[2]):
                    what.append('interest set')
                if sh.map(c)[3] or sh.map(c)[4] != ('lenof', sh.map(c)[2]):
                    what.append('source data')
                rep.bad(ctx.config, root, 'partial', op,
                        '%s fails but has already changed the %s' % (op, ' and the '.join(what)), f.path)


def p17(ctx):
    """Positions recorded for sources and the interest set stay in step (inductive)."""
    rep = ctx.rep
    sh = ctx_shape(ctx)
    # initially: one entry, the notifier, and no source
    news = set()
    for e in ctx.world.new_graph().edges:
        for x in e.ev:
            if x.k == 'newmutex' and x.value[0] == 'a':
                try:
                    v, m = sh.vec(x.value), sh.map(x.value)
                except Bug:
                    continue
                news.add((v, m))
    if not news:
        raise Bug('initial contents of the interest set not found')
    for v, m in news:
        rep.ob('initial states')
        if m[2] != ('empty',) or m[3] or m[4] != C(0):
            rep.bad(ctx.config, 'poller_new', 'initial-map', 'new', 'sources are recorded in a new poller')
        if v[4] != C(1) or len(v[3]) != 1:
            rep.bad(ctx.config, 'poller_new', 'initial-set', 'new', 'a new interest set does not hold exactly the notifier')
    for root, op, m in R.ops(ctx):
        for f in final(ctx, root, sh):
            if f.contents is None:
                continue
            check_inv(ctx, sh, root, f.contents, f.facts, lambda rule, msg: rep.bad(
                ctx.config, root, rule, op, '%s: %s' % (op, msg), f.path))
    # wait releases the lock at condition-variable waits and at its end
    g = ctx.graph('wait')

    def step(fl, q, e):
        c = None
        if e.k == 'unlock' and e.place == sh.mutex:
            c = e.contents
        elif e.k == 'cvwait' and e.released is not None:
            c = e.released
        if c is not None and (c, e.loc) not in done:
            done.add((c, e.loc))
            check_inv(ctx, sh, 'wait', c, e.facts, lambda rule, msg: fl.bad(rule, e, 'wait: ' + msg))
        return q
    done = set()
    flow(ctx, 'wait', g, 0, step)
    for kind, base, ents, F in sorted(ctx.world.interps['wait'].folds, key=repr):
        b = base_of(base)
        if kind != 'vec' or not is_field_of_lock(sh, b):
            continue
        F = dict(F)
        inv = Inv.__new__(Inv)
        inv.sh, inv.vb, inv.mb = sh, b, sibling(sh, b)
        for t, x in ents:
            rep.ob('entries summarised in loops')
            if not keeps_fd(sh, inv, F, t, x, []):
                rep.bad(ctx.config, 'wait', 'renamed', 'wait',
                        'wait: an interest-set entry is rewritten with another descriptor in a loop')
    rep.require('states at release of the lock', 5)


def check_inv(ctx, sh, root, contents, F, bad):
    rep = ctx.rep
    inv = Inv(sh, contents)
    if inv.dead(F):
        return
    rep.ob('states at release of the lock')
    vec, mp = inv.vec, inv.map
    b = vec[2]
    # poll results and rewritten entries must keep every descriptor where it is
    layers = []
    while b and b[0] in ('pollres', 'hv', 'shift'):
        if b[0] == 'shift':
            bad('shifted', 'entries of the interest set move without their recorded positions')
            return
        if b[0] == 'pollres':
            layers.append(b[2])
        b = b[1]
    if mp[2][0] in ('hv', 'shift') and root != 'wait':
        raise Bug('%s: source data is only known in summary' % root)
    n0, n1 = ('lenof', inv.vb), vec[4]
    ents = {}
    for ov in layers[::-1] + [vec[3]]:
        for t, x in ov:
            ents[t] = x
    md = {k: d for k, d in mp[3]}
    grow = sub(n1, n0)
    if grow[0] != 'c' or grow[1] not in (-1, 0, 1):
        bad('length', 'the interest set changes length by %s' % show_term(grow))
        return

    def recorded(k):
        """(present, position) of source k afterwards"""
        for kk, d in md.items():
            if eqt(kk, k, F):
                if d is None:
                    return False, None
                return True, sh.data(d)[sh.ix]
        if inv.known(F, k):
            return True, inv.idx(k)
        return None, None

    def at(t):
        """descriptor at position t afterwards"""
        for tt, x in ents.items():
            if eqt(tt, t, F):
                return sh.entry(x)[0]
        for k in list(md) + [x for x in knowns]:
            if inv.known(F, k) and eqt(inv.idx(k), t, F):
                return peel_fd(k)
        return sh.fd_at(inv.vb, t)
    knowns = [k[1][2] for k, v in F.items() if k[0] == 'eq' and k[1][0] == 'has' and k[1][1] == inv.mb and v == 1]
    # every rewritten position holds a source that is recorded there
    for t, x in ents.items():
        rep.ob('rewritten entries')
        if t == C(0) or decide(eq0(t), F) == 1:
            if grow == C(0) and sh.entry(x)[0] in (sh.fd_at(inv.vb, C(0)),):
                continue
            bad('notifier-entry', 'the notifier\'s entry is overwritten')
            continue
        fd = sh.entry(x)[0]
        if root == 'wait':
            if not keeps_fd(sh, inv, F, t, x, knowns):
                bad('renamed', 'an interest-set entry is rewritten with another descriptor')
            continue
        p, i = recorded(fd)
        if not p or not eqt(i, t, F):
            bad('entry-unrecorded', 'the entry at position %s holds a source whose recorded position is %s' % (
                show_term(t), show_term(i) if i else 'missing'))
    # every rewritten record points at its source
    for k, d in md.items():
        rep.ob('rewritten records')
        if d is None:
            # the old position must be gone or hold something else
            i = inv.idx(k)
            trunc = grow == C(-1) and decide(eq0(sub(i, n1)), F) == 1
            if not trunc and eqt(at(i), k, F):
                bad('entry-left', 'a removed source keeps its entry in the interest set')
            continue
        i = sh.data(d)[sh.ix]
        if not eqt(at(i), k, F):
            bad('record-stale', 'the position recorded for a source is %s, where another descriptor is polled' % show_term(i))
        elif decide(ge0(sub(n1, add(i, C(1)))), F) == 0:
            bad('record-range', 'the position recorded for a source is outside the interest set')
    if grow == C(1):
        if not any(eqt(t, n0, F) for t in ents):
            bad('unset', 'the interest set grows by an entry nothing describes')
        if sub(mp[4], ('lenof', inv.mb)) != C(1):
            bad('count', 'an interest-set entry is added without a record')
    if grow == C(-1):
        if sub(mp[4], ('lenof', inv.mb)) != C(-1):
            bad('count', 'an interest-set entry is removed without its record')
        # the entry that was last must have been removed or moved
        last = n1
        for k in [k for k in md if md[k] is None]:
            i = inv.idx(k)
            if decide(eq0(sub(i, last)), F) == 1:
                break
        else:
            lf = sh.fd_at(inv.vb, last)
            p, i = recorded(lf)
            if i is None or eqt(i, last, F):
                bad('last-lost', 'the last entry of the interest set is dropped while its source stays recorded there')


def is_field_of_lock(sh, b):
    """b is the interest set as found under the lock"""
    for e in reversed(sh.vproj):
        if b[0] != 'f' or b[3] != e[2]:
            return False
        b = b[1]
    return b[0] == 's' and b[1] == 'locked'


def sibling(sh, b):
    """the source data found under the same lock"""
    for e in sh.vproj:
        b = b[1]
    for e in sh.mproj:
        b = ('f', b, e[1], e[2], e[3])
    return b


def unlayer(t):
    """Read through summaries and poll results: every entry they replaced kept its descriptor
    (each is checked where it is written or summarised)."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ('hv', 'sel', 'pollres'):
        return unlayer(t[1])
    return tuple(unlayer(x) for x in t)


def keeps_fd(sh, inv, F, t, x, knowns):
    """the entry x still names the descriptor that was polled at position t"""
    fd = unlayer(sh.entry(x)[0])
    t = unlayer(t)
    return fd == ('elem', inv.vb, t, sh.ety) or eqt(fd, sh.fd_at(inv.vb, t), F) or \
        eqt(fd, at0(sh, inv, F, t, knowns), F)


def at0(sh, inv, F, t, knowns):
    for x in subterms(t):
        if x[0] == 'elem' and x[1] == inv.mb:
            k = x[2]
            if eqt(inv.idx(k), t, F):
                return peel_fd(k)
    return sh.fd_at(inv.vb, t)


def rearmed(ctx, sh):
    """every successful add and modify writes the source's entry, which a delivery may have emptied"""
    for with_mode in (False, True):
        for root, op, m in R.ops(ctx, ('add', 'modify'), with_mode):
            for f in final(ctx, root, sh):
                if f.contents is None or not f.ok:
                    continue
                inv = Inv(sh, f.contents)
                if inv.dead(f.facts):
                    continue
                ctx.rep.ob('registrations that arm the source')
                if not any(is_mine(inv, sh.entry(x)[0], f.facts) for _, x in inv.vec[3]):
                    ctx.rep.bad(ctx.config, root, 'not-rearmed', op,
                                '%s succeeds without arming the source again' % op, f.path)


def events_of(ctx, prop):
    """Interest table for the poll backend: the events field of the entry add / modify leave."""
    rep = ctx.rep
    sh = ctx_shape(ctx)
    kt, rt, wt = R.inputs(ctx)
    md = R.modes(ctx)
    for with_mode in (False, True):
        for root, op, pr, it, g in R.registrations(ctx, with_mode):
            mt = R.mode_term(ctx)
            covered = set()

            def step(fl, q, e):
                if e.k == 'unlock' and e.place == sh.mutex:
                    return (e.contents, frozenset(e.facts.items()))
                if e.k == 'return' and q and is_ok(e.value):
                    F = dict(q[1])
                    inv = Inv(sh, q[0])
                    if inv.dead(F):
                        return None
                    mine = [evs for fd, evs in (sh.entry(x) for _, x in inv.vec[3]) if is_src(fd)]
                    if not mine:
                        fl.bad('not-written', e, '%s succeeds without writing the source\'s interest-set entry' % op)
                    for evs in mine:
                        for r, w in itertools.product((0, 1), (0, 1)):
                            for mn, d in (md.items() if with_mode else [('Oneshot', None)]):
                                env = {kt: 7, rt: r, wt: w}
                                if d is not None:
                                    env[mt] = d
                                if not consistent(F, env):
                                    continue
                                f = tv(evs, env)
                                rep.ob('rows of the interest table')
                                covered.add((r, w))
                                msg = R.interest_errors(f, r, w, pr)
                                if msg:
                                    fl.bad('table:%s' % msg.split(' is ')[0].split(' are ')[0].replace(' ', '-'),
                                           e, '%s (readable=%d writable=%d priority=%d interrupt=%d: events 0x%x)' % (
                                               msg, r, w, pr, it, f))
                    return None
                return q
            flow(ctx, root, g, (), step)
            for r, w in itertools.product((0, 1), (0, 1)):
                if (r, w) not in covered:
                    rep.bad(ctx.config, root, 'uncovered', op,
                            'no interest-set entry is written for readable=%d writable=%d' % (r, w))


def p10(ctx):
    events_of(ctx, 'P10')
    others_kept(ctx, ctx_shape(ctx), 'entry', 'interest-of-other', 'the interest')
