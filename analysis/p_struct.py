"""Descriptors (flags, blocking mode, ownership) and absence of panics."""
from rules import *
from dom import *
import models
from p_pollreg import subterms

CREATE = ('epoll_create', 'eventfd', 'pipe', 'timerfd_create', 'dup', 'socketpair', 'socket')
CLOEXEC = 0x80000   # O_CLOEXEC, EPOLL_CLOEXEC, EFD_CLOEXEC, TFD_CLOEXEC
NONBLOCK = 0x800
FD_CLOEXEC = 1


def is_sys(e, *names):
    return e.k == 'sys' and e.name in names


def created(e):
    """descriptors a successful call created"""
    if e.k == 'sys' and e.out == 'ok' and e.value is not None and e.name not in ('getfd', 'getfl'):
        return [a for a in sorted(atoms(e.value), key=repr) if a[0] == 'fd' and a != e.fd and
                not (e.fd and a in atoms(e.fd)) and not a[1].startswith('poller:')]
    return []


def has_bit(flags, bit):
    """True / False / None"""
    if flags is None:
        return False
    b = bits(flags)
    if b is None:
        return None
    if b[0] & bit:
        return True
    if not any(m & bit for m in b[1].values()):
        return False
    return None


def p21(ctx):
    rep = ctx.rep
    for root in ctx.roots():
        g = ctx.world.new_graph() if root == 'poller_new' else ctx.graph(root)
        I = ctx.world.interps[root]
        ctx.note(root, g, I)

        def step(fl, q, e):
            for a in created(e):
                rep.ob('descriptors created')
                if has_bit(e.flags, CLOEXEC) is not True:
                    q = q | {(a, e.fn, e.loc)}
            if is_sys(e, 'setfd') and e.out == 'ok':
                fd = peel_fd(e.fd)
                on = has_bit(e.flags, FD_CLOEXEC)
                if on is True:
                    q = frozenset(x for x in q if x[0] != fd)
                elif fd[0] == 'fd':
                    # FD_CLOEXEC cleared, or of unknown value: only fine if it was read back
                    if on is False or not reads_back(e.flags, fd):
                        q = q | {(fd, e.fn, e.loc)}
            if is_sys(e, 'close'):
                q = frozenset(x for x in q if x[0] != peel_fd(e.fd))
            if e.k == 'return':
                if q and is_ok(e.value) is not False:
                    for a, fn, loc in sorted(q, key=repr):
                        ev = Ev(fn=fn, loc=loc)
                        fl.bad('inheritable|%s' % a[1], ev, 'the descriptor %s stays inheritable across exec: created' % a[1])
                return None
            return q
        flow(ctx, root, g, frozenset(), step)
    rep.require('descriptors created', 2)


def reads_back(flags, fd):
    b = bits(flags)
    return b is not None and bool(b[1]) and all(
        x[0] == 'op' and str(x[1]).startswith('flags:getf') and fd in x[3] and m & NONBLOCK for x, m in b[1].items())


def final_names(value):
    """the names World.pollers gives to the descriptors of a constructed poller"""
    out = {}
    for a in sorted(atoms(value), key=repr):
        if a[0] == 'fd':
            nm = 'poller:' + a[1]
            k = sum(1 for x in out.values() if x.split('#')[0] == nm)
            out[a] = nm + ('#%d' % k if k else '')
    return out


def p22(ctx):
    rep = ctx.rep
    reads = {}
    for root in ctx.roots():
        if root == 'poller_new':
            continue
        g = ctx.graph(root)
        for e in g.edges:
            for x in e.ev:
                if is_sys(x, 'read', 'readv', 'recv', 'recvfrom'):
                    if x.fd is None or x.fd[0] != 'fd':
                        raise Bug('%s reads a descriptor of unknown origin' % root)
                    reads.setdefault(x.fd[1], set()).add((root, x.fn, x.loc))
    rep.ob('descriptors read', len(reads))
    rep.require('descriptors read')
    g = ctx.world.new_graph()
    ctx.note('poller_new', g, ctx.world.interps['poller_new'])

    def step(fl, q, e):
        for a in created(e):
            if has_bit(e.flags, NONBLOCK) is True:
                q = q | {a}
        if is_sys(e, 'setfl') and e.out == 'ok':
            fd = peel_fd(e.fd)
            on = has_bit(e.flags, NONBLOCK)
            if on is True:
                q = q | {fd}
            elif on is False or not reads_back(e.flags, fd):
                q = q - {fd}
        if e.k == 'return':
            if is_ok(e.value) is True:
                for a, nm in final_names(e.value).items():
                    if nm in reads:
                        rep.ob('descriptors read, per construction')
                        if a not in q:
                            root, fn, loc = min(reads[nm], key=repr)
                            fl.bad('blocking|' + a[1], e, '%s reads %s (%s, %s), which this construction leaves blocking:' % (root, a[1], fn, loc))
            return None
        return q
    flow(ctx, 'poller_new', g, frozenset(), step)
    rep.require('descriptors read, per construction')
    # no operation turns it back
    for root in ctx.roots():
        if root == 'poller_new':
            continue

        def step2(fl, q, e):
            if is_sys(e, 'setfl') and e.fd[0] == 'fd' and e.fd[1] in reads and has_bit(e.flags, NONBLOCK) is not True and \
                    not reads_back(e.flags, e.fd):
                fl.bad('made-blocking', e, 'the notifier is made blocking')
            return q
        flow(ctx, root, ctx.graph(root), 0, step2)


def p23(ctx):
    rep = ctx.rep
    for root in ctx.roots():
        g = ctx.world.new_graph() if root == 'poller_new' else ctx.graph(root)
        ctx.note(root, g, ctx.world.interps[root])
        own = set()
        if root == 'poller_drop':
            for label, v, F in ctx.world.pollers():
                own |= {a for a in atoms(v) if a[0] == 'fd'}

        def step(fl, q, e):
            op, cl = q
            for a in created(e):
                rep.ob('descriptors created')
                op = op | {a}
            if e.k == 'entry' and root == 'poller_drop':
                for label, v, F in ctx.world.pollers():
                    if label == e.label:
                        op = op | {a for a in atoms(v) if a[0] == 'fd'}
            if e.k == 'sys' and e.name in ('close', 'setfl', 'setfd', 'shutdown', 'ioctl'):
                fd = peel_fd(e.fd)
                if e.name == 'close':
                    rep.ob('descriptors closed')
                if fd[0] != 'fd':
                    fl.bad('user-descriptor', e, 'a descriptor that belongs to the user is passed to %s' % e.name)
                elif e.name == 'close':
                    if fd in cl:
                        fl.bad('closed-twice', e, 'the descriptor %s is closed twice' % fd[1])
                    elif fd not in op:
                        fl.bad('closed-in-use', e, 'the descriptor %s is closed while the poller is in use' % fd[1])
                    op, cl = op - {fd}, cl | {fd}
                elif fd in cl:
                    fl.bad('used-after-close', e, 'the descriptor %s is used after it was closed' % fd[1])
            elif e.k == 'sys' and e.fd is not None and peel_fd(e.fd) in cl:
                fl.bad('used-after-close', e, 'the descriptor %s is used after it was closed' % peel_fd(e.fd)[1])
            if e.k == 'return':
                rep.ob('exits examined')
                if root == 'poller_new' and is_ok(e.value):
                    kept = {a for a in atoms(e.value) if a[0] == 'fd'}
                    for a in sorted(op - kept, key=repr):
                        fl.bad('leak|' + a[1], e, 'the descriptor %s is neither closed nor owned by the poller' % a[1])
                    for a in sorted(kept & cl, key=repr):
                        fl.bad('dangling|' + a[1], e, 'the poller owns the closed descriptor %s' % a[1])
                else:
                    kept = {a for a in atoms(e.value) if a[0] == 'fd'}
                    for a in sorted(op - kept, key=repr):
                        fl.bad('leak|' + a[1], e, 'the descriptor %s is not closed' % a[1])
                return None
            return (op, cl)
        flow(ctx, root, g, (frozenset(), frozenset()), step)
    rep.require('descriptors created', 2)
    rep.require('descriptors closed', 2)
    rep.require('exits examined', 5)


# ---- panics -----------------------------------------------------------------------------

STEPS = 1 << 62   # a loop cannot complete more iterations than this


class Facts:
    """Path facts extended with what the data structures guarantee: positions recorded for
    sources lie inside the interest set (P17), a set is never empty, loops are finite."""

    def __init__(self, ctx):
        import p_pollreg as P
        self.P = P
        self.sh = None
        if ctx.config == 'poll' or ctx.config.startswith('poll-'):
            self.sh = P.ctx_shape(ctx)

    def inv(self, mb):
        """the invariant for the map (or vector) found under one lock acquisition"""
        P, sh = self.P, self.sh
        inv = P.Inv.__new__(P.Inv)
        for e in reversed(sh.mproj):
            if mb[0] != 'f' or mb[3] != e[2]:
                return None
            mb = mb[1]
        if mb[0] != 's' or mb[1] != 'locked':
            return None
        root = mb
        m = v = root
        for e in sh.mproj:
            m = ('f', m, e[1], e[2], e[3])
        for e in sh.vproj:
            v = ('f', v, e[1], e[2], e[3])
        inv.sh, inv.vb, inv.mb = sh, v, m
        return inv

    def terms(self, cond, F):
        out = list(self.P.subterms(cond)) if cond is not None else []
        for k in F:
            if k[0] in ('eq', 'ge'):
                out += self.P.subterms(k[1])
        return out

    def extend(self, cond, F):
        """facts, or None if the path contradicts what is guaranteed"""
        F = dict(F)
        subs = self.terms(cond, F)
        for x in subs:
            if x[0] == 's' and x[1] == 'step':
                lo, hi = F.get(('b', x), (0, STEPS))
                F[('b', x)] = (lo, min(hi, STEPS))
        if self.sh is None:
            return F
        seen = set()
        for x in subs:
            if x[0] == 'lenof' and self.P.is_field_of_lock(self.sh, x[1]) and x not in seen:
                seen.add(x)
                F = assume(ge0(sub(x, C(1))), 1, F)
                if F is None:
                    return None
        for x in subs:
            if x[0] == 'elem' and x not in seen:
                seen.add(x)
                inv = self.inv(self.P.base_of(x[1]))
                if inv is None:
                    continue
                k = x[2]
                if not (inv.known(F, k) or (k[0] == 's' and k[1] == 'iterkey')):
                    continue
                i = inv.idx(k)
                for c in (ge0(sub(i, C(1))), ge0(sub(('lenof', inv.vb), add(i, C(1))))):
                    F = assume(c, 1, F)
                    if F is None:
                        return None
        for x in subs:
            if x[0] == 'has' and x not in seen:
                seen.add(x)
                inv = self.inv(self.P.base_of(x[1]))
                if inv is not None and inv.dead(F):
                    return None
        return F


MANY = 1 << 62    # fewer operations than this are in progress at any time


class Counters:
    """Atomic counters that every operation leaves as it found them: they start at 0, change only
    by constant fetch_add / fetch_sub, no path of any entry point takes its own contribution
    below 0, and every path returns with a contribution of 0.  The value of such a counter is
    the sum of the contributions of the operations in progress, so the old value an operation
    reads is at least its own contribution."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.ok = None

    def change(self, e):
        """what an atomic event adds; None: something else than a constant step"""
        if e.op == 'load' or e.op == 'cas' and e.out == 'fail':
            return 0
        if e.op in ('fetch_add', 'fetch_sub') and e.new is not None and e.new[0] == 'c':
            return e.new[1] if e.op == 'fetch_add' else -e.new[1]
        return None

    def vars(self):
        if self.ok is not None:
            return self.ok
        ctx = self.ctx
        bad, seen = set(), set()
        for root in ctx.roots():
            g = ctx.world.new_graph() if root == 'poller_new' else ctx.graph(root)

            def step(fl, q, e):
                if e.out == 'poisoned':
                    return None
                if e.k == 'newatomic' and e.value != C(0):
                    bad.add(None)
                if e.k == 'atomic':
                    seen.add(e.var)
                    d = self.change(e)
                    if d is None:
                        bad.add(e.var)
                    elif d:
                        m = dict(q)
                        m[e.var] = m.get(e.var, 0) + d
                        if not 0 <= m[e.var] <= 8:
                            bad.add(e.var)
                            return None
                        return tuple(sorted((k, v) for k, v in m.items() if v))
                if e.k == 'return':
                    bad.update(k for k, _ in q)
                    return None
                return q
            flow(ctx, root, g, (), step)
        self.ok = set() if None in bad else seen - bad
        return self.ok

    def step(self, q, e):
        """(own contributions, old values read with the contribution at that time)"""
        if e.k != 'atomic' or e.old is None or e.old[0] != 's':
            return q
        own, recs = dict(q[0]), dict(q[1])
        recs[e.old] = (e.var, own.get(e.var, 0))
        own[e.var] = own.get(e.var, 0) + (self.change(e) or 0)
        return tuple(sorted((k, v) for k, v in own.items() if v)), tuple(sorted(recs.items(), key=repr))

    def facts(self, q, F, cond):
        rel = [(a, n) for a, (var, n) in q[1] if cond is not None and a in atoms(cond) and var in self.vars()]
        for a, n in rel:
            for c in (ge0(sub(a, C(n))), ge0(sub(C(MANY), a))):
                F = assume(c, 1, F)
                if F is None:
                    return None
        return F


def p28(ctx):
    rep = ctx.rep
    facts = Facts(ctx)
    counters = Counters(ctx)
    for root in ctx.roots():
        g = ctx.world.new_graph() if root == 'poller_new' else ctx.graph(root)
        ctx.note(root, g, ctx.world.interps[root])
        rep.ob('entry points')
        caps = []

        def step(fl, q, e):
            if e.out == 'poisoned':
                # only after a panic while the lock was held, which this rule excludes
                return None
            if e.k not in ('maypanic', 'panic'):
                return counters.step(q, e)
            if harness_fn(e.fn):
                return q
            rep.ob('potential panics on paths')
            F = facts.extend(e.cond, e.facts)
            if F is None:
                return None
            if e.k == 'maypanic' and e.cond is not None:
                want = 1 if e.want is None else e.want
                if decide(e.cond, F) == want:
                    return q
                F = counters.facts(q, F, e.cond)
                if F is None:
                    return None
                if decide(e.cond, F) == want:
                    return q
            if root == 'events_capacity' and e.k == 'panic':
                caps.append(fl.path())
                return None
            what = {'unwrap_failed': 'unwrap() of an error or None'}.get(e.what, e.what)
            fl.bad('panic|' + str(e.what), e, '%s can panic (%s)' % (root, what))
            return q
        flow(ctx, root, g, ((), ()), step)
        if caps:
            capacities(ctx, caps)
    rep.require('entry points', 20)
    if facts.sh is not None:
        rep.require('potential panics on paths', 3)


def capacities(ctx, caps):
    """capacity() panics on some containers: show that no operation produces one of them."""
    rep = ctx.rep
    ety = ctx.param_ty('events_len', 0)
    ref = ('O', 'evs', ety)

    def panics(v, F):
        I, inits = ctx.world.start('events_capacity', None, {0: ('r', ref, (), None)})
        for _, st in inits:
            st.mem[ref] = v
            I.pinned_roots = I.pinned_roots | {'evs'}
            st.F.update(F)
            for x in subterms(v):
                # no collection holds more than its capacity
                if x[0] == 'coll' and len(x) > 5:
                    st.F = assume(ge0(sub(x[5], x[4])), 1, st.F)
                    if st.F is None:
                        return False
        g = I.explore(inits)
        return any(k == 'panic' for k, _, _ in g.terminals.values())

    sym = ('s', 'in:a0', ety, 0, 0)
    good = [F for F, v, st in clean(ctx, 'events_capacity')]
    for root, i in (('events_new', None), ('events_default', None), ('events_with_capacity', None),
                    ('events_clear', 0), ('wait', 1)):
        if i is None:
            vals = [(F, v) for F, v, st in ctx.run(root)]
        else:
            I = ctx.world.interp()
            ctx.graph(root)
            nm = 'in:a%d' % i
            r = ('O', nm, ety)
            vals = []
            for n, (k, v, st) in sorted(ctx.graph(root).terminals.items()):
                if k != 'return':
                    continue
                if r not in st.mem:
                    raise Bug('%s: container lost' % root)
                for F0 in good:
                    F = dict(st.F)
                    for kk, x in F0.items():
                        F[(kk[0], subst(kk[1], {sym: ('s', nm, ety, 0, 0)}))] = x
                    vals.append((F, st.mem[r]))
        for F, v in vals:
            rep.ob('containers produced')
            if panics(v, F):
                rep.bad(ctx.config, 'events_capacity', 'panic|capacity', root,
                        'capacity() panics on the container %s leaves' % root, caps[0])


def clean(ctx, root):
    out = []
    g = ctx.graph(root)
    for n, (k, v, st) in sorted(g.terminals.items()):
        if k == 'return':
            out.append((dict(st.F), v, st))
    return out
