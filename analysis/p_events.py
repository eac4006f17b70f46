"""Events: building them, reading them back, counting and delivering them.

P04 notifications hidden, P05 count, P11 readiness translation, P12 key round trip, P13 delivery
mode, P19 delivery of every ready source, P24 constructors and setters, P25 container."""
import itertools
from rules import *
from dom import *
import p_registry as R

MAX = (1 << 64) - 1
BITS = (1, 2, 4, 8, 16, 0x2000)          # IN PRI OUT ERR HUP RDHUP
IN, PRI, OUT, ERR, HUP, RDHUP = BITS
READ_CAUSE = IN | PRI | ERR | HUP | RDHUP | 0x40 | 0x80 | 0x400
WRITE_CAUSE = OUT | ERR | HUP | 0x100 | 0x200


def combos(bs=BITS):
    for n in range(1 << len(bs)):
        yield sum(b for i, b in enumerate(bs) if n >> i & 1)


# ---- events as values -------------------------------------------------------------------

class Sym:
    """A symbolic event: key, readable, writable and one extra-flags atom."""

    def __init__(self, ctx, name='in:ev'):
        self.ctx = ctx
        self.ty = R.event_ty(ctx)
        self.I = ctx.world.interp()
        self.v = self.I.canon(('s', name, self.ty, 0, 0), self.ty)
        self.key, self.readable, self.writable = (self.get(self.v, n) for n in ('key', 'readable', 'writable'))
        self.extra = self.flags_atom(self.v)

    def get(self, v, name):
        i, t = self.ctx.field(self.ty, name)
        return self.I.canon(self.I.getf(v, self.ty, None, i), t)

    def rest(self, v):
        """number held by the remaining (extra) part of an event"""
        T = self.ctx.T
        fs = [i for i, f in enumerate(T[self.ty]['v'][0]['f']) if f[0] not in ('key', 'readable', 'writable')]
        out = []
        for i in fs:
            ty = T.field(self.ty, None, i)
            x = self.I.canon(self.I.getf(v, self.ty, None, i), ty)
            out += self.numbers(x, ty)
        return out

    def numbers(self, x, ty):
        T = self.ctx.T
        t = T[ty]
        if t['k'] in ('int', 'bool'):
            return [x]
        if t['k'] == 'adt' and t['ak'] == 'struct':
            out = []
            for i, f in enumerate(t['v'][0]['f']):
                out += self.numbers(self.I.canon(self.I.getf(x, ty, None, i), f[1]), f[1])
            return out
        raise Bug('an event holds a %s that the tables cannot enumerate' % T.name(ty))

    def flags_atom(self, v):
        r = self.rest(v)
        if len(r) != 1:
            raise Bug('an event holds %d extra numbers instead of one' % len(r))
        return r[0]

    def env(self, key, r, w, x):
        return {self.key: key, self.readable: r, self.writable: w, self.extra: x}


def boolval(ctx, F, v, env):
    return tv(v, env)


def rows(outs, env):
    """results whose path facts agree with the row"""
    return [(F, v, st) for F, v, st in outs if consistent(F, env)]


def one(ctx, root, outs, env, f):
    """the value of f over the single result of a row"""
    vals = {f(F, v, st) for F, v, st in rows(outs, env)}
    if len(vals) != 1:
        raise Bug('%s: a row of the table has %d results' % (root, len(vals)))
    return vals.pop()


def accessor(ctx, name, v, facts=None):
    """results of a by-reference accessor on an event value"""
    ref = ('O', 'ev', R.event_ty(ctx))
    return ctx.run(name, values={0: ('r', ref, (), None)}, mem={ref: v}, facts=facts)


def optbool(v, env):
    if v[0] != 'a' or v[1] is None:
        raise Bug('optional answer is not decided')
    return None if v[1] == 0 else bool(tv(v[2][0], env))


def p24(ctx):
    rep = ctx.rep
    s = Sym(ctx)
    cfg = ctx.config

    def bad(root, rule, msg):
        rep.bad(cfg, root, rule, root, msg)
    acc = {n: accessor(ctx, 'event_is_' + n, s.v) for n in ('priority', 'interrupt', 'err', 'connect_failed')}

    def attr(n, env):
        if n in ('priority', 'interrupt'):
            return bool(one(ctx, n, acc[n], env, lambda F, v, st: tv(v, env)))
        return one(ctx, n, acc[n], env, lambda F, v, st: optbool(v, env))
    atab = {x: {n: attr(n, s.env(7, 0, 0, x)) for n in acc} for x in combos()}
    for x in combos():
        for k, r, w in ((0, 1, 1), (MAX, 0, 1)):
            if {n: attr(n, s.env(k, r, w, x)) for n in acc} != atab[x]:
                bad('event_is_*', 'accessor-mixes', 'an accessor depends on the key or on read/write interest')

    def look(v, env):
        """attributes of a result value in a row"""
        x = tv(s.rest(v)[0], env)
        if len(s.rest(v)) != 1:
            raise Bug('extra part changed shape')
        a = atab.get(x & sum(BITS))
        return dict(key=tv(s.get(v, 'key'), env), readable=bool(tv(s.get(v, 'readable'), env)),
                    writable=bool(tv(s.get(v, 'writable'), env)), raw=x, **a)
    plain = None                                 # the extra part of a constructed event
    # constructors
    cons = {'event_new': None, 'event_all': (1, 1), 'event_readable': (1, 0), 'event_writable': (0, 1),
            'event_none': (0, 0)}
    for root, rw in cons.items():
        names = ['key', 'readable', 'writable'][:3 if rw is None else 1]
        outs = ctx.run(root, names=names)
        ks = R.inputs(ctx, names) if rw is None else R.inputs(ctx, ['key'])
        for k in (0, 1, 7, 1 << 63, MAX - 1, MAX):
            for r, w in (itertools.product((0, 1), (0, 1)) if rw is None else [rw]):
                env = dict(zip(ks, (k, r, w)))
                rs = rows(outs, env)
                if not rs:
                    bad(root, 'constructor-partial', '%s has no result for key %d' % (root, k))
                for F, v, st in rs:
                    rep.ob('constructor rows')
                    a = look(v, env)
                    want = dict(key=k, readable=bool(r), writable=bool(w), priority=False, interrupt=False)
                    for n, x in want.items():
                        if a[n] != x:
                            bad(root, 'constructor:' + n, '%s(key=%d, readable=%d, writable=%d) has %s=%s' % (
                                root, k, r, w, n, a[n]))
                    if a['err']:
                        bad(root, 'constructor:err', '%s builds an event that reports an error' % root)
                    plain = a['raw'] if plain is None else plain
                    if a['raw'] != plain:
                        bad(root, 'constructor:extra', '%s builds an event with extra flags 0x%x, others with 0x%x' % (
                            root, a['raw'], plain))
    # setters
    byref = {'event_set_interrupt': 'interrupt', 'event_set_priority': 'priority', 'event_clear_extra': None}
    byval = {'event_with_interrupt': 'interrupt', 'event_with_priority': 'priority', 'event_with_no_extra': None}
    ref = ('O', 'ev', s.ty)
    for root, which in list(byref.items()) + list(byval.items()):
        for arg in ((0, 1) if root.startswith('event_set') else (1,)):
            if root in byref:
                vals = {0: ('r', ref, (), None)}
                if root.startswith('event_set'):
                    vals[1] = C(arg)
                outs = [(F, st.mem.get(ref, s.v), st) for F, _, st in ctx.run(root, values=vals, mem={ref: s.v})]
            else:
                outs = ctx.run(root, values={0: s.v})
            for x in combos():
                for k, r, w in ((0, 0, 1), (MAX, 1, 0), (7, 1, 1), (7, 0, 0)):
                    env = s.env(k, r, w, x)
                    rs = rows(outs, env)
                    if not rs:
                        raise Bug('%s has no result' % root)
                    for F, v, st in rs:
                        rep.ob('setter rows')
                        a = look(v, env)
                        want = dict(key=k, readable=bool(r), writable=bool(w))
                        old = atab[x]
                        if which:
                            want[which] = bool(arg)
                            keep = [n for n in ('priority', 'interrupt') if n != which]
                            keep.append('err')
                            for n in keep:
                                want[n] = old[n]
                        else:
                            want.update(priority=False, interrupt=False)
                            if a['raw'] != plain:
                                bad(root, 'setter:extra-left', '%s leaves extra flags 0x%x of 0x%x, so the event does '
                                    'not equal a constructed one' % (root, a['raw'], x))
                        for n, y in want.items():
                            if a[n] != y:
                                bad(root, 'setter:' + n, '%s%s changes %s from %s to %s' % (
                                    root, '(%s)' % bool(arg) if root.startswith('event_set') else '', n,
                                    dict(old, key=k, readable=bool(r), writable=bool(w))[n], a[n]))
    # clone and equality
    for F, v, st in accessor(ctx, 'event_clone', s.v):
        for x in combos():
            env = s.env(7, 1, 0, x)
            if consistent(F, env):
                rep.ob('clone rows')
                if look(v, env) != dict(key=7, readable=True, writable=False, raw=x, **atab[x]):
                    bad('event_clone', 'clone', 'a cloned event differs from the original')
    t = Sym(ctx, 'in:ev2')
    ref2 = ('O', 'ev2', s.ty)
    outs = ctx.run('event_eq', values={0: ('r', ref, (), None), 1: ('r', ref2, (), None)},
                   mem={ref: s.v, ref2: t.v})
    base = [(k, r, w, x) for k in (0, 7) for r in (0, 1) for w in (0, 1) for x in (0, PRI, HUP, PRI | HUP)]
    for a, b in itertools.product(base, base):
        env = s.env(*a)
        env.update(t.env(*b))
        rs = rows(outs, env)
        if not rs:
            raise Bug('event_eq has no result')
        for F, v, st in rs:
            rep.ob('equality rows')
            if bool(tv(v, env)) != (a == b):
                bad('event_eq', 'equality', 'events %s and %s compare %s' % (a, b, 'equal' if a != b else 'different'))
    rep.require('constructor rows', 20)
    rep.require('setter rows', 100)


# ---- iteration --------------------------------------------------------------------------

def template(ctx):
    """(fields leading from a list element to the key of the event it is read back as)"""
    t = getattr(ctx, '_keytmpl', None)
    if t is not None:
        return t
    ety = R.event_ty(ctx)
    I = ctx.world.interp()
    chains = set()
    ki, kty = ctx.field(ety, 'key')
    for F, v, st in ctx.run('events_first'):
        if v[0] != 'a' or v[1] is None:
            raise Bug('events_first: undecided option')
        if v[1] == 0:
            continue
        k = I.canon(I.getf(v[2][0], ety, None, ki), kty)
        chain = []
        while k[0] == 'f':
            chain.append(k[2:])
            k = k[1]
        if k[0] != 'elem':
            raise Bug('the key of a delivered event is not read from one list element')
        chains.add(tuple(reversed(chain)))
    if len(chains) != 1:
        raise Bug('the key of a delivered event is read in %d ways' % len(chains))
    ctx._keytmpl = chains.pop()
    return ctx._keytmpl


def elem_key(I, st, root, proj, t, ety, chain):
    v = I.canon(I.read(st, root, proj + (('ix', t, ety),)), ety)
    ty = ety
    for var, i, fty in chain:
        v = I.canon(I.getf(v, ty, var, i), fty)
        ty = fty
    return v


CNT = ('G', 'cnt')


def counting(ctx, root):
    """Graph of an entry point with a ghost count of the list elements that are not notifications."""
    chain = template(ctx)

    def is_list(r):
        return r[0] == 'O' and isinstance(r[1], str) and r[1].startswith('in:a')

    def nxt(I, s, r, proj, t, ety, v):
        if not is_list(r):
            return [(s, v)]
        k = elem_key(I, s, r, proj, t, ety, chain)
        out = []
        for want in (0, 1):
            s2 = s.copy()
            F = assume(eq0(add(k, C(-MAX))), want, s2.F)
            if F is None:
                continue
            s2.F = F
            if not want:
                s2.mem[CNT] = add(s2.mem.get(CNT, C(0)), C(1))
            s2.mem[('G', 'hid')] = C(want)
            out.append((s2, v))
        return out

    def it(I, s, r, proj):
        if is_list(r):
            s.mem[CNT] = C(0)

    def ev(I, s, e):
        e['cnt'] = s.mem.get(CNT)
        if e.k == 'next':
            e['hid'] = s.mem.get(('G', 'hid'))
        if e.k == 'return':
            for r, v in s.mem.items():
                pass
    return ctx.graph(root, {'next': nxt, 'iter': it, 'event': ev}, 'count')


def list_place(p):
    return p is not None and p[0][0] == 'O' and isinstance(p[0][1], str) and p[0][1].startswith('in:a')


MUTATES = ('clear', 'push', 'pop', 'insert', 'remove', 'swap_remove', 'truncate', 'set_len', 'extend',
           'extend_from_slice', 'resize', 'retain', 'drain', 'append', 'dedup', 'dedup_by', 'dedup_by_key',
           'split_off')


def p04(ctx):
    """Notifications are skipped, everything else is yielded once."""
    yielded(ctx)


def yielded(ctx, notifications=True):
    rep = ctx.rep
    g = counting(ctx, 'events_each')

    def step(fl, q, e):
        # q: None before, else (hidden?, yielded)
        if e.k == 'iter' and list_place(e.place):
            if e.start != C(0):
                fl.bad('skipped', e, 'the first stored events are passed over')
            if q[0] != 'init':
                fl.bad('restart', e, 'the list is iterated more than once')
            return ('start', 0)
        if e.k == 'next' and list_place(e.place):
            done(fl, q, e)
            if e.out == 'none':
                return ('end', 0)
            rep.ob('elements classified')
            return ('hidden' if e.hid == C(1) else 'event', 0)
        if e.k == 'unknown' and harness_fn(e.fn):
            if q[0] == 'hidden' and notifications:
                fl.bad('shown', e, 'a notification is yielded as an event')
            elif q[0] not in ('event', 'hidden'):
                fl.bad('invented', e, 'an event is yielded that is not in the list')
            elif q[1] and q[0] == 'event':
                fl.bad('twice', e, 'an event is yielded twice')
            return (q[0], 1)
        if e.k == 'return':
            done(fl, q, e)
            if q[0] == 'init':
                fl.bad('never', e, 'iteration never looks at the list')
            elif q[0] != 'end':
                fl.bad('stops', e, 'iteration ends before the end of the list')
            return None
        return q

    def done(fl, q, e):
        if q[0] == 'event' and not q[1]:
            fl.bad('lost', e, 'an event that is not a notification is not yielded')
    flow(ctx, 'events_each', g, ('init', 0), step)
    rep.require('elements classified', 2)


def p05(ctx):
    rep = ctx.rep
    poll = R.family(ctx) == 'poll'
    g = counting(ctx, 'wait')

    def step(fl, q, e):
        busy, fresh, counted, empty, ln = q
        if e.k == 'trylock' and e.out != 'ok':
            return (True, fresh, counted, empty, ln)
        if e.k == 'coll' and list_place(e.place) and e.op in MUTATES:
            if e.op == 'clear':
                return (busy, True, False, True, ln)
            return (busy, fresh, False, False, ln)
        if e.k == 'sys' and e.name == 'kwait' and e.list is not None:
            return (busy, True, False, e.out != 'ok', ln)
        if e.k == 'next' and list_place(e.place):
            return (busy, fresh, e.out == 'none', empty, ln)
        if e.k == 'return':
            ok = is_ok(e.value)
            if ok is None:
                raise Bug('wait: undecided result')
            if busy or not ok:
                return None
            rep.ob('successful returns')
            n = e.value[2][0]
            if not fresh:
                fl.bad('stale', e, 'events from before the call can still be in the buffer when Ok is returned')
            elif counted:
                if n != e.cnt and decide(eq0(sub(n, e.cnt)), e.facts) != 1:
                    fl.bad('count', e, 'the number returned (%s) is not the number of events in the buffer (%s)' % (
                        show_term(n), show_term(e.cnt)))
            elif empty:
                if n != C(0):
                    fl.bad('count-empty', e, 'a number other than 0 is returned for an empty buffer')
            else:
                l = e.listlen
                if not (poll and l is not None and decide(eq0(sub(n, l)), e.facts) == 1):
                    fl.bad('uncounted', e, 'the number returned is not obtained by counting the events to the end')
            return None
        return q
    flow(ctx, 'wait', g, (False, False, False, False, None), step)
    rep.require('successful returns', 3)
    lengths(ctx)


def lengths(ctx):
    """the public length and emptiness agree with iteration"""
    rep = ctx.rep
    for root in ('events_len', 'events_is_empty'):
        g = counting(ctx, root)

        def st2(fl, q, e):
            if e.k == 'next' and list_place(e.place):
                return 'end' if e.out == 'none' else 'more'
            if e.k == 'return':
                rep.ob('length queries')
                v = e.value
                cnt = e.cnt if e.cnt is not None else None
                if cnt is None:
                    fl.bad('length-uncounted', e, '%s does not look at the events' % root)
                    return None
                if root == 'events_len':
                    if q != 'end':
                        fl.bad('length-partial', e, 'the length is returned before the end of the list')
                    elif v != cnt and decide(eq0(sub(v, cnt)), e.facts) != 1:
                        fl.bad('length', e, 'the length (%s) is not the number of events (%s)' % (show_term(v), show_term(cnt)))
                else:
                    b = decide(v, e.facts) if v[0] != 'c' else v[1]
                    has = decide(ge0(add(cnt, C(-1))), e.facts)
                    if b is None:
                        raise Bug('is_empty is undecided')
                    if b == 1 and (has != 0 or q != 'end'):
                        fl.bad('empty', e, 'is_empty is true although an event may be in the buffer')
                    if b == 0 and has != 1:
                        fl.bad('nonempty', e, 'is_empty is false although no event was found')
                return None
            return q
        flow(ctx, root, g, 'init', st2)
    rep.require('length queries', 4)


# ---- kernel readiness -> event ------------------------------------------------------------

def base_chain(t):
    """(element, fields) a term is read from"""
    ch = []
    while t[0] == 'f':
        ch.append(t[2:])
        t = t[1]
    return t, ch


_reads = {}


def reads(t):
    """maximal terms that read (a field of) a list element"""
    if not isinstance(t, tuple) or not t:
        return frozenset()
    r = _reads.get(t)
    if r is None:
        if t[0] in ('f', 'elem') and base_chain(t)[0][0] == 'elem':
            r = frozenset([t])
        else:
            r = frozenset().union(*[reads(x) for x in t if isinstance(x, tuple)])
        _reads[t] = r
    return r


def check_readback(ctx, F, evv, where, bad):
    """decision table for one delivered event value"""
    rep = ctx.rep
    s = Sym(ctx)
    x = s.rest(evv)
    r, w = s.get(evv, 'readable'), s.get(evv, 'writable')
    cand = set()
    for t in x + [r, w]:
        cand |= reads(t)
    cand -= reads(s.get(evv, 'key'))
    if len(cand) != 1:
        raise Bug('a delivered event is computed from %d kernel values' % len(cand))
    fl = cand.pop()
    acc = {n: accessor(ctx, 'event_is_' + n, evv, {}) for n in ('priority', 'interrupt', 'err', 'connect_failed')}
    for f in combos():
        env = {fl: f}
        if not possible(F, env):
            continue
        rep.ob('readiness rows')
        rb, wb = bool(tv(r, env)), bool(tv(w, env))

        def b(rule, msg):
            bad(rule, '%s (kernel flags 0x%x)' % (msg, f))
        if f & IN and not rb:
            b('in', 'input is ready but the event is not readable')
        if f & OUT and not wb:
            b('out', 'output is ready but the event is not writable')
        if f & HUP and not (rb and wb):
            b('hup', 'the source hung up but the event is not both readable and writable')
        if f & ERR and not (rb and wb):
            b('err', 'the source has an error but the event is not both readable and writable')
        if rb and not f & READ_CAUSE:
            b('readable-invented', 'the event is readable although nothing was reported that allows it')
        if wb and not f & WRITE_CAUSE:
            b('writable-invented', 'the event is writable although nothing was reported that allows it')

        def val(n, conv):
            vs = {conv(v) for F2, v, st in acc[n] if consistent({k: y for k, y in F2.items()}, env)}
            if len(vs) != 1:
                raise Bug('is_%s has %d answers in one row' % (n, len(vs)))
            return vs.pop()
        if val('priority', lambda v: bool(tv(v, env))) != bool(f & PRI):
            b('priority', 'is_priority is %s' % (not f & PRI))
        if val('interrupt', lambda v: bool(tv(v, env))) != bool(f & HUP):
            b('interrupt', 'is_interrupt is %s' % (not f & HUP))
        e = val('err', lambda v: optbool(v, env))
        if e != bool(f & ERR):
            b('is-err', 'is_err is %s' % e)
        c = val('connect_failed', lambda v: optbool(v, env))
        # epoll: error together with hang-up (documented); poll(): either of them
        both = R.family(ctx) == 'epoll'
        cw = bool(f & ERR and f & HUP) if both else bool(f & (ERR | HUP))
        if cw and c is not True:
            b('connect-failed', 'a failed connection is not reported')
        if not cw and c:
            b('connect-failed-invented', 'a failed connection is reported without %s' % (
                'error and hang-up together' if both else 'error or hang-up'))


def possible(F, env):
    return consistent(F, env)


def pushes(ctx, g):
    """distinct events that wait stores itself: [(event, push)]"""
    seen = {}
    for e in g.edges:
        for x in e.ev:
            if x.k == 'coll' and x.op in ('push', 'insert') and list_place(x.place) and x.value is not None:
                k = (x.value, frozenset(x.facts.items()))
                if k not in seen:
                    seen[k] = x
    return list(seen.values())


def p11(ctx):
    rep = ctx.rep
    if R.family(ctx) == 'epoll':
        for F, v, st in ctx.run('events_first'):
            if v[1] == 0:
                continue
            check_readback(ctx, F, v[2][0], 'events_first', lambda rule, msg: rep.bad(
                ctx.config, 'events_each', rule, 'iter', msg))
    else:
        g = ctx.graph('wait')
        done = set()
        for x in pushes(ctx, g):
            k = generic(x.value)
            F = {a: b for a, b in x.facts.items()}
            if k in done:
                continue
            done.add(k)
            # the pushed value alone: rows are restricted only by readiness being non-empty (P19)
            check_readback(ctx, {}, x.value, 'wait', lambda rule, msg: rep.bad(
                ctx.config, 'wait', rule, x.fn, msg))
        # iteration hands them out unchanged
        for F, v, st in ctx.run('events_first'):
            if v[1] == 1:
                rep.ob('events handed out')
                if v[2][0][0] != 'elem':
                    rep.bad(ctx.config, 'events_each', 'altered', 'iter', 'iteration does not hand out the stored event')
    rep.require('readiness rows', 60)


def generic(t):
    """a value with the ages of its symbols removed"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 's':
        return t[:3]
    return tuple(generic(x) for x in t)


def names_of(ctx, elem, chain):
    """field names along a chain (innermost first in `chain`)"""
    ty = elem[3] if len(elem) > 3 else None
    out = []
    for var, i, fty in reversed(chain):
        if ty is None:
            return out
        t = ctx.T[ty]
        out.append(t['v'][var or 0]['f'][i][0] if t['k'] == 'adt' else str(i))
        ty = fty
    return out


def p12(ctx):
    rep = ctx.rep
    s = Sym(ctx)
    if R.family(ctx) == 'epoll':
        R.table(ctx, 'P12')
        for F, v, st in ctx.run('events_first'):
            if v[1] == 0:
                continue
            evv = v[2][0]
            k = s.get(evv, 'key')
            rep.ob('keys read back')
            base, ch = base_chain(k)
            if base[0] != 'elem' or 'data' not in names_of(ctx, base, ch):
                rep.bad(ctx.config, 'events_each', 'key-readback', 'iter',
                        'the key of an event is %s, not the one the kernel returns' % show_term(k))
                continue
            for t in s.rest(evv) + [s.get(evv, 'readable'), s.get(evv, 'writable')]:
                for a in reads(t):
                    b2, c2 = base_chain(a)
                    if b2 != base:
                        rep.bad(ctx.config, 'events_each', 'mixed', 'iter',
                                'the key and the readiness of an event come from different kernel records')
        rep.require('keys handed to the kernel', 4)
        rep.require('keys read back')
        return
    import p_pollreg as P
    sh = P.ctx_shape(ctx)
    if sh.key is None:
        rep.bad(ctx.config, 'src::add', 'key-dropped', 'add', 'no field of the per-source data holds the event\'s key')
        return
    kt = R.key_term(ctx)
    for root, op, m in R.ops(ctx, ('add', 'modify')):
        hit = False
        for f in P.final(ctx, root, sh):
            if f.contents is None or not f.ok:
                continue
            inv = P.Inv(sh, f.contents)
            if inv.dead(f.facts):
                continue
            recs = [d for k, d in inv.map[3] if d is not None and P.is_src(P.peel_fd(k))]
            if not recs:
                # nothing written: the record found must already hold this key
                recs = [('elem', inv.mb, k[1][2], sh.dty) for k, v in f.facts.items()
                        if v == 1 and k[0] == 'eq' and k[1][0] == 'has' and k[1][1] == inv.mb
                        and P.is_src(P.peel_fd(k[1][2]))]
            if not recs:
                rep.bad(ctx.config, root, 'key-unrecorded', op, '%s succeeds without recording the key' % op, f.path)
            for d in recs:
                hit = True
                rep.ob('keys recorded')
                have = sh.data(d)[sh.key]
                if have != kt and decide(eq0(sub(have, kt)), f.facts) != 1:
                    rep.bad(ctx.config, root, 'key-changed', op, '%s leaves the key %s instead of the event\'s' % (
                        op, show_term(have)), f.path)
        if not hit:
            rep.bad(ctx.config, root, 'key-unrecorded', op, '%s does not record the key' % op)
    P.others_kept(ctx, sh, sh.key, 'key-of-other', 'the key')
    P.wait_keeps(ctx, sh, sh.key, 'key-rewritten', 'the recorded key')

    def chk(fl, e, cur, sc):
        rep.ob('keys delivered')
        k = s.get(e.value, 'key')
        base, ch = base_chain(k)
        if base[0] != 'elem' or base[3] != sh.dty or [c[1] for c in reversed(ch)] != sh.indexes(sh.key):
            fl.bad('key-delivered', e, 'the key delivered is %s, not one recorded for a source' % show_term(k))
            return
        fs = flag_terms(s, e.value)
        for a in fs:
            i = rv_index(a)
            if i is None or not same_source(ctx, sh, base, i, e.facts):
                fl.bad('mixed', e, 'the key and the readiness of an event belong to different sources')
    g = ctx.graph('wait')
    seen = set()

    def step(fl, q, e):
        if e.k == 'coll' and e.op in ('push', 'insert') and list_place(e.place):
            k = generic(e.value)
            if k not in seen:
                seen.add(k)
                chk(fl, e, None, None)
        return q
    flow(ctx, 'wait', g, 0, step)
    rep.require('keys recorded', 4)
    rep.require('keys delivered')


def flag_terms(s, evv):
    out = set()
    for t in s.rest(evv) + [s.get(evv, 'readable'), s.get(evv, 'writable')]:
        out |= reads(t)
    return out


def rv_index(a):
    """position whose poll(2) answer a term is, or None"""
    base, ch = base_chain(a)
    if base[0] == 'elem' and has_answer(base[1]):
        return base[2]
    return None


def has_answer(b):
    while isinstance(b, tuple) and b:
        if b[0] in ('revents', 'pollres'):
            return True
        if b[0] in ('hv', 'f'):
            b = b[1]
        else:
            return False
    return False


def same_source(ctx, sh, rec, i, F):
    """record term rec = elem(map, k) describes the source polled at position i"""
    mb, k = rec[1], rec[2]
    import p_pollreg as P
    if P.unlayer(i) == P.unlayer(sh.idx_of(mb, k)):
        return True
    if decide(eq0(sub(sh.idx_of(mb, k), i)), F) == 1:
        return True
    fd = P.peel_fd(P.unlayer(k))
    for x in P.subterms(fd):
        if x[0] == 'elem' and x[2] == P.unlayer(i) and x[3] == sh.ety:
            return True
    return False


# ---- delivery on poll(2) --------------------------------------------------------------------

OFF, CHANGED, OTHER = 1, 2, 3


def is_cur_pos(sh, cur, t, F):
    """position t is that of the source being looked at"""
    import p_pollreg as P
    if cur[0] == 'pos':
        return P.unlayer(t) == P.unlayer(cur[1]) or decide(eq0(sub(t, cur[1])), F) == 1
    t = P.unlayer(t)
    base, ch = base_chain(t)
    return base[0] == 'elem' and base[3] == sh.dty and base[2] == cur[1] and \
        [c[1] for c in reversed(ch)] == sh.indexes(sh.ix)


def scan_graph(ctx, sh):
    """wait with ghosts: length of the event list, disarming of the source being looked at"""
    def wrote(I, st, root, proj, v):
        n = len(sh.vproj)
        if root[0] == 'O' and root[1][0] == 'mxc' and root[1][1:] == sh.mutex and \
                len(proj) > n and proj[:n] == vprefix(proj, n) and proj[n][0] == 'ix' and same_proj(proj[:n], sh.vproj):
            x = I.canon(I.read(st, root, proj[:n + 1]), sh.ety)
            cur = st.mem.get(('G', 'cur'))
            if cur is not None and cur[0] == 'a':
                own = is_cur_pos(sh, ('pos' if cur[2][0] == C(1) else 'src', cur[2][1]), proj[n][1], st.F)
                st.mem[('G', 'dis')] = C(OTHER if not own else OFF if sh.entry(x)[1] == C(0) else CHANGED)

    def end(I, s, r, proj):
        if not list_place((r, proj)):
            s.mem[('G', 'pdis')] = s.mem.pop(('G', 'dis'), C(0))

    def nxt(I, s, r, proj, t, ety, v):
        end(I, s, r, proj)
        if r[0] == 'O' and r[1][0] == 'mxc' and r[1][1:] == sh.mutex:
            s.mem[('G', 'cur')] = ('a', None, (C(1 if same_proj(proj, sh.vproj) else 0), t))
        return [(s, v)]

    def ev(I, s, e):
        if e.k == 'next':
            e['dis'] = s.mem.pop(('G', 'pdis'), None)
        else:
            e['dis'] = s.mem.get(('G', 'dis'))
        if e.k == 'sys' and e.name == 'kwait' or e.k == 'unlock' or e.k == 'cvwait':
            s.mem.pop(('G', 'dis'), None)
            s.mem.pop(('G', 'cur'), None)
        for r in s.mem:
            if r == ('O', 'in:a1', ctx.param_ty('wait', 1)):
                l = ctx._evlist
                e['len'] = I.length(I.read(s, l[0], l[1]), None)
    for e in ctx.graph('wait').edges:
        for x in e.ev:
            if x.k == 'coll' and list_place(x.place):
                ctx._evlist = x.place
    return ctx.graph('wait', {'next': nxt, 'iterend': end, 'wrote': wrote, 'event': ev, 'assume': True}, 'scan')


def vprefix(proj, n):
    return proj[:n]


def same_proj(a, b):
    return [x[:3] for x in a] == [x[:3] for x in b]


def mode_value(sh, i, x):
    """the number that tells the values of a stored bool or enum apart; None: another kind"""
    ty = sh.leaves()[i][1]
    t = sh.T[ty]
    if t['k'] == 'bool':
        return x
    if t['k'] == 'adt' and t['ak'] == 'enum' and not any(v['f'] for v in t['v']):
        if x[0] == 'a' and x[1] is not None:
            return C(sh.T.discrs(ty)[x[1]])
        return ('discr', x, ty)
    return None


def remove_fields(ctx, sh):
    """per-source data fields that tell oneshot sources from the others: {index: {mode: value}}"""
    import p_pollreg as P
    md = R.modes(ctx)
    out = None
    rep = ctx.rep
    for with_mode in (False, True):
        mt = R.mode_term(ctx)
        for root, op, m in R.ops(ctx, ('add', 'modify'), with_mode):
            per = {}
            for f in P.final(ctx, root, sh):
                if f.contents is None or not f.ok:
                    continue
                inv = P.Inv(sh, f.contents)
                if inv.dead(f.facts):
                    continue
                for k, d in inv.map[3]:
                    if d is None or not P.is_src(P.peel_fd(k)):
                        continue
                    for i, x in enumerate(sh.data(d)):
                        x = mode_value(sh, i, x)
                        if x is None:
                            continue
                        for mn, dd in (md.items() if with_mode else [('Oneshot', None)]):
                            env = {} if dd is None else {mt: dd}
                            if not consistent(f.facts, env) or dd is not None and R.feasible(f.facts, env) is None:
                                continue
                            y = ev(x, env)
                            if y is None:
                                ty = sh.leaves()[i][1]
                                may = [z for z in ((0, 1) if ctx.T.kind(ty) == 'bool' else ctx.T.discrs(ty))
                                       if consistent(f.facts, {**env, x: z})]
                                y = may[0] if len(may) == 1 else None
                            rep.ob('rows of the interest table')
                            per.setdefault(i, {}).setdefault(mn, set()).add(y)
            yield root, op, with_mode, per


def p13(ctx):
    """poll(2): delivery rewrites the entry of a oneshot source with an empty interest."""
    import p_pollreg as P
    rep = ctx.rep
    sh = P.ctx_shape(ctx)
    stored = list(remove_fields(ctx, sh))
    # the field that decides: its values under oneshot and level registration differ
    cands = {}
    for root, op, wm, per in stored:
        for i, v in per.items():
            o, l = v.get('Oneshot', set()), v.get('Level', set())
            if wm and o and l and not o & l and None not in o | l:
                cands.setdefault(i, []).append((frozenset(o), frozenset(l)))
    if not cands:
        for root, op, wm, per in stored:
            if wm and per:
                rep.bad(ctx.config, root, 'mode-flag', op, '%s does not store the delivery mode: %s' % (op, {
                    i: {a: sorted(map(str, b)) for a, b in v.items()} for i, v in per.items()}))
        if not rep.viol:
            raise Bug('no field of the per-source data tells oneshot sources from the others')
        return
    i = max(sorted(cands), key=lambda i: len(cands[i]))
    ones, levels = max(cands[i], key=cands[i].count)
    for root, op, wm, per in stored:
        v = per.get(i, {})
        if not v.get('Oneshot', {None}) <= ones or wm and not v.get('Level', {None}) <= levels:
            rep.bad(ctx.config, root, 'mode-flag', op, '%s stores the delivery mode wrongly: %s' % (op, {
                a: sorted(map(str, b)) for a, b in v.items()}))
    flag = (i, ones, levels)
    P.others_kept(ctx, sh, i, 'mode-of-other', 'the delivery mode')
    P.wait_keeps(ctx, sh, i, 'mode-rewritten', 'the recorded delivery mode',
                 lambda v: v[0] == 'c' and v[1] not in ones | levels)
    P.rearmed(ctx, sh)
    scan(ctx, sh, 'P13', flag)
    rep.require('deliveries', 1)


def found_empty(F):
    """facts say that the kernel delivered nothing"""
    ls = {a for k in F if isinstance(k[1], tuple) for a in atoms(k[1])
          if a[0] == 'lenof' and a[1][0] == 's' and a[1][1] == 'kernelevents'}
    return any(decide(eq0(a), F) == 1 for a in ls)


def p19(ctx):
    rep = ctx.rep
    yielded(ctx, False)
    if R.family(ctx) == 'epoll':
        g = ctx.graph('wait')

        def step(fl, q, e):
            if e.k == 'sys' and e.name == 'kwait':
                rep.ob('kernel waits')
                if q in ('full', 'dirty') and not found_empty(e.facts):
                    fl.bad('dropped', e, 'the kernel is asked again before the events it reported were handed out')
                return 'full' if e.out == 'ok' else 'init'
            if e.k == 'coll' and e.op in MUTATES and list_place(e.place):
                if q == 'full' or q == 'dirty':
                    return 'dirty'
            if e.k == 'return':
                if is_ok(e.value) and q == 'dirty':
                    fl.bad('altered', e, 'the events the kernel reported are altered before they are handed out')
                return None
            return q
        flow(ctx, 'wait', g, 'init', step)
        # the buffer iterated is the one the kernel filled
        lists = {x.list[1:3] for e in g.edges for x in e.ev if x.k == 'sys' and x.name == 'kwait' and x.list is not None}
        its = {x.place for e in ctx.graph('events_each').edges for x in e.ev if x.k == 'iter'}
        norm = lambda p: tuple(y[:3] for y in p)
        if not lists or not all(any(norm(i[1])[:len(l[1])] == norm(l[1]) for l in lists) for i in its):
            rep.bad(ctx.config, 'events_each', 'other-list', 'iter', 'iteration looks at a list the kernel does not fill')
        rep.require('kernel waits', 2)
        return
    import p_pollreg as P
    scan(ctx, P.ctx_shape(ctx), 'P19', None)
    rep.require('sources examined', 1)
    rep.require('deliveries', 1)


def scan(ctx, sh, prop, flag):
    import p_pollreg as P
    rep = ctx.rep
    g = scan_graph(ctx, sh)
    mplace, vplace = sh.mproj, sh.vproj

    def which(e):
        """('src', k) / ('pos', i) when an event steps to another source"""
        if e.k != 'next' or e.place is None or e.place[0][0] != 'O' or e.place[0][1][0] != 'mxc' or \
                e.place[0][1][1:] != sh.mutex:
            return None
        if same_proj(e.place[1], mplace):
            return 'src'
        if same_proj(e.place[1], vplace):
            return 'pos'
        return None

    def is_cur_rec(cur, t):
        """t is a field of the record of the current source"""
        if t[0] != 'elem' or t[3] != sh.dty:
            return False
        if cur[0] == 'src':
            return t[2] == cur[1]
        fd = P.peel_fd(P.unlayer(t[2]))
        return any(x[0] == 'elem' and x[2] == P.unlayer(cur[1]) and x[3] == sh.ety for x in P.subterms(fd))

    def answers(cur, F):
        """terms in the facts that are the kernel's answer for the current source"""
        out = set()
        for key in F:
            for a in reads(key[1]):
                i = rv_index(a)
                if i is not None and is_cur_pos(sh, cur, i, F):
                    out.add(a)
        return out

    def flagval(cur, F):
        i, ones, levels = flag
        path = sh.indexes(i)
        for key in F:
            for a in P.subterms(key[1]):
                if a[0] != 'f':
                    continue
                base, ch = base_chain(a)
                if [c[1] for c in reversed(ch)] == path and is_cur_rec(cur, base):
                    t = mode_value(sh, i, a)
                    may = [any(consistent(F, {t: x}) for x in vs) for vs in (ones, levels)]
                    if may[0] != may[1]:
                        return 1 if may[0] else 0
        return None

    def head(F):
        """1 if the notifier's entry is known to be ready, 0 if known not to be, else None"""
        for key in F:
            for a in reads(key[1]):
                i = rv_index(a)
                if i == C(0):
                    d = decide(eq0(a), F)
                    if d is not None:
                        return 1 - d
        return None

    # q = (phase, n, head, cur, seen, pushed, flag, dis)
    #   phase: idle, pending (answers not looked at), nothing, scan, complete
    def step(fl, q, e):
        phase, n, hd, cur, seen, pushed, fv = q
        F = e.facts
        if e.k == 'sys' and e.name == 'kwait':
            if phase in ('pending', 'scan') and prop == 'P19':
                fl.bad('dropped', e, 'the kernel is asked again before every reported source was delivered')
            if e.out == 'ok':
                return ('pending', e.n, None, None, None, 0, None)
            return ('idle', None, None, None, None, 0, None)
        if F is not None and phase in ('pending', 'scan') and n is not None:
            if hd is None:
                hd = head(F)
            want = add(n, C(-hd)) if hd else n
            if phase == 'pending' and decide(eq0(want), F) == 1:
                phase = 'nothing'
            if phase == 'scan' and e.len is not None and (
                    decide(eq0(sub(e.len, want)), F) == 1 or prove_ge0(sub(e.len, want), F)):
                phase = 'complete'
        if cur is not None and F is not None and e.k != 'next':
            if seen is None:
                for a in answers(cur, F):
                    if decide(eq0(a), F) == 1:
                        seen = 'zero'
            if flag is not None and fv is None:
                fv = flagval(cur, F)
        if e.k == 'iter' and prop == 'P19' and e.place[0][0] == 'O' and e.place[0][1][0] == 'mxc' and \
                decide(ge0(sub(C(1), e.start)), F or {}) != 1:
            fl.bad('skipped', e, 'the first registered sources are passed over')
        w = which(e)
        if e.k == 'coll' and e.out == 'none' and cur is not None and cur[0] == 'pos' and \
                e.op in ('get', 'get_mut', 'contains_key') and e.place[0][0] == 'O' and e.place[0][1][0] == 'mxc' and \
                same_proj(e.place[1], mplace) and is_cur_rec(cur, ('elem', None, e.key, sh.dty)):
            return None     # every polled source has an entry (P15)
        if w:
            finish(fl, e, phase, cur, seen, fv)
            if e.out == 'none':
                if phase in ('scan', 'pending'):
                    phase = 'complete'
                return (phase, n, hd, None, None, pushed, None)
            if phase == 'pending':
                phase = 'scan'
            if phase in ('scan', 'complete'):
                rep.ob('sources examined')
            cur = (w, e.index)
            if w == 'pos' and e.index == C(0):
                cur = None
            return (phase, n, hd, cur, None, pushed, None)
        if e.k == 'coll' and list_place(e.place) and e.op in MUTATES:
            if e.op in ('push', 'insert'):
                rep.ob('deliveries')
                if cur is None:
                    fl.bad('unscanned', e, 'an event is stored for no particular source')
                    return q
                ans = [a for a in flag_terms(Sym(ctx), e.value)]
                if prop == 'P19':
                    if seen == 'pushed':
                        fl.bad('twice', e, 'a source is delivered twice')
                    if seen == 'zero':
                        fl.bad('not-ready', e, 'a source is delivered that the kernel did not report')
                    elif not any(decide(eq0(a), F) == 0 for a in answers(cur, F)):
                        fl.bad('not-ready', e, 'a source is delivered without the kernel having reported it')
                return (phase, n, hd, cur, 'pushed', pushed, fv)
            if e.op == 'clear' and phase in ('scan', 'complete') and prop == 'P19':
                fl.bad('cleared', e, 'delivered events are removed again')
            if e.op != 'clear' and prop == 'P19':
                fl.bad('altered', e, 'delivered events are altered by %s' % e.op)
        if e.k in ('unlock', 'cvwait') and (e.k == 'cvwait' or e.place == sh.mutex):
            finish(fl, e, phase, cur, seen, fv)
            return (phase, n, hd, None, None, pushed, None)
        if e.k == 'return':
            if is_ok(e.value) and prop == 'P19':
                rep.ob('successful returns')
                if phase == 'pending':
                    fl.bad('unscanned', e, 'wait returns without looking at the sources the kernel reported')
                if phase == 'scan':
                    fl.bad('partial', e, 'wait returns before every reported source was delivered')
            return None
        return (phase, n, hd, cur, seen, pushed, fv)

    def finish(fl, e, phase, cur, seen, fv):
        if cur is None:
            return
        if prop == 'P19' and seen is None and phase == 'scan':
            fl.bad('skipped', e, 'a source is passed over without its readiness being ruled out')
        if prop == 'P13':
            d = e.dis[1] if e.dis is not None else 0
            if d == OTHER:
                fl.bad('disarms-other', e, 'delivering one source changes the interest of another')
            if d == CHANGED:
                fl.bad('disarm-value', e, 'delivery leaves a source with another interest')
            off = d == OFF
            if seen == 'pushed':
                rep.ob('oneshot decisions')
                if off and fv != 1:
                    fl.bad('disarms-level', e, 'delivery disarms a source that was not registered oneshot')
                if not off and fv != 0:
                    fl.bad('not-disarmed', e, 'delivery leaves a oneshot source armed')
            elif off:
                fl.bad('disarms-undelivered', e, 'a source is disarmed without being delivered')

    flow(ctx, 'wait', g, ('idle', None, None, None, None, 0, None), step)
    if prop == 'P13':
        rep.require('oneshot decisions')


# ---- container ----------------------------------------------------------------------------

def capacities(t, out=None):
    """the capacities of buffers that occur in a term"""
    out = set() if out is None else out
    if t and t[0] == 'capof':
        out.add(t)
    for x in t:
        if isinstance(x, tuple):
            capacities(x, out)
    return out


def p25(ctx):
    rep = ctx.rep
    ety = ctx.param_ty('events_len', 0)
    ref = ('O', 'evs', ety)

    def q(root, v, F, panics=False):
        return ctx.run(root, values={0: ('r', ref, (), None)}, mem={ref: v}, facts=F, panics=panics)

    def empty(root, v, F):
        for F2, n, st in q('events_len', v, F):
            rep.ob('lengths')
            if n != C(0):
                rep.bad(ctx.config, root, 'not-empty', root, '%s leaves %s events in the container' % (root, show_term(n)))
        for F2, n, st in q('events_is_empty', v, F):
            if n != C(1):
                rep.bad(ctx.config, root, 'not-is-empty', root, 'is_empty is not true after %s' % root)

    def cap(root, v, F, least):
        # a capacity of 0 would panic here; the paths that return decide
        for F2, n, st in q('events_capacity', v, F, True):
            rep.ob('capacities')
            I = ctx.world.interp()
            n = I.num(n) or n
            least2 = I.num(least) or least
            while n[0] == 'a' and len(n[2]) == 1:
                n = n[2][0]
            if not prove_ge0(sub(n, least2), {**F, **F2}):
                rep.bad(ctx.config, root, 'capacity', root, 'after %s the capacity is %s, less than %s' % (
                    root, show_term(n), show_term(least2)))
    I = ctx.world.interp()
    for F, n, st in q('events_capacity', I.canon(('s', 'in:a0', ety, 0, 0), ety), {}, True):
        rep.ob('capacities')
        while n[0] == 'a' and len(n[2]) == 1:
            n = n[2][0]
        room = [a for a in {x for t in [n] + [k[1] for k in F] for x in capacities(t)}]
        if not any(prove_ge0(sub(a, n), F) for a in room):
            rep.bad(ctx.config, 'events_capacity', 'over-reported', 'capacity',
                    'capacity reports %s, which no buffer of the container is known to hold' % show_term(n))
        elif R.family(ctx) == 'epoll' and not any(prove_ge0(sub(n, a), F) for a in room):
            rep.bad(ctx.config, 'events_capacity', 'under-reported', 'capacity',
                    'capacity reports %s, less than the kernel may fill' % show_term(n))
    for root in ('events_new', 'events_default'):
        for F, v, st in ctx.run(root):
            empty(root, v, F)
            cap(root, v, F, C(1))
    for F, v, st in ctx.run('events_with_capacity', names=['n']):
        empty('events_with_capacity', v, F)
        nty = ctx.prog.insts[ctx.prog.root('events_with_capacity')]['body']['l'][1]
        n = ('s', 'in:n', nty, 0, 0)
        I = ctx.world.interp()
        t = I.num(I.canon(n, nty))
        if t is None:
            raise Bug('requested capacity is not a number')
        cap('events_with_capacity', v, F, t)
    ref0 = ('O', 'in:a0', ety)
    for F, v, st in ctx.run('events_clear'):
        x = st.mem.get(ref0)
        if x is None:
            raise Bug('events_clear: container lost')
        empty('events_clear', x, F)
        I = ctx.world.interp()
        # a container of capacity 0 does not exist (capacity() would panic): those paths are dropped
        for F2, before, _ in q('events_capacity', I.canon(('s', 'in:a0', ety, 0, 0), ety), F, True):
            while before[0] == 'a' and len(before[2]) == 1:
                before = before[2][0]
            cap('events_clear', x, {**F, **F2}, before)
    rep.require('lengths', 4)
    rep.require('capacities', 3)
    lengths(ctx)
