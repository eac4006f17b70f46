"""Notification and hand-over between threads: decided on the product of the effect automata."""
from rules import *
from dom import *
import conc

REG = ('src::add', 'src::modify', 'src::delete')
_autos = {}


def autos(ctx):
    k = id(ctx)
    if k not in _autos:
        _autos.clear()
        _autos[k] = {r: conc.project(ctx, r) for r in ('wait', 'notify') + REG if ctx.has(r)}
    return _autos[k]


def initial(ctx):
    """{kind of poller: (initial value of each atomic, registration of the notifier, backend)}"""
    names = {}
    back = set()
    for r in autos(ctx):
        for e in ctx.graph(r).edges:
            for x in e.ev:
                if x.k == 'atomic':
                    names[x.var] = x.place
                if x.k == 'sys' and x.name == 'kwait':
                    back.add('poll' if x.set is not None else 'epoll')
    if len(back) != 1:
        raise Bug('no kernel wait found' if not back else 'two kinds of kernel wait')
    kind = back.pop()
    I = ctx.world.interps['wait']
    out = {}
    for label, pv, F in ctx.world.pollers():
        init = {}
        for v, (root, proj) in names.items():
            if root[0] == 'S':
                if ctx.rep.prop in ('P01', 'P02', 'P18'):
                    ctx.rep.bad(ctx.config, 'wait', 'global', root[1],
                                'all pollers share the state %s: one poller\'s notifications count for another' % root[1])
                raise Bug('atomic %s is not part of the poller' % root[1])
            if root[1] != 'poller':
                raise Bug('atomic %s is not part of the poller' % v)
            x = pv
            ty = root[2]
            for p in proj:
                if p[0] != 'f':
                    raise Bug('atomic %s is not a plain field' % v)
                x = I.getf(x, ty, p[1], p[2])
                ty = p[3]
            if not (x[0] == 'op' and x[1] == 'atomic' and x[3][0][0] == 'c'):
                raise Bug('initial value of %s is not known' % v)
            init[v] = x[3][0][1]
        out[label] = (init, armed(ctx, label, pv, kind), kind)
    return out


def armed(ctx, label, pv, kind):
    """how the notifier is registered by construction: (flags, edge pending)"""
    if kind == 'poll':
        for t in walk(pv):
            if t[0] == 'coll' and t[1] == 'vec' and t[3] and t[3][0][0] == C(0):
                ent = t[3][0][1]
                fd = [x for x in atoms(ent) if x[0] == 'fd' and conc.obj(x[1])]
                nums = [x for x in ent[2] if x[0] == 'c']
                if fd and nums:
                    return (nums[0][1], False)
        return (0, False)
    found = set()
    g = ctx.world.new_graph()

    def step(fl, q, e):
        if e.k == 'sys' and e.out == 'ok' and e.name in ('epoll_add', 'epoll_mod', 'epoll_del') and \
                e.fd[0] == 'fd' and conc.obj(e.fd[1]):
            q = dict(q)
            o = conc.obj(e.fd[1])
            if e.name == 'epoll_del':
                q.pop(o, None)
            else:
                b = bits(e.flags)
                q[o] = b[0] if b and not b[1] else None
            return frozenset(q.items())
        if e.k == 'return' and is_ok(e.value):
            found.add(q)
            return None
        return q
    Flow(ctx, 'poller_new', g, frozenset(), step)
    want = 'eventfd' if 'eventfd' in label else 'pipe'
    fl = {dict(q).get(want, 0) for q in found if want in dict(q)} or {0}
    if len(fl) != 1 or None in fl:
        raise Bug('the notifier is registered in several ways')
    return (fl.pop(), False)


def walk(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from walk(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y:
                        if isinstance(y[0], str):
                            yield from walk(y)
                        else:
                            for z in y:
                                if isinstance(z, tuple) and z and isinstance(z[0], str):
                                    yield from walk(z)


def threads(au, label, spec):
    out = []
    for nm in spec:
        if nm.startswith('wait'):
            ops = ['wait']
        elif nm.startswith('notify'):
            ops = ['notify']
        else:
            ops = [r for r in REG if r in au]
        ths = [(o, au[o], au[o].starts.get(label, ())) for o in ops]
        # operations without any shared effect are left out
        ths = [x for x in ths if x[2]]
        if nm.startswith('reg') and not any(effects(a, s) for _, a, s in ths):
            continue
        out.append((nm, ths))
    return out


def effects(a, starts):
    seen, work = set(starts), list(starts)
    while work:
        n = work.pop()
        for l, d in a.out[n]:
            if l[0] not in ('ret', 'as'):
                return True
            if d not in seen:
                seen.add(d)
                work.append(d)
    return False


SETS = [('free', ('waiter', 'notifier 1', 'notifier 2')),
        ('free', ('waiter', 'notifier', 'registrar')),
        ('free', ('waiter', 'registrar 1', 'registrar 2')),
        ('sequential', ('waiter', 'notifier'))]


def products(ctx, which):
    au = autos(ctx)
    start = conc.eventfd_use(ctx)[1]
    for label, (init, ar, kind) in sorted(initial(ctx).items()):
        done = set()
        for mode, spec in which:
            nm = [x.replace('waiter', 'wait').replace('notifier', 'notify').replace('registrar', 'reg') for x in spec]
            th = threads(au, label, nm)
            key = (mode, tuple(n for n, _ in th))
            if key in done or len(th) < 2:
                continue
            done.add(key)
            p = conc.Product(th, init, kind, ar, mode, start if 'eventfd' in label else 0)
            ctx.rep.ob('interleavings explored (states)', p.states)
            ctx.rep.ob('operation compositions')
            yield label, [n for n, _ in th], p


def bad(ctx, rule, label, who, msg, path):
    ctx.rep.bad(ctx.config, '+'.join(w.split()[0] for w in who), rule, label, msg, path)


def check_unknown(ctx):
    for r in autos(ctx):
        for e in ctx.graph(r).edges:
            for x in e.ev:
                if x.k == 'unknown' and not harness_fn(x.fn):
                    raise Bug('%s reaches %s, which is not modelled' % (r, x.name))


def p01(ctx):
    check_unknown(ctx)
    for label, who, p in products(ctx, SETS[:2]):
        if ('lost',) in p.found:
            bad(ctx, 'lost-wakeup', label, who, 'a notification is lost: notify() returned Ok and wait() sleeps on', p.found[('lost',)])
    for label, who, p in products(ctx, SETS[3:]):
        if ('stale',) in p.found:
            bad(ctx, 'consumed-twice', label, who, 'a wait() returns for a notification that an earlier return has consumed', p.found[('stale',)])
    ctx.rep.require('operation compositions')


def cycles(edges):
    """the strongly connected components (as lists of edges) of a set of edges"""
    out = {}
    for e in edges:
        out.setdefault(e.src, []).append(e)
    num, low, stack, on, comp = {}, {}, [], set(), {}
    for root in list(out):
        if root in num:
            continue
        num[root] = low[root] = len(num)
        stack.append(root)
        on.add(root)
        work = [(root, iter(out.get(root, ())))]
        while work:
            n, it = work[-1]
            for e in it:
                d = e.dst
                if d not in num:
                    num[d] = low[d] = len(num)
                    stack.append(d)
                    on.add(d)
                    work.append((d, iter(out.get(d, ()))))
                    break
                if d in on:
                    low[n] = min(low[n], num[d])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == num[n]:
                    while True:
                        x = stack.pop()
                        on.discard(x)
                        comp[x] = n
                        if x == n:
                            break
    res = {}
    for e in edges:
        if comp.get(e.src) == comp.get(e.dst) and e.dst in comp:
            res.setdefault(comp[e.src], []).append(e)
    return list(res.values())


def spins(g):
    """atomic operations repeated, without a kernel call between them, until another thread changes
    the variable.  A compare-and-exchange repeated with the value it has just seen, or repeated for
    failing spuriously, is none."""
    for es in cycles([e for e in g.edges if not any(x.k == 'sys' for x in e.ev)]):
        ev = [x for e in es for x in e.ev]
        cas = [x for x in ev if x.k == 'atomic' and x.op == 'cas' and x.out == 'fail']
        for x in ev:
            if x.k != 'atomic':
                continue
            if x.op == 'cas' and x.out == 'fail' and x.exp[0] == 'c' and (
                    not x.weak or any(y.k == 'pause' for y in ev)):
                yield x
            elif x.op == 'swap' or x.op == 'load' and not cas:
                yield x


def p02(ctx):
    rep = ctx.rep
    g = ctx.graph('notify')
    check_unknown(ctx)
    for x in spins(g):
        bad(ctx, 'spins', 'notify', ('notify',), 'notify() loops until another thread changes %s' % (x.var,), ())

    def step(fl, q, e):
        if e.k in ('lock', 'cvwait'):
            fl.bad('blocks', e, 'notify blocks on %s' % (e.mutex or e.cv))
        if e.k == 'sleep':
            fl.bad('blocks', e, 'notify puts its thread to sleep')
        if e.k == 'sys':
            rep.ob('system calls of notify')
            if e.name == 'kwait' or e.name == 'read':
                fl.bad('blocks', e, 'notify enters the kernel call %s, which can block' % e.name)
            if e.name == 'write':
                return q + 1
        return q
    flow(ctx, 'notify', g, 0, step)
    rep.require('system calls of notify')
    for label, who, p in products(ctx, SETS):
        for k, path in p.found.items():
            if k == ('accumulate',):
                bad(ctx, 'accumulate', label, who, 'notifications pile up in the notifier without bound, until writing it blocks', path)
            if k == ('residue',):
                bad(ctx, 'residue', label, who, 'a notification is still pending after a wait() it had ended', path)
            if k[0] == 'blocked' and k[1].startswith('notify'):
                bad(ctx, 'blocked', label, who, 'notify() is blocked for ever on %s' % k[2], path)
    rep.require('operation compositions')


def p18(ctx):
    check_unknown(ctx)
    for label, who, p in products(ctx, SETS[1:3]):
        for k, path in p.found.items():
            if k[0] == 'blocked' and k[1].startswith('reg'):
                bad(ctx, 'starved', label, who, 'a registration operation waits for %s while nothing wakes the waiter' % k[2], path)
            if k[0] == 'blocked' and k[1].startswith('wait') and 'condition' in str(k[2]):
                bad(ctx, 'stuck', label, who, 'after registrations the wait() they interrupted stays blocked on %s' % k[2], path)
            if k == ('spurious',):
                bad(ctx, 'ends-wait', label, who, 'a registration operation ends a wait() that got neither event nor notification', path)
            if k[0] == 'counter':
                bad(ctx, 'counter', label, who, 'the count of waiting operations goes wrong', path)


def p27(ctx):
    check_unknown(ctx)
    for label, who, p in products(ctx, SETS):
        for k, path in p.found.items():
            if k[0] == 'blocked':
                bad(ctx, 'deadlock', label, who, '%s is blocked for ever on %s' % (k[1], k[2]), path)
    ctx.rep.require('operation compositions')
