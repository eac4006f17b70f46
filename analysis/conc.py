"""Concurrent behaviour of the public operations: effect automata and their product.

Each operation's graph is projected onto the effects other threads can see (atomics, locks,
condition variables, the notifier, the kernel wait, its result).  The projections of a few threads
are composed with an abstract notifier and kernel, and every interleaving is explored.  Values
that decide branches (an atomic's previous value, the number of ready descriptors, whether the
notifier was reported) are kept in per-thread registers; everything else is left open.
"""
import collections

from rules import *
from dom import *
import p_registry as R

NOTIFIER = ('eventfd', 'pipe.r', 'pipe.w')
CAP = 5


def obj(name):
    """notifier object behind a descriptor name, or None"""
    n = name.split(':', 1)[-1].split('#')[0]
    if n == 'eventfd':
        return 'eventfd'
    if n in ('pipe.r', 'pipe.w'):
        return 'pipe'
    return None


def site(s):
    return (s[1], s[3])


def syms(t):
    """registers a term reads: sites of its symbols"""
    er = elem_revents(t)
    if er:
        return {er[0]}
    if t[0] == 's' and len(t) == 5:
        return {site(t)}
    out = set()
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                out |= syms(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y:
                        if isinstance(y[0], str):
                            out |= syms(y)
                        else:
                            for z in y:
                                if isinstance(z, tuple) and z and isinstance(z[0], str):
                                    out |= syms(z)
    return out


class Auto:
    """Effect automaton of one operation: nodes with a set of same-operation outcomes each."""

    def __init__(self):
        self.starts = {}
        self.out = {}


def elem_revents(t):
    """(site, index term) if t is the returned events of an entry of the polled set"""
    if t[0] == 'elem' and t[1][0] == 'revents' and t[1][1][0] == 's':
        return site(t[1][1]), t[2], t[1][1][4]
    return None


def subst_regs(t, regs):
    """replaces symbols by register values; leaves others alone"""
    if not isinstance(t, tuple) or not t:
        return t
    er = elem_revents(t)
    if er:
        v = regs.get(er[0])
        if v is None or er[2] != 0:
            return t
        if er[1] == C(0):
            return C(v[0])
        return t if v[1] is None else C(v[1])
    if t[0] == 's' and len(t) == 5:
        v = regs.get(site(t))
        return C(v) if isinstance(v, int) and t[4] == 0 else t
    if t[0] == 'discr' and t[1][0] == 'op' and t[1][1] == 'kindof' and t[1][3][0][0] == 's':
        s = t[1][3][0]
        v = regs.get(site(s))
        if v is not None and s[4] == 0 and v == -11:
            return C(WOULD_BLOCK)
        return t
    return tuple(subst_regs(x, regs) if isinstance(x, tuple) else x for x in t)


WOULD_BLOCK = 13


def value(t, regs):
    return ev(subst_regs(t, regs), {})


def tracked(t, sites):
    return bool(syms(t) & sites)


# counters so narrow that a program can make them wrap; the modulus is abstracted to 9
NARROW = set()


def label(x, used, counting=False):
    """what other threads can see of an event, or None"""
    k = x.k
    if k == 'atomic':
        if x.aty in ('u8', 'i8', 'u16', 'i16'):
            NARROW.add(x.var)
        return ('at', x.var, x.op, x.out, x.old, x.new, x.exp)
    if k in ('lock', 'trylock'):
        if x.out == 'poisoned':
            return ('dead',)
        return (k, x.mutex, x.out)
    if k == 'unlock':
        return ('unlock', x.mutex)
    if k == 'cvwait':
        if x.out == 'poisoned':
            return ('dead',)
        if x.out not in (None, 'ok'):
            return ('cvwait', x.cv, x.mutex, bool(x.timed), x.out)
        return ('cvwait', x.cv, x.mutex, bool(x.timed), None)
    if k == 'cvnotify':
        return ('cvnotify', x.cv, bool(x.all))
    if k == 'panic':
        return ('dead',)
    if k == 'return':
        ok = is_ok(x.value)
        return ('ret', ok)
    if k == 'sys':
        n = x.name
        if n == 'kwait':
            to = x.timeout
            nb = decide(eq0(to), x.facts) if to is not None else None
            return ('kwait', x.out, nb == 1, 'poll' if x.set is not None else 'epoll', x.get('n'))
        if n in ('read', 'write') and x.fd is not None and x.fd[0] == 'fd' and obj(x.fd[1]):
            ln = x.len[1] if x.len is not None and x.len[0] == 'c' else None
            by = written(x, counting) if n == 'write' else None
            er = x.get('errno')
            o = obj(x.fd[1])
            return (n, 'semaphore' if o == 'eventfd' and counting else o, x.out, ln,
                    er if er is not None and site(er) in used else None, by)
        if n in ('epoll_add', 'epoll_mod', 'epoll_del') and x.fd is not None and x.fd[0] == 'fd' and obj(x.fd[1]):
            fl = None
            if n != 'epoll_del':
                b = bits(x.flags)
                if b is None or b[1]:
                    raise Bug('the notifier is registered with flags that depend on the caller')
                fl = b[0]
            return (n, obj(x.fd[1]), x.out, fl)
    return None


def written(x, counting):
    """by how much a write raises the count of the notifier (a pipe: one message)"""
    d = x.data
    while d is not None and d[0] == 'op' and d[1] == 'bytes':
        d = d[3][0]
    if obj(x.fd[1]) == 'pipe' or d is None or d[0] != 'c':
        return 1
    return min(d[1], CAP) if counting else min(d[1], 1)


def eventfd_use(ctx):
    """(counts like a semaphore, initial count) of the eventfd the constructor creates"""
    sem, init = set(), set()
    for e in ctx.world.new_graph().edges:
        for x in e.ev:
            if x.k == 'sys' and x.name == 'eventfd':
                b = bits(x.flags)
                if b is None or b[1] or x.init[0] != 'c':
                    raise Bug('the eventfd is created with unknown arguments')
                sem.add(bool(b[0] & 1))
                init.add(x.init[1])
    if len(sem) > 1 or len(init) > 1:
        raise Bug('eventfds of several kinds')
    return (sem.pop() if sem else False), (init.pop() if init else 0)


def project(ctx, root, g=None):
    """Effect automaton of one operation per kind of poller."""
    g = g or ctx.graph(root)
    counting = eventfd_use(ctx)[0]
    g.check() if hasattr(g, 'check') else None
    # which registers matter: those read by a branch or written to an atomic
    setters = {}
    for e in g.edges:
        for x in e.ev:
            if x.k == 'atomic' and x.old is not None and x.old[0] == 's':
                setters[site(x.old)] = 'atomic'
            if x.k == 'sys' and x.name == 'kwait' and x.get('n') is not None and x.n[0] == 's':
                setters[site(x.n)] = 'n'
            if x.k == 'sys' and x.name in ('read', 'write') and x.out == 'err':
                setters[site(x.errno)] = 'errno'
    used = set()
    for e in g.edges:
        for x in e.ev:
            if x.k == 'assume':
                ss = syms(x.t)
                if all(s in setters or s[0] == 'revents' for s in ss):
                    used |= ss
    nodes = {}
    out = collections.defaultdict(list)
    ids = [0]

    def new():
        ids[0] += 1
        return ids[0]

    def node(n):
        if ('n', n) not in nodes:
            nodes[('n', n)] = new()
        return nodes[('n', n)]

    starts = {}
    for n in sorted(g.out):
        # prefix tree of the outgoing edges: a fork is where they differ
        trie = {}
        for e in g.out[n]:
            t = trie
            for x in e.ev:
                k = evkey(x)
                t = t.setdefault(k, [x, {}])[1]
            t.setdefault(('end', e.dst), [None, None])

        def grow(src, t):
            groups = collections.defaultdict(list)
            for k, (x, sub) in t.items():
                if x is None:
                    groups[k].append((None, node(k[1])))
                    continue
                if x.k == 'entry':
                    d = new()
                    starts.setdefault(x.label, []).append(d)
                    grow(d, sub)
                    continue
                d = new()
                grow(d, sub)
                if x.k == 'assume':
                    ss = syms(x.t)
                    if ss and ss <= used:
                        groups['assume'].append((('as', x.t, 0 if x.v == 0 else 1), d))
                    else:
                        groups['assume'].append((None, d))
                else:
                    lab = label(x, used, counting)
                    groups[opkey(x) if lab else k].append((lab, d))
            if len(groups) == 1:
                out[src].extend(list(groups.values())[0])
            else:
                for ls in groups.values():
                    d = new()
                    out[src].append((None, d))
                    out[d].extend(ls)
        grow(node(n), trie)
    return reduce_auto(starts, out, used)


def evkey(x):
    return repr(sorted((k, v) for k, v in x.items() if k not in ('facts', 'stack')))


def opkey(x):
    return (x.k, x.name, x.var, x.mutex, x.cv, x.loc, x.fn, x.op, repr(x.fd))


def reduce_auto(starts, out, used):
    """Removes silent steps, prunes dead outcomes, merges equivalent nodes."""
    memo = {}

    def stable(n):
        """nodes with visible steps reached silently; branches on registers count as visible"""
        r = memo.get(n)
        if r is not None:
            return r
        seen, res, work = {n}, set(), [n]
        while work:
            m = work.pop()
            o = out.get(m, ())
            if any(l is not None for l, _ in o):
                res.add(m)
            for l, d in o:
                if l is None and d not in seen:
                    seen.add(d)
                    work.append(d)
        memo[n] = r = frozenset(res)
        return r

    trans = {}
    work = []
    st = {}
    for lab, ns in starts.items():
        st[lab] = set()
        for n in ns:
            st[lab] |= stable(n)
        work += st[lab]
    while work:
        n = work.pop()
        if n in trans:
            continue
        trans[n] = []
        for l, d in out[n]:
            if l is None or l == ('dead',):
                continue
            ds = stable(d) if l[0] != 'ret' else frozenset([0])
            trans[n].append((l, ds))
            work += [x for x in ds if x not in trans and x != 0]
    trans[0] = []
    dead = set()
    ch = True
    while ch:
        ch = False
        for n in trans:
            if n != 0 and n not in dead:
                trans[n] = [(l, ds - dead) for l, ds in trans[n] if ds - dead]
                if not trans[n]:
                    dead.add(n)
                    ch = True
    for n in dead:
        del trans[n]
    st = {lab: ns - dead for lab, ns in st.items()}
    # partition refinement
    cls = {n: int(n == 0) for n in trans}
    k = 2
    while True:
        sig = {}
        new = {}
        for n in sorted(trans):
            s = (cls[n], frozenset((l, cls[d]) for l, ds in trans[n] for d in ds))
            new[n] = sig.setdefault(s, len(sig))
        cls = new
        if len(sig) == k:
            break
        k = len(sig)
    a = Auto()
    a.end = cls[0]
    a.starts = {lab: frozenset(cls[n] for n in ns) for lab, ns in st.items()}
    a.out = {}
    for n in trans:
        c = cls[n]
        if c not in a.out:
            a.out[c] = sorted({(l, cls[d]) for l, ds in trans[n] for d in ds}, key=repr)
    # live registers
    live = {c: set() for c in a.out}
    ch = True
    while ch:
        ch = False
        for c, o in a.out.items():
            s = set()
            for l, d in o:
                s |= (live[d] - sets(l)) | reads(l)
            if s - live[c]:
                live[c] |= s
                ch = True
    a.live = live
    a.used = used
    return a


def sets(l):
    if l[0] == 'at' and l[4] is not None and l[4][0] == 's':
        return {site(l[4])}
    if l[0] == 'kwait' and l[4] is not None and l[4][0] == 's':
        return {site(l[4])}
    return set()


def reads(l):
    if l[0] == 'as':
        return syms(l[1])
    if l[0] == 'at' and l[5] is not None:
        return syms(l[5])
    return set()


# ---- product --------------------------------------------------------------------------

IDLE = ('idle',)


class Product:
    """All interleavings of some threads, each repeating one of a set of operations.

    mode 'free': any interleaving; 'sequential': an operation starts only while every other
    thread is idle or asleep in the kernel, and runs without interference."""

    def __init__(self, threads, init, kind, armed, mode='free', count=0, limit=3000000):
        # threads: [(name, [(op, automaton, start nodes)])]
        self.threads, self.init, self.kind, self.mode = threads, init, kind, mode
        self.vars = sorted(init)
        self.ix = {v: i for i, v in enumerate(self.vars)}
        self.armed0 = armed
        self.count0 = min(count, CAP)
        self.limit = limit
        self.found = {}
        self.parent = {}
        self.states = self.steps = 0
        self.maxcount = 0
        self.explore()

    def settle(self, t, op, node, regs):
        """resolves branches on registers; -> thread states"""
        a = self.threads[t][1][op][1]
        out, work, seen = [], [(node, regs)], set()
        while work:
            n, r = work.pop()
            if n == a.end:
                out.append(IDLE)
                continue
            r = tuple((k, v) for k, v in r if k in a.live[n])
            if (n, r) in seen:
                continue
            seen.add((n, r))
            o = a.out[n]
            if o and o[0][0][0] == 'as':
                d = dict(r)
                for l, dst in o:
                    x = value(l[1], d)
                    if x is None or bool(x) == bool(l[2]):
                        work.append((dst, r))
            else:
                out.append(('run', op, n, r))
        return out

    def explore(self):
        s0 = (tuple(IDLE for _ in self.threads), tuple(self.init[v] for v in self.vars),
              (), self.count0, self.armed0, (0, 0, (0,) * len(self.threads), 0))
        # state: threads, atomics, held locks ((mutex, owner)...), notifier count, armed, monitor
        self.parent[s0] = None
        work = collections.deque([s0])
        while work:
            s = work.popleft()
            self.states += 1
            if self.states > self.limit:
                raise Bug('the product of the operations is too large')
            internal = False
            for i in range(len(self.threads)):
                for desc, ns, env in self.succ(s, i):
                    if not env:
                        internal = True
                    self.steps += 1
                    if ns not in self.parent:
                        self.parent[ns] = (s, i, desc)
                        work.append(ns)
            if not internal:
                self.stuck(s)

    def report(self, kind, s, last=None):
        if kind in self.found:
            return
        tr = [last] if last else []
        while self.parent[s] is not None:
            s, i, d = self.parent[s]
            tr.append('%s: %s' % (self.threads[i][0], d))
        self.found[kind] = [x for x in reversed(tr) if x]

    def stuck(self, s):
        ths, at, locks, cnt, armed, mon = s
        for i, t in enumerate(ths):
            if t == IDLE:
                continue
            name = self.threads[i][0]
            if t[0] in ('cv', 'lk'):
                self.report(('blocked', name, 'a condition variable' if t[0] == 'cv' else 'a lock'), s)
                continue
            a = self.threads[i][1][t[1]][1]
            l = a.out[t[2]][0][0]
            if l[0] == 'kwait':
                continue
            self.report(('blocked', name, {'lock': 'the lock ' + l[1], 'read': 'a read', 'write': 'a write'}.get(l[0], l[0])), s)
        if mon[0] and any(t[0] == 'run' and self.label0(i, t)[0] == 'kwait' for i, t in enumerate(ths)):
            self.report(('lost',), s)

    def label0(self, i, t):
        return self.threads[i][1][t[1]][1].out[t[2]][0][0]

    def asleep(self, i, t):
        return t[0] == 'run' and self.label0(i, t)[0] == 'kwait' and not self.label0(i, t)[2]

    def succ(self, s, i):
        """[(description, state, is an environment step)]"""
        ths, at, locks, cnt, armed, mon = s
        t = ths[i]
        out = []
        name, ops = self.threads[i]

        def put(i, nts, desc, at=at, locks=locks, cnt=cnt, armed=armed, mon=mon, env=False, others=None):
            for nt in nts:
                l = list(others or ths)
                l[i] = nt
                out.append((desc, (tuple(l), at, locks, cnt, armed, mon), env))
        if t == IDLE:
            if self.mode == 'sequential' and any(
                    x != IDLE and not self.asleep(j, x) for j, x in enumerate(ths) if j != i):
                return out
            for op, (oname, a, starts) in enumerate(ops):
                m = mon
                if name.startswith('notify'):
                    c = list(mon[2])
                    c[i] = 1
                    m = (mon[0], mon[1], tuple(c), mon[3])
                for n in starts:
                    # starting is the environment's choice: a thread need not call anything
                    put(i, self.settle(i, op, n, ()), 'calls ' + oname, mon=m, env=True)
            return out
        if self.mode == 'sequential' and any(
                x != IDLE and not self.asleep(j, x) for j, x in enumerate(ths) if j != i):
            return out
        if t[0] == 'cv':
            # signalled by others; a timed wait also ends on its own
            if t[5]:
                put(i, [('lk',) + t[1:]], 'times out on %s' % t[1], env=True, mon=mon[:3] + (1,))
            return out
        if t[0] == 'lk':
            if not any(m == t[2] for m, _ in locks):
                put(i, self.settle(i, t[3][1], t[3][2], t[3][3]), 're-acquires %s' % t[2],
                    locks=tuple(sorted(locks + ((t[2], i),))))
            return out
        _, op, n, regs = t
        a = ops[op][1]
        for l, d in a.out[n]:
            k = l[0]
            if k == 'at':
                _, var, aop, o, old, new, exp = l
                j = self.ix[var]
                cur = at[j]
                rd = dict(regs)
                if old is not None:
                    if old[0] == 'c':
                        if cur != old[1]:
                            continue
                    elif old[0] == 's':
                        rd[site(old)] = cur
                if aop == 'cas':
                    x = value(exp, rd)
                    if o == 'ok' and x is not None and x != cur:
                        continue
                    if o == 'fail':
                        if x is not None and x == cur:
                            continue
                        new = None
                nv = cur
                if new is not None and aop != 'load':
                    v = value(new, rd)
                    if v is None:
                        raise Bug('value stored in %s is not known' % var)
                    if aop == 'fetch_add':
                        nv = cur + v
                    elif aop == 'fetch_sub':
                        nv = cur - v
                    elif aop in ('fetch_or', 'fetch_and', 'fetch_xor'):
                        nv = cur | v if aop == 'fetch_or' else cur & v if aop == 'fetch_and' else cur ^ v
                    elif aop in ('swap', 'store', 'cas'):
                        nv = v
                    else:
                        raise Bug('atomic operation %s is not modelled in the product' % aop)
                if nv > 8 and aop == 'fetch_add' and var in NARROW:
                    nv = 0
                if nv < 0 or nv > 8:
                    self.report(('counter', var), s, '%s: %s %s' % (name, aop, var))
                    continue
                r = tuple(sorted(rd.items()))
                put(i, self.settle(i, op, d, r), '%s %s: %d -> %d' % (aop, var, cur, nv),
                    at=at[:j] + (nv,) + at[j + 1:])
            elif k == 'lock':
                if any(m == l[1] for m, _ in locks):
                    continue
                put(i, self.settle(i, op, d, regs), 'locks ' + l[1], locks=tuple(sorted(locks + ((l[1], i),))))
            elif k == 'trylock':
                held = any(m == l[1] for m, _ in locks)
                if (l[2] == 'ok') == held:
                    continue
                lk = locks if held else tuple(sorted(locks + ((l[1], i),)))
                put(i, self.settle(i, op, d, regs), 'tries to lock %s: %s' % (l[1], l[2]), locks=lk)
            elif k == 'unlock':
                put(i, self.settle(i, op, d, regs), 'unlocks ' + l[1],
                    locks=tuple(x for x in locks if x != (l[1], i)))
            elif k == 'cvwait':
                put(i, [('cv', l[1], l[2], x, 0, l[3]) for x in self.after(i, op, d, regs)],
                    'waits on ' + l[1], locks=tuple(x for x in locks if x != (l[2], i)))
            elif k == 'cvnotify':
                ws = [j for j, x in enumerate(ths) if x[0] == 'cv' and x[1] == l[1]]
                sets = [ws] if l[2] or not ws else [[j] for j in ws]
                for w in sets:
                    o = list(ths)
                    for j in w:
                        o[j] = ('lk',) + o[j][1:]
                    put(i, self.settle(i, op, d, regs), 'signals ' + l[1], others=o)
            elif k in ('read', 'write') and l[1] in ('eventfd', 'semaphore') and l[3] is not None and l[3] < 8:
                # EINVAL: an eventfd transfers eight bytes at a time
                if l[2] == 'ok':
                    continue
                rd = dict(regs)
                if l[4] is not None:
                    rd[site(l[4])] = -22
                put(i, self.settle(i, op, d, tuple(sorted(rd.items()))), '%ss the notifier: invalid length' % k)
            elif k == 'write':
                if l[2] != 'ok':
                    continue
                c = cnt + (0 if l[3] == 0 else l[5])
                if c > CAP:
                    self.report(('accumulate',), s, '%s: writes the notifier' % name)
                    c = CAP
                self.maxcount = max(self.maxcount, c)
                ar = armed if c == cnt else armed[:1] + (True,)
                put(i, self.settle(i, op, d, regs), 'writes the notifier (%d pending)' % c, cnt=c, armed=ar)
            elif k == 'read':
                if (l[2] == 'ok') != (cnt > 0):
                    continue
                rd = dict(regs)
                c = cnt - 1 if l[1] == 'semaphore' else \
                    0 if l[1] == 'eventfd' or l[3] is None else max(0, cnt - l[3])
                if l[2] != 'ok':
                    c = cnt
                    if l[4] is not None:
                        rd[site(l[4])] = -11
                put(i, self.settle(i, op, d, tuple(sorted(rd.items()))),
                    'drains the notifier (%s, %d left)' % (l[2], c), cnt=c)
            elif k in ('epoll_mod', 'epoll_add'):
                if l[2] != 'ok':
                    continue
                put(i, self.settle(i, op, d, regs), 'arms the notifier with flags 0x%x' % l[3], armed=(l[3], cnt > 0))
            elif k == 'epoll_del':
                if l[2] != 'ok':
                    continue
                put(i, self.settle(i, op, d, regs), 'removes the notifier', armed=(0, False))
            elif k == 'kwait':
                self.kwait(s, i, op, l, d, regs, put)
            elif k == 'ret':
                owed, woken, clean, real = mon
                c = list(clean)
                if name.startswith('wait') and l[1]:
                    if woken and 'notify' not in ''.join(x[0] for x in self.threads):
                        self.report(('spurious',), s, '%s: returns Ok' % name)
                    if self.mode == 'sequential' and not owed and not real:
                        self.report(('stale',), s, '%s: returns Ok' % name)
                    owed = 0
                    c = [0] * len(c)
                    if self.mode == 'sequential' and cnt:
                        self.report(('residue',), s, '%s: returns Ok' % name)
                elif name.startswith('notify') and l[1] and clean[i]:
                    owed = 1
                put(i, [IDLE], 'returns %s' % {True: 'Ok', False: 'Err', None: ''}[l[1]],
                    mon=(owed, 0, tuple(c), 0 if name.startswith('wait') else real))
            else:
                raise Bug('effect %s is not modelled in the product' % k)
        return out

    def after(self, i, op, d, regs):
        return [('run', op, d, regs)]

    def ready(self, cnt, armed):
        if self.kind == 'poll':
            return cnt > 0 and armed[0] & (0x1 | 0x40)
        fl, pend = armed
        return cnt > 0 and fl & R.EIN and (not fl & R.EET or pend)

    def disarm(self, armed):
        if self.kind == 'poll':
            return armed
        fl, pend = armed
        if fl & R.EONESHOT:
            fl = 0
        return (fl, False)

    def kwait(self, s, i, op, l, d, regs, put):
        ths, at, locks, cnt, armed, mon = s
        _, o, nb, kind, n = l
        owed, woken, clean, real = mon
        ready = self.ready(cnt, armed)

        def go(desc, regs, env, armed, woken, real=real):
            # a wait with a zero timeout is never asleep
            put(i, self.settle(i, op, d, tuple(sorted(regs.items()))), desc, armed=armed,
                mon=(owed, woken, clean, real if self.mode == 'sequential' else 0), env=env and not (nb and o == 'ok'))
        rd = dict(regs)
        if o != 'ok':
            go('kernel wait fails' if o == 'err' else 'kernel wait is interrupted', rd, True, armed, 0)
            return
        rs = [x for x in self.threads[i][1][op][1].used if x[0] == 'revents']
        ns = site(n) if n is not None and n[0] == 's' else None
        zero = n is not None and n[0] == 'c'
        if zero and n[1] != 0:
            raise Bug('kernel wait with a fixed number of events')
        if ready and not zero:
            r = dict(rd)
            if ns:
                r[ns] = 1
            for x in rs:
                r[x] = (1, 0)
            go('kernel wait is ended by the notifier', r, False, self.disarm(armed), 1)
            r = dict(rd)
            if ns:
                r[ns] = 2
            for x in rs:
                r[x] = (1, None)
            go('kernel wait is ended by the notifier and a source', r, True, self.disarm(armed), 0, 1)
        if not ready or kind == 'epoll':
            if not zero:
                r = dict(rd)
                if ns:
                    r[ns] = 1
                for x in rs:
                    r[x] = (0, None)
                go('kernel wait is ended by a source or the timeout', r, True, armed, 0, 1)
            else:
                go('kernel wait times out', rd, True, armed, 0, 1)
