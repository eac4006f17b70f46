"""Several pollers in one process: each lends its own descriptor, and none depends on another."""
from rules import *
from dom import *
from p_registry import family

# std types through which a shared reference can change what it refers to
CELLS = ('Cell', 'RefCell', 'UnsafeCell', 'OnceCell', 'LazyCell')
SYNC = ('Mutex', 'RwLock', 'Condvar', 'OnceLock', 'LazyLock', 'Once', 'Barrier')
OPERATIONS = ('wait', 'notify')


def p29(ctx):
    """The descriptor lent is the epoll instance's, and lending it does nothing."""
    rep = ctx.rep
    if family(ctx) != 'epoll':
        rep.ob('backends without a descriptor to lend')
        return
    for root in ('src::poller_as_fd', 'src::poller_as_raw_fd'):
        g = ctx.graph(root)

        def step(fl, q, e):
            if e.k == 'sys':
                fl.bad('effect', e, 'lending the descriptor performs %s' % e.name)
            if e.k in ('lock', 'trylock', 'cvwait'):
                fl.bad('blocks', e, 'lending the descriptor takes a lock')
            if e.k == 'panic':
                fl.bad('panics', e, 'lending the descriptor panics')
            if e.k == 'return':
                rep.ob('descriptors lent')
                v = e.value
                while v is not None and v[0] in ('fdof', 'nzv') and len(v) > 1 and isinstance(v[1], tuple):
                    v = v[1]
                if v == ('fd', 'poller:epoll', 0, 0):
                    return q
                if v is not None and (v[0] in ('fd', 'c')):
                    fl.bad('other', e, 'the descriptor lent is %s, not the epoll instance' % fdname(v))
                else:
                    raise Bug('%s: cannot tell which descriptor %s is' % (root, show_term(v)))
            return q
        flow(ctx, root, g, 0, step)
    rep.require('descriptors lent', 2)


# ---- independence -------------------------------------------------------------------------

def statics_of(prog, T, roots):
    """Static items of the crate with changeable state, and thread locals, that the given entry
    points reach: [(name, kind, pointee type, function)]"""
    seen, work, out = set(), [prog.root(r) for r in roots], []

    def operand(o, i):
        if isinstance(o, list):
            if len(o) == 3 and o[0] == 'k' and isinstance(o[2], dict) and 'static' in o[2]:
                t = T[o[1]]
                out.append((o[2]['static'], t['k'], t.get('to'), prog.insts[i]['d']))
            for x in o:
                operand(x, i)
        elif isinstance(o, dict):
            if isinstance(o.get('fn'), int):
                work.append(o['fn'])
            for x in o.values():
                operand(x, i)

    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        inst = prog.insts[i]
        if 'thread::LocalKey' in inst['d'] or 'thread::local::LocalKey' in inst['d']:
            out.append((inst['d'], 'thread', inst['a'][0] if inst['a'] else None, inst['d']))
        body = inst.get('body')
        if not body:
            continue
        for stmts, term, *_ in body['b']:
            if inst['cr'] in ('polling', 'vharness'):
                operand(stmts, i)
                operand(term, i)
            if term[0] in ('call', 'drop') and isinstance(term[1], int):
                work.append(term[1])
    return out


def contains(T, ty, want, depth=0, seen=None):
    """names in `want` among the types ty is made of (not looking behind tracing's own types)"""
    seen = set() if seen is None else seen
    if ty is None or ty in seen or depth > 12:
        return set()
    seen.add(ty)
    t = T[ty]
    out = set()
    pth = t.get('p') or ''
    if pth.startswith('tracing'):
        return out
    last = pth.split('::')[-1]
    if want(pth, last):
        out.add(last)
    for a in t.get('a') or ():
        if isinstance(a, int):
            out |= contains(T, a, want, depth + 1, seen)
    for k in ('e', 'to'):
        if isinstance(t.get(k), int):
            out |= contains(T, t[k], want, depth + 1, seen)
    if not pth.startswith(('std::', 'core::', 'alloc::')):
        for v in t.get('v') or ():
            for f in v['f']:
                out |= contains(T, f[1], want, depth + 1, seen)
    return out


def is_atomic(p, last):
    return last.startswith('Atomic')


def is_cell(p, last):
    return p.startswith(('std::cell', 'core::cell')) and last in CELLS


def is_sync(p, last):
    return p.startswith('std::sync') and last in SYNC


def is_resource(p, last):
    return last in ('OwnedFd', 'BorrowedFd', 'Poller', 'File', 'Thread', 'HashMap', 'BTreeMap', 'HashSet',
                    'BTreeSet', 'Vec', 'VecDeque', 'Sender', 'Receiver')


def p30(ctx):
    """No operation on one poller depends on state that operations on another change."""
    rep = ctx.rep
    T = ctx.T
    roots = [r for r in ctx.roots() if r in OPERATIONS or r.startswith('src::')]
    plain = set()
    seen = set()
    reached = statics_of(ctx.prog, T, roots)
    made = statics_of(ctx.prog, T, ['poller_new'])
    for nm, kind, to, fn in reached + made:
        if (nm, kind) in seen:
            continue
        seen.add((nm, kind))
        at, ce, sy, rs = (contains(T, to, w) for w in (is_atomic, is_cell, is_sync, is_resource))
        rep.ob('static items examined')
        if (nm, kind, to, fn) not in reached and not ((sy or ce) and rs):
            # what only construction uses, and holds no resource, is a cached fact about the system
            continue
        if kind == 'ptr':
            rep.bad(ctx.config, 'operations', 'static-mut', nm, 'the operations of all pollers use the mutable static %s' % nm)
        elif kind == 'thread':
            if (at or ce) and not rs:
                rep.bad(ctx.config, 'operations', 'thread-local', nm, 'operations of all pollers on a thread share the state of %s' % nm)
        elif (sy or ce) and rs:
            rep.bad(ctx.config, 'operations', 'shared-resource', nm, 'all pollers share %s, which holds %s' % (nm, ', '.join(sorted(rs))))
        elif at or sy:
            plain.add(nm)
    writers = set()
    for root in roots:
        g = ctx.graph(root)
        for e in g.edges:
            for x in e.ev:
                pl = getattr(x, 'place', None)
                if x.k == 'atomic' and pl and pl[0][0] == 'S' and x.op != 'load':
                    writers.add(pl[0][1])
    for root in roots:
        g = ctx.graph(root)
        I = ctx.world.interps[root]

        forks = branching(g, writers)

        def step(fl, q, e):
            held, olds = q
            pl = getattr(e, 'place', None)
            shared = pl is not None and pl[0] is not None and pl[0][0] == 'S'
            if e.k in ('lock', 'trylock', 'unlock', 'atomic', 'cvwait', 'coll'):
                rep.ob('accesses to shared state')
            if shared and e.k == 'trylock':
                fl.bad('try-lock', e, 'whether the lock %s is free depends on other pollers' % pl[0][1])
            if shared and e.k == 'lock':
                held = held | {pl}
            if e.k == 'unlock':
                held = frozenset(h for h in held if pl is not None and h != pl)
            if e.k == 'sys' and e.name == 'kwait' and held:
                fl.bad('waits-locked', e, 'the kernel wait is entered holding a lock that all pollers use')
            if shared and e.k == 'atomic' and pl[0][1] in writers:
                if e.op == 'cas' or (pl[0][1], e.loc) in forks:
                    fl.bad('state', e, 'the outcome depends on %s, which other pollers change' % pl[0][1])
                elif e.op != 'store' and e.old is not None:
                    olds = olds | {(pl[0][1], e.old)}
            if olds and e.k in ('sys', 'return', 'lock', 'trylock', 'cvwait', 'cvnotify', 'coll'):
                dep = {a for t in e.facts or () for a in subatoms(t)}
                for nm, o in sorted(olds, key=repr):
                    if o in dep or any(same_value(o, a) for a in dep):
                        fl.bad('state', e, 'what happens depends on %s, which other pollers change' % nm)
            if e.k == 'panic':
                return None
            return (held, olds)
        flow(ctx, root, g, (frozenset(), frozenset()), step)
        rep.ob('operations followed')
    rep.require('operations followed', 6)


def branching(g, writers):
    """(static, location) of the accesses whose outcomes are followed by different effects"""
    def frontier(n):
        seen, work, out = {n}, [n], set()
        while work:
            x = work.pop()
            es = g.out.get(x, ())
            if not es:
                out.add(x)
            for e in es:
                if e.ev:
                    out.add((e.dst, tuple((y.k, y.loc) for y in e.ev)))
                elif e.dst not in seen:
                    seen.add(e.dst)
                    work.append(e.dst)
        return out
    sites = {}
    for e in g.edges:
        for i, x in enumerate(e.ev):
            pl = getattr(x, 'place', None)
            if x.k == 'atomic' and pl and pl[0][0] == 'S' and pl[0][1] in writers and x.old is not None \
                    and x.old[0] == 'c':
                k = (pl[0][1], x.loc)
                rest = tuple((y.k, y.loc) for y in e.ev[i + 1:])
                f = frozenset([(e.dst, rest)]) if rest else frozenset(frontier(e.dst))
                sites.setdefault((k, e.src), {}).setdefault(x.old, set()).update(f)
    return {k for (k, _), by in sites.items() if len(set(map(frozenset, by.values()))) > 1}


def subatoms(t):
    if not isinstance(t, tuple):
        return ()
    try:
        return set(atoms(t)) | {t}
    except Exception:
        return {t}


def same_value(a, b):
    return a[0] == 's' and b[0] == 's' and a[:4] == b[:4]
