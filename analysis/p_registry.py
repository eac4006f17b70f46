"""Registry operations: add / modify / delete.

P03 reserved key, P09 kernel errors reported, P10 interest to kernel flags, P12 key carried
unchanged, P13 delivery mode, P14 mode support, P15 the right source, P16 failed operations
change nothing."""
from rules import *
from dom import *
import itertools

MAX = (1 << 64) - 1
EV = {'add': 2, 'modify': 2, 'delete': None}


def family(ctx):
    names = {a[1] for _, v, _ in ctx.world.pollers() for a in atoms(v) if a[0] == 'fd'}
    if 'poller:epoll' in names:
        return 'epoll'
    return 'poll'


def ops(ctx, kinds=('add', 'modify', 'delete'), mode=None):
    """[(root, op, has mode parameter)]"""
    out = []
    for r in sorted(ctx.roots()):
        if not r.startswith('src::'):
            continue
        n = r[5:]
        op = n.split('_')[0]
        if op not in kinds or op not in EV:
            continue
        m = n.endswith('with_mode')
        if mode is None or mode == m:
            out.append((r, op, m))
    if not out:
        raise Bug('no registry operations among the entry points')
    return out


def event_ty(ctx):
    return ctx.param_ty('event_is_priority', 0)


def mode_ty(ctx):
    return ctx.param_ty('src::add_with_mode', 3)


def modes(ctx):
    """name -> discriminant"""
    t = mode_ty(ctx)
    ds = ctx.T.discrs(t)
    return {v['n']: d for v, d in zip(ctx.T[t]['v'], ds)}


def key_term(ctx, i=2):
    ety = event_ty(ctx)
    k, kty = ctx.field(ety, 'key')
    return ('f', ('s', 'in:a%d' % i, ety, 0, 0), None, k, kty)


def bool_term(ctx, name, i=2):
    ety = event_ty(ctx)
    k, kty = ctx.field(ety, name)
    return ('f', ('s', 'in:a%d' % i, ety, 0, 0), None, k, kty)


def mode_term(ctx, i=3):
    t = mode_ty(ctx)
    return ('discr', ('s', 'in:a%d' % i, t, 0, 0), t)


def feasible(F, extra):
    """facts extended with equalities between terms and constants; None if contradictory"""
    for t, v in extra.items():
        if F is None:
            return None
        F = assume(eq0(add(t, C(-v))), 1, F)
    return F


def key_reserved(ctx, F):
    """True / False / None: does the path hold for the reserved key only / never / both"""
    k = key_term(ctx)
    d = decide(eq0(add(k, C(-MAX))), F)
    return None if d is None else bool(d)


def event_variants(ctx):
    """Events a user can build: constructor, then the extra-interest setters.
    -> [(priority, interrupt, facts, event value)] over symbolic key / readable / writable"""
    out = []
    base = ctx.run('event_new', names=['key', 'readable', 'writable'])
    ety = event_ty(ctx)
    ref = ('O', 'ev', ety)
    for F, v, _ in base:
        for pr, it in itertools.product((0, 1), (0, 1)):
            cur = [(F, v)]
            for root, b in (('event_set_priority', pr), ('event_set_interrupt', it)):
                nxt = []
                for F1, v1 in cur:
                    for F2, _, st in ctx.run(root, values={0: ('r', ref, (), None), 1: C(b)},
                                             mem={ref: v1}, facts=F1):
                        nxt.append((F2, st.mem.get(ref, v1)))
                cur = nxt
            for F1, v1 in cur:
                out.append((pr, it, F1, v1))
    return out


def inputs(ctx, names=('key', 'readable', 'writable')):
    body = ctx.prog.insts[ctx.prog.root('event_new')]['body']
    tys = body['l'][1:4]
    return tuple(('s', 'in:' + n, t, 0, 0) for n, t in zip(names, tys))


# ---- epoll ------------------------------------------------------------------------------

SYS = {'add': 'epoll_add', 'modify': 'epoll_mod', 'delete': 'epoll_del'}
REGCALLS = ('epoll_add', 'epoll_mod', 'epoll_del')


def fd_param(t):
    """the source parameter's descriptor, unmodified"""
    return param_root(t) == 'a1'


def check_calls(ctx, prop):
    """Typestate over every path of every registry operation (epoll family)."""
    rep = ctx.rep
    for root, op, m in ops(ctx):
        g = ctx.graph(root)
        want = SYS[op]

        def step(fl, q, e):
            if e.k == 'sys':
                if e.name in REGCALLS:
                    rep.ob('registry call sites on paths')
                    if prop == 'P15':
                        if e.name != want:
                            fl.bad('wrong-call', e, '%s performs %s instead of %s' % (op, e.name, want))
                        if e.ep is None or e.ep != ('fd', 'poller:epoll', 0, 0):
                            fl.bad('wrong-instance', e, '%s is not directed at the poller\'s epoll instance' % e.name)
                        if not fd_param(e.fd):
                            fl.bad('wrong-source', e, '%s is applied to %s instead of the given source' % (
                                e.name, show_term(e.fd)))
                        if q[0] == 'ok':
                            fl.bad('twice', e, 'a second registry call after one succeeded')
                    return ('ok', None, True) if e.out == 'ok' else ('err', e.errno, q[2])
                if prop == 'P15':
                    if e.name in ('close', 'setfl', 'setfd', 'epoll_create', 'timerfd_settime', 'kwait', 'read', 'write'):
                        fl.bad('side-effect', e, '%s also performs %s' % (op, e.name))
                return q
            if e.k == 'return':
                ok = is_ok(e.value)
                if ok is None:
                    raise Bug('%s: result is neither Ok nor Err' % root)
                rep.ob('return paths')
                if ok and q[0] != 'ok' and prop == 'P15':
                    fl.bad('ok-without-effect', e, '%s returns Ok but the kernel %s' % (
                        op, 'refused it' if q[0] == 'err' else 'was never asked'))
                if ok and q[0] == 'err' and prop == 'P09':
                    fl.bad('error-dropped', e, 'the kernel\'s error is dropped and Ok returned')
                if not ok:
                    er = err_of(e.value)
                    if q[2] and prop in ('P16', 'P15'):
                        fl.bad('err-after-effect', e, '%s returns an error although the kernel accepted a change' % op)
                    if q[0] == 'err' and prop == 'P09':
                        rep.ob('failing paths')
                        if not (er and er[0] == 'ioe' and er[2] == q[1]):
                            fl.bad('wrong-error', e, 'the error returned is not the one the kernel reported')
                    if q[0] is None and prop in ('P03', 'P15'):
                        r = key_reserved(ctx, e.facts) if op != 'delete' else False
                        if r is not True:
                            fl.bad('rejected', e, '%s fails without asking the kernel for a key that is not reserved' % op)
                if prop == 'P03' and op != 'delete':
                    r = key_reserved(ctx, e.facts)
                    rep.ob('paths classified by key')
                    if r is True or r is None:
                        # the path is taken by the reserved key
                        if ok or q[0] is not None:
                            fl.bad('reserved-accepted', e, '%s lets the reserved key through' % op)
                        elif err_kind(ctx, err_of(e.value)) != 'InvalidInput':
                            fl.bad('reserved-kind', e, 'the reserved key is rejected with a kind other than InvalidInput')
                return q
            if e.k in ('lock', 'trylock', 'cvwait', 'kwait') and prop == 'P03' and op != 'delete':
                if key_reserved(ctx, e.facts) is not False and e.k == 'cvwait':
                    fl.bad('reserved-blocks', e, 'the reserved key is examined only after blocking')
            return q
        flow(ctx, root, g, (None, None, False), step)


def p03(ctx):
    if family(ctx) == 'epoll':
        check_calls(ctx, 'P03')
    else:
        import p_pollreg
        p_pollreg.p03(ctx)
    ctx.rep.require('paths classified by key', 4)


def p09(ctx):
    check_errors(ctx)
    ctx.rep.require('failing paths', 2)


def p15(ctx):
    if family(ctx) == 'epoll':
        check_calls(ctx, 'P15')
        ctx.rep.require('registry call sites on paths', 3)
    else:
        import p_pollreg
        p_pollreg.p15(ctx)


def p16(ctx):
    if family(ctx) == 'epoll':
        check_calls(ctx, 'P16')
    else:
        import p_pollreg
        p_pollreg.p16(ctx)
    ctx.rep.require('return paths', 3)


EIN, EPRI, EOUT, EERR, EHUP = 0x1, 0x2, 0x4, 0x8, 0x10
ERDNORM, ERDBAND, EWRNORM, EWRBAND, EMSG, ERDHUP = 0x40, 0x80, 0x100, 0x200, 0x400, 0x2000
EEXCL, EWAKE, EONESHOT, EET = 1 << 28, 1 << 29, 1 << 30, 1 << 31
READDATA = EIN | ERDNORM | ERDBAND | EMSG | ERDHUP
WRITEDATA = EOUT | EWRNORM | EWRBAND


def interest_errors(f, r, w, p):
    """What is wrong with a kernel interest set for the requested interest, or None"""
    if r and not f & (EIN | ERDNORM):
        return 'readability is requested but not in the interest set'
    if not r and f & READDATA:
        return 'readability is in the interest set without being requested'
    if w and not f & (EOUT | EWRNORM):
        return 'writability is requested but not in the interest set'
    if not w and f & WRITEDATA:
        return 'writability is in the interest set without being requested'
    if p and not f & EPRI:
        return 'priority events are requested but not in the interest set'
    if not p and not r and f & EPRI:
        return 'priority events are in the interest set without being requested'
    return None


def trigger_errors(f, mode):
    want = {'Oneshot': EONESHOT, 'Level': 0, 'Edge': EET, 'EdgeOneshot': EONESHOT | EET}.get(mode)
    if want is None:
        raise Bug('unknown delivery mode %s' % mode)
    got = f & (EONESHOT | EET)
    if f & (EEXCL | EWAKE):
        return 'the registration uses an exclusive or wake-up mode'
    if got != want:
        return 'mode %s is registered with trigger bits 0x%x instead of 0x%x' % (mode, got, want)
    return None


def registrations(ctx, mode_param):
    """Interest sets handed to the kernel by add / modify, for every event a user can build.
    -> [(root, op, prio, intr, call event)]"""
    variants = event_variants(ctx)
    for root, op, m in ops(ctx, ('add', 'modify'), mode_param):
        for pr, it, F, v in variants:
            I, inits = ctx.world.start(root, None, {2: v})
            for _, st in inits:
                st.F.update(F)
            g = I.explore(inits)
            ctx.note(root, g, I)
            yield root, op, pr, it, g


def table(ctx, prop):
    rep = ctx.rep
    kt, rt, wt = inputs(ctx)
    md = modes(ctx)
    for with_mode in (False, True):
        for root, op, pr, it, g in registrations(ctx, with_mode):
            mt = mode_term(ctx)
            covered = set()

            def step(fl, q, e):
                if e.k == 'sys' and e.name in REGCALLS and e.name != 'epoll_del':
                    for r, w in itertools.product((0, 1), (0, 1)):
                        for mn, d in (md.items() if with_mode else [('Oneshot', None)]):
                            env = {kt: 7, rt: r, wt: w}
                            if d is not None:
                                env[mt] = d
                            if not consistent(e.facts, env):
                                continue
                            f = tv(e.flags, env)
                            rep.ob('rows of the interest table')
                            covered.add((r, w, mn))
                            msg = interest_errors(f, r, w, pr) if prop == 'P10' else trigger_errors(f, mn)
                            if msg:
                                fl.bad('table:%s' % msg.split(' is ')[0].split(' are ')[0].replace(' ', '-'), e,
                                       '%s (readable=%d writable=%d priority=%d interrupt=%d mode=%s: flags 0x%x)' % (
                                           msg, r, w, pr, it, mn, f))
                    if prop == 'P12' and e.key != kt:
                        fl.bad('key-changed', e, 'the key handed to the kernel is %s, not the event\'s key' % show_term(e.key))
                    elif prop == 'P12':
                        rep.ob('keys handed to the kernel')
                    return 1
                if e.k == 'return' and not q and is_ok(e.value):
                    fl.bad('not-registered', e, '%s succeeds without handing the event to the kernel' % op)
                return q
            flow(ctx, root, g, 0, step)
            if prop in ('P10', 'P13'):
                for r, w in itertools.product((0, 1), (0, 1)):
                    for mn in (md if with_mode else ['Oneshot']):
                        if (r, w, mn) not in covered:
                            rep.bad(ctx.config, root, 'uncovered', op,
                                    'no registration call for readable=%d writable=%d mode=%s' % (r, w, mn))


def p10(ctx):
    if family(ctx) == 'epoll':
        table(ctx, 'P10')
    else:
        import p_pollreg
        p_pollreg.p10(ctx)
    ctx.rep.require('rows of the interest table', 16)


def p13(ctx):
    if family(ctx) == 'epoll':
        table(ctx, 'P13')
    else:
        import p_events
        p_events.p13(ctx)
    ctx.rep.require('rows of the interest table', 16)


def p14(ctx):
    """supports_* tells the truth; unsupported modes are rejected before anything happens."""
    rep = ctx.rep
    sup = {}
    for nm in ('supports_level', 'supports_edge'):
        vals = set()
        for F, v, _ in ctx.run(nm):
            if v[0] != 'c':
                raise Bug('%s is not a constant' % nm)
            vals.add(v[1])
            rep.ob('support queries')
        if len(vals) != 1:
            rep.bad(ctx.config, nm, 'varies', nm, '%s does not have a single answer' % nm)
        sup[nm] = vals == {1}
    supported = {'Oneshot': True, 'Level': sup['supports_level'], 'Edge': sup['supports_edge'],
                 'EdgeOneshot': sup['supports_edge']}
    md = modes(ctx)
    mt = mode_term(ctx)
    for root, op, m in ops(ctx, ('add', 'modify'), True):
        g = ctx.graph(root)
        okmodes = set()

        def step(fl, q, e):
            if e.k == 'sys' and e.name in REGCALLS or e.k == 'coll' and e.op in (
                    'insert', 'push', 'remove', 'swap_remove'):
                q = q | {'effect'}
            if e.k == 'sys' and e.out == 'err' and e.name in REGCALLS:
                q = q | {'kernel-error'}
            if e.k == 'panic':
                return None
            if e.k == 'return':
                ok = is_ok(e.value)
                kind = err_kind(ctx, err_of(e.value))
                for mn, d in md.items():
                    if not consistent(e.facts, {mt: d}) or feasible(e.facts, {mt: d}) is None:
                        continue
                    rep.ob('mode / path pairs')
                    if ok:
                        okmodes.add(mn)
                    if ok and not supported[mn]:
                        fl.bad('accepts:' + mn, e, '%s accepts mode %s although %s says it is not supported' % (
                            op, mn, 'supports_level' if mn == 'Level' else 'supports_edge'))
                    if not ok and kind == 'Unsupported' and supported[mn]:
                        fl.bad('rejects:' + mn, e, '%s rejects mode %s although it is supported' % (op, mn))
                    if not ok and 'kernel-error' not in q and kind is None and not supported[mn]:
                        raise Bug('%s: kind of the error for mode %s is unknown' % (root, mn))
                    if not ok and not supported[mn] and 'kernel-error' in q:
                        pass
            return q
        flow(ctx, root, g, frozenset(), step)
        for mn, s in supported.items():
            if s and mn not in okmodes:
                rep.bad(ctx.config, root, 'never:' + mn, op, '%s never succeeds for supported mode %s' % (op, mn))
    rep.require('mode / path pairs', 8)


def same(a, b):
    """the same primitive result, whatever its age"""
    return a is not None and b is not None and a[0] == b[0] == 's' and a[:4] == b[:4]


# calls whose failure an operation may recover from, with the call that replaces them
OPTIONAL = {'eventfd': ('pipe',), 'pipe': ('pipe',), 'timerfd_create': None,
            'timerfd_settime': ('timerfd_settime', 'kwait')}
MUST = ('epoll_create', 'epoll_add', 'epoll_mod', 'epoll_del', 'kwait', 'getfl', 'setfl', 'getfd',
        'setfd', 'dup')


def check_errors(ctx):
    rep = ctx.rep
    roots = [r for r, _, _ in ops(ctx)] + ['wait', 'poller_new']
    for root in roots:
        g = ctx.graph(root)

        def step(fl, q, e):
            if e.k == 'sys' and e.out == 'err' and e.name not in ('read', 'write'):
                rep.ob('failing paths')
                return q + ((e.name, e.errno),) if (e.name, e.errno) not in q else q
            if e.k == 'sys' and e.out == 'ok' and q:
                # a fallback that succeeded discharges the failure it replaces
                # (a wait without a limit of its own does not replace arming the timer)
                if e.name == 'kwait' and e.timeout == C(-1):
                    return q
                return tuple(x for x in q if e.name not in (OPTIONAL.get(x[0]) or ()))
            if e.k == 'return':
                v = e.value
                ok = is_ok(v)
                if ok:
                    for nm, _ in q:
                        if nm in MUST or OPTIONAL.get(nm, ()) is not None:
                            fl.bad('dropped:' + nm, e, 'success is returned although %s failed' % nm)
                elif ok is False and q:
                    er = err_of(v)
                    if er is None or er[0] != 'ioe' or not any(
                            isinstance(er[2], tuple) and same(er[2], n) for _, n in q):
                        fl.bad('replaced:' + q[-1][0], e, 'the error returned is not the one %s reported' % q[-1][0])
                return None
            return q
        flow(ctx, root, g, (), step)


def p17(ctx):
    if family(ctx) != 'epoll':
        import p_pollreg
        p_pollreg.p17(ctx)
