"""wait: timeouts, interruption, exclusivity."""
from rules import *
from dom import *
import lp
import p_registry as R

MS = 1000000
I32MAX = (1 << 31) - 1
TE = ('ns', ('s', 't_entry', None, 0, 0))


def _event(T, I, st, e):
    """Ghost clock: te = moment of the call, tl = last reading, rem = the timeout less the time
    seen to pass while blocked, tb = last reading before blocking."""
    st.mem.setdefault(('G', 'te'), TE)
    if st.mem[('G', 'te')] == interp.LOST:
        if e.k == 'sys' and e['name'] in ('kwait', 'timerfd_settime'):
            raise interp.Lost()
        return
    st.mem.setdefault(('G', 'rem'), T)
    if e.k == 'now':
        st.F[('ge', sub(e['value'], TE))] = 1
        st.mem[('G', 'tl')] = e['value']
        tb = st.mem.pop(('G', 'tb'), None)
        if tb is not None and T is not None:
            w = ('ns', I.fresh(st, 'rem', None))
            tb, rem = tb, st.mem[('G', 'rem')]
            left = sub(rem, sub(e['value'], tb))
            st.F[('ge', sub(w, left))] = 1
            st.F[('ge', sub(left, w))] = 1
            st.mem[('G', 'rem')] = w
    if e.k == 'sys' and e['name'] in ('kwait', 'timerfd_settime'):
        e['tl'] = st.mem.get(('G', 'tl'), TE)
        e['rem'] = st.mem[('G', 'rem')]
    if e.k == 'cvwait' or e.k == 'sys' and e['name'] == 'kwait':
        st.mem.setdefault(('G', 'tb'), st.mem.get(('G', 'tl'), TE))



CLOCK = frozenset(['rustix::event::poll::poll', 'rustix::event::epoll::wait'])


def timed(ctx, rem=True):
    _, T = timeout_terms(ctx)
    ev = lambda I, st, e: _event(T if rem else None, I, st, e)
    try:
        return ctx.graph('wait', {'join': CLOCK, 'event': ev}, 'time%d' % rem)
    except interp.Lost:
        return ctx.graph('wait', {'join': frozenset(), 'event': ev}, 'full%d' % rem)


def timeout_terms(ctx):
    """(discriminant of the timeout parameter, nanoseconds when it is Some)"""
    body = ctx.prog.insts[ctx.prog.root('wait')]['body']
    ty = body['l'][3]
    s = ('s', 'in:a2', ty, 0, 0)
    dty = ctx.T[ty]['v'][1]['f'][0][1]
    return ('discr', s, ty), ('ns', ('f', s, 1, 0, dty))


def cases(ctx, F):
    """[(is Some, facts)] for the timeout parameter on this path"""
    d, _ = timeout_terms(ctx)
    out = []
    for v in (0, 1):
        r = decide(eq0(add(d, C(-v))), F)
        if r == 1:
            return [(bool(v), F)]
        if r is None:
            F2 = assume(eq0(add(d, C(-v))), 1, F)
            if F2 is not None:
                out.append((bool(v), F2))
    return out


def proves(l, F):
    return prove_ge0(l, F, 2) or lp.entails(l, F) or lp.infeasible(F, l)


def refutes(l, F):
    return decide(ge0(l), F) == 0


def has_timer(ctx, label):
    return 'timer' in label.split('+')


def timer_ns(e):
    return e.initial


def p_time(ctx, prop):
    rep = ctx.rep
    g = timed(ctx, prop == 'P07')
    _, T = timeout_terms(ctx)

    def step(fl, q, e):
        # q: label, timer state, stale reading, overflowed deadline
        label, timer, stale, over = q
        if e.k == 'entry':
            return (e.label, timer, stale, over)
        if e.k == 'now':
            return (label, timer, None, over)
        if e.k == 'deadline' and e.out == 'overflow':
            return (label, timer, stale, True)
        if e.k == 'cvwait':
            return (label, timer, 'waiting for a registration operation', over)
        if e.k == 'sleep':
            if prop == 'P07':
                fl.bad('sleeps', e, 'sleeps where neither the kernel nor a notification can end it')
            return q
        if e.k == 'sys' and e.name == 'timerfd_settime':
            if e.out == 'err':
                return (label, ('unknown',), stale, over)
            if prop == 'P06' and e.interval != C(0) and not proves(neg(e.interval), e.facts):
                fl.bad('interval', e, 'the timer is armed to fire repeatedly')
            c, parts = flag_parts(e.flags)
            if (c | sum(m & 1 for m in parts.values())) & 1:
                # TFD_TIMER_ABSTIME: the time left is taken for a reading of the clock
                fl.bad('absolute', e, 'the time left is handed to the timer as an absolute time')
            return (label, ('set', timer_ns(e), e.tl, e.rem, False), stale, over)
        if e.k == 'sys' and e.name == 'epoll_mod' and e.out == 'ok' and e.fd[1].endswith(':timer'):
            if timer and timer[0] == 'set' and flag_parts(e.flags)[0] & R.EIN:
                return (label, timer[:4] + (True,), stale, over)
        if e.k == 'sys' and e.name == 'kwait':
            for some, F in cases(ctx, e.facts):
                if some:
                    check_some(fl, e, F, label, timer, stale, over)
                elif prop == 'P06':
                    check_none(fl, e, F, label, timer)
            return (label, timer, 'blocking in the kernel', over)
        if e.k == 'return':
            return None
        return q

    def check_none(fl, e, F, label, timer):
        rep.ob('waits without a timeout')
        if not refutes(e.timeout, F):
            if proves(e.timeout, F):
                fl.bad('none-bounded', e, 'wait(None) limits the kernel wait to %s ms' % show_term(e.timeout))
            else:
                undecided(fl, 'none-bounded', e, 'wait(None) may limit the kernel wait to %s ms' % show_term(e.timeout))
        if has_timer(ctx, label):
            if not timer or timer[0] != 'set':
                fl.bad('none-stale-timer', e, 'wait(None) leaves the timer of an earlier call armed')
            elif decide(eq0(timer[1]), F) != 1:
                fl.bad('none-timer', e, 'wait(None) arms the timer with %s ns' % show_term(timer[1]))

    def check_some(fl, e, F, label, timer, stale, over):
        rep.ob('waits with a timeout')
        ms = e.timeout
        # nanoseconds from the last clock reading to the earliest permitted return
        if prop == 'P06':
            need = sub(add(TE, T), e.tl)
            if not never_early(scale(ms, MS), need, F, ms):
                early(fl, e, F, scale(ms, MS), need, 'early', 'the kernel wait of %s ms' % show_term(ms))
            if has_timer(ctx, label):
                if not timer or timer[0] != 'set':
                    if not proves(neg(need), F):
                        fl.bad('stale-timer', e, 'the timer armed by an earlier call can end this one early')
                else:
                    v = timer[1]
                    need = sub(add(TE, T), timer[2])
                    if decide(eq0(v), F) != 1 and not proves(sub(v, need), F):
                        early(fl, e, F, v, need, 'timer-early', 'the timer of %s ns' % show_term(v))
            return
        # P07: the call ends by the deadline, up to the kernel's granularity of one millisecond
        if over:
            return
        if stale and not decide(eq0(ms), F) == 1:
            fl.bad('not-recomputed', e, 'the kernel wait is not computed from the time left after %s' % stale)
            return
        left = e.rem
        if proves(ms, F) and (proves(neg(ms), F) or proves(sub(add(left, C(MS - 1)), scale(ms, MS)), F)):
            rep.ob('kernel waits bounded by the deadline')
            return
        if timer and timer[0] == 'set' and timer[4]:
            v = timer[1]
            l2 = timer[3]
            if proves(add(v, C(-1)), F) and proves(sub(l2, v), F):
                rep.ob('kernel waits bounded by the timer')
                return
        why = 'unbounded' if refutes(ms, F) else 'not bounded by the remaining time'
        if certain(F, ms, sub(add(left, C(MS - 1)), scale(ms, MS)), timer):
            fl.bad('late', e, 'with a timeout the kernel wait (%s ms) is %s' % (show_term(ms), why))
        else:
            undecided(fl, 'late', e, 'the kernel wait (%s ms) could not be related to the deadline' % show_term(ms))

    def never_early(got, need, F, ms):
        # a negative limit is none
        F = assume(ge0(ms), 1, F)
        if F is None or proves(sub(got, need), F):
            return True
        # poll(2) cannot express more than i32::MAX milliseconds
        return decide(eq0(add(ms, C(-I32MAX))), F) == 1

    def early(fl, e, F, got, need, rule, what):
        fl.bad(rule, e, '%s can end before the requested timeout (%s needed)' % (what, show_term(need)))

    def certain(F, ms, slack, timer):
        return True

    def undecided(fl, rule, e, msg):
        fl.bad(rule, e, msg)

    flow(ctx, 'wait', g, ('', None, None, False), step)
    rep.require('waits with a timeout', 2)


def p06(ctx):
    p_time(ctx, 'P06')


def p07(ctx):
    p_time(ctx, 'P07')


def gates(ctx):
    """atomics of the poller that notify sets"""
    out = set()
    for e in ctx.graph('notify').edges:
        for x in e.ev:
            if x.k == 'atomic' and x.new is not None and x.op != 'load':
                out.add(x.place)
    return out


def p08(ctx):
    """An interrupted kernel wait is resumed."""
    rep = ctx.rep
    gs = gates(ctx)
    g = ctx.graph('wait')

    def step(fl, q, e):
        if e.k == 'sys' and e.name == 'kwait':
            if e.out == 'intr':
                rep.ob('interrupted kernel waits')
                return 'intr'
            return 'done'
        if q == 'intr':
            if e.k == 'sys' and e.out == 'err':
                return 'other'
            if e.k == 'atomic' and e.place in gs and e.old == C(1):
                return 'notified'
        if e.k == 'return':
            rep.ob('return paths')
            ok = is_ok(e.value)
            if q == 'intr' and ok:
                fl.bad('gives-up', e, 'an interrupted wait returns Ok without resuming')
            if ok is False:
                er = err_of(e.value)
                if q == 'intr' or er and er[0] == 'ioe' and interrupted(ctx, er):
                    fl.bad('surfaced', e, 'an interrupted kernel wait surfaces as an error')
            return None
        return q
    flow(ctx, 'wait', g, 'start', step)
    rep.require('interrupted kernel waits')


def interrupted(ctx, er):
    return err_kind(ctx, er) == 'Interrupted' or er[2] == C(models.EINTR_ERRNO)


def p20(ctx):
    """One thread at a time waits in the kernel; others return at once with no events."""
    rep = ctx.rep
    g = ctx.graph('wait')
    # the locks taken without blocking
    tries = {x.place for e in g.edges for x in e.ev if x.k == 'trylock'}

    def step(fl, q, e):
        held, busy = q
        if e.k == 'trylock':
            if e.place[0][0] == 'S':
                fl.bad('global', e, 'all pollers share the lock %s: waiting on one keeps others from waiting' % e.place[0][1])
            if e.out == 'ok':
                return (held | {e.place}, busy)
            if e.out == 'busy':
                rep.ob('calls that find another waiter')
                return (held, True)
            return q
        if e.k == 'unlock':
            return (held - {e.place} if e.place is not None else frozenset(), busy)
        if e.k == 'lock' and e.place in tries:
            fl.bad('blocks', e, 'waits for the lock that another waiter holds')
        if e.k == 'sys' and e.name == 'kwait':
            rep.ob('kernel waits')
            if not held & tries:
                fl.bad('unserialised', e, 'the kernel wait is entered without holding the waiters\' lock')
        if busy and (e.k == 'cvwait' or e.k == 'sys' and e.name in ('kwait', 'read', 'timerfd_settime', 'epoll_mod') or
                     e.k == 'lock'):
            fl.bad('busy-acts', e, 'a call that found another waiter goes on to %s' % (e.name or e.k))
        if busy and e.k == 'atomic' and e.op != 'load':
            fl.bad('busy-consumes', e, 'a call that found another waiter changes %s' % e.var)
        if busy and e.k == 'coll' and e.op in ('push', 'insert', 'extend', 'extend_from_slice'):
            fl.bad('busy-events', e, 'a call that found another waiter stores events')
        if e.k == 'return':
            if busy and not (is_ok(e.value) and e.value[2][0] == C(0)):
                fl.bad('busy-result', e, 'a call that found another waiter does not return Ok(0)')
            return None
        return q
    flow(ctx, 'wait', g, (frozenset(), False), step)
    if not tries:
        # no non-blocking acquisition at all: a second caller would wait its turn
        for e in g.edges:
            for x in e.ev:
                if x.k == 'sys' and x.name == 'kwait':
                    rep.bad(ctx.config, 'wait', 'no-try', 'wait', 'wait never tests whether another thread is waiting')
                    return
    rep.require('calls that find another waiter')
    rep.require('kernel waits', 2)
