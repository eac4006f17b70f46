"""Models of the functions whose bodies are not analysed: system calls (rustix), the standard
library's synchronisation, time, collection and descriptor types, and tracing (disabled).

A model returns a list of (state, value[, events]); value 'panic' marks a panicking outcome.
Returning None falls back to the function's own body.
"""
import re
import dom
from dom import *
from interp import Ev, Bug, hv, MAPS

EINTR_ERRNO = 65532  # rustix Errno::INTR
K_INTERRUPTED = 'Interrupted'

EXACT = {}
PATTERNS = []


def model(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco


def pattern(rx):
    def deco(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return deco


def lookup(I, inst):
    d = inst['d']
    f = EXACT.get(d)
    if f is not None:
        return f
    for rx, f in PATTERNS:
        if rx.search(d):
            return f
    if inst['body'] is None and re.search(r'::[A-Z]\w*$', inst['d']):
        return constructor
    return None


def constructor(I, st, inst, vals, dty, sp, tys):
    """A tuple struct or tuple variant used as a function."""
    t = I.T[dty] if dty is not None else {}
    if t.get('k') != 'adt':
        return None
    name = inst['d'].rsplit('::', 1)[1]
    for i, v in enumerate(t['v']):
        if len(v['f']) == len(vals) and (v['n'] == name):
            return [(st, ('a', i if t['ak'] == 'enum' else None, tuple(vals)))]
    return None


def ok(v):
    return ('a', 0, (v,))


def err(v):
    return ('a', 1, (v,))


NONE = ('a', 0, ())


def some(v):
    return ('a', 1, (v,))


def arg_ty(T, ty, *idx):
    """type argument of an ADT type"""
    t = T[ty]
    a = t['a'][idx[0]]
    return arg_ty(T, a, *idx[1:]) if len(idx) > 1 else a


def pointee(I, st, v, ty=None):
    """Follow references down to the value designated."""
    for _ in range(6):
        if v[0] == 'r':
            v = I.read(st, v[1], v[2])
        else:
            return v
    return v


def fdval(I, st, v):
    v = pointee(I, st, v)
    while v[0] == 'a' and v[1] is None and len(v[2]) == 1:
        v = pointee(I, st, v[2][0])
    return v


def flagval(I, st, v):
    """bit set held in a bitflags newtype"""
    n = I.num(v)
    if n is None and v[0] == 'union':
        n = I.num(v[2])
    return n if n is not None else v


def path_of(I, root, proj):
    """Stable description of a place inside the analysed object."""
    if root[0] == 'O':
        base = root[1] if isinstance(root[1], str) else 'obj'
        if isinstance(root[1], tuple) and root[1] and root[1][0] == 'mxc':
            base = path_of(I, root[1][1], root[1][2]) + '.locked'
    elif root[0] == 'L':
        base = 'local'
    else:
        base = root[0]
    s = base
    ty = root[2] if root[0] == 'O' else None
    for e in proj:
        if e[0] == 'f':
            nm = str(e[2])
            if ty is not None and I.T.kind(ty) == 'adt':
                v = I.T[ty]['v'][e[1] or 0]['f']
                nm = v[e[2]][0] if e[2] < len(v) else nm
            s += '.' + nm
            ty = e[3]
        elif e[0] == 'ix':
            s += '[]'
            ty = e[2]
    return s


def ty_by_path(I, p):
    for i, t in enumerate(I.T.t):
        if t['k'] == 'adt' and t['p'] == p:
            return i
    return None


def errno_ty(I, dty):
    """type of the u16 inside the Err payload of Result<_, Errno>"""
    e = I.T.field(dty, 1, 0)
    if I.T.kind(e) == 'adt' and I.T.path(e).endswith('Errno'):
        return e
    return e


def fresh_errno(I, st, name, dty):
    e = errno_ty(I, dty)
    f = I.T.field(e, None, 0)
    if I.T.kind(f) != 'int':
        while I.T.kind(f) == 'adt':
            f = I.T.field(f, None, 0)
    a = I.fresh(st, 'errno:' + name, f)
    return ('a', None, (a,)), a


def fork(I, st, n):
    return [st] + [st.copy() for _ in range(n - 1)]


# ---- system calls -------------------------------------------------------------------

def sysev(I, st, sp, name, **kw):
    return I.event(st, sp, k='sys', name=name, **kw)


def simple_sys(name, okval=None, argf=None, split=False, pre=None):
    def m(I, st, inst, vals, dty, sp, tys):
        a = argf(I, st, vals) if argf else {}
        n = 3 if split else 2
        sts = fork(I, st, n)
        if pre:
            for s in sts:
                pre(I, s, vals)
        s = sts[0]
        v = okval(I, s, vals, dty) if okval else UNIT
        outs = [(s, ok(v), [sysev(I, s, sp, name, out='ok', value=v, **a)])]
        s = sts[1]
        e, at = fresh_errno(I, s, name, dty)
        s.F[('ne', at)] = frozenset([EINTR_ERRNO])
        s.F[('b', at)] = (61441, 65535)
        outs.append((s, err(e), [sysev(I, s, sp, name, out='err', errno=at, **a)]))
        if split:
            s = sts[2]
            outs.append((s, err(('a', None, (C(EINTR_ERRNO),))),
                         [sysev(I, s, sp, name, out='intr', **a)]))
        return outs
    return m


def reg_args(I, st, v):
    data = v[2]
    key = data
    while key[0] in ('union', 'a'):
        key = key[2] if key[0] == 'union' else key[2][0]
    return dict(ep=fdval(I, st, v[0]), fd=fdval(I, st, v[1]), key=I.simp(st, key),
                flags=I.simp(st, flagval(I, st, v[3])))


EXACT['rustix::event::epoll::create'] = simple_sys(
    'epoll_create', lambda I, s, v, t: I.fresh_fd(s, 'epoll'),
    lambda I, s, v: dict(flags=flagval(I, s, v[0])))
EXACT['rustix::event::epoll::add'] = simple_sys('epoll_add', argf=reg_args)
EXACT['rustix::event::epoll::modify'] = simple_sys('epoll_mod', argf=reg_args)
EXACT['rustix::event::epoll::delete'] = simple_sys(
    'epoll_del', argf=lambda I, s, v: dict(ep=fdval(I, s, v[0]), fd=fdval(I, s, v[1])))
EXACT['rustix::event::eventfd::eventfd'] = simple_sys(
    'eventfd', lambda I, s, v, t: I.fresh_fd(s, 'eventfd'),
    lambda I, s, v: dict(init=v[0], flags=flagval(I, s, v[1])))
EXACT['rustix::time::timerfd::timerfd_create'] = simple_sys(
    'timerfd_create', lambda I, s, v, t: I.fresh_fd(s, 'timer'),
    lambda I, s, v: dict(clock=v[0], flags=flagval(I, s, v[1])))


def spec_args(I, st, v):
    x = pointee(I, st, v[2])
    # itimerspec { it_interval, it_value }, each { tv_sec, tv_nsec }
    def ts(y):
        if y[0] == 'a' and len(y[2]) == 2:
            a, b = I.num(y[2][0]), I.num(y[2][1])
            if a is not None and b is not None:
                return add(scale(I.simp(st, a), 10**9), I.simp(st, b)), b
        return None, None
    iv = nv = (None, None)
    if x[0] == 'a' and len(x[2]) == 2:
        iv, nv = ts(x[2][0]), ts(x[2][1])
    return dict(fd=fdval(I, st, v[0]), flags=flagval(I, st, v[1]), interval=iv[0], initial=nv[0], nsec=nv[1])


EXACT['rustix::time::timerfd::timerfd_settime'] = simple_sys(
    'timerfd_settime', lambda I, s, v, t: I.fresh(s, 'oldspec', I.T.field(t, 0, 0)), spec_args)


def pipe_ok(I, s, v, t):
    return ('a', None, (I.fresh_fd(s, 'pipe.r'), I.fresh_fd(s, 'pipe.w')))


EXACT['rustix::pipe::pipe'] = simple_sys('pipe', pipe_ok, lambda I, s, v: dict(flags=C(0)))
EXACT['rustix::pipe::pipe_with'] = simple_sys('pipe', pipe_ok, lambda I, s, v: dict(flags=flagval(I, s, v[0])))


def sym_flags(I, s, v, t, name):
    ft = I.T.field(t, 0, 0)
    return I.canon(I.fresh(s, name, ft), ft)


EXACT['rustix::fs::fcntl::fcntl_getfl'] = simple_sys(
    'getfl', lambda I, s, v, t: flag_struct(I, s, t, ('op', 'flags:getfl', None, (fdval(I, s, v[0]),))),
    lambda I, s, v: dict(fd=fdval(I, s, v[0])))
EXACT['rustix::io::fcntl::fcntl_getfd'] = simple_sys(
    'getfd', lambda I, s, v, t: flag_struct(I, s, t, ('op', 'flags:getfd', None, (fdval(I, s, v[0]),))),
    lambda I, s, v: dict(fd=fdval(I, s, v[0])))


def flag_struct(I, st, dty, term):
    """Flags newtype around an unknown bit set of the right width."""
    ft = I.T.field(dty, 0, 0)
    wraps = 0
    t = ft
    while I.T.kind(t) == 'adt':
        t = I.T.field(t, None, 0)
        wraps += 1
    v = (term[0], term[1], t, term[3])
    for _ in range(wraps):
        v = ('a', None, (v,))
    return v


EXACT['rustix::fs::fcntl::fcntl_setfl'] = simple_sys(
    'setfl', argf=lambda I, s, v: dict(fd=fdval(I, s, v[0]), flags=flagval(I, s, v[1])))
EXACT['rustix::io::fcntl::fcntl_setfd'] = simple_sys(
    'setfd', argf=lambda I, s, v: dict(fd=fdval(I, s, v[0]), flags=flagval(I, s, v[1])))


@model('rustix::io::fcntl::fcntl_dupfd_cloexec', 'rustix::io::dup::dup')
def dup(I, st, inst, vals, dty, sp, tys):
    return simple_sys('dup', lambda I, s, v, t: I.fresh_fd(s, 'dup'),
                      lambda I, s, v: dict(fd=fdval(I, s, v[0])))(I, st, inst, vals, dty, sp, tys)


def buflen(I, st, v, ty):
    if v[0] == 'r':
        if v[3] is not None and isinstance(v[3], tuple) and v[3][0] != 'vt':
            return v[3]
        x = I.read(st, v[1], v[2])
        if x[0] == 'rep' and x[2] is not None:
            return C(x[2])
        if x[0] == 'a':
            return C(len(x[2]))
        if ty is not None and I.T.kind(ty) in ('ref', 'ptr') and I.T.kind(I.T[ty]['to']) == 'array':
            return C(I.T[I.T[ty]['to']]['n'])
    return ('lenof', v)


@model('rustix::io::read_write::read')
def sys_read(I, st, inst, vals, dty, sp, tys):
    fd = fdval(I, st, vals[0])
    n = buflen(I, st, vals[1], tys[1])
    def okv(I, s, v, t):
        a = I.fresh(s, 'read', I.T.field(t, 0, 0))
        hi = n[1] if n[0] == 'c' else INF
        s.F[('b', a)] = (0, hi)
        b = v[1]
        if b[0] == 'r':
            old = I.root_ty(s, b[1])
            I.write(s, b[1], b[2], ('op', 'readbuf', None, (a,)))
        return a
    return simple_sys('read', okv, lambda I, s, v: dict(fd=fd, len=n))(I, st, inst, vals, dty, sp, tys)


@model('rustix::io::read_write::write')
def sys_write(I, st, inst, vals, dty, sp, tys):
    fd = fdval(I, st, vals[0])
    n = buflen(I, st, vals[1], tys[1])
    data = pointee(I, st, vals[1])
    def okv(I, s, v, t):
        a = I.fresh(s, 'write', I.T.field(t, 0, 0))
        if n[0] == 'c':
            s.F[('b', a)] = (0, n[1])
        return a
    return simple_sys('write', okv, lambda I, s, v: dict(fd=fd, len=n, data=data))(
        I, st, inst, vals, dty, sp, tys)


@model('rustix::event::epoll::wait')
def sys_epoll_wait(I, st, inst, vals, dty, sp, tys):
    ep = fdval(I, st, vals[0])
    lst = vals[1]
    to = I.simp(st, vals[2])
    outs = []
    def setlist(s, okk):
        # the list is emptied, and refilled on success
        vty = I.T[tys[1]]['to']
        fty = I.T.field(vty, None, 0)
        cur = I.canon(I.getf(I.read(s, lst[1], lst[2]), vty, None, 0), fty)
        cap = cur[5] if cur[0] == 'coll' else ('capof', cur)
        if okk:
            a = I.fresh(s, 'kernelevents', fty)
            n = ('lenof', a)
            s.F[('ge', sub(cap, n))] = 1
            c = ('coll', 'vec', a, (), n, cap)
        else:
            c = ('coll', 'vec', ('empty',), (), C(0), cap)
        I.write(s, lst[1], lst[2], ('a', None, (c,)))
    a = dict(ep=ep, timeout=to, list=lst)
    sts = fork(I, st, 3)
    setlist(sts[0], True)
    outs.append((sts[0], ok(UNIT), [sysev(I, sts[0], sp, 'kwait', out='ok', **a)]))
    setlist(sts[1], False)
    outs.append((sts[1], err(('a', None, (C(EINTR_ERRNO),))), [sysev(I, sts[1], sp, 'kwait', out='intr', **a)]))
    setlist(sts[2], False)
    e, at = fresh_errno(I, sts[2], 'kwait', dty)
    sts[2].F[('ne', at)] = frozenset([EINTR_ERRNO])
    sts[2].F[('b', at)] = (61441, 65535)
    outs.append((sts[2], err(e), [sysev(I, sts[2], sp, 'kwait', out='err', errno=at, **a)]))
    return outs


@model('rustix::event::poll::poll')
def sys_poll(I, st, inst, vals, dty, sp, tys):
    sl = vals[0]
    to = I.simp(st, vals[1])
    coll = I.read(st, sl[1], sl[2])
    a = dict(timeout=to, set=coll, setref=sl[:3],
             elem0=I.index_get(st, coll, C(0), I.T[I.T[tys[0]]['to']]['e']) if coll[0] in ('coll', 'a') else None)
    sts = fork(I, st, 4)
    outs = []
    n_ty = I.T.field(dty, 0, 0)
    length = I.length(coll, None)

    def stale(b):
        # entries already summarised: which earlier wait last wrote them no longer matters
        while b[0] in ('hv', 'pollres'):
            b = b[1]
        return b

    def res(s, zero):
        c = I.read(s, sl[1], sl[2])
        if c[0] != 'coll':
            raise Bug('poll set is not a vector')
        # descriptors and interest are kept, every revents field is replaced
        b, ov = c[2], c[3]
        if b[0] == 'pollres':
            ov = tuple(e for e in b[2] if not any(e[0] == x[0] for x in ov)) + ov
            b = b[1]
        if b[0] == 'hv':
            b = ('hv', stale(b[1]))
        I.write(s, sl[1], sl[2], ('coll', c[1], ('pollres', b, ov, C(0)), (), c[4], c[5]))
        at = C(0)
        if not zero:
            at = I.fresh(s, 'revents', None)
            c = I.read(s, sl[1], sl[2])
            b, ov = c[2][1], c[2][2]
        base = ('pollres', b, ov, at)
        I.write(s, sl[1], sl[2], ('coll', c[1], base, (), c[4], c[5]))
        return at
    s = sts[0]
    n = I.fresh(s, 'npoll', n_ty)
    res(s, False)
    s.F[('b', n)] = (1, INF)
    s.F[('ge', sub(length, n))] = 1
    outs.append((s, ok(n), [sysev(I, s, sp, 'kwait', out='ok', n=n, **a)]))
    s = sts[1]
    res(s, True)
    outs.append((s, ok(C(0)), [sysev(I, s, sp, 'kwait', out='ok', n=C(0), **a)]))
    s = sts[2]
    outs.append((s, err(('a', None, (C(EINTR_ERRNO),))), [sysev(I, s, sp, 'kwait', out='intr', **a)]))
    s = sts[3]
    e, at = fresh_errno(I, s, 'kwait', dty)
    s.F[('ne', at)] = frozenset([EINTR_ERRNO])
    s.F[('b', at)] = (61441, 65535)
    outs.append((s, err(e), [sysev(I, s, sp, 'kwait', out='err', errno=at, **a)]))
    return outs


@pattern(r'^rustix::backend::.*syscalls::')
def sys_other(I, st, inst, vals, dty, sp, tys):
    name = inst['d'].rsplit('::', 1)[1]
    if dty is not None and I.T.is_enum(dty) and I.T.path(dty) == 'std::result::Result':
        def okv(I, s, v, t):
            ft = I.T.field(t, 0, 0)
            return I.canon(I.fresh(s, name, ft), ft)
        return simple_sys('other:' + name, okv,
                          lambda I, s, v: dict(args=tuple(I.deep(s, x) for x in v)))(I, st, inst, vals, dty, sp, tys)
    return [(st, I.canon(I.fresh(st, name, dty), dty),
             [sysev(I, st, sp, 'other:' + name, out='ok', args=tuple(I.deep(st, x) for x in vals))])]


# ---- descriptors ----------------------------------------------------------------------

@model('<std::os::fd::OwnedFd as std::os::fd::AsFd>::as_fd',
       '<std::os::fd::OwnedFd as std::os::fd::AsRawFd>::as_raw_fd',
       '<std::os::fd::BorrowedFd<\'_> as std::os::fd::AsFd>::as_fd',
       '<std::os::fd::BorrowedFd<\'_> as std::os::fd::AsRawFd>::as_raw_fd',
       '<std::os::fd::OwnedFd as std::os::fd::FromRawFd>::from_raw_fd',
       '<std::os::fd::OwnedFd as std::os::fd::IntoRawFd>::into_raw_fd',
       'std::os::fd::BorrowedFd::<\'_>::borrow_raw',
       '<&T as std::os::fd::AsFd>::as_fd', '<&mut T as std::os::fd::AsFd>::as_fd',
       '<&T as std::os::fd::AsRawFd>::as_raw_fd')
def fd_identity(I, st, inst, vals, dty, sp, tys):
    x = fdval(I, st, vals[0])
    if inst['d'].startswith('<&') and x[0] not in ('fd', 'fdof', 'a') and I.num(x) is None:
        return None
    if x[0] == 'a' and x[1] is None and len(x[2]) > 1:
        x = x[2][0]      # a PollFd
        x = fdval(I, st, x)
    # raw numbers turned into borrowed descriptors keep their identity
    if x[0] == 'fdof' and dty is not None and I.T.kind(dty) == 'int':
        return [(st, x)]
    return [(st, x)]


@pattern(r'^<i32 as std::os::fd::AsRawFd>::as_raw_fd$')
def rawfd_self(I, st, inst, vals, dty, sp, tys):
    return [(st, pointee(I, st, vals[0]))]


@pattern(r'std::os::fd::(OwnedFd|BorrowedFd::<.*>)::try_clone')
def fd_clone(I, st, inst, vals, dty, sp, tys):
    fd = fdval(I, st, vals[0])
    sts = fork(I, st, 2)
    v = I.fresh_fd(sts[0], 'dup')
    ety = I.T.field(dty, 1, 0)
    return [(sts[0], ok(v), [sysev(I, sts[0], sp, 'dup', fd=fd, out='ok')]),
            (sts[1], err(('ioe', ('op', 'kind', ty_by_path(I, 'std::io::ErrorKind'), ()), 'dup')),
             [sysev(I, sts[1], sp, 'dup', fd=fd, out='err')])]


@model('<std::os::fd::OwnedFd as std::ops::Drop>::drop')
def fd_drop(I, st, inst, vals, dty, sp, tys):
    fd = fdval(I, st, vals[0])
    return [(st, UNIT, [sysev(I, st, sp, 'close', fd=fd, out='ok')])]


# ---- drops ------------------------------------------------------------------------------

SKIP_DROP = ('std::io::Error', 'std::string::String', 'std::boxed::Box', 'std::sync::Arc',
             'std::sync::Condvar', 'core::io::error', 'std::fmt::Arguments')


@model('std::ptr::drop_glue', 'std::ptr::drop_in_place')
def drop_glue(I, st, inst, vals, dty, sp, tys):
    a = inst['a']
    ty = a[0] if a and isinstance(a[0], int) else None
    if ty is None:
        return None
    t = I.T[ty]
    if t['k'] == 'adt':
        p = t['p']
        if p == 'std::os::fd::OwnedFd':
            return fd_drop(I, st, inst, vals, dty, sp, tys)
        if p in ('std::sync::MutexGuard', 'std::sync::nonpoison::MutexGuard'):
            return guard_drop(I, st, inst, vals, dty, sp, tys)
        if p in SKIP_DROP or t.get('cr') in ('tracing', 'tracing_core'):
            return [(st, UNIT)]
        if p in ('std::vec::Vec', 'std::sync::Mutex') or \
                p.startswith(('hashbrown', 'alloc::', 'std::collections', 'std::vec', 'std::slice')):
            return [(st, UNIT, [I.event(st, sp, k='dropcoll', ty=I.T.name(ty))])]
    if t['k'] in ('dyn', 'str'):
        return [(st, UNIT)]
    return None


@pattern(r'<(std::sync::MutexGuard|std::sync::nonpoison).* as std::ops::Drop>::drop$')
def guard_drop(I, st, inst, vals, dty, sp, tys):
    g = pointee(I, st, vals[0])
    c = st.mem.get(g[1]) if g[0] == 'g' else None
    ev = [I.event(st, sp, k='unlock', mutex=mutex_path(I, g), place=g[2:4] if g[0] == 'g' else None, contents=c)]
    return [(st, UNIT, ev)]


@pattern(r' as std::ops::Drop>::drop$')
def other_drop(I, st, inst, vals, dty, sp, tys):
    if inst['cr'] in ('polling', 'vharness', 'core', 'rustix') and inst['body'] and \
            not inst['d'].startswith('<core::io::error'):
        return None
    return [(st, UNIT, [])]


# ---- synchronisation --------------------------------------------------------------------

def mutex_path(I, g):
    if g[0] == 'g':
        return path_of(I, g[2], g[3])
    return '?'


def lock_common(I, st, inst, vals, dty, sp, contents_ty):
    root, proj, _ = I.deref(st, vals[0])
    croot = ('O', ('mxc', root, proj), contents_ty)
    return root, proj, croot


def contents(I, st, croot, cty):
    t = I.T[cty] if cty is not None else None
    if t is not None and t.get('size') == 0:
        st.mem[croot] = UNIT
        return
    a = I.fresh(st, 'locked', cty)
    st.mem[croot] = I.canon(a, cty)
    h = I.hooks.get('locked')
    if h:
        h(I, st, croot, cty, a)


@pattern(r'^std::sync::Mutex::<T>::lock$')
def mutex_lock(I, st, inst, vals, dty, sp, tys):
    cty = inst['a'][0]
    root, proj, croot = lock_common(I, st, inst, vals, dty, sp, cty)
    p = path_of(I, root, proj)
    sts = fork(I, st, 2)
    g = ('g', croot, root, proj)
    contents(I, sts[0], croot, cty)
    return [(sts[0], ok(g), [I.event(sts[0], sp, k='lock', mutex=p, place=(root, proj), out='ok',
                                     contents=sts[0].mem.get(croot))]),
            (sts[1], err(('a', None, (g,))), [I.event(sts[1], sp, k='lock', mutex=p, place=(root, proj), out='poisoned')])]


@pattern(r'^std::sync::Mutex::<T>::try_lock$')
def mutex_try_lock(I, st, inst, vals, dty, sp, tys):
    cty = inst['a'][0]
    root, proj, croot = lock_common(I, st, inst, vals, dty, sp, cty)
    p = path_of(I, root, proj)
    sts = fork(I, st, 3)
    g = ('g', croot, root, proj)
    contents(I, sts[0], croot, cty)
    return [(sts[0], ok(g), [I.event(sts[0], sp, k='trylock', mutex=p, place=(root, proj), out='ok')]),
            (sts[1], err(('a', 1, ())), [I.event(sts[1], sp, k='trylock', mutex=p, place=(root, proj), out='busy')]),
            (sts[2], err(('a', 0, (('a', None, (g,)),))),
             [I.event(sts[2], sp, k='trylock', mutex=p, place=(root, proj), out='poisoned')])]


@pattern(r'^std::sync::Mutex::<T>::new$')
def mutex_new(I, st, inst, vals, dty, sp, tys):
    return [(st, ('op', 'mutex', dty, (vals[0],)),
             [I.event(st, sp, k='newmutex', value=vals[0])])]


@pattern(r'^<std::sync::Mutex<.*> as std::convert::From<.*>>::from$')
def mutex_from(I, st, inst, vals, dty, sp, tys):
    return mutex_new(I, st, inst, vals, dty, sp, tys)


@pattern(r'^<(std::sync::Mutex<.*>|std::vec::Vec<.*>|std::sync::Condvar|std::sync::atomic::Atomic<.*>) as std::default::Default>::default$')
def std_default(I, st, inst, vals, dty, sp, tys):
    v = default_of(I, dty)
    if v is None:
        return None
    k = {'mutex': 'newmutex', 'atomic': 'newatomic'}.get(v[1]) if v[0] == 'op' else None
    return [(st, v, [I.event(st, sp, k=k, value=v[3][0])] if k else [])]


def default_of(I, ty):
    t = I.T[ty]
    p = t.get('p')
    if p == 'std::vec::Vec':
        return ('coll', 'vec', ('empty',), (), C(0), C(0))
    if p in MAPS:
        return ('coll', 'map', ('empty',), (), C(0), C(0))
    if p == 'std::sync::Mutex':
        v = default_of(I, t['a'][0])
        return v and ('op', 'mutex', ty, (v,))
    if p == 'std::sync::atomic::Atomic':
        return ('op', 'atomic', ty, (C(0),))
    if p == 'std::sync::Condvar':
        return ('op', 'condvar', ty, ())
    if p == 'std::option::Option':
        return NONE
    if p == 'std::time::Duration':
        return ('d', C(0))
    if t['k'] in ('int', 'uint', 'bool'):
        return C(0)
    if t['k'] == 'tuple' and not t['f']:
        return UNIT
    return None


@pattern(r'^std::sync::PoisonError::<T>::(into_inner|get_ref|get_mut)$|^std::sync::poison::PoisonError::<T>::(into_inner|get_ref|get_mut)$')
def poison_inner(I, st, inst, vals, dty, sp, tys):
    # carrying on with a poisoned lock: nothing panics while one is held (P28), so no such path
    return []


@pattern(r'^std::sync::Mutex::<T>::get_mut$')
def mutex_get_mut(I, st, inst, vals, dty, sp, tys):
    cty = inst['a'][0]
    root, proj, croot = lock_common(I, st, inst, vals, dty, sp, cty)
    contents(I, st, croot, cty)
    return [(st, ok(('r', croot, (), None)))]


@pattern(r'^<std::sync::MutexGuard<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$')
def guard_deref(I, st, inst, vals, dty, sp, tys):
    g = pointee(I, st, vals[0])
    if g[0] != 'g':
        raise Bug('dereference of an unknown lock guard')
    return [(st, ('r', g[1], (), None))]


@pattern(r'^std::sync::Condvar::new$')
def cv_new(I, st, inst, vals, dty, sp, tys):
    return [(st, ('op', 'condvar', dty, ()))]


@pattern(r'^std::sync::Condvar::notify_(one|all)$')
def cv_notify(I, st, inst, vals, dty, sp, tys):
    root, proj, _ = I.deref(st, vals[0])
    return [(st, UNIT, [I.event(st, sp, k='cvnotify', cv=path_of(I, root, proj),
                                all=inst['d'].endswith('all'))])]


@pattern(r'^std::sync::Condvar::wait(_timeout)?$')
def cv_wait(I, st, inst, vals, dty, sp, tys):
    root, proj, _ = I.deref(st, vals[0])
    g = vals[1]
    timed = 'timeout' in inst['d']
    ev = dict(k='cvwait', cv=path_of(I, root, proj), mutex=mutex_path(I, g), timed=timed,
              timeout=vals[2] if timed and len(vals) > 2 else None,
              released=st.mem.get(g[1]) if g[0] == 'g' else None)
    sts = fork(I, st, 2)
    if g[0] != 'g':
        raise Bug('condition variable wait with an unknown guard')
    contents(I, sts[0], g[1], g[1][2])
    okv = g
    if timed:
        tt = I.T.field(dty, 0, 0)
        wt = I.T.field(tt, None, 1)
        okv = ('a', None, (g, I.canon(I.fresh(sts[0], 'timedout', wt), wt)))
    return [(sts[0], ok(okv), [I.event(sts[0], sp, out='ok', contents=sts[0].mem.get(g[1]), **ev)]),
            (sts[1], err(('a', None, (okv if not timed else g,))), [I.event(sts[1], sp, out='poisoned', **ev)])]


@pattern(r'^std::sync::WaitTimeoutResult::timed_out$')
def cv_timed_out(I, st, inst, vals, dty, sp, tys):
    v = pointee(I, st, vals[0])
    return [(st, ('op', 'timedout', dty, (v,)))]


ATOMIC_RE = re.compile(r'^std::sync::atomic::Atomic::<(\w+)>::(\w+)$')


@pattern(r'^std::sync::atomic::Atomic::<\w+>::\w+$')
def atomic(I, st, inst, vals, dty, sp, tys):
    m = ATOMIC_RE.match(inst['d'])
    ty, op = m.group(1), m.group(2)
    isb = ty == 'bool'
    if op == 'new':
        return [(st, ('op', 'atomic', dty, (vals[0],)), [I.event(st, sp, k='newatomic', value=vals[0])])]
    root, proj, _ = I.deref(st, vals[0])
    p = path_of(I, root, proj)

    def order(v):
        if v[0] == 'a' and v[1] is not None:
            return ['Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst'][v[1]]
        return '?'
    # Ordering variants in declaration order
    orders = tuple(order(v) for v, t in zip(vals, tys) if I.T.path(t) == 'std::sync::atomic::Ordering') \
        if tys else ()
    base = dict(k='atomic', var=p, place=(root, proj), orders=orders, aty=ty)
    if op in ('into_inner', 'get_mut', 'as_ptr', 'from_mut'):
        if op == 'into_inner':
            return [(st, I.fresh(st, 'atomicinner', dty))]
        raise Bug('raw access to atomic %s' % p)
    if op == 'load':
        op2, new, exp = 'load', None, None
    elif op == 'store':
        return [(st, UNIT, [I.event(st, sp, op='store', new=vals[1], **base)])]
    elif op == 'swap':
        op2, new, exp = 'swap', vals[1], None
    elif op in ('compare_exchange', 'compare_exchange_weak', 'compare_and_swap'):
        op2, new, exp = 'cas', vals[2], vals[1]
    elif op in ('fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_xor', 'fetch_nand',
                'fetch_max', 'fetch_min', 'fetch_not'):
        op2, new, exp = op, vals[1] if len(vals) > 1 else None, None
    else:
        raise Bug('atomic operation %s' % op)
    if op2 == 'cas':
        sts = fork(I, st, 2)
        okty = I.T.field(dty, 0, 0)
        outs = [(sts[0], ok(exp), [I.event(sts[0], sp, op='cas', new=new, exp=exp, out='ok', old=exp, **base)])]
        s = sts[1]
        if isb and exp[0] == 'c' and not op.endswith('weak'):
            old = C(1 - exp[1])
        else:
            old = I.fresh(s, 'atomic', okty)
        outs.append((s, err(old), [I.event(s, sp, op='cas', new=new, exp=exp, out='fail', old=old,
                                           weak=op.endswith('weak'), **base)]))
        return outs
    if isb:
        sts = fork(I, st, 2)
        outs = []
        for b, s in zip((0, 1), sts):
            nv = new
            o = op2
            if op2 == 'fetch_or':
                nv, o = (C(1) if new == TRUE else C(b) if new == FALSE else new), 'swap'
            elif op2 == 'fetch_and':
                nv, o = (C(0) if new == FALSE else C(b) if new == TRUE else new), 'swap'
            elif op2 == 'fetch_not':
                nv, o = C(1 - b), 'swap'
            outs.append((s, C(b), [I.event(s, sp, op=o, new=nv, old=C(b), **base)]))
        return outs
    a = I.fresh(st, 'atomic', dty)
    return [(st, a, [I.event(st, sp, op=op2, new=new, old=a, **base)])]


# ---- time ---------------------------------------------------------------------------------

def dur(v):
    if v[0] == 'r':
        raise Bug('reference where a duration is expected')
    if v[0] == 'd':
        return v[1]
    return ('ns', v)


MAXDUR = U64 * 10**9 + 999999999
# seconds of an instant are a signed 64-bit number
MAXINST = ((1 << 63) - 1) * 10**9 + 999999999


def clock_read(I, st, ty):
    """A new reading of the monotonic clock: not before any earlier one."""
    a = ('ns', I.fresh(st, 'now', ty))
    seen = set()
    for v in st.mem.values():
        for x in atoms(v):
            if x[0] == 's' and x[1] == 'now' and ('ns', x) != a:
                seen.add(x)
    for x in seen:
        st.F[('ge', sub(a, ('ns', x)))] = 1
    return a


@model('std::thread::yield_now', 'core::hint::spin_loop', 'std::hint::spin_loop')
def pause(I, st, inst, vals, dty, sp, tys):
    return [(st, UNIT, [I.event(st, sp, k='pause')])]


@model('std::thread::sleep', 'std::thread::sleep_ms', 'std::thread::park', 'std::thread::park_timeout')
def sleep(I, st, inst, vals, dty, sp, tys):
    return [(st, UNIT, [I.event(st, sp, k='sleep')])]


@model('std::time::Instant::now')
def inst_now(I, st, inst, vals, dty, sp, tys):
    a = clock_read(I, st, dty)
    return [(st, ('i', a), [I.event(st, sp, k='now', value=a)])]


def ival(v):
    if v[0] == 'r':
        raise Bug('reference where an instant is expected')
    return v[1] if v[0] == 'i' else ('ns', v)


def checked_outs(I, st, cond, good):
    """Some(good) when cond holds, None otherwise"""
    d = decide(cond, st.F)
    outs = []
    if d != 0:
        s = st.copy()
        F = assume(cond, 1, s.F)
        if F is not None:
            s.F = F
            outs.append((s, some(good)))
    if d != 1:
        s = st.copy()
        F = assume(cond, 0, s.F)
        if F is not None:
            s.F = F
            outs.append((s, NONE))
    return outs


def overflow_flag(I, st, name):
    return ('op', name, I.boolty(), (I.fresh(st, 'ovf', I.boolty()),))


@model('std::time::Instant::checked_add')
def inst_cadd(I, st, inst, vals, dty, sp, tys):
    vals = [pointee(I, st, vals[0])] + vals[1:]
    r = ('i', add(ival(vals[0]), dur(vals[1])))
    s2 = st.copy()
    if 'join' in I.hooks:
        # a name of its own keeps the relations between points in time small
        st.mem[('G', 'tmp')] = r
        w = ('ns', I.fresh(st, 'deadline', None))
        v = st.mem.pop(('G', 'tmp'))[1]
        st.F[('ge', sub(w, v))] = 1
        st.F[('ge', sub(v, w))] = 1
        r = ('i', w)
    st.F[('ge', sub(C(MAXINST), r[1]))] = 1
    # (readings of the clock are not negative, so the delay itself is bounded too)
    l = sub(C(MAXINST), dur(vals[1]))
    if l[0] != 'c':
        st.F[('ge', l)] = 1
        dom._tight(l, st.F)
    return [(st, some(r), [I.event(st, sp, k='deadline', value=r[1], base=ival(vals[0]), delta=dur(vals[1]), out='ok')]),
            (s2, NONE, [I.event(s2, sp, k='deadline', base=ival(vals[0]), delta=dur(vals[1]), out='overflow')])]


@model('std::time::Instant::checked_sub')
def inst_csub(I, st, inst, vals, dty, sp, tys):
    vals = [pointee(I, st, vals[0])] + vals[1:]
    r = ('i', sub(ival(vals[0]), dur(vals[1])))
    return [(st, some(r)), (st.copy(), NONE)]


@pattern(r'^<std::time::Instant as std::ops::Add<std::time::Duration>>::add$')
def inst_add(I, st, inst, vals, dty, sp, tys):
    r = ('i', add(ival(vals[0]), dur(vals[1])))
    return [(st, r, [I.event(st, sp, k='deadline', value=r[1], base=ival(vals[0]), delta=dur(vals[1]), out='ok'),
                     I.event(st, sp, k='maypanic', what='Instant + Duration overflow', cond=None)])]


@pattern(r'^<std::time::Instant as std::ops::Sub<std::time::Duration>>::sub$')
def inst_subd(I, st, inst, vals, dty, sp, tys):
    return [(st, ('i', sub(ival(vals[0]), dur(vals[1]))),
             [I.event(st, sp, k='maypanic', what='Instant - Duration overflow', cond=None)])]


@pattern(r'^(std::time::Instant::(saturating_duration_since|duration_since|elapsed)|<std::time::Instant as std::ops::Sub>::sub)$')
def inst_since(I, st, inst, vals, dty, sp, tys):
    ev = []
    if inst['d'].endswith('elapsed'):
        b = ival(pointee(I, st, vals[0]))
        a = clock_read(I, st, tys[0] and I.T[tys[0]].get('to'))
        ev = [I.event(st, sp, k='now', value=a)]
    else:
        a, b = ival(pointee(I, st, vals[0])), ival(pointee(I, st, vals[1]))
    diff = sub(a, b)
    cond = ge0(diff)
    d = decide(cond, st.F)
    outs = []
    if d != 0:
        s = st.copy()
        F = assume(cond, 1, s.F)
        if F is not None:
            s.F = F
            outs.append((s, ('d', diff), ev))
    if d != 1:
        s = st.copy()
        F = assume(cond, 0, s.F)
        if F is not None:
            s.F = F
            outs.append((s, ('d', C(0)), ev))
    return outs


@model('std::time::Instant::checked_duration_since')
def inst_cdsince(I, st, inst, vals, dty, sp, tys):
    diff = sub(ival(pointee(I, st, vals[0])), ival(pointee(I, st, vals[1])))
    return checked_outs(I, st, ge0(diff), ('d', diff))


@pattern(r'^<std::time::(Duration|Instant) as std::cmp::PartialEq>::(eq|ne)$')
def dur_eq(I, st, inst, vals, dty, sp, tys):
    a, b = pointee(I, st, vals[0]), pointee(I, st, vals[1])
    r = eq0(sub(dur(a) if a[0] == 'd' else ival(a), dur(b) if b[0] == 'd' else ival(b)))
    if inst['d'].endswith('ne'):
        r = bnot(r)
    return [(st, r)]


def tval(v):
    if v[0] == 'r':
        raise Bug('reference where a time is expected')
    return v[1] if v[0] in ('d', 'i') else ('ns', v)


@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def ord_default(I, st, inst, vals, dty, sp, tys):
    a, b = pointee(I, st, vals[0]), pointee(I, st, vals[1])
    if a[0] not in ('d', 'i') or b[0] not in ('d', 'i'):
        t = inst['a'][0] if inst['a'] else None
        if t is None or I.T.path(t) not in ('std::time::Duration', 'std::time::Instant'):
            return None
    a, b = tval(a), tval(b)
    op = inst['d'][-2:]
    r = {'lt': bnot(ge0(sub(a, b))), 'le': ge0(sub(b, a)), 'gt': bnot(ge0(sub(b, a))), 'ge': ge0(sub(a, b))}[op]
    return [(st, r)]


def minmax(I, st, a, b, big):
    """value of min/max of two nanosecond terms: forks on the comparison"""
    cond = ge0(sub(a, b))
    outs = []
    for v in (1, 0):
        s = st.copy()
        F = assume(cond, v, s.F)
        if F is None:
            continue
        s.F = F
        outs.append((s, a if (v == 1) == big else b))
    return outs


@pattern(r'^<std::time::(Duration|Instant) as std::cmp::(Partial)?Ord>::(partial_cmp|cmp|min|max|lt|le|gt|ge)$|^std::cmp::Ord::(min|max)$|^std::cmp::(min|max)$')
def dur_cmp(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    a, b = vals[0], vals[1]
    if a[0] == 'r':
        a, b = pointee(I, st, a), pointee(I, st, b)
    if op in ('min', 'max'):
        tag = a[0] if a[0] in ('d', 'i') else None
        if tag is None:
            x, y = I.num(a), I.num(b)
            if x is None or y is None or dty is None or I.T.kind(dty) != 'int':
                return None
            return minmax(I, st, x, y, op == 'max')
        return [(s, (tag, v)) for s, v in minmax(I, st, tval(a), tval(b), op == 'max')]
    if op in ('lt', 'le', 'gt', 'ge'):
        return ord_default(I, st, inst, vals, dty, sp, tys)
    a, b = tval(a), tval(b)
    outs = []
    oty = dty if op == 'cmp' else I.T.field(dty, 1, 0)
    for vi, conds in ((0, ((ge0(sub(a, b)), 0),)), (1, ((eq0(sub(a, b)), 1),)),
                      (2, ((ge0(sub(b, a)), 0),))):
        s = st.copy()
        F = s.F
        for c, v in conds:
            F = assume(c, v, F) if F is not None else None
        if F is None:
            continue
        s.F = F
        x = ('a', vi, ())
        outs.append((s, x if op == 'cmp' else some(x)))
    return outs


DUR = r'^std::time::Duration::(\w+)$'


@pattern(DUR)
def duration(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    unit = {'from_secs': 10**9, 'from_millis': 10**6, 'from_micros': 10**3, 'from_nanos': 1,
            'from_mins': 60 * 10**9, 'from_hours': 3600 * 10**9, 'from_nanos_u128': 1}
    if op in unit:
        return [(st, ('d', scale(I.num(I.simp(st, vals[0])), unit[op])))]
    if op == 'new':
        r = add(scale(I.num(vals[0]), 10**9), I.num(vals[1]))
        ev = []
        if decide(ge0(sub(C(MAXDUR), r)), st.F) != 1:
            ev = [I.event(st, sp, k='maypanic', what='Duration overflow', cond=ge0(sub(C(MAXDUR), r)))]
        return [(st, ('d', r), ev)]
    a = pointee(I, st, vals[0])
    if a[0] != 'd':
        a = ('d', ('ns', a))
    x = a[1]
    div = {'as_secs': 10**9, 'as_millis': 10**6, 'as_micros': 10**3, 'as_nanos': 1}
    if op in div:
        return [(st, fdiv(x, div[op]))]
    if op in ('subsec_nanos', 'subsec_micros', 'subsec_millis'):
        u = {'subsec_nanos': 1, 'subsec_micros': 10**3, 'subsec_millis': 10**6}[op]
        v = fdiv(frem(x, 10**9), u)
        for c in (v, sub(C(10**9 // u - 1), v)):
            if decide(ge0(c), st.F) is None:
                st.F[('ge', c)] = 1
        return [(st, v)]
    if op == 'is_zero':
        return [(st, eq0(x))]
    if op in ('checked_add', 'saturating_add'):
        r = add(x, dur(vals[1]))
        cond = ge0(sub(C(MAXDUR), r))
        if op == 'checked_add':
            return checked_outs(I, st, cond, ('d', r))
        return [(s, v[2][0] if v[2] else ('d', C(MAXDUR))) for s, v in checked_outs(I, st, cond, ('d', r))]
    if op in ('checked_sub', 'saturating_sub', 'abs_diff'):
        r = sub(x, dur(vals[1]))
        if op == 'checked_sub':
            return checked_outs(I, st, ge0(r), ('d', r))
        z = ('d', C(0)) if op == 'saturating_sub' else ('d', neg(r))
        return [(s, v[2][0] if v[2] else z) for s, v in checked_outs(I, st, ge0(r), ('d', r))]
    if op in ('saturating_mul', 'checked_mul') and vals[1][0] == 'c':
        r = scale(x, vals[1][1])
        outs = checked_outs(I, st, ge0(sub(C(MAXDUR), r)), ('d', r))
        if op == 'checked_mul':
            return outs
        return [(s, v[2][0] if v[2] else ('d', C(MAXDUR))) for s, v in outs]
    if op == 'checked_div' and vals[1][0] == 'c' and vals[1][1]:
        return [(st, some(('d', fdiv(x, vals[1][1]))))]
    if op in ('as_millis_f64', 'as_secs_f64', 'as_secs_f32', 'mul_f64', 'from_secs_f64', 'try_from_secs_f64'):
        return [(st, I.canon(I.fresh(st, op, dty), dty))]
    return [(st, I.canon(I.fresh(st, op, dty), dty))]


@pattern(r'^<std::time::Duration as std::ops::(Add|Sub|Mul|Div|AddAssign|SubAssign)(<.*>)?>::\w+$')
def dur_ops(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    asg = op.endswith('_assign')
    a = pointee(I, st, vals[0])
    x = tval(a)
    if op.startswith('add'):
        r = add(x, dur(vals[1]))
    elif op.startswith('sub'):
        r = sub(x, dur(vals[1]))
    elif op == 'mul' and vals[1][0] == 'c':
        r = scale(x, vals[1][1])
    elif op == 'div' and vals[1][0] == 'c' and vals[1][1]:
        r = fdiv(x, vals[1][1])
    else:
        r = ('ns', I.fresh(st, op, dty))
    ev = []
    lo, hi = bounds(r, st.F)
    if not (lo >= 0 or prove_ge0(r, st.F)) or not hi <= MAXDUR:
        ev = [I.event(st, sp, k='maypanic', what='Duration arithmetic', cond=None)]
    if asg:
        I.write(st, vals[0][1], vals[0][2], ('d', r))
        return [(st, UNIT, ev)]
    return [(st, ('d', r), ev)]


# ---- integers -----------------------------------------------------------------------------

def int_ty_range(I, ty):
    return I.T.intrange(ty)


@pattern(r'^core::num::<impl \w+>::(saturating_add|saturating_sub|saturating_mul|checked_add|checked_sub|checked_mul|wrapping_add|wrapping_sub|wrapping_mul|wrapping_neg|overflowing_add|overflowing_sub|div_ceil|min_value|max_value|is_power_of_two|next_multiple_of|div_euclid|rem_euclid|checked_div|checked_rem|unsigned_abs|abs|pow|count_ones|leading_zeros|trailing_zeros|swap_bytes|to_le|to_be|from_le|from_be|abs_diff|strict_add|strict_sub|cast_signed|cast_unsigned|to_ne_bytes|to_le_bytes|to_be_bytes|from_ne_bytes|from_le_bytes|from_be_bytes|saturating_pow|checked_pow|is_multiple_of|unchecked_add|unchecked_sub)$')
def int_method(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    ns = [I.num(I.simp(st, v)) for v in vals]
    if op in ('from_ne_bytes', 'from_le_bytes', 'from_be_bytes', 'to_le_bytes', 'to_be_bytes', 'swap_bytes',
              'to_le', 'to_be', 'from_le', 'from_be'):
        if op.startswith('to_') and op.endswith('bytes'):
            return [(st, ('op', 'bytes', dty, (ns[0],)))]
        x = vals[0]
        if op == 'from_ne_bytes' or op == 'from_le_bytes':
            if x[0] == 'op' and x[1] == 'bytes':
                return [(st, x[3][0])]
        return [(st, ('op', op, dty, tuple(vals)))]
    if op == 'to_ne_bytes':
        return [(st, ('op', 'bytes', dty, (ns[0],)))]
    if any(n is None for n in ns):
        return None
    ity = None
    if tys:
        ity = tys[0]
    lo, hi = I.T.intrange(ity) if ity is not None else (-INF, INF)
    a = ns[0] if ns else None
    b = ns[1] if len(ns) > 1 else None

    def arith(o):
        if o == 'add':
            return add(a, b)
        if o == 'sub':
            return sub(a, b)
        if o == 'mul':
            if b[0] == 'c':
                return scale(a, b[1])
            if a[0] == 'c':
                return scale(b, a[1])
        return None
    kind, _, o = op.partition('_')
    if kind in ('saturating', 'checked', 'wrapping', 'overflowing', 'strict', 'unchecked') and o in ('add', 'sub', 'mul'):
        r = arith(o)
        if r is None:
            if kind == 'wrapping':
                return [(st, ('op', 'mul', dty, (a, b)))]
            return [(st, I.canon(I.fresh(st, op, dty), dty))]
        cl, ch = ge0(add(r, C(-lo))), ge0(sub(C(hi), r))
        outs = []
        s = st.copy()
        F = assume(cl, 1, s.F)
        F = assume(ch, 1, F) if F is not None else None
        if F is not None:
            s.F = F
            v = r if kind in ('saturating', 'wrapping', 'strict', 'unchecked') else some(r) if kind == 'checked' else \
                ('a', None, (r, FALSE))
            outs.append((s, v))
        for c, lim in ((cl, lo), (ch, hi)):
            s = st.copy()
            F = assume(c, 0, s.F)
            if F is None:
                continue
            s.F = F
            if kind == 'saturating':
                outs.append((s, C(lim)))
            elif kind == 'checked':
                outs.append((s, NONE))
            elif kind == 'wrapping':
                outs.append((s, ('op', 'wrap', dty, (r,))))
            elif kind in ('strict', 'unchecked'):
                outs.append((s, 'panic', [I.event(s, sp, k='panic', what='overflow', cond=c)]))
            else:
                outs.append((s, ('a', None, (('op', 'wrap', ity, (r,)), TRUE))))
        return outs
    if op in ('min', 'max') and b is not None:
        outs = []
        c = ge0(sub(b, a))
        for v in (1, 0):
            s = st.copy()
            F = assume(c, v, s.F)
            if F is not None:
                s.F = F
                outs.append((s, a if (op == 'min') == (v == 1) else b))
        return outs
    if op == 'wrapping_neg' and a[0] == 'c':
        return [(st, C(I.T.wrap(-a[1], dty)))]
    if op == 'div_ceil' and b[0] == 'c' and b[1] > 0:
        return [(st, fdiv(add(a, C(b[1] - 1)), b[1]))]
    if op in ('div_euclid', 'checked_div') and b[0] == 'c' and b[1] > 0 and bounds(a, st.F)[0] >= 0:
        r = fdiv(a, b[1])
        return [(st, some(r) if op.startswith('checked') else r)]
    if op in ('rem_euclid', 'checked_rem') and b[0] == 'c' and b[1] > 0 and bounds(a, st.F)[0] >= 0:
        r = frem(a, b[1])
        return [(st, some(r) if op.startswith('checked') else r)]
    if op == 'is_multiple_of' and b[0] == 'c' and b[1] > 0:
        return [(st, eq0(frem(a, b[1])))]
    if op == 'next_multiple_of' and b[0] == 'c' and b[1] > 0:
        return [(st, scale(fdiv(add(a, C(b[1] - 1)), b[1]), b[1]))]
    if op in ('cast_signed', 'cast_unsigned'):
        return [(st, I.cast(st, a, 'IntToInt', tys[0], dty))]
    if all(n[0] == 'c' for n in ns):
        if op == 'pow' or op == 'checked_pow':
            r = C(a[1] ** b[1])
            return [(st, r if op == 'pow' else some(r))]
        if op == 'count_ones':
            return [(st, C(bin(a[1]).count('1')))]
        if op == 'is_power_of_two':
            return [(st, C(a[1] > 0 and a[1] & (a[1] - 1) == 0))]
    return [(st, I.canon(('op', op, dty, tuple(ns)), dty))]


@pattern(r'^std::convert::num::<impl std::convert::TryFrom<\w+> for \w+>::try_from$|^std::convert::num::ptr_try_from_impls::<impl std::convert::TryFrom<\w+> for \w+>::try_from$')
def try_from(I, st, inst, vals, dty, sp, tys):
    n = I.num(I.simp(st, vals[0]))
    okty = I.T.field(dty, 0, 0)
    lo, hi = I.T.intrange(okty)
    cl, ch = ge0(add(n, C(-lo))), ge0(sub(C(hi), n))
    e = ('op', 'tryfromint', I.T.field(dty, 1, 0), ())
    outs = []
    s = st.copy()
    F = assume(cl, 1, s.F)
    F = assume(ch, 1, F) if F is not None else None
    if F is not None:
        s.F = F
        outs.append((s, ok(n)))
    for c in (cl, ch):
        s = st.copy()
        F = assume(c, 0, s.F)
        if F is not None:
            s.F = F
            outs.append((s, err(e)))
    return outs


@pattern(r'^(std::convert::num::<impl std::convert::From<\w+> for \w+>|std::char::convert::<impl std::convert::From<\w+> for \w+>)::from$')
def int_from(I, st, inst, vals, dty, sp, tys):
    n = I.num(I.simp(st, vals[0]))
    if n is None:
        return None
    return [(st, n)]


@pattern(r'^std::num::NonZero::<T>::get$')
def nz_get(I, st, inst, vals, dty, sp, tys):
    return [(st, I.num(vals[0]) or vals[0])]


@pattern(r'^std::num::NonZero::<T>::(new|new_unchecked)$')
def nz_new(I, st, inst, vals, dty, sp, tys):
    n = I.num(I.simp(st, vals[0]))
    if inst['d'].endswith('unchecked'):
        return [(st, n)]
    outs = []
    c = eq0(n)
    for v, res in ((0, some(n)), (1, NONE)):
        s = st.copy()
        F = assume(c, v, s.F)
        if F is not None:
            s.F = F
            outs.append((s, res))
    return outs


@pattern(r'^std::intrinsics::|^core::intrinsics::')
def intrinsic(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    if op in ('assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'cold_path', 'assume'):
        return [(st, UNIT)]
    if op in ('likely', 'unlikely', 'black_box'):
        return [(st, vals[0])]
    if op == 'discriminant_value':
        v = pointee(I, st, vals[0])
        return [(st, I.discr(st, v, inst['a'][0]))]
    if op in ('saturating_add', 'saturating_sub', 'wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        i2 = dict(inst)
        i2['d'] = 'core::num::<impl x>::' + op
        return int_method(I, st, i2, vals, dty, sp, tys)
    if op == 'transmute' or op == 'transmute_unchecked':
        return [(st, I.canon(I.transmute(st, vals[0], tys[0], dty), dty))]
    if op == 'write_bytes':
        p, v, n = vals
        if p[0] == 'r' and v == C(0) and n == C(1):
            I.write(st, p[1], p[2], I.zero(inst['a'][0]))
            return [(st, UNIT)]
        return None
    if op in ('size_of', 'size_of_val', 'align_of', 'min_align_of', 'needs_drop'):
        t = I.T[inst['a'][0]] if inst['a'] else {}
        if op == 'size_of' and t.get('size') is not None:
            return [(st, C(t['size']))]
        return [(st, I.fresh(st, op, dty))]
    if op == 'abort':
        return [(st, 'panic', [I.event(st, sp, k='panic', what='abort')])]
    if op in ('read_via_copy', 'volatile_load'):
        root, proj, _ = I.deref(st, vals[0])
        return [(st, I.read(st, root, proj))]
    if op in ('write_via_move', 'volatile_store'):
        root, proj, _ = I.deref(st, vals[0])
        I.write(st, root, proj, vals[1])
        return [(st, UNIT)]
    if op == 'select_unpredictable':
        outs = []
        for v in (1, 0):
            s = st.copy()
            F = assume(I.num(vals[0]), v, s.F)
            if F is not None:
                s.F = F
                outs.append((s, vals[1] if v else vals[2]))
        return outs
    if op == 'ctpop':
        n = I.num(vals[0])
        if n is not None and n[0] == 'c':
            return [(st, C(bin(n[1]).count('1')))]
    if op in ('integer_min', 'integer_max'):
        i2 = dict(inst)
        i2['d'] = 'core::num::<impl x>::' + op[8:]
        return int_method(I, st, i2, vals, dty, sp, tys)
    if op == 'three_way_compare':
        return None
    return None


@model('std::mem::zeroed')
def zeroed(I, st, inst, vals, dty, sp, tys):
    return [(st, I.zero(dty))]


@model('std::ptr::read', 'std::ptr::read_unaligned', 'std::ptr::read_volatile')
def ptr_read(I, st, inst, vals, dty, sp, tys):
    root, proj, _ = I.deref(st, vals[0])
    return [(st, I.read(st, root, proj))]


@model('std::ptr::write', 'std::ptr::write_unaligned', 'std::ptr::write_volatile')
def ptr_write(I, st, inst, vals, dty, sp, tys):
    root, proj, _ = I.deref(st, vals[0])
    I.write(st, root, proj, vals[1])
    return [(st, UNIT)]


@model('std::mem::replace')
def mem_replace(I, st, inst, vals, dty, sp, tys):
    root, proj, _ = I.deref(st, vals[0])
    old = I.read(st, root, proj)
    I.write(st, root, proj, vals[1])
    return [(st, old)]


@model('std::mem::take')
def mem_take(I, st, inst, vals, dty, sp, tys):
    return None


@model('std::mem::swap')
def mem_swap(I, st, inst, vals, dty, sp, tys):
    a, b = I.deref(st, vals[0]), I.deref(st, vals[1])
    x, y = I.read(st, a[0], a[1]), I.read(st, b[0], b[1])
    I.write(st, a[0], a[1], y)
    I.write(st, b[0], b[1], x)
    return [(st, UNIT)]


@model('std::mem::forget')
def mem_forget(I, st, inst, vals, dty, sp, tys):
    return [(st, UNIT, [I.event(st, sp, k='forget', value=vals[0])])]


@pattern(r'^std::mem::ManuallyDrop::<T>::new$')
def manually_drop(I, st, inst, vals, dty, sp, tys):
    return [(st, ('a', None, (vals[0],)), [I.event(st, sp, k='forget', value=vals[0])])]


# ---- io::Error ----------------------------------------------------------------------------

@pattern(r'<impl std::convert::From<rustix::backend::io::errno::Errno> for std::io::Error>::from$')
def ioe_from_errno(I, st, inst, vals, dty, sp, tys):
    n = I.num(I.simp(st, vals[0]))
    kty = ty_by_path(I, 'std::io::ErrorKind')
    return [(st, ('ioe', errkind(I, st, n, kty), n))]


def kind_index(I, kty, name):
    for i, v in enumerate(I.T[kty]['v']):
        if v['n'] == name:
            return i
    return None


def errkind(I, st, n, kty):
    if n is not None and n[0] == 'c':
        if n[1] == EINTR_ERRNO:
            i = kind_index(I, kty, 'Interrupted') if kty is not None else 0
            return ('a', i, ())
        return ('op', 'kindof', kty, (n,))
    k = ('op', 'kindof', kty, (n,))
    ne = st.F.get(('ne', n))
    if kty is not None and ne and EINTR_ERRNO in ne:
        d = ('discr', k, kty)
        i = kind_index(I, kty, 'Interrupted')
        st.F[('ne', d)] = st.F.get(('ne', d), frozenset()) | {I.T.discrs(kty)[i]}
    return k


@pattern(r'<impl std::io::Error>::from_raw_os_error$')
def ioe_from_raw(I, st, inst, vals, dty, sp, tys):
    kty = ty_by_path(I, 'std::io::ErrorKind')
    n = I.num(vals[0])
    return [(st, ('ioe', ('op', 'kindof', kty, (n,)), n))]


@pattern(r'<impl std::io::Error>::(new|other)$|^std::io::Error::(new|other|new_simple|new_const|from_static_message)$')
def ioe_new(I, st, inst, vals, dty, sp, tys):
    if inst['d'].endswith('other'):
        kty = ty_by_path(I, 'std::io::ErrorKind')
        return [(st, ('ioe', ('a', kind_index(I, kty, 'Other'), ()), 'new'))]
    return [(st, ('ioe', vals[0], 'new'))]


@pattern(r'^<std::io::Error as std::convert::From<std::io::ErrorKind>>::from$')
def ioe_from_kind(I, st, inst, vals, dty, sp, tys):
    return [(st, ('ioe', vals[0], 'kind'))]


@model('std::io::Error::kind')
def ioe_kind(I, st, inst, vals, dty, sp, tys):
    e = pointee(I, st, vals[0])
    if e[0] == 'ioe':
        return [(st, e[1])]
    return [(st, ('op', 'kindof', dty, (e,)))]


@pattern(r'<impl std::io::Error>::raw_os_error$|^std::io::Error::raw_os_error$')
def ioe_raw(I, st, inst, vals, dty, sp, tys):
    e = pointee(I, st, vals[0])
    if e[0] == 'ioe':
        if e[2] in ('new', 'kind'):
            return [(st, NONE)]
        n = e[2]
        if isinstance(n, tuple):
            if n == C(EINTR_ERRNO):
                return [(st, some(C(4)))]
            v = sub(C(65536), n)
            ne = st.F.get(('ne', n))
            return [(st, some(v))]
    return [(st, I.canon(I.fresh(st, 'rawos', dty), dty))]


# ---- slices, vectors, maps ----------------------------------------------------------------

def slice_len(I, st, v, ty=None):
    if v[0] == 'r':
        if v[3] is not None and isinstance(v[3], tuple) and v[3][0] != 'vt':
            return v[3]
        return I.length(I.read(st, v[1], v[2]), None)
    return ('lenof', v)


def coll_at(I, st, v):
    root, proj, _ = I.deref(st, v)
    c = I.read(st, root, proj)
    return root, proj, c


def slice_at(I, st, v):
    """root, projection, value and first index of the collection a slice reference views"""
    root, proj, _ = I.deref(st, v)
    off = C(0)
    if proj and proj[-1][0] == 'off':
        off, proj = proj[-1][1], proj[:-1]
    return root, proj, I.read(st, root, proj), off


@pattern(r'^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|^std::vec::Vec::<T, A>::as_(mut_)?slice$|^<std::vec::Vec<T, A> as std::(convert::As(Ref|Mut)|borrow::Borrow(Mut)?)<.*>>::\w+$')
def vec_deref(I, st, inst, vals, dty, sp, tys):
    root, proj, c = coll_at(I, st, vals[0])
    return [(st, ('r', root, proj, I.length(c, None)))]


@pattern(r'^(std::vec::Vec::<T, A>|core::slice::<impl \[T\]>|std::collections::(Hash|BTree)(Map|Set)::<.*>)::(len|is_empty)$')
def coll_len(I, st, inst, vals, dty, sp, tys):
    v = vals[0]
    if v[0] == 'r' and v[3] is not None and isinstance(v[3], tuple) and v[3][0] != 'vt':
        n = v[3]
    else:
        root, proj, c = coll_at(I, st, v)
        n = I.length(c, None)
    if inst['d'].endswith('is_empty'):
        return [(st, eq0(n))]
    return [(st, n)]


@pattern(r'^std::vec::Vec::<T, A>::capacity$')
def vec_cap(I, st, inst, vals, dty, sp, tys):
    root, proj, c = coll_at(I, st, vals[0])
    return [(st, c[5] if c[0] == 'coll' else ('capof', c))]


@pattern(r'^std::vec::Vec::<T>::(with_capacity|new)$')
def vec_new(I, st, inst, vals, dty, sp, tys):
    if inst['d'].endswith('new'):
        return [(st, ('coll', 'vec', ('empty',), (), C(0), C(0)))]
    a = I.fresh(st, 'cap', I.boolty() if dty is None else None)
    n = I.num(vals[0])
    cap = ('capof', a)
    st.F[('ge', sub(cap, n))] = 1
    lo = bounds(n, st.F)[0]
    st.F[('b', cap)] = (max(lo, 0), INF)
    return [(st, ('coll', 'vec', ('empty',), (), C(0), cap))]


@pattern(r'^(std::vec::Vec::<T, A>|std::collections::(Hash|BTree)(Map|Set)::<.*>)::clear$')
def vec_clear(I, st, inst, vals, dty, sp, tys):
    root, proj, c = coll_at(I, st, vals[0])
    cap = c[5] if c[0] == 'coll' else ('capof', c)
    I.write(st, root, proj, ('coll', c[1] if c[0] == 'coll' else 'vec', ('empty',), (), C(0), cap))
    return [(st, UNIT, [I.event(st, sp, k='coll', op='clear', on=path_of(I, root, proj), place=(root, proj))])]


def grow(I, st, c, n):
    """capacity after making room for n elements"""
    cap = c[5]
    if decide(ge0(sub(cap, n)), st.F) == 1:
        return cap
    a = I.fresh(st, 'growncap', None)
    cp = ('capof', a)
    st.F[('ge', sub(cp, n))] = 1
    if cap[0] == 'c' or not any(x[1] == 'growncap' for x in atoms(cap) if x[0] == 's'):
        st.F[('ge', sub(cp, cap))] = 1
    return cp


@pattern(r'^std::vec::Vec::<T, A>::(push|push_within_capacity)$')
def vec_push(I, st, inst, vals, dty, sp, tys):
    root, proj, c = coll_at(I, st, vals[0])
    if c[0] != 'coll':
        raise Bug('push on %r' % (c[0],))
    n = c[4]
    ov = c[3]
    base = c[2]
    if base[0] == 'hv':
        ov = ()
    elif any(n != C(0) and decide(ge0(sub(n, add(k, C(1)))), st.F) == 1 and k[0] != 'c' or k == C(0) and base == ('empty',)
             for k, _ in ov):
        # a second appended element: the contents are summarised
        base, ov = hv(base), ()
    else:
        ov = ov + ((n, vals[1]),)
    cap = grow(I, st, c, add(n, C(1)))
    I.write(st, root, proj, ('coll', c[1], base, ov, add(n, C(1)), cap))
    ev = I.event(st, sp, k='coll', op='push', on=path_of(I, root, proj), place=(root, proj),
                 index=n, value=vals[1])
    return [(st, UNIT, [ev])]


@pattern(r'^std::vec::Vec::<T, A>::(reserve|reserve_exact|try_reserve)$')
def vec_reserve(I, st, inst, vals, dty, sp, tys):
    root, proj, c = coll_at(I, st, vals[0])
    if c[0] == 'coll':
        cap = grow(I, st, c, add(c[4], I.num(vals[1])))
        I.write(st, root, proj, c[:5] + (cap,))
    return [(st, UNIT if not inst['d'].endswith('try_reserve') else ok(UNIT))]


@pattern(r'^std::vec::Vec::<T, A>::(shrink_to_fit|shrink_to)$')
def vec_shrink(I, st, inst, vals, dty, sp, tys):
    root, proj, c = coll_at(I, st, vals[0])
    if c[0] == 'coll':
        a = ('capof', I.fresh(st, 'shrunk', None))
        st.F[('ge', sub(a, c[4]))] = 1
        I.write(st, root, proj, c[:5] + (a,))
    return [(st, UNIT)]


@pattern(r'^std::vec::Vec::<T, A>::(set_len|truncate)$')
def vec_setlen(I, st, inst, vals, dty, sp, tys):
    root, proj, c = coll_at(I, st, vals[0])
    if c[0] == 'coll':
        n = I.num(vals[1])
        if inst['d'].endswith('truncate'):
            outs = []
            for s, v in minmax(I, st, c[4], n, False):
                I.write(s, root, proj, ('coll', c[1], c[2], c[3], v, c[5]))
                outs.append((s, UNIT, [I.event(s, sp, k='coll', op='truncate', on=path_of(I, root, proj), place=(root, proj))]))
            return outs
        I.write(st, root, proj, ('coll', c[1], c[2], c[3], n, c[5]))
    return [(st, UNIT, [I.event(st, sp, k='coll', op='set_len', on=path_of(I, root, proj), place=(root, proj))])]


def resolve_index(I, st, c, t):
    """Fork until the index is known equal to or distinct from every overlay entry."""
    if c[0] != 'coll':
        return [(st, t)]
    todo = [(st, list(reversed(c[3])))]
    outs = []
    while todo:
        s, ents = todo.pop()
        done = False
        for i, (k, x) in enumerate(ents):
            if k == t:
                outs.append((s, t))
                done = True
                break
            e = eq0(sub(k, t))
            d = decide(e, s.F)
            if d == 1:
                outs.append((s, k))
                done = True
                break
            if d is None:
                s2 = s.copy()
                F = assume(e, 1, s2.F)
                if F is not None:
                    s2.F = F
                    outs.append((s2, k))
                F = assume(e, 0, s.F)
                if F is None:
                    done = True
                    break
                s.F = F
        if not done:
            outs.append((s, t))
    return outs


def range_index(I, st, inst, vals, dty, sp, tys):
    """v[a..b]: the part of the collection that starts at a"""
    root, proj, c, off = slice_at(I, st, vals[0])
    length = slice_len(I, st, vals[0]) if inst['d'].startswith('core') else I.length(c, None)
    kind = (I.T.path(tys[1]) or '').rsplit('::', 1)[1:]
    kind = kind[0] if kind else None
    r = vals[1]
    lo, hi = C(0), length
    if kind in ('RangeFrom', 'Range', 'RangeTo'):
        fs = [I.num(I.simp(st, I.getf(r, tys[1], None, i))) for i in range(I.T.nfields(tys[1], None))]
        if None in fs:
            raise Bug('index by a range of unknown bounds')
        if kind == 'RangeTo':
            hi = fs[0]
        else:
            lo = fs[0]
            hi = fs[1] if kind == 'Range' else hi
    elif kind != 'RangeFull':
        raise Bug('index by %s' % I.T.name(tys[1]))
    ev = []
    for cond in (ge0(sub(hi, lo)), ge0(sub(length, hi))):
        d = decide(cond, st.F)
        if d == 1:
            continue
        if d == 0:
            return [(st, 'panic', [I.event(st, sp, k='panic', what='range index')])]
        ev.append(I.event(st, sp, k='maypanic', what='range index', cond=cond))
        F = assume(cond, 1, st.F)
        if F is None:
            return [(st, 'panic', [I.event(st, sp, k='panic', what='range index')])]
        st.F = F
    off = add(off, lo)
    if off != C(0):
        proj = proj + (('off', off),)
    return [(st, ('r', root, proj, sub(hi, lo)), ev)]


@pattern(r'^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$|^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$')
def vec_index(I, st, inst, vals, dty, sp, tys):
    n = I.num(I.simp(st, vals[1]))
    if n is None or I.T.kind(tys[1]) != 'int':
        return range_index(I, st, inst, vals, dty, sp, tys)
    root, proj, c, off = slice_at(I, st, vals[0])
    ety = I.T[dty]['to']
    length = slice_len(I, st, vals[0]) if inst['d'].startswith('core') else I.length(c, None)
    length, n = add(length, off), add(n, off)
    outs = []
    for s, t in resolve_index(I, st, c, n):
        cond = ge0(sub(length, add(t, C(1))))
        d = decide(cond, s.F)
        ev = []
        if d is None:
            ev.append(I.event(s, sp, k='maypanic', what='bounds', cond=cond, index=t, on=path_of(I, root, proj)))
            F = assume(cond, 1, s.F)
            if F is None:
                continue
            s.F = F
        if d == 0:
            outs.append((s, 'panic', [I.event(s, sp, k='panic', what='bounds')]))
            continue
        ev.append(I.event(s, sp, k='coll', op='index', on=path_of(I, root, proj), place=(root, proj), index=t))
        outs.append((s, ('r', root, proj + (('ix', t, ety),), None), ev))
    return outs


@pattern(r'^core::slice::<impl \[T\]>::(get|get_mut|first|first_mut|last|last_mut|get_unchecked|get_unchecked_mut)$')
def slice_get(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    root, proj, c, off = slice_at(I, st, vals[0])
    length = slice_len(I, st, vals[0])
    if op.startswith('get'):
        if I.T.kind(tys[1]) != 'int':
            return None
        n = I.num(I.simp(st, vals[1]))
    elif op.startswith('first'):
        n = C(0)
    else:
        n = add(length, C(-1))
    n = add(n, off)
    rt = dty if 'unchecked' in op else I.T.field(dty, 1, 0)
    ety = I.T[rt]['to']
    outs = []
    cond = ge0(sub(add(length, off), add(n, C(1))))
    if not op.startswith('get'):
        cond = ge0(add(length, C(-1)))
    for v in ((1,) if 'unchecked' in op else (1, 0)):
        s = st.copy()
        F = assume(cond, v, s.F)
        if F is None:
            continue
        s.F = F
        if v == 0:
            outs.append((s, NONE, [I.event(s, sp, k='coll', op='get', on=path_of(I, root, proj), place=(root, proj), index=n, out='none')]))
            continue
        for s2, t in resolve_index(I, s, c, n):
            r = ('r', root, proj + (('ix', t, ety),), None)
            outs.append((s2, r if 'unchecked' in op else some(r),
                         [I.event(s2, sp, k='coll', op='get', on=path_of(I, root, proj), place=(root, proj), index=t, out='some')]))
    return outs


@pattern(r'^core::slice::<impl \[T\]>::swap$')
def slice_swap(I, st, inst, vals, dty, sp, tys):
    root, proj, c, off = slice_at(I, st, vals[0])
    length = add(slice_len(I, st, vals[0]), off)
    ety = inst['a'][0]
    a, b = (add(I.num(I.simp(st, v)), off) for v in vals[1:3])
    outs = []
    for s0, ta in resolve_index(I, st, c, a):
        for s, tb in resolve_index(I, s0, c, b):
            ev = []
            dead = False
            for t in (ta, tb):
                cond = ge0(sub(length, add(t, C(1))))
                d = decide(cond, s.F)
                if d is None:
                    ev.append(I.event(s, sp, k='maypanic', what='bounds', cond=cond, index=t, on=path_of(I, root, proj)))
                    F = assume(cond, 1, s.F)
                    d = 0 if F is None else 1
                    s.F = F if F is not None else s.F
                if d == 0:
                    outs.append((s, 'panic', [I.event(s, sp, k='panic', what='bounds')]))
                    dead = True
                    break
            if dead:
                continue
            if c[0] != 'coll':
                raise Bug('swap on %r' % (c[0],))
            for v in (1, 0):
                s2 = s.copy()
                F = assume(eq0(sub(ta, tb)), v, s2.F)
                if F is None:
                    continue
                s2.F = F
                if v == 0:
                    x, y = I.index_get(s2, c, ta, ety), I.index_get(s2, c, tb, ety)
                    ov = tuple(e for e in c[3] if e[0] not in (ta, tb)) + ((ta, y), (tb, x))
                    I.write(s2, root, proj, ('coll', c[1], c[2], ov, c[4], c[5]))
                outs.append((s2, UNIT, ev + [I.event(s2, sp, k='coll', op='swap', on=path_of(I, root, proj),
                                                     place=(root, proj), index=ta, other=tb)]))
    return outs


@pattern(r'^std::vec::Vec::<T, A>::(swap_remove|remove|pop)$')
def vec_remove(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    root, proj, c = coll_at(I, st, vals[0])
    if c[0] != 'coll':
        raise Bug('%s on %r' % (op, c[0]))
    ety = inst['a'][0]
    n = c[4]
    outs = []
    if op == 'pop':
        cond = ge0(add(n, C(-1)))
        for v in (1, 0):
            s = st.copy()
            F = assume(cond, v, s.F)
            if F is None:
                continue
            s.F = F
            if v == 0:
                outs.append((s, NONE))
                continue
            x = I.index_get(s, c, add(n, C(-1)), ety)
            ov = tuple(e for e in c[3] if e[0] != add(n, C(-1)))
            I.write(s, root, proj, ('coll', c[1], c[2], ov, add(n, C(-1)), c[5]))
            outs.append((s, some(x), [I.event(s, sp, k='coll', op='pop', on=path_of(I, root, proj), place=(root, proj))]))
        return outs
    t0 = I.num(I.simp(st, vals[1]))
    for s, t in resolve_index(I, st, c, t0):
        cond = ge0(sub(n, add(t, C(1))))
        ev = []
        d = decide(cond, s.F)
        if d == 0:
            outs.append((s, 'panic', [I.event(s, sp, k='panic', what='bounds')]))
            continue
        if d is None:
            ev.append(I.event(s, sp, k='maypanic', what='bounds', cond=cond, index=t, on=path_of(I, root, proj)))
            s.F = assume(cond, 1, s.F)
        x = I.index_get(s, c, t, ety)
        last = add(n, C(-1))
        ev.append(I.event(s, sp, k='coll', op=op, on=path_of(I, root, proj), place=(root, proj), index=t, value=x,
                          len=n))
        if op == 'swap_remove':
            for v in (1, 0):
                s2 = s.copy()
                F = assume(eq0(sub(last, t)), v, s2.F)
                if F is None:
                    continue
                s2.F = F
                if v == 1:
                    ov = tuple(e for e in c[3] if e[0] not in (t, last))
                    nc = ('coll', c[1], c[2], ov, last, c[5])
                else:
                    lv = I.index_get(s2, c, last, ety)
                    ov = tuple(e for e in c[3] if e[0] not in (t, last)) + ((t, lv),)
                    nc = ('coll', c[1], c[2], ov, last, c[5])
                I.write(s2, root, proj, nc)
                outs.append((s2, x, ev))
        else:
            b = c[2]
            while b[0] in ('hv', 'shift'):
                b = b[1]
            I.write(s, root, proj, ('coll', c[1], ('shift', b, I.fresh(s, 'shifted', None)), (), last, c[5]))
            outs.append((s, x, ev))
    return outs


@pattern(r'^std::vec::Vec::<T, A>::(spare_capacity_mut|as_mut_ptr|as_ptr)$|^core::slice::<impl \[T\]>::as_(mut_)?ptr$')
def vec_spare(I, st, inst, vals, dty, sp, tys):
    root, proj, c = coll_at(I, st, vals[0])
    return [(st, ('r', root, proj, None))]


@pattern(r'^std::vec::Vec::<T, A>::(insert|append|extend_from_slice|retain|retain_mut|drain|dedup\w*|resize|split_off|extend)$|^<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$|^std::collections::(Hash|BTree)(Map|Set)::<.*>::(retain|drain|extract_if|reserve|shrink_to_fit)$')
def coll_havoc(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    if op in ('reserve', 'shrink_to_fit'):
        return [(st, UNIT)]
    if op in ('extend', 'retain', 'retain_mut', 'drain', 'extract_if'):
        raise Bug('%s is not modelled' % inst['d'])
    root, proj, c = coll_at(I, st, vals[0])
    a = I.fresh(st, 'havoc', None)
    cap = ('capof', a)
    n = ('lenof', a)
    if c[0] == 'coll':
        if op.startswith('dedup') or op == 'split_off':
            cap = c[5]
            st.F[('ge', sub(c[4], n))] = 1
        else:
            st.F[('ge', sub(cap, c[5]))] = 1
            st.F[('ge', sub(cap, n))] = 1
            if op == 'insert':
                n = add(c[4], C(1))
                st.F[('ge', sub(cap, n))] = 1
    I.write(st, root, proj, ('coll', 'vec', a, (), n, cap))
    return [(st, UNIT if dty is None else I.canon(I.fresh(st, op, dty, ('r',)), dty),
             [I.event(st, sp, k='coll', op=op, on=path_of(I, root, proj), place=(root, proj),
                      args=tuple(vals[1:]))])]


# vec![..] support
@pattern(r'^std::boxed::Box::<T>::(new_uninit|new)$')
def box_new(I, st, inst, vals, dty, sp, tys):
    cty = I.T[dty]['a'][0] if I.T.path(dty) == 'std::boxed::Box' else inst['a'][0]
    a = I.fresh(st, 'box', cty)
    root = ('O', a, cty)
    if inst['d'].endswith('::new'):
        st.mem[root] = vals[0]
    else:
        st.mem[root] = ('un', None)
    return [(st, ('box', root))]


@pattern(r'^std::boxed::box_assume_init_into_vec_unsafe$|^std::slice::<impl \[T\]>::into_vec$|^alloc::slice::<impl \[T\]>::into_vec$|^core::slice::<impl \[T\]>::into_vec$')
def box_into_vec(I, st, inst, vals, dty, sp, tys):
    v = vals[0]
    while v[0] == 'a' and len(v[2]) >= 1:
        v = v[2][0]
    if v[0] == 'r':
        root, proj = v[1], v[2]
    elif v[0] == 'box':
        root, proj = v[1], ()
    else:
        raise Bug('vec! from %r' % (v[0],))
    x = I.read(st, root, proj)
    ty = I.root_ty(st, root)
    while ty is not None and I.T.kind(ty) == 'adt':
        # MaybeUninit / ManuallyDrop around the array
        if x[0] == 'union':
            x, ty = x[2], I.T.field(ty, None, x[1])
        elif x[0] == 'a' and len(x[2]) == 1:
            x, ty = x[2][0], I.T.field(ty, None, 0)
        else:
            break
    n = [a for a in inst['a'] if isinstance(a, dict)]
    elems = x[2] if x[0] == 'a' else None
    if elems is None:
        raise Bug('vec! of unknown contents %r from %r' % (x, v))
    if n and 'c' in n[0] and len(elems) != n[0]['c']:
        raise Bug('vec! length mismatch')
    ov = tuple((C(i), e) for i, e in enumerate(elems))
    cap = ('capof', I.fresh(st, 'veccap', None))
    st.F[('ge', add(cap, C(-len(elems))))] = 1
    return [(st, ('coll', 'vec', ('empty',), ov, C(len(elems)), cap))]


# maps

@pattern(r'^std::collections::(Hash|BTree)(Map|Set)::<.*>::(new|with_capacity)$|^<std::collections::(Hash|BTree)(Map|Set)<.*> as std::default::Default>::default$')
def map_new(I, st, inst, vals, dty, sp, tys):
    return [(st, ('coll', 'map', ('empty',), (), C(0), C(0)))]


def map_lookup(I, st, c, key):
    """-> list of (state, present, addressing key)"""
    outs = []
    todo = [(st, key)]
    for s, t in resolve_index(I, st, c, key):
        hit = None
        for k, x in reversed(c[3]):
            if k == t:
                hit = (x is not None)
                break
        if hit is not None:
            outs.append((s, hit, t))
            continue
        if c[2] == ('empty',):
            outs.append((s, False, t))
            continue
        term = ('has', c[2], t)
        for v in (1, 0):
            s2 = s.copy()
            F = assume(term, v, s2.F)
            if F is None:
                continue
            s2.F = F
            outs.append((s2, bool(v), t))
    return outs


def map_common(I, st, vals):
    root, proj, c = coll_at(I, st, vals[0])
    if c[0] != 'coll':
        raise Bug('map operation on %r' % (c[0],))
    k = vals[1]
    k = pointee(I, st, k)
    n = I.num(I.simp(st, k)) or k
    return root, proj, c, n


@pattern(r'^std::collections::(Hash|BTree)Map::<.*>::(contains_key|get|get_mut|get_key_value)$|^<std::collections::(Hash|BTree)Map<.*> as std::ops::Index<.*>>::index$')
def map_get(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    root, proj, c, key = map_common(I, st, vals)
    outs = []
    for s, present, t in map_lookup(I, st, c, key):
        ev = [I.event(s, sp, k='coll', op=op, on=path_of(I, root, proj), place=(root, proj), key=t,
                      out='some' if present else 'none')]
        if op == 'contains_key':
            outs.append((s, C(present), ev))
        elif op == 'index':
            if present:
                outs.append((s, ('r', root, proj + (('ix', t, I.T[dty]['to']),), None), ev))
            else:
                outs.append((s, 'panic', ev + [I.event(s, sp, k='panic', what='missing key', cond=None)]))
        elif not present:
            outs.append((s, NONE, ev))
        else:
            if op == 'get_key_value':
                raise Bug('get_key_value is not modelled')
            vty = I.T[I.T.field(dty, 1, 0)]['to']
            outs.append((s, some(('r', root, proj + (('ix', t, vty),), None)), ev))
    return outs


@pattern(r'^std::collections::(Hash|BTree)Map::<.*>::insert$')
def map_insert(I, st, inst, vals, dty, sp, tys):
    root, proj, c, key = map_common(I, st, vals)
    outs = []
    vty = I.T.field(dty, 1, 0)
    for s, present, t in map_lookup(I, st, c, key):
        old = I.index_get(s, c, t, vty) if present else None
        ov = tuple(e for e in c[3] if e[0] != t) + ((t, vals[2]),)
        n = c[4] if present else add(c[4], C(1))
        I.write(s, root, proj, ('coll', c[1], c[2], ov, n, c[5]))
        ev = [I.event(s, sp, k='coll', op='insert', on=path_of(I, root, proj), place=(root, proj), key=t,
                      value=vals[2], replaced=present)]
        outs.append((s, some(old) if present else NONE, ev))
    return outs


@pattern(r'^std::collections::(Hash|BTree)Map::<.*>::(remove|remove_entry)$')
def map_remove(I, st, inst, vals, dty, sp, tys):
    root, proj, c, key = map_common(I, st, vals)
    outs = []
    vty = I.T.field(dty, 1, 0)
    for s, present, t in map_lookup(I, st, c, key):
        ev = [I.event(s, sp, k='coll', op='remove', on=path_of(I, root, proj), place=(root, proj), key=t,
                      out='some' if present else 'none')]
        if present:
            x = I.index_get(s, c, t, vty)
            ov = tuple(e for e in c[3] if e[0] != t) + ((t, None),)
            I.write(s, root, proj, ('coll', c[1], c[2], ov, add(c[4], C(-1)), c[5]))
            outs.append((s, some(x), ev))
        else:
            outs.append((s, NONE, ev))
    return outs


@pattern(r'^std::collections::(Hash|BTree)Set::<.*>::(insert|remove|contains)$')
def set_op(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    root, proj, c, key = map_common(I, st, vals)
    outs = []
    for s, present, t in map_lookup(I, st, c, key):
        if op == 'contains':
            outs.append((s, C(present), [I.event(s, sp, k='coll', op='contains_key', on=path_of(I, root, proj),
                                                 place=(root, proj), key=t, out='some' if present else 'none')]))
            continue
        put = op == 'insert'
        if present != put:
            ov = tuple(e for e in c[3] if e[0] != t) + ((t, UNIT if put else None),)
            I.write(s, root, proj, ('coll', c[1], c[2], ov, add(c[4], C(1 if put else -1)), c[5]))
        outs.append((s, C(present != put), [I.event(s, sp, k='coll', op=op, on=path_of(I, root, proj),
                                                   place=(root, proj), key=t, value=UNIT, replaced=present,
                                                   out='some' if present else 'none')]))
    return outs


@pattern(r'^std::collections::(Hash|BTree)Map::<.*>::entry$')
def map_entry(I, st, inst, vals, dty, sp, tys):
    root, proj, c, key = map_common(I, st, vals)
    vs = {v['n']: i for i, v in enumerate(I.T[dty]['v'])}
    outs = []
    for s, present, t in map_lookup(I, st, c, key):
        outs.append((s, ('a', vs['Occupied' if present else 'Vacant'], (('ent', root, proj, t, vals[1]),)),
                     [I.event(s, sp, k='coll', op='get', on=path_of(I, root, proj), place=(root, proj), key=t,
                              out='some' if present else 'none')]))
    return outs


@pattern(r"^std::collections::(hash_map|btree_map)::(Occupied|Vacant)Entry::<.*>::(get|get_mut|into_mut|insert|insert_entry|remove|remove_entry|key|into_key)$")
def map_entry_op(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    v = vals[0]
    if I.T.kind(tys[0]) in ('ref', 'ptr'):
        r, p, _ = I.deref(st, v)
        v = I.read(st, r, p)
    if v[0] != 'ent':
        raise Bug('map entry of unknown origin %r' % (v[0],))
    _, root, proj, t, kv = v
    c = I.read(st, root, proj)
    path = path_of(I, root, proj)
    if op == 'key':
        return [(st, ('r', ('K', t), (), None))]
    if op == 'into_key':
        return [(st, kv)]
    vty = [a for a in inst['a'] if isinstance(a, int)][1]
    if op in ('get', 'get_mut', 'into_mut'):
        return [(st, ('r', root, proj + (('ix', t, vty),), None),
                 [I.event(st, sp, k='coll', op='get_mut', on=path, place=(root, proj), key=t, out='some')])]
    present = 'OccupiedEntry' in inst['d']
    old = I.index_get(st, c, t, vty) if present else None
    rest = tuple(e for e in c[3] if e[0] != t)
    if op in ('insert', 'insert_entry'):
        n = c[4] if present else add(c[4], C(1))
        I.write(st, root, proj, ('coll', c[1], c[2], rest + ((t, vals[1]),), n, c[5]))
        ev = [I.event(st, sp, k='coll', op='insert', on=path, place=(root, proj), key=t, value=vals[1], replaced=present)]
        if op == 'insert_entry':
            return [(st, v, ev)]
        return [(st, old if present else ('r', root, proj + (('ix', t, vty),), None), ev)]
    I.write(st, root, proj, ('coll', c[1], c[2], rest + ((t, None),), add(c[4], C(-1)), c[5]))
    ev = [I.event(st, sp, k='coll', op='remove', on=path, place=(root, proj), key=t, out='some')]
    return [(st, old if op == 'remove' else ('a', None, (kv, old)), ev)]


# ---- iteration ------------------------------------------------------------------------------

@pattern(r'^core::slice::<impl \[T\]>::(iter|iter_mut)$')
def slice_iter(I, st, inst, vals, dty, sp, tys):
    root, proj, c, off = slice_at(I, st, vals[0])
    if (off != C(0) or c[0] == 'coll') and decide(
            eq0(sub(add(off, slice_len(I, st, vals[0])), I.length(c, None))), st.F) != 1:
        raise Bug('iteration over the front part of a collection')
    return mk_iter(I, st, root, proj, 'ref', inst['a'][0], sp, off)


@pattern(r"^<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|^core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$")
def ref_into_iter(I, st, inst, vals, dty, sp, tys):
    return slice_iter(I, st, inst, vals, dty, sp, tys)


@pattern(r'^std::collections::(Hash|BTree)Map::<.*>::(values|values_mut|keys|iter|iter_mut)$|^<&.* std::collections::(Hash|BTree)Map<.*> as std::iter::IntoIterator>::into_iter$')
def map_iter(I, st, inst, vals, dty, sp, tys):
    op = inst['d'].rsplit('::', 1)[1]
    root, proj, c = coll_at(I, st, vals[0])
    mode = {'values': 'ref', 'values_mut': 'ref', 'keys': 'key', 'iter': 'pair', 'iter_mut': 'pair',
            'into_iter': 'pair'}[op]
    return mk_iter(I, st, root, proj, mode, inst['a'][1], sp)


def mk_iter(I, st, root, proj, mode, ety, sp, start=C(0)):
    c = I.read(st, root, proj)
    if start == C(0) and c[0] == 'a' and len(c[2]) <= 8 and mode == 'ref' and not any(e[0] == 'ix' and e[1][0] != 'c' for e in proj):
        # a small array: its elements in order
        return [(st, ('ita', root, proj, ety, 0, len(c[2])))]
    h = I.hooks.get('iter')
    if h:
        h(I, st, root, proj)
    return [(st, ('it', root, proj, mode, ety, start),
             [I.event(st, sp, k='iter', on=path_of(I, root, proj), place=(root, proj), mode=mode, start=start)])]


@pattern(r'^std::iter::Iterator::skip$')
def iter_skip(I, st, inst, vals, dty, sp, tys):
    it = vals[0]
    if it[0] != 'it' or it[3] != 'ref':
        return None
    n = I.num(I.simp(st, vals[1]))
    if n is None:
        return None
    it = it[:5] + (add(it[5], n),)
    return [(st, ('a', None, (it, C(0))),
             [I.event(st, sp, k='iter', on=path_of(I, it[1], it[2]), place=(it[1], it[2]), mode='ref', start=it[5])])]


@pattern(r'^<(std::slice::Iter(Mut)?|std::collections::(hash|btree)_map::(Values|ValuesMut|Keys|Iter|IterMut))<.*> as std::iter::(Iterator>::next|DoubleEndedIterator>::next_back)$')
def iter_next(I, st, inst, vals, dty, sp, tys):
    itr, itp, _ = I.deref(st, vals[0])
    it = I.read(st, itr, itp)
    if it[0] == 'ita':
        _, root, proj, ety, i, n = it
        if inst['d'].endswith('back'):
            n -= 1
            j = n
        else:
            j = i
            i += 1
        if j >= it[5] or j < it[4]:
            return [(st, NONE)]
        I.write(st, itr, itp, ('ita', root, proj, ety, i, n))
        return [(st, some(('r', root, proj + (('ix', C(j), ety),), None)))]
    if it[0] != 'it':
        raise Bug('iteration over an unknown iterator %r' % (it[0],))
    _, root, proj, mode, ety, start = it
    c = I.read(st, root, proj)
    path = path_of(I, root, proj)
    outs = []
    s0 = st.copy()
    h = I.hooks.get('iterend')
    if h:
        h(I, s0, root, proj)
    if c[0] == 'coll' and c[4] == C(0):
        return [(s0, NONE, [I.event(s0, sp, k='next', on=path, place=(root, proj), out='none')])]
    outs.append((s0, NONE, [I.event(s0, sp, k='next', on=path, place=(root, proj), out='none')]))
    ismap = c[0] == 'coll' and c[1] == 'map'
    kty = None
    if ismap:
        kty = tykey(I)
    else:
        kty = usize_ty(I)
    a = I.fresh(st, 'iterkey' if ismap else 'iterix', kty)
    c = I.read(st, root, proj)   # ageing may have folded it
    if not ismap:
        st.F[('b', a)] = (0, INF)
        if c[0] == 'coll':
            st.F[('ge', sub(c[4], add(a, C(1))))] = 1
        if start != C(0):
            if start[0] == 'c':
                st.F[('b', a)] = (start[1], INF)
            else:
                st.F[('ge', sub(a, start))] = 1
    else:
        st.F[('eq', ('has', c[2], a))] = 1
    for s, t in resolve_index(I, st, c, a):
        ref = ('r', root, proj + (('ix', t, ety),), None)
        if mode == 'ref':
            v = ref
        elif mode == 'key':
            v = ('r', ('K', t), (), None)
        else:
            v = ('a', None, (('r', ('K', t), (), None), ref))
        h = I.hooks.get('next')
        more = h(I, s, root, proj, t, ety, v) if h else [(s, v)]
        for s2, v2 in more:
            outs.append((s2, some(v2), [I.event(s2, sp, k='next', on=path, place=(root, proj), out='some', index=t)]))
    return outs


def usize_ty(I):
    for i, t in enumerate(I.T.t):
        if t['k'] == 'int' and t['n'] == 'usize':
            return i


def tykey(I):
    for i, t in enumerate(I.T.t):
        if t['k'] == 'int' and t['n'] == 'i32':
            return i


# ---- tracing and formatting: disabled -----------------------------------------------------------

@pattern(r'tracing_core::metadata::Level as std::cmp::PartialOrd<tracing_core::metadata::LevelFilter>>::le')
def level_le(I, st, inst, vals, dty, sp, tys):
    return [(st, FALSE)]


@pattern(r'^tracing|^<tracing|^std::fmt|^core::fmt|^<std::string::String as|^std::string::String|^alloc::fmt|^std::ops::Deref::deref$|^<.* as std::fmt::(Debug|Display)>::fmt$')
def opaque(I, st, inst, vals, dty, sp, tys):
    if inst['d'] == 'std::ops::Deref::deref':
        return None
    if dty is not None and I.T.kind(dty) == 'bool':
        return [(st, FALSE)]
    return [(st, I.canon(('op', 'opaque', dty, ()), dty) if dty is not None else UNIT)]


# ---- panics -----------------------------------------------------------------------------------------

@pattern(r'^(core|std)::panicking::|^std::rt::(begin_)?panic|^core::option::|^std::option::(unwrap|expect)_failed|^std::result::unwrap_failed|^std::process::(abort|exit)')
def panics(I, st, inst, vals, dty, sp, tys):
    if inst['d'].startswith('core::option::') and not inst['d'].endswith('failed'):
        return None
    return [(st, 'panic', [I.event(st, sp, k='panic', what=inst['d'].rsplit('::', 1)[1])])]


@pattern(r'precondition_check$')
def precond(I, st, inst, vals, dty, sp, tys):
    return [(st, UNIT)]
