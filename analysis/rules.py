"""Rule framework: property automata run over the explored graphs, decision tables, reports."""
import collections
import os

import extract
import interp
import models
import world
from dom import *
from interp import Bug, Program, Ev


class Violation:
    def __init__(self, config, root, rule, where, msg, path=()):
        self.config, self.root, self.rule, self.where, self.msg, self.path = \
            config, root, rule, where, msg, tuple(path)

    @property
    def key(self):
        """Stable identification: no line numbers."""
        return '%s|%s|%s|%s' % (self.config, self.root, self.rule, self.where)


class Report:
    """What one property check analysed and found."""

    def __init__(self, prop):
        self.prop = prop
        self.obl = collections.OrderedDict()   # obligation kind -> count
        self.viol = []
        self.seen = set()
        self.graphs = {}
        self.functions = set()
        self.notes = []

    def ob(self, kind, n=1):
        self.obl[kind] = self.obl.get(kind, 0) + n

    def bad(self, cfg, root, rule, where, msg, path=()):
        v = Violation(cfg, root, rule, where, msg, path)
        if v.key not in self.seen:
            self.seen.add(v.key)
            self.viol.append(v)

    def require(self, kind, n=1):
        """Vacuity guard: a rule that met no obligation decides nothing."""
        if self.obl.get(kind, 0) < n and not self.viol:
            raise Bug('nothing to check for "%s" (found %d, need %d): the anchor has moved' % (
                kind, self.obl.get(kind, 0), n))


def harness_fn(name):
    """a function of the harness that plays the user, not one that stands for a library function"""
    return name.startswith('vharness::') and not name.startswith('vharness::shim::')


class Ctx:
    """One build configuration: its program and explored graphs."""

    def __init__(self, config, rep, dump=None, hooks=None):
        self.config = config
        self.rep = rep
        self.prog = Program(dump if dump is not None else extract.extract(config), config)
        self.T = self.prog.types
        self.world = world.World(self.prog, hooks)
        self.hooked = {}

    def activate(self):
        set_types(self.T)
        return self

    def roots(self):
        return [r.replace('vharness::', '', 1) for r in self.prog.roots]

    def has(self, root):
        return root in self.roots()

    def graph(self, root, hooks=None, hname=None):
        """Graph of one entry point, optionally with ghost state added by named hooks."""
        w = self.world
        if hooks:
            w = self.hooked.get(hname)
            if w is None:
                w = self.hooked[hname] = world.World(self.prog, hooks)
        g = w.graph(root)
        I = w.interps[root]
        self.note(root, g, I)
        return g

    def note(self, root, g, I):
        self.rep.graphs['%s:%s' % (self.config, root)] = (len(g.nodes), len(g.edges))
        for i in I.used:
            if self.prog.insts[i]['cr'] == 'polling':
                self.rep.functions.add(self.prog.insts[i]['d'])

    def field(self, ty, name):
        """(index, type) of a named field of a struct type"""
        for i, f in enumerate(self.T[ty]['v'][0]['f']):
            if f[0] == name:
                return i, f[1]
        raise Bug('field %s missing from %s' % (name, self.T.name(ty)))

    def param_ty(self, root, i):
        body = self.prog.insts[self.prog.root(root)]['body']
        t = body['l'][1 + i]
        while self.T.kind(t) in ('ref', 'ptr'):
            t = self.T[t]['to']
        return t

    def run(self, root, values=None, mem=None, facts=None, names=None, panics=False):
        """Explore an entry point on given argument values; -> [(facts, value, state)] of its
        normal returns.  Used to compose public operations (constructor, setter, accessor)."""
        I, inits = self.world.start(root, names, values)
        for _, st in inits:
            if mem:
                st.mem.update(mem)
                for r in mem:
                    if isinstance(r[1], str):
                        I.pinned_roots = I.pinned_roots | {r[1]}
            if facts:
                st.F.update(facts)
        g = I.explore(inits)
        self.note(root, g, I)
        out = []
        for n, (k, v, st) in sorted(g.terminals.items()):
            if k == 'return':
                out.append((dict(st.F), v, st))
            elif k == 'panic' and not panics:
                raise Bug('%s panics in composition' % root)
        if I.unmodelled:
            raise Bug('%s reaches unmodelled functions %s' % (root, sorted(I.unmodelled)))
        if not out:
            raise Bug('%s never returns' % root)
        return out


# ---- property automata ------------------------------------------------------------------

class Flow:
    """Forward product of a graph and a property automaton."""

    def __init__(self, ctx, root, g, q0, step):
        self.ctx, self.root, self.g, self.step = ctx, root, g, step
        self.parent = {}
        self.unknown_closures(g)
        self.cur = None
        start = (0, q0)
        self.parent[start] = None
        work = [start]
        while work:
            nq = work.pop()
            n, q = nq
            for e in g.out.get(n, ()):
                qs = [q]
                for i, evt in enumerate(e.ev):
                    self.cur = (nq, e, i)
                    nqs = []
                    for x in qs:
                        r = step(self, x, evt)
                        if r is None:
                            continue
                        for y in (r if isinstance(r, list) else [r]):
                            if y not in nqs:
                                nqs.append(y)
                    qs = nqs
                    if not qs:
                        break
                for x in qs:
                    k = (e.dst, x)
                    if k not in self.parent:
                        self.parent[k] = (nq, e)
                        work.append(k)

    def unknown_closures(self, g):
        pass

    def path(self):
        """Events from the entry point to the current one."""
        nq, e, i = self.cur
        segs = [list(e.ev[:i + 1])]
        while nq is not None:
            p = self.parent[nq]
            if p is None:
                break
            nq, e = p
            segs.append(list(e.ev))
        out = []
        for s in reversed(segs):
            for x in s:
                t = show(x)
                if t:
                    out.append(t)
        return out

    def path_events(self):
        nq, e, i = self.cur
        segs = [list(e.ev[:i + 1])]
        while nq is not None:
            p = self.parent[nq]
            if p is None:
                break
            nq, e = p
            segs.append(list(e.ev))
        return [x for s in reversed(segs) for x in s]

    def bad(self, rule, evt, msg):
        evs = self.path_events()
        unk = [x for x in evs if x.k == 'unknown' and not harness_fn(x.fn)]
        if unk:
            raise Bug('cannot decide %s: the path goes through %s, which is not modelled' % (
                rule, unk[0].name))
        fn = evt.fn if evt is not None else ''
        self.ctx.rep.bad(self.ctx.config, self.root, rule, fn, '%s at %s (%s)' % (
            msg, evt.loc if evt is not None else '?', fn), self.path())


def flow(ctx, root, g, q0, step):
    return Flow(ctx, root, g, q0, step)


def fdname(t):
    if t is None:
        return '?'
    if t[0] == 'fd':
        return t[1]
    return show_term(t)


def show_term(t, depth=4):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth == 0:
        return '..'
    k = t[0]
    if k == 'c':
        return str(t[1])
    if k == 's':
        return str(t[1])
    if k == 'fd':
        return t[1]
    if k == 'f':
        return '%s.%s' % (show_term(t[1], depth), t[3])
    if k == 'lin':
        return ' + '.join(([str(t[1])] if t[1] else []) + [
            ('%s*' % q if q != 1 else '') + show_term(x, depth - 1) for x, q in t[2]])
    if k == 'bits':
        return '0x%x | %s' % (t[1], ' | '.join('(%s & 0x%x)' % (show_term(x, depth - 1), m) for x, m in t[2]))
    if k == 'a':
        return '%s(%s)' % ('' if t[1] is None else 'v%d' % t[1], ', '.join(show_term(x, depth - 1) for x in t[2]))
    if k in ('op',):
        return '%s(%s)' % (t[1], ', '.join(show_term(x, depth - 1) for x in t[3]))
    return '%s(%s)' % (k, ', '.join(show_term(x, depth - 1) for x in t[1:] if isinstance(x, tuple)))


def show(x):
    k = x.k
    if k in ('assume', 'newmutex', 'newatomic', 'dropcoll', 'iter'):
        return None
    at = ' [%s %s]' % (x.fn, x.loc) if x.fn else ''
    if k == 'entry':
        return 'start: poller with %s' % x.label if x.label else 'start'
    if k == 'sys':
        d = '%s(%s) = %s' % (x.name, fdname(x.fd) if x.fd else '', x.out)
        if x.timeout is not None:
            d += ' timeout=' + show_term(x.timeout)
        if x.flags is not None:
            d += ' flags=' + show_term(x.flags)
        return d + at
    if k == 'atomic':
        return 'atomic %s %s old=%s new=%s%s%s' % (
            x.op, x.var, show_term(x.old) if x.old else '', show_term(x.new) if x.new else '',
            ' (%s)' % x.out if x.out else '', at)
    if k in ('lock', 'trylock', 'unlock'):
        return '%s %s %s%s' % (k, x.mutex, x.out or '', at)
    if k in ('cvwait', 'cvnotify'):
        return '%s %s%s' % (k, x.cv, at)
    if k == 'return':
        return 'return ' + show_term(x.value) + at
    if k == 'coll':
        return 'collection %s %s%s' % (x.op, x.on, at)
    return '%s %s%s' % (k, x.what or x.name or x.out or '', at)


# ---- values ---------------------------------------------------------------------------

def is_ok(v):
    """Result / Option-like variant: True for Ok, False for Err, None unknown"""
    if v[0] == 'a' and v[1] is not None:
        return v[1] == 0
    return None


def err_of(v):
    return v[2][0] if v[0] == 'a' and v[1] == 1 and v[2] else None


def err_kind(ctx, e, F=None):
    """name of the ErrorKind carried by an io::Error value, or None"""
    if e is None or e[0] != 'ioe':
        return None
    k = e[1]
    if k[0] == 'a':
        kty = models.ty_by_path(ctx.world.interp(), 'std::io::ErrorKind')
        return ctx.T[kty]['v'][k[1]]['n']
    return None


def peel_fd(t):
    """descriptor term without wrapper layers"""
    while isinstance(t, tuple) and t and t[0] in ('fdof',):
        t = t[1]
    return t


def param_root(t):
    """Name of the parameter a term was read from unchanged (through fields only), or None."""
    t = peel_fd(t)
    while t[0] in ('f', 'fdof'):
        t = t[1]
    if t[0] == 's' and isinstance(t[1], str) and t[1].startswith('in:'):
        return t[1][3:]
    return None


def flag_parts(t):
    b = bits(t)
    if b is None:
        raise Bug('flag value is not a bit set: %s' % show_term(t))
    return b


def tv(t, env, F=None):
    """Value of a term in one row of a decision table; fails closed."""
    x = ev(t, env)
    if x is None:
        raise Bug('decision table: no value for %s' % show_term(t, 8))
    return x
