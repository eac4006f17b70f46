"""Starting states for the exploration of each public operation.

The poller object is whatever `Poller::new` returns: its exploration yields every way in which
construction can succeed, and each of them becomes an alternative starting state for the other
operations.  Parameters are unconstrained value numbers named `in:<parameter>`.
"""
import interp
import models
from dom import *
from interp import Interp, State, Bug


class World:
    def __init__(self, prog, hooks=None):
        self.p = prog
        self.T = prog.types
        self.graphs = {}
        self.interps = {}
        self._pollers = None
        self.hooks = hooks or {}

    def interp(self):
        I = Interp(self.p, models)
        I.hooks = dict(self.hooks)
        return I

    def new_graph(self):
        g = self.graphs.get('poller_new')
        if g is None:
            I = self.interp()
            st = I.initial(self.p.root('poller_new'), [])
            g = I.explore([('new', st)])
            self.graphs['poller_new'] = g
            self.interps['poller_new'] = I
        return g

    def pollers(self):
        """[(label, value, facts)] for the distinct successful constructions"""
        if self._pollers is not None:
            return self._pollers
        g = self.new_graph()
        out = []
        seen = set()
        for n, (kind, v, st) in sorted(g.terminals.items()):
            if kind != 'return' or v[0] != 'a' or v[1] != 0:
                continue
            val = v[2][0]
            m = {}
            for a in sorted(atoms(val), key=repr):
                if a[0] == 'fd':
                    nm = 'poller:' + a[1]
                    k = sum(1 for x in m.values() if x[1].split('#')[0] == nm)
                    m[a] = ('fd', nm + ('#%d' % k if k else ''), 0, 0)
            val = subst(val, m)
            F = {}
            for k, x in st.F.items():
                at = atoms(k[1])
                if at and at <= set(m):
                    F[(k[0], subst(k[1], m))] = x
            key = (val, frozenset(F.items()))
            if key in seen:
                continue
            seen.add(key)
            label = '+'.join(sorted(a[1].split(':')[1] for a in atoms(val) if a[0] == 'fd')) or 'unit'
            out.append((label, val, F))
        if not out:
            raise Bug('Poller::new never succeeds')
        self._pollers = out
        return out

    def find_ty(self, pred):
        for i, t in enumerate(self.T.t):
            if pred(t):
                return i
        raise Bug('type missing')

    def start(self, root, name_args=None, values=None):
        """Interp and initial states for one entry point.  `values`: {parameter index: value}."""
        I = self.interp()
        inst = self.p.root(root)
        body = self.p.insts[inst]['body']
        tys = body['l'][1:body['n'] + 1]
        names = name_args or ['a%d' % i for i in range(len(tys))]
        inits = []
        alts = [('', None, {})]
        if any(self.is_poller(t) for t in tys):
            alts = self.pollers()
        for label, pv, pF in alts:
            mem = {}
            F = dict(pF)
            args = []
            for i, (t, nm) in enumerate(zip(tys, names)):
                if values and i in values:
                    args.append(values[i])
                    continue
                if self.is_poller(t):
                    tt = self.T[t]
                    if tt['k'] == 'ref':
                        r = ('O', 'poller', tt['to'])
                        mem[r] = pv
                        args.append(('r', r, (), None))
                        I.pinned_roots = I.pinned_roots | {'poller'}
                    else:
                        args.append(pv)
                    continue
                tt = self.T[t]
                if tt['k'] == 'ref':
                    r = ('O', 'in:' + nm, tt['to'])
                    s = ('s', 'in:' + nm, tt['to'], 0, 0)
                    mem[r] = I.canon(s, tt['to'])
                    I.pinned_roots = I.pinned_roots | {'in:' + nm}
                    args.append(('r', r, (), None))
                else:
                    s = ('s', 'in:' + nm, t, 0, 0)
                    args.append(I.canon(s, t))
            inits.append((label, I.initial(inst, args, mem, F)))
        return I, inits

    def is_poller(self, t):
        tt = self.T[t]
        if tt['k'] in ('ref', 'ptr'):
            tt = self.T[tt['to']]
        return tt['k'] == 'adt' and tt['p'] in ('polling::Poller', 'Poller') and tt.get('cr') in (None, 'polling')

    def graph(self, root, name_args=None):
        if root == 'poller_new':
            return self.new_graph()
        g = self.graphs.get(root)
        if g is None:
            I, inits = self.start(root, name_args)
            g = self.graphs[root] = I.explore(inits)
            self.interps[root] = I
        return g
