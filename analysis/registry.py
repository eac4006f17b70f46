"""The properties and the rules that decide them."""
import extract
import p_registry
import p_wait
import p_events
import p_notify
import p_struct
import p_multi
import p_types
import spec


class Spec:
    def __init__(self, run, s, configs=None, kind='graph'):
        self.run, self.kind = run, kind
        self.rule, self.explanation, self.assumptions = s['rule'], s['explain'], s['assume']
        self._configs = configs

    def configs(self, tier):
        if self._configs:
            return self._configs(tier)
        return extract.HOST


PROPS = {}
for m in (p_registry, p_wait, p_events, p_notify, p_struct, p_multi):
    for n in dir(m):
        if n[0] == 'p' and n[1:].isdigit() and n.upper() not in PROPS:
            PROPS[n.upper()] = Spec(getattr(m, n), spec.P[n.upper()])

for n in ('P17', 'P18'):
    PROPS[n]._configs = lambda tier: ['poll']
PROPS['P26'] = Spec(p_types.p26, spec.P['P26'], lambda tier: list(p_types.CONFIGS), kind='types')
