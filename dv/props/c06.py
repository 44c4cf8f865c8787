"""C06: every layer's dense operator is the documented product of its gates."""
from .layers import *
def expand(e, c, form):
    e.I.skip.add(f'{QL}{c}.U_expand')
    s = mk_layer(e, c, form)
    e.eq('U_expand', e.meth(s.o, 'U_expand'), spec(e, c, s.N, s.wl, s.at, s.rep))
def obligations(tier):
    obs = []
    for c, k in LAYERS.items():
        for form in (('tensor', 'list') if k else ('-',)):
            obs.append(Ob(f'{c}.U_expand' + (f' [{form} parameters]' if k else ''), expand, c, form))
    return obs
ASSUMPTIONS = ['the wires of a layer are distinct']
