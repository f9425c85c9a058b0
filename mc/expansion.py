'''Reference: the components (with their parameters) of a fitted expression, by distributing products and changes over sums, from the parameters its nodes report.'''
import itertools, math
from GPy_ABCD.KernelExpressions.all import SumKE, ProductKE, ChangeKE

# A component is (variance, {base: [parameters without variance]}, [(sigmoid kind, location, width or None, slope)])
def one(b, ps):
    ps = {p: float(v) for p, v in ps.items()}
    return (ps.pop('variance', 1.), {b: [ps]}, [])

def times(*cs):
    v, fs, sg = 1., {}, []
    for cv, cf, cs_ in cs:
        v *= cv; sg = sg + cs_
        for b, l in cf.items(): fs[b] = fs.get(b, []) + l
    if 'WN' in fs: fs = {b: l for b, l in fs.items() if b in ('WN', 'LIN')}; fs['WN'] = [{}] # Zero of the stationary kernels
    else:
        if 'C' in fs: fs = {b: l for b, l in fs.items() if b != 'C'} or {'C': [{}]} # Identity
        if 'SE' in fs: fs['SE'] = [{'lengthscale': math.sqrt(1 / sum(p['lengthscale'] ** -2 for p in fs['SE']))}] # exp(-d^2/2 * sum of 1/l^2)
    return (v, fs, sg)

def components(k):
    if isinstance(k, SumKE): return [one(b, p) for b in k.base_terms for p in k.parameters[b]] + [c for ct in k.composite_terms for c in components(ct)]
    if isinstance(k, ProductKE):
        own = [one(b, p) for b in k.base_terms for p in k.parameters[b]] + [(float(p['variance']), {}, []) for p in k.parameters.get('ProductKE', [])]
        return [times(*own, *combo) for combo in itertools.product(*map(components, k.composite_terms))]
    out = []
    for branch, s in (('left', 'r'), ('right', '')):
        kex, p = getattr(k, branch), k.parameters[k.CP_or_CW][0]
        kids = [one(kex, k.parameters[(branch, kex)][0])] if isinstance(kex, str) else components(kex)
        sig = (('S' if k.CP_or_CW == 'CP' else 'SI') + s, float(p['location']), float(p['width']) if k.CP_or_CW == 'CW' else None, float(p.get('slope', 1.)))
        out += [times(c, (1., {}, [sig])) for c in kids]
    return out
