'''Sum-of-products forms of all small fitted expressions against the fitted kernel and the distribution of products and changes over sums.'''
import itertools
from mc.bridge import *
from mc import ref
from mc.fitting import fitted

LEVEL = 'model_checking'
RULE = 'all normal forms within the bounds, fitted (through GPModel with the optimiser replaced) to all-distinct generic parameters; a state is an expression with its parameters, a transition a step to its expanded form or a covariance evaluation of it; the form is compared with an independent expansion of the term, its covariance (evaluated by independent code from the components\' own parameters) with that of the fitted kernel'
def bounds(tier): return dict(quick = 'normal forms with <= 3 leaves over the 5 base kernels, with 4 leaves over LIN and PER under + and *, and over LIN under +, * and CP; products of two 2-leaf sums or changes over the 5 base kernels',
    thorough = 'as quick, two parameter assignments, with 4 leaves over LIN, WN, SE, and with 5 leaves over LIN under +, *, CP')[tier] + f'; {thin_bounds(tier)} (of at most 40 components)'
ASSUMPTIONS = ['the expanded form is analytic in the parameters: agreement at generic, all-distinct values distinguishes any misattribution']
SIG = ('S', 'Sr', 'SI', 'SIr')

def cases(tier):
    terms = list(normal_terms(3))
    terms += normal_terms(4, ('LIN', 'PER'), ('+', '*')) + normal_terms(4, ('LIN',), ('+', '*', 'CP'))
    pairs = [t for t in normal_terms(2) if not isinstance(t, str) and t[0] in ('+', 'CP')]
    terms += [nf(('*', c)) for c in itertools.combinations_with_replacement(pairs, 2)]
    if tier == 'thorough': terms += normal_terms(4, ('LIN', 'WN', 'SE')) + normal_terms(5, ('LIN',), ('+', '*', 'CP'))
    terms += [t for t in thin_terms(*THIN[tier]) if len(components(t)) <= 40]
    for t in dict.fromkeys(terms): yield [t, 1 if tier == 'quick' else 2]

def simplify_factors(fs):
    if 'WN' in fs: fs = [f for f in fs if f == 'LIN' or f in SIG] + ['WN']
    else:
        rest = [f for f in fs if f != 'C']
        if 'C' in fs: fs = rest + ([] if [f for f in rest if f not in SIG] else ['C'])
        if 'SE' in fs: fs = [f for f in fs if f != 'SE'] + ['SE']
    return sorted(fs)
def components(t):
    if isinstance(t, str): return [[t]]
    if t[0] == '+': return [c for k in t[1] for c in components(k)]
    if t[0] == '*': return [simplify_factors([f for c in combo for f in c]) for combo in itertools.product(*map(components, t[1]))]
    l, r = ('Sr', 'S') if t[0] == 'CP' else ('SIr', 'SI')
    return [simplify_factors(c + [s]) for k, s in ((t[1], l), (t[2], r)) for c in components(k)]

SIG_PARAMS = dict(S = {'location'}, Sr = {'location'}, SI = {'location', 'width'}, SIr = {'location', 'width'})
def shape_ok(c, t):
    fs = sorted(c.base_terms.elements())
    ps = {b: l for b, l in c.parameters.items() if l}
    require(set(ps) == set(fs) | {'ProductKE'}, lambda: f'a component of {show(t)} with factors {fs} has parameters for {sorted(ps)}')
    require(len(ps['ProductKE']) == 1 and set(ps['ProductKE'][0]) == {'variance'}, lambda: f'a component of {show(t)} has variances {ps["ProductKE"]}')
    for b in set(fs):
        require(len(ps[b]) == c.base_terms[b], lambda: f'a component of {show(t)} has {c.base_terms[b]} {b} factors but {len(ps[b])} sets of parameters for them')
        for one in ps[b]:
            wants = [SIG_PARAMS[b]] if b in SIG else [set(ref.own_params(b)) - {'variance'}]
            require(set(one) in wants, lambda: f'a component of {show(t)} has parameters {one} for a {b}')
    return fs

def check(case):
    t = T(case[0]); n = 0
    for which in range(case[1]):
        k = build(t); raw = term(k)
        m = fitted(k, which = which)
        p0 = m.model.param_array.copy(); K = m.model.kern.K(ref.X7); K2 = m.model.kern.K(ref.X7, ref.Y5)
        s = m.sum_of_prods_kex
        require(type(s) is SumKE and not +s.base_terms, lambda: f'the expanded form of {show(t)} is {s!r}')
        got = []
        for c in s.composite_terms:
            require(type(c) is ProductKE and not c.composite_terms, lambda: f'the expanded form of {show(t)} has the component {c!r}')
            got.append(shape_ok(c, t))
        want = components(t)
        require(sorted(got) == sorted(want), lambda: f'the expanded form of {show(t)} has components {sorted(got)} rather than {sorted(want)}')
        for X, Y, Kf in ((ref.X7, ref.X7, K), (ref.X7, ref.Y5, K2)):
            tot = sum(ref.of_terms(c, [], X, Y) for c in s.composite_terms); n += 1
            require(ref.close(tot, Kf), lambda: f'the expanded form of {show(t)} is not the covariance of the fitted kernel (largest difference {np.max(np.abs(tot - Kf)):.3g})')
        require(m.kernel_expression is k and term(k) == raw and not any(l for nd in nodes(k) for l in nd.parameters.values()), lambda: f'expanding {show(t)} altered the expression of the model')
        require(np.array_equal(p0, m.model.param_array) and np.array_equal(K, m.model.kern.K(ref.X7)), lambda: f'expanding {show(t)} altered the fitted parameters')
        before = repr([(sorted(c.base_terms.items()), dict(c.parameters)) for c in s.composite_terms])
        m.interpret(); again = m.sum_of_prods_kex
        require(before == repr([(sorted(c.base_terms.items()), dict(c.parameters)) for c in again.composite_terms]), lambda: f'the expanded form of {show(t)} changes when interpreted or asked for again')
    return dict(evaluations = n, transitions = n, distinct = [show(t)], sample = f'{show(t)} -> {" + ".join("*".join(c) for c in got)}')
