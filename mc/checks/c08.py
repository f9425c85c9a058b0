'''Interpretations, read back by an independent parser, against the components they describe.'''
import itertools
from mc.bridge import *
from mc import ref, texts, expansion
from GPy_ABCD.KernelExpansion.kernelOperations import fit_ker_to_kex_with_params
from mc.driver import Violation
from mc.fitting import fitted
from GPy_ABCD.KernelExpansion.kernelInterpretation import base_factors_interpretation
from GPy_ABCD.KernelExpressions.all import ProductKE, SumKE
from mc.checks.c07 import components, SIG

LEVEL = 'model_checking'
RULE = 'interpretations of all fitted normal forms within the bounds (optimiser replaced, generic parameters), and of components with all combinations of factors and sigmoids within the bounds; each sentence is parsed back and compared with the parameters of the component (kinds, periods in decreasing order, lengthscales, order and roots, intervals by set membership, variance); a state is an expression or combination of factors, a transition the interpretation of one component'
def bounds(tier): return dict(quick = 'normal forms with <= 3 leaves over the 5 base kernels; with 4 leaves over LIN under CP and CW, and over LIN and PER under + and *; single components: PER^0..3 SE^0..1 LIN^0..3, WN LIN^0..3 and C, with every multiset of <= 2 sigmoids in every relative order of edges, and (<= 1 sigmoid) with parameters which are equal, equal as printed, tiny, huge or negative; PER^4..12 and LIN^4..12 with others, with parameters in four orders; 3 to 8 holes in five patterns, with another sigmoid at every place',
    thorough = 'as quick, with every multiset of <= 3 sigmoids, two assignments of parameters, 4 leaves over LIN, WN, SE')[tier] + f'; {thin_bounds(tier)} (of at most 12 components)'
ASSUMPTIONS = ['wording is free except for the phrases the parser looks for (the ones the code has always used)']
FITTED_SLOPES = False

def component_factors():
    for p in range(4):
        for s in range(2):
            for l in range(4):
                if p + s + l: yield ['PER'] * p + ['SE'] * s + ['LIN'] * l
    for l in range(4): yield ['WN'] + ['LIN'] * l
    yield ['C']

def cases(tier):
    terms = list(normal_terms(3)) + list(normal_terms(4, ('LIN',), ('CP', 'CW'))) + list(normal_terms(4, ('LIN', 'PER'), ('+', '*')))
    if tier == 'thorough': terms += normal_terms(4, ('LIN', 'WN', 'SE'))
    terms += [t for t in thin_terms(*THIN[tier]) if len(components(t)) <= 12]
    for t in dict.fromkeys(terms): yield ['expr', t, 1 if tier == 'quick' else 2]
    for fs in component_factors():
        for n in range(4 if tier == 'thorough' else 3): yield ['comp', fs, n]
        for v in range(1, len(VALUES) + 1):
            for n in (0, 1): yield ['comp', fs, n, v]
    for n in range(4, 13 if tier == 'quick' else 17):
        for b in ('PER', 'LIN'):
            for more in ([], ['SE'], ['LIN'] if b == 'PER' else ['PER'], ['LIN', 'LIN'] if b == 'PER' else ['PER', 'PER', 'SE']):
                for v in range(len(MANY)): yield ['comp', [b] * n + more, 0, -1 - v]
        yield ['comp', ['WN'] + ['LIN'] * n, 0, -1]
    for fs in (['PER'], ['SE', 'LIN'], ['WN']):
        for n in range(3, 9): yield ['holes', fs, n]

# Parameter i of n of as many factors: of different numbers of digits, in decreasing, increasing and in neither order, and all equal
MANY = [lambda i, n, p: (1.25 + i) * 3. ** i * (-1 if p == 'offset' and i % 2 else 1), lambda i, n, p: (.5 + n - i) * 2.5 ** (n - i), lambda i, n, p: .75 + (i * 7 + 3) % 17 * 1.3 * 10. ** (i % 3), lambda i, n, p: 2.5]

# Further parameters of the successive factors: all equal, equal as printed (and zeros of both signs, tiny and huge ones), increasing and decreasing ones
VALUES = [dict(period = (2., 2., 2.), lengthscale = (1., 1., 1.), offset = (0., 0., 0.), variance = 1.),
    dict(period = (3., 1., 3.), lengthscale = (.004, 12345.678, 2.), offset = (1., 2., 1.001), variance = 123456.789),
    dict(period = (1.001, 1.004, .996), lengthscale = (3., 2., 1.), offset = (-.001, .001, -1e4), variance = .0004),
    dict(period = (400., .01, 20.), lengthscale = (1., 2., 2.), offset = (-3.5, -3.5, 2.), variance = 2.)]

def check(case):
    kind = case[0]; n = 0
    if kind == 'expr':
        t = T(case[1])
        for which in range(case[2]):
            k = build(t); m = fitted(k, which = which); text = m.interpret(); n += check_text(text, m.sum_of_prods_kex, t)
            check_components(text, expansion.components(fit_ker_to_kex_with_params(m.model.kern, build(t))), t)
            require(text == m.interpret(), lambda: f'two interpretations of the same fitted {show(t)} differ')
            # The interpretation of a fitted expression is the same however it is asked for
            require(text == m.sum_of_prods_kex.get_interpretation(m.sum_of_prods_kex), lambda: f'interpret() and get_interpretation of {show(t)} differ')
        return dict(evaluations = n, transitions = n, distinct = [show(t)], sample = text)
    from mc.checks.c09 import collections
    fs, ns = case[1], case[2]
    values = VALUES[case[3] - 1] if len(case) > 3 and case[3] > 0 else None
    if values is None and len(case) > 3: values = {p: [MANY[-1 - case[3]](i, len(fs), p) for i in range(len(fs))] for p in ('period', 'lengthscale', 'offset')} | dict(variance = 3.456)
    if kind == 'holes': return many_intervals(fs, ns)
    for kinds in itertools.combinations_with_replacement(SIG, ns):
        colls = collections(kinds, 0, 1) if ns else [[]]
        for sigs in colls:
            for flip in (False, True) if ns else (False,):
                params = {'ProductKE': [{'variance': values['variance'] if values else 3.456 + ns}]}
                i = 0; factors = {}
                for f in fs:
                    own = {p: ref.PRIMES[i + j] * .77 * (-1 if p == 'offset' and i % 2 else 1) for j, p in enumerate(q for q in ref.own_params(f) if q != 'variance')}; i += 2
                    if values: own = {p: values[p][len(factors.get(f, []))] for p in own}
                    factors.setdefault(f, []).append(own)
                slopes = [(s[0], s[1], s[2], .5 + .25 * j) for j, s in enumerate(sigs)]
                sp = {}
                for s in slopes: sp.setdefault(s[0], []).append({'location': s[1], **({'width': s[2]} if s[2] is not None else {}), **({'slope': s[3]} if FITTED_SLOPES else {})})
                for d in ((sp, factors) if flip else (factors, sp)): params.update({k: [dict(p) for p in v] for k, v in (d.items() if not flip else reversed(d.items()))})
                before = repr(params)
                line = base_factors_interpretation(params); n += 1
                require(repr(params) == before, lambda: f'describing a component altered its parameters {before}')
                texts.compare(line, factors, params['ProductKE'][0]['variance'], slopes, ref.LIN_OFFSET, FITTED_SLOPES)
    return dict(evaluations = n, transitions = n, states = n, distinct = [repr(case)], sample = line)

def many_intervals(fs, holes):
    '''Components on many intervals'''
    from mc.checks.c09 import arranged
    n = 0
    for rest in ((), ('S',), ('Sr',), ('SI',)):
        for sigs in arranged(('SIr',) * holes + rest, 'many', 0, 1):
            for given in (sigs, sigs[::-1]):
                factors = {f: [{p: 2.5 for p in ref.own_params(f) if p != 'variance'}] for f in fs}
                slopes = [(s[0], s[1], s[2], .5 + .25 * j) for j, s in enumerate(given)]
                params = {'ProductKE': [{'variance': 1.25}], **{f: [dict(p) for p in l] for f, l in factors.items()}}
                for s in slopes: params.setdefault(s[0], []).append({'location': s[1], **({'width': s[2]} if s[2] is not None else {}), **({'slope': s[3]} if FITTED_SLOPES else {})})
                line = base_factors_interpretation(params); n += 1
                texts.compare(line, factors, 1.25, slopes, ref.LIN_OFFSET, FITTED_SLOPES)
    return dict(evaluations = n, transitions = n, states = n, distinct = [f'{fs} {holes}'], sample = line)

def check_text(text, sops, t):
    import re
    head, *lines = text.split('\n\t')
    n = re.search(r'(\d+) component', head)
    want = components(t)
    require(n and int(n[1]) == len(want) == len(lines), lambda: f'{show(t)} has {len(want)} components but its interpretation announces {n and n[1]} and lists {len(lines)}: {text}')
    require(len(sops.composite_terms) == len(lines), '')
    for line, c in zip(lines, sops.composite_terms):
        ps = {b: [{k: float(v) for k, v in p.items()} for p in l] for b, l in c.parameters.items() if l}
        # The stated parameters are the component's, the component being checked against the fitted kernel by C07
        sig = [(b, p['location'], p.get('width') if b in ('SI', 'SIr') else None, p.get('slope', 1.)) for b in SIG for p in ps.get(b, [])]
        texts.compare(line, {b: l for b, l in ps.items() if b not in SIG and b != 'ProductKE'}, ps['ProductKE'][0]['variance'], sig, ref.LIN_OFFSET, FITTED_SLOPES)
    return len(lines)

def check_components(text, comps, t):
    '''Each line describes another one of the components found by distributing the fitted expression independently'''
    left = list(comps)
    for line in text.split('\n\t')[1:]:
        errors = []
        for i, (v, fs, sg) in enumerate(left):
            try: texts.compare(line, fs, v, sg, ref.LIN_OFFSET, FITTED_SLOPES)
            except Violation as e: errors.append(str(e)); continue
            del left[i]; break
        else: fail(f'in the interpretation of {show(t)}, no (further) component of the fitted expression is: {line}; they are {comps}')
    require(not left, lambda: f'the interpretation of {show(t)} does not describe {left}')
