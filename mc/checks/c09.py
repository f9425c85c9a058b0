'''Reduction of sigmoids to intervals against membership in sets of reals, in the configuration where slopes are fitted (so that they can be told apart).'''
import itertools
from mc.driver import fail, require
from mc import intervals as iv
from GPy_ABCD.KernelExpansion.kernelInterpretation import sigmoids_to_intervals

LEVEL = 'model_checking'
RULE = 'all multisets of sigmoid kinds up to the bound, in all relative orders of their edges (ties included), with the order of kinds and of sigmoids within a kind permuted; a state is a collection with its relative order of edges, a transition one reduction of it; results are compared with set membership on every elementary interval'
def bounds(tier): return dict(quick = 'up to 3 sigmoids in all orders of kinds and of sigmoids of a kind; 4 sigmoids in the given and the reverse order; 5 indicators, any of them holes, in every order of (different) edges',
    thorough = 'up to 4 sigmoids in all orders of kinds; 5 sigmoids of which at most 2 are indicators, in the given order; 5 indicators, any of them holes, and 6, of which none, 3, 5 or all are, in every order of (different) edges')[tier] + '; up to 3 sigmoids also far from 0, far apart and close together; 6 to 12 holes, in five patterns, with another one or two sigmoids at every place'
ASSUMPTIONS = ['the reduction only compares edges (so ranks stand for all values): widths are multiples of 1/4 at exactly representable positions']
KINDS = ('S', 'Sr', 'SI', 'SIr')
PARTS = 8

def cases(tier):
    for n in range(1, 6 if tier == 'thorough' else 5):
        for kinds in itertools.combinations_with_replacement(KINDS, n):
            e = sum(1 if k in ('S', 'Sr') else 2 for k in kinds)
            if n == 5 and e > 7: continue
            perms = 'all' if n <= 3 else 'kinds' if tier == 'thorough' and n == 4 else 'two' if n == 4 else 'one'
            for p in range(PARTS if e > 5 else 1): yield [kinds, perms, p, PARTS if e > 5 else 1]
            if n <= 3: yield [kinds, 'far', 0, 1]
    most = 5 if tier == 'quick' else 6
    for n in range(3, most + 1):
        for holes in range(n + 1):
            if n == 6 and holes not in (0, 3, 5, 6): continue
            for p in range(PARTS): yield [('SI',) * (n - holes) + ('SIr',) * holes, 'strict', p, PARTS]
    for n in range(6, 13):
        for extra in ((), ('S',), ('Sr',), ('SI',), ('S', 'Sr')): yield [('SIr',) * n + extra, 'many', 0, 1]

FAR = [(-6000., 1.), (2. ** 20, 1.), (0., 2. ** 12), (0., 2. ** -10), (-2. ** 15, 2. ** 14)] # Shift and scale, all exact
def matchings(points):
    '''All ways of making intervals of the points, every one being an end of exactly one'''
    if not points: yield (); return
    for i in range(1, len(points)):
        for rest in matchings(points[1:i] + points[i + 1:]): yield ((points[0], points[i]),) + rest
def arranged(kinds, mode, part, parts):
    if mode == 'far':
        for base in collections(kinds, 0, 1):
            for shift, scale in FAR: yield [(k, l * scale + shift, None if w is None else w * scale) for k, l, w in base]
    elif mode == 'strict': # All relative orders of edges with no two equal: all placings of intervals, any of which may be the holes
        m = len(kinds); holes = sum(k == 'SIr' for k in kinds)
        for j, ivs in enumerate(matchings(tuple(range(2 * m)))):
            if j % parts != part: continue
            for h in itertools.combinations(range(m), holes): yield [('SIr' if i in h else 'SI', a * .25 - 1, (b - a) * .25) for i, (a, b) in enumerate(ivs)]
    else: # Many holes: apart, touching, overlapping their neighbours, within one another, and the rest at every place
        m = sum(k == 'SIr' for k in kinds)
        for ivs in ([(4 * i, 4 * i + 2) for i in range(m)], [(2 * i, 2 * i + 2) for i in range(m)], [(2 * i, 2 * i + 3) for i in range(m)], [(i, 4 * m - i) for i in range(m)], [(4 * (i // 2) + i % 2, 4 * (i // 2) + 3 - i % 2) for i in range(m)]):
            sigs = [('SIr', a * .5, (b - a) * .5) for a, b in ivs]; rest = kinds[m:]; end = max(b for _, b in ivs)
            if not rest: yield sigs
            elif len(rest) == 1 and rest[0] != 'SI':
                for x in range(-1, end + 2): yield sigs + [(rest[0], x * .5, None)]
            elif rest == ('SI',):
                for x, y in itertools.combinations(range(-1, end + 2), 2): yield sigs + [('SI', x * .5, (y - x) * .5)]
            else:
                for x, y in itertools.product(range(-1, end + 2, 3), range(0, end + 2, 3)): yield sigs + [('S', x * .5, None), ('Sr', y * .5, None)]

def collections(kinds, part, parts):
    es, cons = [], []
    for k in kinds:
        es.append(len([x for e in es for x in e]) and es[-1][-1] + 1)
        es[-1] = [es[-1]] + ([es[-1] + 1] if k in ('SI', 'SIr') else [])
        if len(es[-1]) == 2: cons.append(tuple(es[-1]))
    n = es[-1][-1] + 1
    for i, r in enumerate(iv.weak_orders(cons, n)):
        if i % parts == part: yield [(k, r[e[0]] * .25 - .5, (r[e[1]] - r[e[0]]) * .25 if len(e) == 2 else None) for k, e in zip(kinds, es)]

def reduce_(sigs, key_order = None):
    d = {}
    for k in key_order or dict.fromkeys(s[0] for s in sigs): d[k] = []
    for s, slope in sigs_slopes(sigs): d[s[0]].append({'location': s[1], 'slope': slope, **({'width': s[2]} if s[2] is not None else {})})
    return sigmoids_to_intervals(d)['sigmoidal_intervals']
def sigs_slopes(sigs): return [(s if len(s) == 3 else s[:3], s[3]) for s in sigs]

def compare(sigs, got):
    want = iv.intersection([s[:3] for s in sigs])
    require(isinstance(got, list), lambda: f'{sigs} -> {got}')
    ends = [(i.get('start', -iv.INF), i.get('end', iv.INF)) for i in got]
    require(ends == want, lambda: f'the intersection of {sigs} is {want} but is reported as {ends}')
    for i in got:
        require(('start' in i) == ('start_slope' in i) and ('end' in i) == ('end_slope' in i), lambda: f'{sigs}: interval {i} does not have a slope exactly at each end')
        for end, at in (('start', iv.starts_at), ('end', iv.ends_at)):
            if end in i: require(i[end + '_slope'] in [s[3] for s in sigs if at(s[:3], i[end])], lambda: f'{sigs}: the {end} of {i} carries the slope {i[end + "_slope"]}, of no sigmoid with its {end} there')

def check(case):
    kinds, perms, part, parts = tuple(case[0]), case[1], case[2], case[3]; n = states = 0
    present = list(dict.fromkeys(kinds))
    for base in collections(kinds, part, parts) if perms not in ('far', 'strict', 'many') else arranged(kinds, perms, part, parts):
        sigs = [s + (1. + .125 * i,) for i, s in enumerate(base)]; states += 1
        if perms == 'all': variants = [(p, ko) for p in itertools.permutations(sigs) for ko in itertools.permutations(present) if [s[0] for s in p] == sorted([s[0] for s in p], key = ko.index)]
        elif perms == 'kinds': variants = [(sigs, ko) for ko in itertools.permutations(present)]
        elif perms in ('two', 'far', 'strict'): variants = [(sigs, present), (sigs[::-1], present[::-1])]
        elif perms == 'many': variants = [(sigs, present), (sigs[::-1], present[::-1]), (sigs[::2] + sigs[1::2], present)]
        else: variants = [(sigs, present)]
        for s, ko in variants: compare(s, reduce_(s, ko)); n += 1
    return dict(evaluations = n, transitions = n, traces = n, states = states, distinct = [f'{kinds} {perms} {part}'], sample = f'{kinds}: {states} orders of edges, {n} reductions')
