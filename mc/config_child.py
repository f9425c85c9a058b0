'''python -m mc.config_child JSON: runs a suite of expressions under one core configuration, in this process (configurations are read once, at import). Prints one JSON line.'''
import json, sys
from mc import driver

def main(spec):
    flags, tier, part, parts = spec['flags'], spec['tier'], spec['part'], spec['parts']
    driver.load_repo({f'__{k}': v for k, v in flags.items()})
    import GPy_ABCD.config as config
    for k, v in flags.items(): assert config.__dict__[f'__{k}'] == v
    from mc import ref, terms, rules, bridge
    se, offset, full_per, fixed, sides = (flags[k] for k in FLAGS)
    terms.LIN_ABSORBS_C = bridge.LIN_ABSORBS_C = offset
    ref.LIN_OFFSET, ref.FULL_PER, ref.FIXED_SLOPE, ref.INDEPENDENT_SIDES = offset, full_per, fixed, sides
    ref.SHARED = .413 if sides else None
    from mc.checks import c01, c04, c06, c07, c08, c11
    from GPy_ABCD.KernelExpansion import grammar
    c08.FITTED_SLOPES = not fixed
    if not fixed: c07.SIG_PARAMS = {b: ps | {'slope'} for b, ps in c07.SIG_PARAMS.items()}
    cw = lambda t: not isinstance(t, str) and (t[0] == 'CW' or any(map(cw, t[1] if t[0] in '+*' else t[1:])))
    two = list(terms.normal_terms(2)); deep = tier == 'thorough'
    three = [t for t in terms.normal_terms(3) if terms.size(t) == 3]
    near = [t for t in terms.normal_terms(3, ('LIN', 'C', 'WN')) if terms.size(t) == 3] # Where the linear kernel matters most
    v = [bool(flags[k]) for k in FLAGS]; w = v if not v[0] else [not x for x in v]
    pair = sum(x << i for i, x in enumerate(w[1:])) # Of this configuration and the opposite one, of 16
    quarter = (v[3] ^ v[0] ^ v[1]) + 2 * (v[4] ^ v[0] ^ v[2]) # The 8 configurations of each of the four have all values of any two flags
    share = list(dict.fromkeys([t for i, t in enumerate(near) if i % 4 == quarter] + [t for i, t in enumerate(three) if i % 16 == pair]))
    if deep: share = three
    raws = [t for n in (1, 2, 3) for t in terms.flat_terms(n)] + list(terms.flat_terms(4, ('LIN', 'C', 'SE'), ('+', '*'))) + list(c01.raw_trees(3, ('LIN', 'C'), 1))
    cases = [('C01', c01, t) for t in dict.fromkeys(raws)]
    cases += [('C04', c04, [t]) for t in two + share]
    kers = two + share
    cases += [('C06', c06, [t, 1]) for t in kers]
    cases += [('C07', c07, [t, 1]) for t in kers if not (sides and cw(t))]
    cases += [('C08', c08, ['expr', t, 1]) for t in kers]
    cases += [('C08', c08, ['comp', fs, n]) for fs in c08.component_factors() for n in (0, 1)] + [('C08', c08, ['comp', ['LIN'], 2])]
    cases += [('C11', c11, ['expr', t]) for t in (kers if deep else two + share[::4]) if not (sides and cw(t))]
    if part == 0: cases.append(('groups', None, None))
    res = dict(cases = 0, evaluations = 0, distinct = [])
    for i, (pid, mod, case) in enumerate(cases):
        if i % parts != part and mod: continue
        if mod is None:
            try: groups(offset, se, grammar); c, msg = {}, None
            except driver.Violation as e: msg = str(e)
        else: c, msg = driver.one_case(mod, driver.jsonable(case))
        res['cases'] += 1; res['evaluations'] += c.get('evaluations', 1) if msg is None else 0
        if msg is not None: res['violation'] = f'{pid} case {case}: {msg}'; break
    print('RESULT ' + json.dumps(res))

FLAGS = ['INCLUDE_SE_KERNEL', 'USE_LIN_KERNEL_HORIZONTAL_OFFSET', 'USE_NON_PURELY_PERIODIC_PER_KERNEL', 'FIX_SIGMOIDAL_KERNELS_SLOPE', 'USE_INDEPENDENT_SIDES_CHANGEWINDOW_KERNEL']

def groups(offset, se, grammar):
    '''The exported groups of start kernels (whose only difference is LIN + C where LIN does not include it)'''
    from mc.bridge import mk, is_normal, well_formed, require, show
    for g, extra in dict(Default = [('CP', 'LIN', 'LIN'), ('CW', 'LIN', 'LIN')], Extended = [mk('+', ['C', (o, 'LIN', 'LIN')]) for o in ('CP', 'CW')], Original_ABCD = None).items():
        want = ['WN'] if extra is None else ['WN', 'C', 'LIN', 'PER', ('*', ('LIN', 'LIN')), ('*', ('LIN', 'LIN', 'LIN')), ('+', ('C', 'PER'))] + extra
        if not offset: want = want + [mk('+', ['C', 'LIN'])]
        got = []
        for k in grammar.start_kernels[g]: well_formed(k); got.append(is_normal(k))
        require(sorted(map(repr, got)) == sorted(map(repr, want)), lambda: f'start kernels {g} are {sorted(map(show, got))} rather than {sorted(map(show, want))}')

if __name__ == '__main__': main(json.loads(sys.argv[1]))
