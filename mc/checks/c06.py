'''Kernels of all small expressions against the formula of the expression.'''
from mc.bridge import *
from mc import ref
from copy import deepcopy
from GPy_ABCD.KernelExpansion.kernelOperations import get_param_dict
from GPy_ABCD.KernelExpansion import grammar

LEVEL = 'model_checking'
RULE = 'all normal forms within the bounds, each built as an expression and as a kernel by the code, given all-distinct generic parameter values (two assignments), its parameters matched back by the code; covariances on 7 points, on 7 x 5 points and the diagonal are compared with the formula evaluated by independent code from the parameters reported by the nodes; the multiset of reported values must be that of the kernel\'s free parameters'
def bounds(tier): return dict(quick = 'normal forms with <= 3 leaves over the 5 base kernels and with 4 leaves over LIN under *, CP and CW; the results of one default expansion of each default start kernel',
    thorough = 'as quick, and normal forms with 4 leaves over LIN, PER and WN (1 assignment), and with 5 leaves over LIN')[tier] + f'; {thin_bounds(tier)} (1 assignment)'
ASSUMPTIONS = ['K is analytic in the parameters: agreement at generic, all-distinct values distinguishes any misattribution or missing factor']

def cases(tier):
    terms = list(normal_terms(3)) + [t for t in normal_terms(4, ('LIN',)) if size(t) == 4]
    seen = set(terms)
    for t in terms: yield [t, 2]
    for k in grammar.start_kernels['Default']:
        for r in sorted({root_term(r) for r in grammar.expand(k, grammar.production_rules['Default'])}, key = repr):
            if r not in seen: seen.add(r); yield [r, 1]
    for t in thin_terms(*THIN[tier]):
        if t not in seen: seen.add(t); yield [t, 1]
    if tier == 'thorough':
        for t in list(normal_terms(4, ('LIN', 'PER', 'WN'))) + list(normal_terms(5, ('LIN',))):
            if t not in seen: seen.add(t); yield [t, 1]

def reported(k):
    '''All parameter values that the nodes of a parameterised expression report'''
    return [float(np.asarray(v).reshape(-1)[0]) for n in nodes(k) for l in n.parameters.values() for ps in l for v in ps.values()]

def check(case):
    t = T(case[0]); k = build(t)
    ker = k.to_kernel(); n = 0
    require(term(k) == term(build(t)), lambda: f'making a kernel altered {show(t)}')
    want_n = ref.n_params(t)
    require(ker.size == want_n, lambda: f'the kernel of {show(t)} has {ker.size} free parameters {list(ker.parameter_names_flat())} rather than {want_n}')
    for which in range(case[1]):
        vals = ref.set_generic(ker, which)
        pk = deepcopy(k).match_up_fit_parameters(get_param_dict(ker), '')
        rep = reported(pk); vals = [v for v in vals if v != ref.SHARED] # (Which expressions do not represent)
        require(np.allclose(sorted(rep), sorted(vals), rtol = 0, atol = 1e-12) if len(rep) == len(vals) else False, lambda: f'nodes of {show(t)} report the parameters {sorted(rep)}, the kernel has {sorted(vals)}')
        for X, Y in ((ref.X7, None), (ref.X7, ref.Y5)):
            got, want = ker.K(X) if Y is None else ker.K(X, Y), ref.of_kex(pk, X, X if Y is None else Y)
            require(ref.close(got, want), lambda: f'K{"(X, X2)" if Y is not None else ""} of {show(t)} is not its formula at the reported parameters (largest difference {np.max(np.abs(got - want)):.3g})'); n += 1
        d, want = ker.Kdiag(ref.X7), np.diag(ref.of_kex(pk, ref.X7, ref.X7))
        require(ref.close(np.asarray(d).reshape(-1), want), lambda: f'Kdiag of {show(t)} is {d} rather than {want}'); n += 1
    return dict(evaluations = n, distinct = [show(t)], sample = f'{show(t)}: {ker.size} parameters')
