'''Exploration of model searches: fits are replaced by an environment which gives every model a score chosen by a tape, all tapes being enumerated.'''
import functools, warnings
import numpy as np
from mc.bridge import *
from mc import rules
from GPy_ABCD.Models import modelSearch as ms
from GPy_ABCD.Models.model import GPModel
from GPy_ABCD.KernelExpansion import grammar, kernelExpressionOperations as ops

X = np.linspace(0, 1, 5)[:, None]; Y = X ** 2

# -- rules: exported ones and small ones as a user could write them, each with its reference

def plus_lin(S): return [grammar.deep_apply(ops.add, S, 'LIN')]
def plus_per(S): return [grammar.deep_apply(ops.add, S, 'PER')]
def times_lin(S): return [grammar.deep_apply(ops.multiply, S, 'LIN')]
def cp_lin(S): return [grammar.deep_apply(ops.one_change, S, 'CP', 'LIN')]
OWN = dict(plus_lin = plus_lin, plus_per = plus_per, times_lin = times_lin, cp_lin = cp_lin)
TABLE = {**rules.rules(), 'plus_lin': lambda s: rules.add_base(s, 'LIN'), 'plus_per': lambda s: rules.add_base(s, 'PER'), 'times_lin': lambda s: rules.mul_base(s, 'LIN'), 'cp_lin': lambda s: rules.changes(s, 'LIN', ['CP'])}
def rule(name): return OWN.get(name) or grammar.non_grouped_prs[name]
@functools.lru_cache(None)
def successors(t, names): return frozenset(rules.expand_ref(t, names, TABLE))

# -- scores

@functools.lru_cache(None)
def placements(L, n):
    '''All weak orders of n new models among L distinct existing scores (at 0 ... L - 1), as coordinates'''
    out = []
    def go(levels, left, acc):
        if left == 0: out.append(tuple(acc)); return
        gaps = ([levels[0] - 1] + [(a + b) / 2 for a, b in zip(levels, levels[1:])] + [levels[-1] + 1]) if levels else [0.]
        for v in levels: go(levels, left - 1, acc + [v])
        for v in gaps: go(sorted(levels + [v]), left - 1, acc + [v])
    go([float(i) for i in range(L)], n, [])
    return out
@functools.lru_cache(None)
def count(L, n):
    if n == 0: return 1
    return L * count(L, n - 1) + (L + 1) * count(L + 1, n - 1)
@functools.lru_cache(None)
def options(L, n, last, limit):
    if n == 0: return [()]
    if last or limit <= 4:
        res = [tuple(L + i + 0. for i in range(n)), tuple(-1. - i for i in range(n)), tuple(0. for _ in range(n)), tuple((i % (L + 1)) - .5 for i in range(n))]
        return list(dict.fromkeys(res)) if count(L, n) > 4 else placements(L, n)
    if count(L, n) <= limit: return placements(L, n)
    res = []
    for i in range(n): # One of them stands out, in each way; the others fill in, from either side
        for v in (-1., 0., .5, L - 1., L + n + 1.):
            for rest in (lambda j: L + j + 0., lambda j: (n - j) % (L + 1) + .25): res.append(tuple(v if j == i else rest(j) for j in range(n)))
    res += [tuple(-1. - i for i in range(n)), tuple(0. for _ in range(n))]
    return list(dict.fromkeys(res))

def scores_at(coords, levels):
    L = len(levels)
    def f(c):
        if not levels: return float(c)
        if c < 0: return levels[0] + c
        if c > L - 1: return levels[-1] + (c - (L - 1))
        i = int(c); return levels[i] if c == i else levels[i] + (c - i) * (levels[i + 1] - levels[i])
    return [f(c) for c in coords]

class Tape:
    def __init__(self, prefix = ()): self.given, self.taken, self.sizes = list(prefix), [], []
    def choose(self, n):
        i = len(self.taken); c = self.given[i] if i < len(self.given) else 0
        self.taken.append(c); self.sizes.append(n); return c
    def next(self, fixed = 0):
        '''The next tape in depth-first order, the first `fixed` choices staying as they are'''
        t, s = list(self.taken), self.sizes
        while len(t) > fixed:
            if t[-1] + 1 < s[len(t) - 1]: t[-1] += 1; return t
            t.pop()
        return None

class Fake: # In the place of a fitted regression
    def __init__(self, score): self.score, self.X = score, X
    def log_likelihood(self): return -self.score
    def _size_transformed(self): return 1
    kern = None

# Tapes give places on an axis, which are made scores in several ways: plain, far closer than printed digits, huge, and with infinite ones (which ties: not the same weak order)
SCALES = [lambda c: c, lambda c: -200.5 + c * 2. ** -20, lambda c: c * 1e290, lambda c: c if c <= 1 else np.inf]

def utility(m, ll, n, k): return m.score

class Env:
    '''The fitter. Scores by tape, or (known) by term.'''
    def __init__(self, tape = None, known = None, batches = 1, limit = 1500, expect = None, scale = 0, like = None):
        self.scale = like.scale if like else SCALES[scale]
        self.tape, self.known, self.batches, self.limit = tape, dict(known or {}), batches, limit
        self.calls, self.args = [], None
    def fit(self, X_, Y_, kexs, restarts, optimiser, max_retries):
        args = (X_, Y_, restarts, optimiser, max_retries)
        if self.args is None: self.args = args
        require(args[2:] == self.args[2:] and np.array_equal(X_, self.args[0]) and np.array_equal(Y_, self.args[1]), lambda: f'a later round is fitted with {args} rather than {self.args}')
        terms = []
        for k in kexs:
            require(hasattr(k, 'is_root') or hasattr(k, 'simplify'), lambda: f'{k!r} is given to be fitted')
            terms.append(is_normal(k, 'expression to fit')); well_formed(k, 'expression to fit')
        levels = sorted(set(self.known.values()))
        if self.tape is not None and kexs:
            new = [t for t in sorted(set(terms), key = repr) if t not in self.known]
            o = options(len(levels), len(new), len(self.calls) + 1 >= self.batches, self.limit)
            self.known.update(zip(new, scores_at(o[self.tape.choose(len(o))], levels)))
        ms_ = []
        for k, t in zip(kexs, terms):
            m = GPModel(X_, Y_, k); m.model = Fake(self.scale(self.known[t])); ms_.append(m)
        self.calls.append(list(ms_)); return ms_

def score(m): return m.model.score
def name(ms_): return [show(root_term(m.kernel_expression)) + f':{score(m):g}' for m in ms_]

def search(cfg, env, rounds = None, verbose = False, fresh_starts = None):
    return ms.explore_model_space(X, Y, start_kernels = fresh_starts or starts(cfg), p_rules = [rule(r) for r in cfg['rules']], utility_function = utility, rounds = cfg['rounds'] if rounds is None else rounds,
        beam = cfg['beam'] if isinstance(cfg['beam'], int) else list(cfg['beam']), restarts = 4, model_list_fitter = env.fit, optimiser = 'scg', max_retries = 2, verbose = verbose)
def starts(cfg): return [t if isinstance(t, str) else build(T(t)) for t in cfg['start']]
def beams(cfg, rounds): # As documented
    b = cfg['beam']
    return [b] * rounds if isinstance(b, int) else (list(b) + [b[-1]] * rounds)[:rounds]

def conforms(result, env, start_terms, names, bs, what):
    '''Is the result (and are the calls of the fitter) a behaviour of the protocol? -> transitions made'''
    require(isinstance(result, tuple) and len(result) == 5, lambda: f'{what}: result {result}')
    sorted_models, tested_models, tested_k, expanded, not_expanded = result
    require(len(tested_models) == len(bs) + 1, lambda: f'{what}: {len(tested_models) - 1} rounds rather than {len(bs)}')
    fitted = [m for c in env.calls for m in c]
    ids = lambda l: sorted(map(id, l))
    require(ids(fitted) == ids([m for r in tested_models for m in r]), lambda: f'{what}: the models of the rounds {[name(r) for r in tested_models]} are not the fitted ones {name(fitted)}')
    require(ids(sorted_models) == ids(fitted), lambda: f'{what}: sorted models {name(sorted_models)} are not the fitted ones {name(fitted)}')
    for l, w in [(sorted_models, 'sorted models'), (not_expanded, 'not expanded models')] + [(r, f'models of round {i}') for i, r in enumerate(tested_models)]:
        require(all(score(a) <= score(b) for a, b in zip(l, l[1:])), lambda: f'{what}: {w} are not by increasing score: {name(l)}')
    for m in fitted: require(m.cached_utility_function == score(m) and m.cached_utility_function_type == 'utility', lambda: f'{what}: the score of {name([m])} is {m.cached_utility_function} ({m.cached_utility_function_type})')
    calls = [c for c in env.calls if c]
    for r, l in enumerate(tested_models):
        if l: require(calls and ids(calls[0]) == ids(l), lambda: f'{what}: round {r} is not fitted in one go'); calls.pop(0)
    tested = [root_term(m.kernel_expression) for m in tested_models[0]]
    require(sorted(map(repr, tested)) == sorted(map(repr, start_terms)), lambda: f'{what}: round 0 is of {list(map(show, tested))} rather than {list(map(show, start_terms))}')
    avail, pos = list(tested_models[0]), 0
    for r, b in enumerate(bs, 1):
        nb = min(b, len(avail)); chosen = expanded[pos:pos + nb]; pos += nb
        left = [m for m in avail if not any(m is c for c in chosen)]
        require(len(chosen) == nb and len(left) == len(avail) - nb, lambda: f'{what}: round {r} expands {name(chosen)}, not {nb} of {name(avail)}')
        require(not chosen or not left or max(map(score, chosen)) <= min(map(score, left)), lambda: f'{what}: round {r} expands {name(chosen)} rather than the best {nb} of {name(avail)}')
        want = {s for m in chosen for s in successors(root_term(m.kernel_expression), tuple(names))} - set(tested)
        got = [root_term(m.kernel_expression) for m in tested_models[r]]
        require(len(got) == len(set(got)), lambda: f'{what}: round {r} fits an expression twice: {name(tested_models[r])}')
        require(set(got) == want, lambda: f'{what}: round {r}, expanding {name(chosen)}, fits {sorted(map(show, got))} rather than {sorted(map(show, want))}')
        tested += got; avail = left + list(tested_models[r])
    require(len(expanded) == pos, lambda: f'{what}: {name(expanded)} are given as expanded, rather than {pos} models')
    require(ids(not_expanded) == ids(avail), lambda: f'{what}: not expanded are {name(not_expanded)} rather than {name(avail)}')
    require(sorted(repr(root_term(k)) for k in tested_k) == sorted(map(repr, tested)), lambda: f'{what}: tested expressions {tested_k} rather than {list(map(show, tested))}')
    return len(fitted) + len(bs)

def fingerprint(result): # As terms, in order
    s, tm, tk, e, ne = result
    f = lambda l: tuple((root_term(m.kernel_expression), score(m)) for m in l)
    return f(s), tuple(map(f, tm)), tuple(map(root_term, tk)), f(e), f(ne)
