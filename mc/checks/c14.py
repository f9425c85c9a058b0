'''Splits and continuations of searches under all scorings, and isolation between searches.'''
import itertools
from copy import deepcopy
from mc.search import *
from mc import fitting, ref
from GPy.models import GPRegression
from GPy_ABCD.Util import modelUtil

LEVEL = 'model_checking'
RULE = 'for every configuration, every scoring (as in C13) of one whole search: every way to split its rounds into a search and one or more continuations, run on the real code with the same scores, must give the same results; results continued from (also twice, differently) must stay as they were; sequences of searches (default arguments, exported groups, the caller\'s own lists, shared expressions) must each give what they give alone, down to the models fitted by the real fitters (with an enumerated optimiser), which must be new ones and stay as they were; a state is a (configuration, scoring), a transition one search or continuation'
def bounds(tier): return f'{len(list(configs(tier)))} configurations, 1-4 rounds, all compositions of the number of rounds; sequences of 2 and 3 searches out of 6; default arguments with every start kernel being best; sequences of 2 of 9 and of 3 of 5 searches (thorough: 9) with the real fitters, differing in data, scores, restarts, optimisers, fitters and rules'
ASSUMPTIONS = ['the fitter gives the same scores again (fits are an environment)', 'continuing with the beams that are left is what continues the same search']

def configs(tier):
    for beam, rounds in ((1, 2), ([2, 1], 2), ([1, 2, 1], 3), (2, 3), ([1, 2], 4)): yield dict(start = ['WN'], rules = ['replace_base'], beam = beam, rounds = rounds, limit = 300)
    for beam, rounds in ((1, 2), ([2, 1], 2), ([1, 2], 2)): yield dict(start = ['LIN', 'PER'], rules = ['plus_lin', 'plus_per'], beam = beam, rounds = rounds, limit = 300)
    for beam, rounds in ((1, 3), ([1, 2, 1], 3), ([2, 1], 3)): yield dict(start = ['LIN', 'PER'], rules = ['plus_lin', 'plus_per'], beam = beam, rounds = rounds, limit = 12 if tier == 'quick' else 100)
    for beam, rounds in ((1, 3), ([2, 1], 3)): yield dict(start = ['LIN', 'PER', ('+', ('LIN', 'PER'))], rules = ['plus_lin'], beam = beam, rounds = rounds, limit = 20 if tier == 'quick' else 300)
    for beam, rounds in ((1, 4), (2, 3)): yield dict(start = [('+', ('LIN', 'PER', 'SE')), ('*', ('LIN', 'PER', 'SE'))], rules = ['remove_some_term'], beam = beam, rounds = rounds, limit = 4 if tier == 'quick' else 20)
    yield dict(start = ['PER'], rules = ['plus_lin', 'times_lin'], beam = [1, 2], rounds = 3, limit = 50)
    yield dict(start = ['WN', 'LIN'], rules = ['cp_lin'], beam = [2, 1], rounds = 2, limit = 300)
S = 16
def cases(tier):
    for i, c in enumerate(configs(tier)):
        for s in range(S if c['rules'] != ['replace_base'] else 1): yield ['split', c, s, S if c['rules'] != ['replace_base'] else 1]
    for i in range(9): yield ['defaults', i]
    for seq in itertools.product(range(len(REAL)), repeat = 2): yield ['fitted', seq]
    for seq in itertools.product(range(len(REAL)) if tier == 'thorough' else range(5), repeat = 3): yield ['fitted', seq]
    for seq in itertools.product(range(len(SEARCHES)), repeat = 2): yield ['sequence', seq]
    if tier == 'thorough':
        for seq in itertools.product(range(len(SEARCHES)), repeat = 3): yield ['sequence', seq]
    else:
        for seq in itertools.product((0, 1, 3), repeat = 3): yield ['sequence', seq]

def compositions(n):
    if n == 0: yield (); return
    for a in range(0, n + 1):
        for rest in (compositions(n - a) if a else []): yield (a,) + rest
def splits(n): # First search (possibly of 0 rounds), then continuations
    for first in range(n + 1):
        for rest in compositions(n - first):
            if rest: yield first, rest

def snapshot(r): return [list(r[0]), [list(l) for l in r[1]], list(r[2]), list(r[3]), list(r[4]), fingerprint(r)]
def unchanged(r, snap, what):
    s, tm, tk, e, ne, fp = snap
    same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
    require(same(r[0], s) and len(r[1]) == len(tm) and all(same(a, b) for a, b in zip(r[1], tm)) and same(r[2], tk) and same(r[3], e) and same(r[4], ne), lambda: f'{what} alters the results it continues from: {[name(r[0]), [name(l) for l in r[1]], r[2], name(r[3]), name(r[4])]}, which were {[name(s), [name(l) for l in tm], tk, name(e), name(ne)]}')
    require(fingerprint(r) == fp, lambda: f'{what} alters the models it continues from')

def go_on(r, cfg, env, rounds, beam): return ms.model_search_rounds(X, Y, *r, env.fit, [rule(n) for n in cfg['rules']], utility, rounds, beam, 4, 'scg', 2, rounds % 2 == 1)

def check(case): return globals()['do_' + case[0]](*case[1:])

def do_split(cfg, s, S):
    from mc.checks.c13 import explore
    n = [0]; start_terms = [nf(T(t)) for t in cfg['start']]; R = cfg['rounds']
    def visit(whole, env, tape):
        want, bs = fingerprint(whole), beams(cfg, R); scores = { show(a): b for a, b in env.known.items() }
        for first, rest in splits(R):
            what = f'search from {cfg["start"]} with {cfg["rules"]}, beam {cfg["beam"]}, {first} rounds and then {rest}, scores {scores}'
            e = Env(known = env.known, like = env); r = search({**cfg, 'beam': bs[:first] or [bs[0]]}, e, rounds = first); done = first; n[0] += 1
            for c in rest:
                snap = snapshot(r); b = bs[done:done + c] if n[0] % 2 or len(set(bs[done:done + c])) > 1 else bs[done]
                new = go_on(r, cfg, e, c, b); n[0] += 1; unchanged(r, snap, what)
                if n[0] % 3 == 0: # Continue again from the same results, otherwise and likewise
                    go_on(r, cfg, Scored(), 1, 5); n[0] += 1
                    unchanged(r, snap, what + ' (again)')
                    again = go_on(r, cfg, Env(known = env.known, like = env), c, b); n[0] += 1
                    require(fingerprint(again) == fingerprint(new), lambda: f'{what}: continuing twice from the same results gives different ones')
                    unchanged(r, snap, what + ' (again)')
                done += c; r = new
            got = fingerprint(r)
            require(got == want, lambda: f'{what} gives\n{[show(t) for t, _ in got[0]]}, rounds {[[show(t) for t, _ in l] for l in got[1]]}, expanded {[show(t) for t, _ in got[3]]}\nwhile in one go\n{[show(t) for t, _ in want[0]]}, rounds {[[show(t) for t, _ in l] for l in want[1]]}, expanded {[show(t) for t, _ in want[3]]}')
        e = Env(known = env.known, like = env); again = search(cfg, e); n[0] += 1 # Repetition
        require(fingerprint(again) == want, lambda: f'repeating the search {cfg} with the same scores gives other results')
    runs = explore(cfg, s, S, visit)
    return dict(evaluations = n[0], transitions = n[0], states = runs, traces = n[0] // 2, distinct = [repr((cfg, s))], sample = f'{cfg}: {runs} scorings, {n[0]} searches and continuations')

# -- isolation

def world():
    '''Everything a search might leak into, as values'''
    import inspect
    d = {p.name: p.default for p in inspect.signature(ms.explore_model_space).parameters.values()}
    return ([root_term(k) for k in d['start_kernels']], list(map(id, d['start_kernels'])), list(map(id, d['p_rules'])), list(d['beam']), [repr(d[x]) for x in ('rounds', 'restarts', 'optimiser', 'max_retries', 'verbose')],
        {g: [(root_term(k), id(k), k.root is k, k.parent is None) for k in l] for g, l in grammar.start_kernels.items()}, {g: list(map(id, l)) for g, l in grammar.production_rules.items()},
        {g: {k: id(v) for k, v in l.items()} for g, l in grammar.production_rules_by_type.items()}, sorted(grammar.base_kerns_for_prod))
def hashed(t): return (hash_(repr(t)) % 1000) / 7
def hash_(s):
    h = 7
    for c in s: h = (h * 131 + ord(c)) % (2 ** 31)
    return h
class Scored(Env): # Any expression has a score
    def __init__(self, best = None): super().__init__(); self.best = best
    def fit(self, X_, Y_, kexs, *a):
        for k in kexs: t = root_term(k); self.known.setdefault(t, -1000. if t == self.best else hashed(t))
        return super().fit(X_, Y_, kexs, *a)

def do_defaults(i):
    '''All arguments left to their defaults (but for the fitter and the silence), each of the default start kernels being the best'''
    before = world(); n = 0
    t = sorted({root_term(k) for k in grammar.start_kernels['Default']}, key = repr)
    if i >= len(t): return {}
    res = []
    for rounds in (1, 1, 2):
        e = Scored(t[i]); r = ms.explore_model_space(X, Y, model_list_fitter = e.fit, utility_function = utility, rounds = rounds, beam = [1, 2], verbose = False); n += 1
        require(world() == before, 'a search with default arguments changed these or the exported groups')
        names = ['plus_base', 'times_base', 'replace_base', 'change_point_linear', 'change_window_linear', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term']
        conforms(r, e, [root_term(k) for k in grammar.start_kernels['Default']], names, [1, 2][:rounds], f'default search with best {show(t[i])}')
        res.append(fingerprint(r))
    require(res[0] == res[1] and res[2][1][:2] == res[0][1], 'repeated default searches differ')
    require(world()[0] == before[0], 'world')
    return dict(evaluations = n, transitions = n, states = 1, distinct = [f'default {i}'])

MINE = [build(('+', ('LIN', 'PER'))), build(('*', ('LIN', 'PER')))]
SEARCHES = [dict(start = ['WN'], rules = ['replace_base', 'plus_lin'], beam = [2, 1], rounds = 2), dict(start = ['WN', 'LIN'], rules = ['plus_lin', 'cp_lin'], beam = 1, rounds = 2), dict(start = 'mine', rules = ['remove_some_term', 'plus_per'], beam = [1], rounds = 2),
    dict(start = 'Default', rules = 'Minimal', beam = 2, rounds = 1), dict(start = 'Extended', rules = 'Original_ABCD', beam = [1], rounds = 1), dict(start = 'Original_ABCD', rules = 'All', beam = [1, 1], rounds = 1)]
ALONE = {}

def one(i):
    c = SEARCHES[i]
    st = MINE if c['start'] == 'mine' else grammar.start_kernels[c['start']] if isinstance(c['start'], str) else list(c['start'])
    rs = grammar.production_rules[c['rules']] if isinstance(c['rules'], str) else [rule(n) for n in c['rules']]
    beam = c['beam'] if isinstance(c['beam'], int) else list(c['beam'])
    snap = (list(st), [x if isinstance(x, str) else term(x) for x in st], list(rs), deepcopy(beam), X.copy(), Y.copy())
    e = Scored(); r = ms.explore_model_space(X, Y, st, rs, utility, c['rounds'], beam, 4, e.fit, 'scg', 2, False)
    require(len(st) == len(snap[0]) and all(a is b for a, b in zip(st, snap[0])) and [x if isinstance(x, str) else term(x) for x in st] == snap[1], lambda: f'search {c} alters the start kernels it is given')
    require(len(rs) == len(snap[2]) and all(a is b for a, b in zip(rs, snap[2])) and beam == snap[3] and np.array_equal(X, snap[4]) and np.array_equal(Y, snap[5]), lambda: f'search {c} alters the rules, beam or data it is given')
    return fingerprint(r)

def do_sequence(seq):
    before = world(); got = [one(i) for i in seq]
    require(world() == before, lambda: f'searches {[SEARCHES[i] for i in seq]} changed the default arguments or exported groups')
    for i, g in zip(seq, got):
        if i not in ALONE: ALONE[i] = g # (From the first run of it, in this process)
        require(g == ALONE[i], lambda: f'search {SEARCHES[i]} gives other results after searches {[SEARCHES[j] for j in seq]}')
    return dict(evaluations = len(seq), transitions = len(seq), states = 1, distinct = [f'sequence {seq}'])

# -- isolation of the fits themselves: the real fitters, with an optimiser whose outcome depends on all it is given

DATA = [(X, Y), (X, Y + np.cos(7 * X)), (X + .3, Y)]
REAL = [dict(data = 0, score = 'BIC', restarts = 2, optimiser = 'scg'), dict(data = 0, score = 'AIC', restarts = 2, optimiser = 'scg'), dict(data = 1, score = 'BIC', restarts = 2, optimiser = 'scg'), dict(data = 0, score = 'BIC', restarts = 3, optimiser = 'scg'),
    dict(data = 0, score = 'BIC', restarts = 2, optimiser = 'lbfgsb'), dict(data = 2, score = 'BIC', restarts = 2, optimiser = 'scg'), dict(data = 0, score = 'own', restarts = 2, optimiser = 'scg'), dict(data = 0, score = 'BIC', restarts = 2, optimiser = 'scg', expressions = True),
    dict(data = 0, score = 'BIC', restarts = 2, optimiser = 'scg', parallel = True)]
def own_score(m, ll, n, k): return -ll + 3 * k
own_score.__name__ = 'BIC' # Under the name of another
OWN_KERNELS = [build('LIN'), build(('+', ('PER', 'WN')))]
def outcome(model, num_restarts, optimizer, **_): # -> parameters
    vals = ref.values_for(list(model.parameter_names_flat()), num_restarts % 2)
    return np.array(vals) * (1 + .01 * len(optimizer) + .03 * float(np.sum(model.Y)) + .02 * float(np.sum(model.X)) % .1)

def facts(m): return (root_term(m.kernel_expression), m.X.tobytes(), m.Y.tobytes(), m.restarts, np.array(m.model.param_array).tobytes(), m.cached_utility_function, m.cached_utility_function_type)
def do_fitted(seq):
    n, past = 0, []
    with fitting.optimiser(lambda model, **kw: model.__setitem__(slice(None), outcome(model, **kw))):
        for j, i in enumerate(seq):
            c = REAL[i]; X_, Y_ = DATA[c['data']]; f = own_score if c['score'] == 'own' else getattr(modelUtil, c['score'])
            st = OWN_KERNELS if c.get('expressions') else ['LIN', 'WN']
            if c.get('parallel') and seq.count(i) > 1: continue # (Slow)
            r = ms.explore_model_space(X_, Y_, st, [rule('plus_lin'), rule('plus_per')], f, 2, [1, 1], c['restarts'], ms.fit_mods_parallel_processes if c.get('parallel') else ms.fit_mods_not_parallel, c['optimiser'], 1, False); n += 1
            what = f'search {c} after {[REAL[a] for a in seq[:j]]}'
            for m in r[0]:
                g = GPRegression(X_, Y_, build(root_term(m.kernel_expression)).to_kernel()); want = outcome(g, c['restarts'], c['optimiser']); g[:] = want
                require(np.array_equal(m.X, X_) and np.array_equal(m.Y, Y_) and m.restarts == c['restarts'], lambda: f'{what}: {m.kernel_expression} has other data or restarts than the search')
                require(np.allclose(np.sort(np.array(m.model.param_array)), np.sort(want), rtol = 1e-9), lambda: f'{what}: {m.kernel_expression} is fitted to {np.array(m.model.param_array)} rather than {want}')
                s = f(g, g.log_likelihood(), len(X_), g._size_transformed())
                require(np.isclose(m.cached_utility_function, s, rtol = 1e-7) and m.cached_utility_function_type == f.__name__, lambda: f'{what}: {m.kernel_expression} has the score {m.cached_utility_function} ({m.cached_utility_function_type}) rather than {s}')
            for old, fs in past:
                require(not set(map(id, old)) & set(map(id, r[0])), lambda: f'{what} gives models of an earlier search')
                require([facts(m) for m in old] == fs, lambda: f'{what} alters the models of an earlier search')
            past.append((r[0], [facts(m) for m in r[0]]))
    return dict(evaluations = n, transitions = n, states = 1, distinct = [f'fitted {seq}'])
