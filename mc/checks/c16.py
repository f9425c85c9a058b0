'''The parallel fitter under every completion order of concurrent fits and every pattern of failures, against the sequential one.'''
import itertools, os, shutil, tempfile, time, warnings
import numpy as np
from numpy.linalg import LinAlgError
from mc.bridge import *
from mc import ref, fitting
from GPy_ABCD.Models import modelSearch as ms
from GPy_ABCD.Models.model import GPModel
from GPy_ABCD.Util import modelUtil as mu

LEVEL = 'model_checking'
RULE = 'the real process pool, with every number of processors and of expressions within the bounds; each fit (optimiser replaced in the workers) waits for its turn in the enumerated completion order (among those the pool can have under way at the same time); each first attempt fails or not, and expressions fail for good or not, in every pattern; models are compared one by one with those of the sequential fitter (expression, data, parameters, restarts, score, predictions, interpretation). A state is a (processors, expressions, order, failures) combination, a transition one concurrent fit'
def bounds(tier): return dict(quick = '2, 3 and 5 processors (5: all fits concurrent): 0-4 expressions in all completion orders; 1, 2, 3, 4 processors: up to 9 expressions in 3 orders; all failure patterns (no failure, retried, for good) of 3 expressions in 2 orders; equal expressions', thorough = 'as quick, 2, 3 and 6 processors with 5 expressions in all orders, all failure patterns of 4 expressions in 3 orders')[tier]
ASSUMPTIONS = ['orders in which a fit would have to finish before it can be started are replaced by the nearest possible one', 'which of several errors is raised is free']
CASE_TIMEOUT = 100
X = ref.X7; Y = np.sin(X) + .1 * X
TERMS = ['PER', ('+', ('LIN', ('*', ('LIN', 'PER')))), ('CP', 'LIN', 'PER'), ('*', ('LIN', ('+', ('C', 'PER')))), 'WN', ('CW', ('*', ('PER', 'WN')), 'LIN'), 'LIN', ('+', ('PER', 'SE')), ('*', ('LIN', 'LIN'))]

def cases(tier):
    for cpus in (2, 3, 5):
        for n in range(5):
            for perm in itertools.permutations(range(n)): yield [cpus, n, perm, 'n' * n, 1]
    for cpus in (1, 2, 3, 4):
        for n in range(5, 10):
            for perm in (tuple(range(n)), tuple(range(n))[::-1], tuple(range(1, n, 2)) + tuple(range(0, n, 2))): yield [cpus, n, perm, 'n' * n, 1]
    for pat in itertools.product('nrx', repeat = 3):
        for perm in ((2, 1, 0), (1, 0, 2)): yield [4, 3, perm, ''.join(pat), 1]
        yield [2, 3, (0, 2, 1), ''.join(pat), 0]
    for cpus, n in ((2, 4), (3, 5)): yield [cpus, n, tuple(range(n))[::-1], 'e' * n, 1] # All of the same expression
    if tier == 'thorough':
        for cpus in (2, 3, 6):
            for perm in itertools.permutations(range(5)): yield [cpus, 5, perm, 'n' * 5, 1]
        for pat in itertools.product('nrx', repeat = 4):
            for perm in ((3, 2, 1, 0), (1, 3, 0, 2), (0, 1, 2, 3)): yield [5, 4, perm, ''.join(pat), 2]

class Gate:
    '''Completion order across processes through files in a scratch directory'''
    def __init__(self, perm): self.perm, self.dir = list(perm), tempfile.mkdtemp(prefix = 'mc16-')
    def mark(self, what, i): open(os.path.join(self.dir, f'{what}-{i}'), 'w').close()
    def has(self, what, i): return os.path.exists(os.path.join(self.dir, f'{what}-{i}'))
    def wait(self, i):
        self.mark('start', i)
        before = self.perm[:self.perm.index(i)]; quiet = time.time()
        seen = -1
        while True:
            left = [j for j in before if not self.has('done', j)]
            if not left: break
            now = len(os.listdir(self.dir))
            if now != seen: seen, quiet = now, time.time()
            if not any(self.has('start', j) for j in left) and time.time() - quiet > .12: break # None of them can be under way before this is done
            if time.time() - quiet > 20: break
            time.sleep(.003)
        if before: time.sleep(.004) # The previous one's answer gets sent
    def realised(self):
        d = sorted((os.stat(os.path.join(self.dir, f)).st_mtime_ns, int(f[5:])) for f in os.listdir(self.dir) if f.startswith('done-'))
        return [i for _, i in d] == self.perm
    def close(self): shutil.rmtree(self.dir, ignore_errors = True)

def environment(ts, pat, gate):
    index = {}
    attempts = {}
    def opt(model, **kw):
        names = tuple(model.parameter_names_flat())
        key = KEY[names]
        att = attempts[key] = attempts.get(key, 0) + 1
        p = pat[key]
        if gate is not None and (p != 'r' or att > 1): gate.wait(key)
        try:
            if p == 'x' or (p == 'r' and att == 1): model.randomize(); raise LinAlgError(f'injected in {names}')
            fitting.set_model(model, key % 2, .3 + .1 * att)
        finally:
            if gate is not None and (p != 'r' or att > 1): gate.mark('done', key)
    return opt
KEY = {}

def describe(m): return (term(m.kernel_expression), np.array(m.X), np.array(m.Y), np.array(m.model.param_array), m.restarts, m.cached_utility_function, m.cached_utility_function_type, m.interpret(), m.predict(ref.Y5), float(m.compute_utility(mu.BIC)))
def equal(a, b):
    if isinstance(a, dict): return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (np.ndarray, float)): return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol = 1e-9, atol = 1e-12)
    if isinstance(a, tuple) and len(a) == 10: return all(equal(x, y) for x, y in zip(a, b))
    return a == b

def check(case):
    cpus, n, perm, pat, retries = case; perm = tuple(perm)
    same = pat.startswith('e') and n > 0
    ts = [TERMS[1]] * n if same else TERMS[:n]
    KEY.clear()
    if not same:
        for i, t in enumerate(ts):
            from GPy.models import GPRegression
            KEY[tuple(GPRegression(X, Y, build(t).to_kernel()).parameter_names_flat())] = i
        require(len(KEY) == n, 'the expressions must have different parameters')
    old = os.cpu_count; os.cpu_count = lambda: cpus
    if same:
        counter = [0]
        def opt(model, **kw): fitting.set_model(model, 0, .3)
        gate, seq_opt, par_opt = None, opt, opt
    else: gate = Gate(perm); seq_opt, par_opt = environment(ts, pat, None), environment(ts, pat, gate)
    def go(f, opt):
        ks = [build(t) for t in ts]; args = list(ks)
        with fitting.optimiser(opt), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try: r = f(X, Y, args, 4, 'scg', retries), None
            except LinAlgError as e: r = None, e
        require(len(args) == len(ks) and all(a is b for a, b in zip(args, ks)), 'the list of expressions is altered')
        for k, t in zip(ks, ts): require(term(k) == term(build(t)), lambda: f'fitting altered {show(t)}'); well_formed(k)
        return r
    what = f'{n} expressions {[show(t) for t in ts]} on {cpus} processors finishing in the order {perm}, failures {pat} with {retries} retries'
    try:
        seq, e1 = go(ms.fit_mods_not_parallel, seq_opt)
        par, e2 = go(ms.fit_mods_parallel_processes, par_opt)
    finally:
        os.cpu_count = old; as_planned = bool(gate and n > 1 and gate.realised())
        if gate: gate.close()
    bad = not same and any(p == 'x' or (p == 'r' and not retries) for p in pat)
    require((e1 is not None) == bad, lambda: f'sequential fit of {what}: {e1!r}')
    require((e2 is not None) == bad, lambda: f'parallel fit of {what}: raises {e2!r} although the sequential one raises {e1!r}')
    if not bad:
        require(isinstance(par, list) and len(par) == n, lambda: f'parallel fit of {what} gives {par}')
        for i, (a, b) in enumerate(zip(seq, par)):
            require(isinstance(b, GPModel) and term(b.kernel_expression) == term(build(ts[i])), lambda: f'parallel fit of {what}: model {i} is of {getattr(b, "kernel_expression", b)!r}')
            well_formed(b.kernel_expression, what)
            da, db = describe(a), describe(b)
            require(equal(da, db), lambda: f'parallel fit of {what}: model {i} is\n{db}\nwhile in sequence it is\n{da}')
        ids = {id(m.model) for m in par}; require(len(ids) == n, 'models share state')
    return dict(evaluations = n, transitions = n, states = 1, orders_realised = int(as_planned), distinct = [f'{cpus} {n} {perm} {pat}'], sample = what)
