'''All sequences of outcomes of fit attempts, against the configured retries.'''
import itertools, warnings
import numpy as np
from numpy.linalg import LinAlgError
import GPy
from GPy.models import GPRegression
from mc.bridge import *
from mc import ref, fitting
from GPy_ABCD.Models import modelSearch as ms
from GPy_ABCD.Models.model import GPModel

LEVEL = 'fault_enumeration'
RULE = 'every sequence of attempt outcomes (success, or one of several errors or an interrupt, raised by the optimiser at once or after it altered the parameters, or while the regression is set up) up to one more than the attempts allowed, for every limit on retries, every way of passing it, several expressions, and lists of expressions fitted in sequence; non-trivial = the sequence is consumed as the reference predicts with at least one fault'
def bounds(tier): return dict(quick = '9 outcomes, limits 0-2 (all sequences of <= 3 attempts), 3 expressions; limits 3, 4 with 3 outcomes; lists of <= 3 expressions with limits 0-1 and 3 outcomes; each built-in kind of error (first, last)', thorough = 'limits 0-3 with all 9 outcomes (sequences of <= 4), 7 expressions; limit 5 with 3 outcomes; lists of <= 3 with limits 0-2')[tier]
ASSUMPTIONS = ['the error raised in the end is the last one', 'more attempts than outcomes listed are refused as such']
X = ref.X7; Y = np.sin(X)
TERMS = ['PER', ('+', ('LIN', ('*', ('LIN', 'PER')))), ('CW', ('*', ('PER', 'WN')), 'LIN'), 'WN', ('CP', 'C', 'SE'), ('*', ('LIN', ('+', ('C', 'PER')))), ('*', ('LIN', 'LIN'))]

class Custom(Exception): pass
class Stop(BaseException): pass
FAULTS = dict(linalg = lambda: LinAlgError('not positive definite, even with jitter.'), value = lambda: ValueError('array must not contain infs or NaNs'), custom = lambda: Custom('%s {} odd'), late = lambda: FloatingPointError('overflow after changes'),
              setup = lambda: LinAlgError('at once'), assertion = lambda: AssertionError(), interrupt = KeyboardInterrupt, exit = lambda: SystemExit(3))
OUTCOMES = ['ok'] + list(FAULTS)
NOT_RETRIED = ('interrupt', 'exit')
# Any other kind of error there is, and of what is none
def subclasses(c): return [d for s in c.__subclasses__() for d in [s] + subclasses(s)]
def make(c):
    try: e = c('of this kind')
    except Exception: return None
    return e if type(e) is c else None
KINDS = {c.__name__: c for c in sorted({d for d in subclasses(BaseException) if d.__module__ in ('builtins', 'numpy.linalg', 'numpy.exceptions')}, key = lambda c: c.__name__) if make(c) is not None}
ANY = [n for n, c in KINDS.items() if issubclass(c, Exception)]; NEVER = [n for n, c in KINDS.items() if not issubclass(c, Exception) and 'Group' not in n]
FAULTS.update({n: lambda c = KINDS[n]: make(c) for n in ANY + NEVER}); NOT_RETRIED += tuple(NEVER)


def cases(tier):
    full = range(3) if tier == 'quick' else range(4)
    for i, t in enumerate(TERMS[:3] if tier == 'quick' else TERMS):
        for limit in full:
            if limit == 3 and i > 2: continue
            for first in OUTCOMES: yield ['one', t, limit, limit + 1, OUTCOMES, first]
    for limit in (3, 4) + ((5,) if tier == 'thorough' else ()):
        for first in OUTCOMES[:2]: yield ['one', TERMS[1], limit, limit + 2, ['ok', 'linalg', 'late'], first]
    for name in ANY + NEVER: yield ['one', 'PER', 1, 2, ['ok', 'linalg', name], name]; yield ['one', 'PER', 1, 2, ['ok', name], 'linalg']
    for n in range(4):
        for limit in range(2 if tier == 'quick' else 3): yield ['list', n, limit, ['ok', 'late', 'interrupt']]

class Env:
    '''The optimiser, answering from a list of outcomes'''
    def __init__(self, outcomes): self.outcomes, self.i, self.calls, self.raised, self.lastset = list(outcomes), 0, [], None, None
    def next(self):
        self.i += 1 # (Counted, as what is raised here may be caught by the code)
        if self.i > len(self.outcomes): fail(f'an attempt is made after all of {self.outcomes}')
        return self.outcomes[self.i - 1]
    def __enter__(self):
        env = self; self.old = GPRegression.__init__
        def init(gp, *a, **kw):
            o = env.next(); env.current = o
            if o == 'setup': env.raised = FAULTS[o](); raise env.raised
            env.old(gp, *a, **kw)
        def opt(model, **kw):
            o = env.current
            env.calls.append((np.array(model.param_array), np.array(model.X), np.array(model.Y), kw, list(model.parameter_names_flat())))
            if o in ('ok', 'late'): fitting.set_model(model, env.i % 2, .2 + .1 * env.i)
            if o != 'ok': env.raised = FAULTS[o](); raise env.raised
            warnings.warn('of the optimiser') # To be ignored
        GPRegression.__init__ = init; self.ctx = fitting.optimiser(opt); self.ctx.__enter__(); return self
    def __exit__(self, *a): GPRegression.__init__ = self.old; self.ctx.__exit__(*a)

def predicted(outcomes, limit):
    '''-> (attempts made, succeeded, retries)'''
    for i, o in enumerate(outcomes):
        if o == 'ok': return i + 1, True, i
        if o in NOT_RETRIED or i == limit: return i + 1, False, i
    return None

def run(f, outcomes):
    with Env(outcomes) as env, warnings.catch_warnings(record = True) as ws:
        warnings.simplefilter('always')
        try: res, err = f(), None
        except Violation: raise
        except BaseException as e:
            if type(e).__name__ == 'Hang': raise
            res, err = None, e
    return env, res, err, [w for w in ws if 'of the optimiser' not in str(w.message) and issubclass(w.category, UserWarning)]

def judge(t, k, outcomes, limit, env, res, err, ws, restarts, opt, what):
    made, good, retries = predicted(outcomes, limit)
    require(env.i == made, lambda: f'{what}: {env.i} attempts are made rather than {made}')
    if good:
        require(err is None, lambda: f'{what}: raises {err!r} although an attempt within the limit succeeds')
        require(isinstance(res, GPModel), lambda: f'{what}: gives {res!r}')
    else: require(err is env.raised and err is not None, lambda: f'{what}: raises {err!r} rather than the last error {env.raised!r}' if err is not None else f'{what}: gives {res} rather than raising {env.raised!r}')
    require(len(ws) == retries, lambda: f'{what}: {len(ws)} warnings for {retries} retries: {[str(w.message) for w in ws]}')
    tried = sum(1 for o in outcomes[:made] if o != 'setup')
    require(len(env.calls) == tried, lambda: f'{what}: the optimiser is called {len(env.calls)} times in {tried} attempts')
    for p, cx, cy, kw, names in env.calls:
        require(np.array_equal(p, INITIAL(t)), lambda: f'{what}: an attempt starts from the parameters {p} rather than {INITIAL(t)}')
        require(np.array_equal(cx, X) and np.array_equal(cy, Y), lambda: f'{what}: an attempt uses other data')
        require(kw['num_restarts'] == restarts and kw['optimizer'] == opt and not kw['robust'], lambda: f'{what}: an attempt is made with {kw}')
    require(term(k) == term(build(t)) and not any(l for n in nodes(k) for l in n.parameters.values()), lambda: f'{what}: the expression is altered to {k!r}')
    well_formed(k, what)
    if good: equal_to_unfailed(t, res, env, restarts, what)
    return retries

def equal_to_unfailed(t, m, env, restarts, what):
    final = np.array(m.model.param_array)
    key = (t, restarts, tuple(final))
    if key not in FRESH:
        f = GPModel(X.copy(), Y.copy(), build(t))
        with fitting.optimiser(lambda model, **_: model.__setitem__(slice(None), final)): f.fit(restarts)
        FRESH[key] = (f.interpret(), f.predict(ref.Y5), {a: getattr(f, a) for a in ('restarts', 'cached_utility_function', 'cached_utility_function_type')}, set(vars(f)))
    i, p, attrs, names = FRESH[key]
    require({a: getattr(m, a) for a in attrs} == attrs and set(vars(m)) - names == set(), lambda: f'{what}: the model differs from one never failing: {vars(m)}')
    got = m.predict(ref.Y5)
    require(all(np.allclose(got[q], p[q], rtol = 1e-9) for q in p) and m.interpret() == i, lambda: f'{what}: the model answers differently from one which never failed')
    want = np.array(ref.values_for(list(m.model.parameter_names_flat()), env.i % 2)); want[-1] = .2 + .1 * env.i
    require(np.allclose(final, want, rtol = 1e-9), lambda: f'{what}: the parameters are {final} rather than those of the first successful attempt {want}')
FRESH, INIT = {}, {}
def INITIAL(t):
    if t not in INIT: INIT[t] = np.array(GPRegression(X, Y, build(t).to_kernel()).param_array)
    return INIT[t]

def check(case): return globals()['do_' + case[0]](*case[1:])

def do_one(t, limit, length, outcomes, first):
    t = T(t); INITIAL(t); n, seen = 0, set()
    ways = [lambda k: ms.fit_one_model(X, Y, k, 3, 'scg', limit), lambda k: ms.fit_one_model(X, Y, k, restarts = 3, optimiser = 'scg', max_retries = limit), lambda k: ms.fit_mods_not_parallel(X, Y, [k], 3, 'scg', limit)[0]]
    if limit == 1: ways.append(lambda k: ms.fit_one_model(X, Y, k, 3, 'scg'))
    for l in range(1, length + 1):
        for rest in itertools.product(outcomes, repeat = l - 1):
            o = [first] + list(rest); p = predicted(o, limit)
            if p is None or p[0] != len(o): continue # Not a complete sequence, or one with unreachable outcomes
            o = o + ['ok'] # Which must not be used
            for w in ways[n % len(ways):][:1] if l > 2 else ways:
                k = build(t); env, res, err, ws = run(lambda: w(k), o); n += 1
                r = judge(t, k, o, limit, env, res, err, ws, 3, 'scg', f'fit of {show(t)} with {limit} retries and outcomes {o[:-1]}')
                if r or not p[1]: seen.add((show(t), limit, tuple(o)))
    return dict(evaluations = n, distinct = seen, sample = f'{show(t)}, {limit} retries, first outcome {first}: {n} sequences')

def do_list(count, limit, outcomes):
    ts = TERMS[:count]; n, seen = 0, set()
    each = []
    for l in range(1, limit + 2):
        for o in itertools.product(outcomes, repeat = l):
            p = predicted(o, limit)
            if p is not None and p[0] == len(o): each.append((list(o), p))
    for combo in itertools.product(each, repeat = count):
        bad = next((i for i, (_, p) in enumerate(combo) if not p[1]), None)
        if bad is not None and bad < count - 1 and any(c is not each[0] for c in combo[bad + 1:]): continue # Outcomes never reached: one representative
        o = [x for c, _ in combo for x in c]; ks = [build(t) for t in ts]; snap = list(ks)
        env, res, err, ws = run(lambda: ms.fit_mods_not_parallel(X, Y, ks, 3, 'scg', limit), o); n += 1
        what = f'fits of {[show(t) for t in ts]} with {limit} retries and outcomes {[c for c, _ in combo]}'
        require(len(ks) == len(snap) and all(a is b for a, b in zip(ks, snap)), lambda: f'{what}: the list of expressions is altered')
        retries = sum(p[2] for _, p in (combo if bad is None else combo[:bad + 1]))
        require(len(ws) == retries, lambda: f'{what}: {len(ws)} warnings for {retries} retries')
        if bad is None:
            require(err is None and isinstance(res, list) and len(res) == count and env.i == len(o), lambda: f'{what}: gives {res}, {err!r} after {env.i} attempts')
            require(all(term(m.kernel_expression) == term(build(t)) for m, t in zip(res, ts)), lambda: f'{what}: the models are of {[m.kernel_expression for m in res]}')
            at = 0
            for m, t, (c, _) in zip(res, ts, combo):
                at += len(c); v = np.array(ref.values_for(list(m.model.parameter_names_flat()), at % 2)); v[-1] = .2 + .1 * at
                require(np.allclose(np.array(m.model.param_array), v), lambda: f'{what}: the model of {show(t)} is not that of its first successful attempt')
        else:
            require(err is env.raised and err is not None and env.i == sum(len(c) for c, _ in combo[:bad + 1]), lambda: f'{what}: gives {err!r} after {env.i} attempts')
        if retries or bad is not None: seen.add(repr((count, limit, o)))
    return dict(evaluations = n, distinct = seen, sample = f'{count} expressions, {limit} retries: {n} combinations')
