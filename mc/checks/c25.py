'''Benchmark tables under a controlled clock.'''
import io, contextlib, itertools, time
import numpy as np
from mc.driver import fail, require
from GPy_ABCD.Util import benchmarking as bm

LEVEL = 'model_checking'
RULE = 'the clock is replaced by one which only the benchmarked functions (and pauses) advance; all tuples of run times over an alphabet for up to 3 functions and 3 or 4 runs, all ways of passing arguments, shared and own; every table is compared, entry by entry, with the definition; merged tables of every split; the versions compiled for every subset of ingredients; a state is a tuple of run times, a transition a benchmarked call'
def bounds(tier): return dict(quick = '1 function: 4^4 times; 2: 3^6; 3: 2^9 (and 2^12 of runs of 4 in thorough); 2-4 tables of 4 functions merged; 32 subsets of ingredients to compile', thorough = 'as quick, 3 functions with 4 runs of 2 times, 2 functions with runs of 4 of 3 times')[tier]
ASSUMPTIONS = ['run times are positive', 'functions are timed by the clocks of the module time']
COLS = ['f', 'mean', 'mean excl. 1st', 'best mean ratio', 'best mean1 ratio', 'next mean ratio', 'next mean1 ratio', 't0', 't1', 't2']
MARKDOWN = True
try: import tabulate
except ImportError: MARKDOWN = False

def cases(tier):
    for first in (1, 2, 4, 7): yield ['times', 1, 4, [1, 2, 4, 7], first]
    for first in (1, 3, 4): yield ['times', 2, 3, [1, 3, 4], first]
    for first in (1, 3): yield ['times', 3, 3, [1, 3], first]
    if tier == 'thorough':
        for first in (1, 3): yield ['times', 3, 4, [1, 3], first]
        for first in (1, 3, 4): yield ['times', 2, 4, [1, 3, 4], first]
    yield ['arguments']
    yield ['merge']
    for i in range(4): yield ['merged', i]
    for i in range(8): yield ['numba', i]

class Clock:
    names = dict(perf_counter = 1, monotonic = 1, time = 1, process_time = 1, perf_counter_ns = 10 ** 9, monotonic_ns = 10 ** 9, time_ns = 10 ** 9, process_time_ns = 10 ** 9)
    def __enter__(self):
        self.now, self.slept, self.old = 1000., [], {n: getattr(time, n) for n in list(self.names) + ['sleep']}
        for n, u in self.names.items(): setattr(time, n, (lambda u = u: self.now) if u == 1 else (lambda u = u: round(self.now * u)))
        def sleep(s): self.slept.append(s); self.now += s
        time.sleep = sleep; return self
    def __exit__(self, *a):
        for n, f in self.old.items(): setattr(time, n, f)

def function(clock, times, log):
    left = list(times)
    def f(*a, **k):
        log.append((a, k)); clock.now += left.pop(0) if left else fail('more calls than runs'); return len(log)
    return f

def expected(times): # {name: run times} -> rows by increasing mean (of equal means in any order)
    rows = []
    for n, t in times.items(): rows.append([n, sum(t) / len(t), sum(t[1:]) / (len(t) - 1), t[0], t[1], t[2]])
    return rows
def matches(df, times, what):
    require(list(df.columns) == COLS and len(df) == len(times), lambda: f'{what}: the table has columns {list(df.columns)} and {len(df)} rows for {len(times)} functions')
    rows = df.to_dict('records'); want = {r[0]: r for r in expected(times)}
    require(sorted(r['f'] for r in rows) == sorted(times), lambda: f'{what}: the table is of {[r["f"] for r in rows]}')
    require(all(a['mean'] <= b['mean'] for a, b in zip(rows, rows[1:])), lambda: f'{what}: the rows are not by increasing mean:\n{df}')
    best, last = rows[0], rows[0]
    close = lambda a, b: abs(a - b) <= 1e-9 * (1 + abs(b))
    for r in rows:
        w = want[r['f']]
        exp = dict(zip(COLS, [w[0], w[1], w[2], w[1] / want[best['f']][1], w[2] / want[best['f']][2], w[1] / want[last['f']][1], w[2] / want[last['f']][2], w[3], w[4], w[5]]))
        require(all(close(float(r[c]), exp[c]) for c in COLS[1:]), lambda: f'{what}: the row {r} should be {exp}')
        last = r

def quietly(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out): r = f()
    return r, out.getvalue()

def check(case): return globals()['do_' + case[0]](*case[1:])

def do_times(k, n, alphabet, first):
    runs = calls = 0
    for rest in itertools.product(alphabet, repeat = k * n - 1):
        ts = (first,) + rest; times = {f'f{i}': ts[i * n:(i + 1) * n] for i in range(k)}; runs += 1
        verbose = MARKDOWN and runs % 50 == 1
        with Clock() as c:
            logs = {f: [] for f in times}; fs = {f: function(c, t, logs[f]) for f, t in times.items()}
            own = runs % 3 == 1 and k > 1 # The last as one with arguments of its own
            if own: last = f'f{k - 1}'; oo = {last: (fs.pop(last), [5], {})}
            df, said = quietly(lambda: bm.compare_implementations(fs, n, runs % 2, verbose, oo if own else None))
            slept = list(c.slept)
        what = f'comparing functions which take {times}'
        require(all(len(l) == n for l in logs.values()), lambda: f'{what}: {[len(l) for l in logs.values()]} calls rather than {n} each'); calls += n * k
        require(slept == [runs % 2] * k, lambda: f'{what}: pauses {slept}')
        require(bool(said) == verbose, lambda: f'{what} prints {said!r}')
        matches(df, times, what)
    return dict(evaluations = calls, transitions = calls, states = runs, traces = runs, distinct = [f'{k} {n} {first}'], sample = f'{k} functions, {n} runs, first taking {first}: {runs} tables')

def do_arguments():
    n = calls = 0
    ARGS = [None, [], [1], [[3, 4]], ['a', 2, None]]; KW = [None, {}, {'x': 1}, {'x': None, 'y': [2]}]
    for a, kw in itertools.product(ARGS, KW):
        for a2, kw2 in itertools.product(ARGS, KW):
            with Clock() as c:
                logs = [[], [], []]
                df, _ = quietly(lambda: bm.compare_implementations({'p': function(c, [3, 1, 2], logs[0]), 'q': function(c, [1, 1, 5], logs[1])}, 3, 0, False, {'own': (function(c, [2, 2, 2], logs[2]), a2, kw2)}, a, kw)); n += 1; calls += 9
            for l, aa, kk in ((logs[0], a, kw), (logs[1], a, kw), (logs[2], a2, kw2)):
                require(l == [(tuple(aa or ()), dict(kk or {}))] * 3, lambda: f'with arguments {a}, {kw} (and own ones {a2}, {kw2}) the calls are {l}')
            matches(df, dict(p = [3, 1, 2], q = [1, 1, 5], own = [2, 2, 2]), 'arguments')
    for runs in range(1, 6):
        for ts in itertools.product((1, 2), repeat = runs):
            with Clock() as c:
                log = []; got = bm.timethis(function(c, ts, log), runs, 7, b = 8); n += 1
            require(len(got) == runs and np.allclose(got, ts) and log == [((7,), {'b': 8})] * runs, lambda: f'timing a function which takes {ts} gives {got}, with calls {log}')
    with Clock() as c: log = []; got = bm.timethis(function(c, [4, 6], log)); n += 1
    require(np.allclose(got, [4, 6]), f'timing by default gives {got}')
    return dict(evaluations = calls, transitions = calls, states = n, traces = n, distinct = ['arguments'])

def do_merge():
    T = {'a': (3, 1, 2), 'b': (1, 1, 1), 'c': (9, 2, 2), 'd': (2, 4, 4)}; n = 0
    def table(fs):
        with Clock() as c: return quietly(lambda: bm.compare_implementations({f: function(c, T[f], []) for f in fs}, 3, 0, False))[0]
    for k in range(1, 5):
        for assign in itertools.product(range(k), repeat = 4):
            parts = [[f for f, g in zip(T, assign) if g == i] for i in range(k)]
            if not all(parts): continue
            ts = [table(p) for p in parts]; before = [t.copy() for t in ts]
            m, said = quietly(lambda: bm.merge_bench_tables(*ts, verbose = MARKDOWN and n % 5 == 0)); n += 1
            matches(m, T, f'tables of {parts} merged')
            require(list(m.index) == list(range(4)), lambda: f'rows of merged tables are numbered {list(m.index)}')
            require(all(a.equals(b) for a, b in zip(ts, before)), lambda: f'merging tables of {parts} alters them')
    return dict(evaluations = n, transitions = n, states = n, traces = n, distinct = ['merge'])

def do_merged(part):
    n = 0
    ALL = list(itertools.product((1, 2, 6), repeat = 3))
    for a, b, c in itertools.product(ALL, ALL, [(1, 1, 1), (4, 1, 2)]): # A table of two and one of one
        n += 1
        if n % 4 != part: continue
        T = dict(a = a, b = b, c = c)
        for parts in ((['a', 'b'], ['c']), (['a'], ['b'], ['c'])) if n % 3 == 1 else ((['a'], ['c', 'b']),):
            with Clock() as k: ts = [quietly(lambda: bm.compare_implementations({f: function(k, T[f], []) for f in p}, 3, 0, False))[0] for p in parts]
            matches(quietly(lambda: bm.merge_bench_tables(*ts, verbose = False))[0], T, f'tables of {T} in parts {parts}, merged')
    return dict(evaluations = n, transitions = n, states = n // 4, traces = n // 4, distinct = [f'merged {part}'])

def base_f(x): return x * x + 1.
def scalar_f(x): return x * x + 1.
def do_numba(part):
    n, seen = 0, set()
    from numba import float64 as f8
    sig, sigs = f8(f8), [f8(f8)]
    for i, (f, s, ss, g, gs, gss) in enumerate(itertools.product((0, 1), repeat = 6)):
        if not (f or g) or (not f and (s or ss)) or (not g and (gs or gss)) or i % 8 != part: continue
        par = f and i % 16 == 8 and part == 0
        for prefix in (None, 'v '):
            df, _ = quietly(lambda: bm.numba_comparisons(base_f if f else None, sig if s else None, [sig] if ss else None, scalar_f if g else None, sigs if gs else None, [sigs] if gss else None, False, {'own': (base_f, [1.], {})}, 3, 0, prefix, False, [2.], None)); n += 1
            want = ['Base', 'Lazy'] * f + ['Eager'] * (f and s) + ['Eager2'] * (f and ss) + ['Vec Lazy'] * g + ['Vec Eager'] * (g and gs) + ['Vec Eager2'] * (g and gss)
            want = [(prefix or '') + w for w in want] + ['own']
            require(sorted(df['f']) == sorted(want), lambda: f'numba comparisons of ingredients {f, s, ss, g, gs, gss} are of {list(df["f"])} rather than {want}')
            seen.add((i, prefix))
    return dict(evaluations = n, transitions = n, states = len(seen), traces = n, distinct = [f'numba {part}'])
