'''All combinations of the core configuration flags (read once, at import, hence a process each), over all small expressions.'''
import itertools, json, os, subprocess, sys
from mc.driver import VERIF, require
from mc.config_child import FLAGS

LEVEL = 'model_checking'
RULE = 'one process per combination of the 5 flags (each with another hash seed); in each, the enumerations of C01 (normal forms), C04 (rewrites), C06 (kernels), C07 (expanded forms), C08 (interpretations) and C11 (gradients) at small bounds with the reference configured likewise, and the exported start kernels. A state is an expression in a configuration, a transition one comparison'
def bounds(tier): return dict(quick = 'all 32 configurations; raw trees of <= 3 leaves over 5 base kernels and 4 over 3; rewrites, kernels, expansions, interpretations and gradients of the normal forms of <= 2 leaves over 5 base kernels; of those with 3 leaves, each in two opposite configurations, and over LIN, C and WN each in eight configurations which have all values of any two flags (gradients: a quarter of these)', thorough = 'as quick with all normal forms of <= 3 leaves, 3 hash seeds for each configuration')[tier]
ASSUMPTIONS = ['with independent sides of windows: the shift is the kernel\'s own (expressions do not represent it), and expanded forms and gradients are not compared for expressions with windows (the expanded form is that of windows with shared sides)']
CASE_TIMEOUT = 800

def cases(tier):
    parts = 1 if tier == 'quick' else 4
    for i, vals in enumerate(itertools.product((False, True), repeat = len(FLAGS))):
        for s in range(1 if tier == 'quick' else 3):
            for part in range(parts): yield [dict(zip(FLAGS, vals)), 1000 * s + i + 1, tier if s == 0 else 'quick', part, parts]

def check(case):
    flags, seed, tier, part, parts = case
    env = {**os.environ, 'PYTHONHASHSEED': str(seed)}
    p = subprocess.run([sys.executable, '-m', 'mc.config_child', json.dumps(dict(flags = flags, tier = tier, part = part, parts = parts))], cwd = VERIF, env = env, capture_output = True, text = True)
    line = next((l for l in p.stdout.splitlines() if l.startswith('RESULT ')), None)
    on = [f for f in FLAGS if flags[f]]
    require(line, lambda: f'with only {on} on: {p.stderr[-1500:]}')
    res = json.loads(line[7:])
    require('violation' not in res, lambda: f'with only {on} on: {res["violation"]}')
    return dict(states = res['cases'], evaluations = res['evaluations'], transitions = res['evaluations'], traces = res['cases'], distinct = [repr(case)], sample = f'{on}: {res["cases"]} cases')
