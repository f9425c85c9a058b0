'''Model searches under all scorings, against the stated protocol.'''
import io, contextlib
from mc.search import *

LEVEL = 'model_checking'
RULE = 'the real search with its fitter replaced by an environment; for every configuration (start kernels, rules, beam, rounds) depth-first enumeration of all scorings: all weak orders of the models of each round among those before (with ties), reduced to families of them for the models of the last round (on which only the final ordering depends) and for rounds with more of them than a limit (60 to 300; thorough: 300 to 1000); every result is checked to be a behaviour of the protocol, expansions being recomputed on terms; the places so ordered are made scores in one of three ways in turn (plain, differing by 1e-6, huge), and for the smaller configurations also with all but the best infinite; a state is a (configuration, scoring), a transition one expansion or fit'
def bounds(tier): return f'{len(list(configs(tier)))} configurations, 0-6 rounds, beams 0-5, 1-5 start kernels, expansions of 1 to some 60 models, up to hundreds of models in all'
ASSUMPTIONS = ['scores are comparable (no NaN)', 'which of several models with equal scores comes first is free']

def configs(tier):
    # Rules which close after a few models: every round order, until nothing is new
    for beam in ([1], [2], [1, 2], 3, [5], [2, 0, 1], 0, [4, 1]):
        for rounds in (0, 1, 2, 3, 4): yield dict(start = ['WN'], rules = ['replace_base'], beam = beam, rounds = rounds)
    # The lattice of sums of LIN and PER: overlapping expansions
    for beam, rounds in ((1, 2), ([2], 2), ([2, 1], 2), ([1, 2], 2), ([3, 1, 2], 2), (1, 3), ([1, 2, 1], 3)): yield dict(start = ['LIN', 'PER'], rules = ['plus_lin', 'plus_per'], beam = beam, rounds = rounds)
    for beam, rounds in ((1, 3), ([2, 1], 3), (2, 3), (3, 3)): yield dict(start = ['LIN', 'PER', ('+', ('LIN', 'PER'))], rules = ['plus_lin'], beam = beam, rounds = rounds)
    # Commuting rules of different kinds, reached from either side; expansion back to tested ones
    for beam, rounds in ((1, 2), (2, 2), ([2, 1], 2)): yield dict(start = ['PER'], rules = ['plus_lin', 'times_lin'], beam = beam, rounds = rounds)
    for beam, rounds in ((1, 2), (2, 2)): yield dict(start = [('+', ('LIN', 'LIN', 'PER')), ('+', ('LIN', 'PER', 'PER'))], rules = ['remove_some_term', 'plus_lin'], beam = beam, rounds = rounds)
    for beam, rounds in ((1, 4), (2, 3), (3, 2)): yield dict(start = [('+', ('LIN', 'PER', 'SE')), ('*', ('LIN', 'PER', 'SE'))], rules = ['remove_some_term'], beam = beam, rounds = rounds)
    for beam, rounds in ((1, 2), (2, 2), ([1, 2], 2)): yield dict(start = ['WN', 'LIN'], rules = ['cp_lin'], beam = beam, rounds = rounds)
    # Larger ones
    yield dict(start = ['WN'], rules = ['change_same'], beam = 2, rounds = 2)
    yield dict(start = [('CP', 'LIN', 'PER'), 'C'], rules = ['replace_with_singleton', 'change_window_constant'], beam = [2, 1], rounds = 2)
    yield dict(start = ['LIN'], rules = grammar_group('Minimal'), beam = [1, 2], rounds = 1)
    # Long ones, wide ones, and many tested expressions (of few scorings in each round)
    yield dict(start = ['LIN'], rules = ['plus_lin'], beam = 1, rounds = 6, limit = 4)
    yield dict(start = ['LIN', 'PER'], rules = ['plus_lin'], beam = [1, 2, 1, 3, 1], rounds = 6, limit = 4)
    yield dict(start = ['LIN', 'PER', 'SE', 'WN', 'C'], rules = ['times_lin', 'plus_per'], beam = [5, 4, 5], rounds = 3, limit = 4)
    yield dict(start = ['LIN', 'PER'], rules = grammar_group('Default'), beam = [1, 2, 1], rounds = 3, limit = 2)
    yield dict(start = ['LIN', 'PER'], rules = grammar_group('Default'), beam = [2, 6, 8], rounds = 3, limit = 2)
    yield dict(start = ['WN', 'LIN'], rules = ['replace_base', 'remove_some_term', 'plus_per'], beam = [3, 2, 4, 1], rounds = 4, limit = 4)
    if tier == 'thorough':
        yield dict(start = ['LIN', 'PER'], rules = ['plus_lin', 'plus_per'], beam = 2, rounds = 3)
        yield dict(start = ['LIN', 'PER', 'C'], rules = ['plus_lin', 'times_lin'], beam = [2, 1], rounds = 2)
        yield dict(start = ['WN'], rules = ['change_same'], beam = [2, 1, 1], rounds = 3)
        yield dict(start = ['LIN'], rules = grammar_group('Default'), beam = [1, 2], rounds = 2)
        yield dict(start = ['PER', 'LIN', 'WN', 'C'], rules = ['plus_lin'], beam = [2, 1], rounds = 3)
def grammar_group(g): return [next(n for n, f in grammar.non_grouped_prs.items() if f is r) for r in grammar.production_rules[g]]

S = 16
def cases(tier):
    for i, c in enumerate(configs(tier)):
        if 'limit' not in c: c['limit'] = (60 if tier == 'quick' else 300) if c['rounds'] * len(c['start']) > 7 and c['beam'] != [2, 1] else 300 if tier == 'quick' else 1000
        big = c['rounds'] > 1 and (c['start'] != ['WN'] or c['rules'] != ['replace_base'])
        parts = 1 if not big else 4 if c['limit'] <= 4 else S
        for s in range(parts): yield [c, s, parts]
        if not big: yield [c, 0, 1, 3]

def explore(cfg, s, S, visit, scale = None):
    '''All scorings whose second choice (or first, if there is none) is s modulo S -> number of them'''
    tape, runs = [], 0
    while tape is not None:
        t = Tape(tape); env = Env(t, batches = cfg['rounds'] + 1, limit = cfg['limit'], scale = runs % 3 if scale is None else scale)
        r = search(cfg, env, verbose = runs % 7 == 0)
        key = t.taken[1] if len(t.taken) > 1 else t.taken[0] if t.taken else 0
        if key % S == s: visit(r, env, t); runs += 1
        elif len(t.taken) > 1: # Not of this part: skip all continuations of this second choice
            t.taken, t.sizes = t.taken[:2], t.sizes[:2]
        tape = t.next()
    return runs

def check(case):
    cfg, s, S = case[:3]; scale = case[3] if len(case) > 3 else None; start_terms = [nf(T(t)) for t in cfg['start']]; bs = beams(cfg, cfg['rounds']); n, states = [0], set()
    def visit(r, env, t):
        n[0] += conforms(r, env, start_terms, cfg['rules'], bs, f'search from {cfg["start"]} with {cfg["rules"]}, beam {cfg["beam"]}, {cfg["rounds"]} rounds, scores { {show(a): b for a, b in env.known.items()} }')
        require(env.args[2:] == (4, 'scg', 2) and np.array_equal(env.args[0], X) and np.array_equal(env.args[1], Y), lambda: f'the fitter is given {env.args}')
    runs = explore(cfg, s, S, visit, scale)
    return dict(evaluations = n[0], transitions = n[0], states = runs, traces = runs, distinct = [repr(case)], sample = f'{cfg}: {runs} scorings (part {s} of {S})')
