'''The log of a verbose search, under all scorings.'''
import io, re, contextlib
from mc.search import *
from mc.checks import c13

LEVEL = 'model_checking'
RULE = 'the configurations of C13 (those of them with up to three rounds) under all scorings of the tape, searched (and continued) with and without the log; the log is parsed and compared with the models found: a state is a scoring, a transition a stated list'
def bounds(tier): return f'{len(list(configs(tier)))} configurations, 0-3 rounds, all scorings of the tape, whole and continued searches'
ASSUMPTIONS = ['lists are as long as the beam of the search, of the round or of the next one, or hold all there are', 'scores are finite', 'a list follows a label naming it (new, so far, not-already-expanded, overall, round-0) and a colon']

def configs(tier):
    for c in c13.configs(tier):
        if c['rounds'] <= (2 if tier == 'quick' else 3) or c['rules'] == ['replace_base'] and c['rounds'] == 3: yield c
def cases(tier):
    for start in (['LIN', 'LIN'], ['PER', 'LIN', 'PER']): # The same more than once: as often fitted, listed, and named at the start
        for rounds in (0, 1): yield [dict(start = start, rules = ['plus_lin'], beam = [2], rounds = rounds), 200]
    for c in configs(tier): yield [c, (40 if tier == 'quick' else 200) if c['rounds'] * len(c['start']) > 3 else 200]

def pieces(s): # Split at commas outside of parentheses
    out, depth, cur = [], 0, ''
    for ch in s:
        depth += (ch in '([') - (ch in ')]')
        if ch == ',' and not depth: out.append(cur.strip()); cur = ''
        else: cur += ch
    return [p for p in out + [cur.strip()] if p]
LABELS = [('first', r'round-0 models'), ('new', r'Best new'), ('so far', r'so far'), ('left', r'not-already-expanded'), ('overall', r'overall')]
def parse(log):
    out, counts = [], []
    for line in log.splitlines():
        m = re.search(r'\[(\d+) new', line)
        if m: counts.append(int(m.group(1)))
        for k, l in LABELS:
            m = re.search(l + r'[^:]*:\s*(.*)$', line)
            if m: out.append((k, pieces(m.group(1)))); break
    return out, counts

def is_best(texts, models, sizes, what):
    '''The listed are the best of the models, in some order of equals'''
    by = {}
    for m in models: by.setdefault(str(m.kernel_expression), []).append(m)
    got = []
    for t in texts:
        require(by.get(t), lambda: f'{what} lists {t}, which is not one of {sorted(by)} (any more)'); got.append(by[t].pop(0))
    require(len(got) in {min(len(models), s) for s in sizes}, lambda: f'{what} lists {len(got)} models where the beam is {sizes}')
    want = sorted(map(score, models))[:len(got)]
    require([score(m) for m in got] == want, lambda: f'{what} lists {name(got)} rather than the best {len(got)} of {name(models)}')

def left_after(result, bs, r):
    tested, expanded = result[1], result[3]; avail, pos = list(tested[0]), 0
    for i in range(1, r + 1):
        nb = min(bs[i - 1], len(avail)); gone = expanded[pos:pos + nb]; pos += nb
        avail = [m for m in avail if not any(m is g for g in gone)] + list(tested[i])
    return avail

def judge(log, result, cfg, bs, start, stop, whole, what):
    '''Rounds start + 1 to stop (round start being given if not whole)'''
    lists, counts = parse(log); full = bs + [bs[-1] if bs else 0]; b0 = beams(cfg, 1)[0]
    sizes = lambda r: {b0, bs[r - 1] if r else b0, full[min(r, len(full) - 1)]}
    want = (['first'] if whole else []) + ['new', 'so far', 'left'] * (stop - start) + (['overall'] if whole else [])
    require([k for k, _ in lists] == want, lambda: f'{what}: the log holds the lists {[k for k, _ in lists]} rather than {want}:\n{log}')
    require(counts == [len(l) for l in result[1][0 if whole else start + 1:stop + 1]], lambda: f'{what}: the log tells of {counts} new models where there were {list(map(len, result[1]))}')
    it = iter(lists); n = 0
    if whole:
        head = log[:re.search(LABELS[0][1], log).start()]; told = re.findall(r'starting from:\s*(.*)', head)
        require(told and sorted(pieces(told[0])) == sorted(str(m.kernel_expression) for m in result[1][0]), lambda: f'{what}: the log states {told} as the start')
        for w, x in (('rounds', cfg['rounds']), ('data points', len(X)), ('restarts', 4), ('optimiser', 'scg'), ('score', 'utility')): require(re.search(rf'\b{x}\b', head), lambda: f'{what}: the log does not state the {w} ({x}): {head}')
    if whole: is_best(next(it)[1], result[1][0], sizes(0), f'{what}: the log of round 0')
    for r in range(start + 1, stop + 1):
        so_far = [m for l in result[1][:r + 1] for m in l]
        for ms_, w in ((result[1][r], 'new'), (so_far, 'best so far'), (left_after(result, bs, r), 'not expanded')):
            is_best(next(it)[1], ms_, sizes(r), f'{what}: the log of round {r} ({w})'); n += 1
    if whole: is_best(next(it)[1], [m for l in result[1] for m in l], {b0}, f'{what}: the end of the log')
    return n + 2 * whole

def logged(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out): r = f()
    return r, out.getvalue()

def check(case):
    cfg, limit = case; bs = beams(cfg, cfg['rounds']); n = runs = 0; tape = []
    beam = lambda l: l if isinstance(cfg['beam'], int) else l
    while tape is not None:
        t = Tape(tape); env = Env(t, batches = cfg['rounds'] + 1, limit = limit, scale = runs % 3); runs += 1
        what = f'search from {cfg["start"]} with {cfg["rules"]}, beam {cfg["beam"]}, {cfg["rounds"]} rounds'
        r, log = logged(lambda: search(cfg, env, verbose = True))
        n += judge(log, r, cfg, bs, 0, cfg['rounds'], True, what)
        if runs % 5 == 1: # Without a log
            q, log = logged(lambda: search(cfg, Env(known = env.known, like = env)))
            require(log == '' and fingerprint(q) == fingerprint(r), lambda: f'{what}: without a log the results differ (or there is one: {log!r})')
        if cfg['rounds'] >= 2 and runs % 2: # In two parts
            e2 = Env(known = env.known, like = env); k = 1; rest = cfg['rounds'] - k
            b = cfg['beam'] if isinstance(cfg['beam'], int) else bs[k:]; cc = dict(cfg, beam = b)
            half, _ = logged(lambda: search(cfg, e2, rounds = k))
            whole, log = logged(lambda: ms.model_search_rounds(X, Y, *half, e2.fit, [rule(x) for x in cfg['rules']], utility, rest, b, 4, 'scg', 2, True))
            n += judge(log, whole, cc, bs, k, cfg['rounds'], False, what + f', continued after round {k}')
        tape = t.next()
    return dict(evaluations = n, transitions = n, states = runs, traces = runs, distinct = [repr(case)], sample = f'{cfg}: {runs} logs')
