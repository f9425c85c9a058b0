'''Runs one property's exploration: enumerates its whole bounded space in forked workers, reports violations with replayable artefacts, writes the evidence.'''
import argparse, importlib, json, os, pathlib, pickle, select, signal, struct, sys, time, traceback, warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('MC_REPO', '/repo'))
IDS = ['C%02d' % i for i in range(1, 24)]
CASE_TIMEOUT = 150 # Seconds for one case (cases take milliseconds to seconds): beyond it the code under test is considered not to terminate
STOP_AFTER = 5 # Violations after which a worker stops exploring


class Violation(Exception):
    '''The property does not hold on the case being checked.'''
class Hang(BaseException): pass

def fail(msg): raise Violation(msg)
def require(cond, msg):
    if not cond: raise Violation(msg() if callable(msg) else msg)


FLAGS = {'C09': {'__FIX_SIGMOIDAL_KERNELS_SLOPE': False}} # Checks run in another than the default configuration

def load_repo(flags = None):
    '''Import the code under test from REPO's working tree (never from an installed copy), possibly with some core configuration flags changed.'''
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(REPO))
    if flags:
        import types
        cfg = types.ModuleType('GPy_ABCD.config'); f = REPO / 'GPy_ABCD' / 'config.py'; cfg.__file__ = str(f)
        exec(compile(f.read_text(), str(f), 'exec'), cfg.__dict__)
        for k, v in flags.items(): assert k in cfg.__dict__, f'no configuration flag {k}'; cfg.__dict__[k] = v
        sys.modules['GPy_ABCD.config'] = cfg
    warnings.simplefilter('ignore')
    import logging; logging.disable(logging.CRITICAL)
    import GPy_ABCD
    got = pathlib.Path(GPy_ABCD.__file__).resolve()
    assert REPO.resolve() in got.parents, f'GPy_ABCD was imported from {got}, not from {REPO}'
    warnings.simplefilter('ignore')
    import numpy as np; np.seterr(all = 'ignore')


def one_case(mod, case):
    '''-> (counts dict, violation message or None)'''
    def on_alarm(*_): raise Hang()
    signal.signal(signal.SIGALRM, on_alarm); signal.alarm(getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT))
    try:
        res = mod.check(case)
        return (res or {}), None
    except Violation as e: return {}, str(e)
    except Hang: return {}, f'no answer within {CASE_TIMEOUT} s (does not terminate)'
    except RecursionError as e: return {}, f'RecursionError: {e}'
    except Exception as e: return {}, f'unexpected {type(e).__name__}: {e}\n' + ''.join(traceback.format_exc().splitlines(True)[-8:])
    finally: signal.alarm(0)


def worker(mod, cases, idxs, out, known):
    def send(obj):
        b = pickle.dumps(obj); os.write(out, struct.pack('<I', len(b))) ; off = 0
        while off < len(b): off += os.write(out, b[off:off + 65536])
    tot, distinct, bad, n, samples, t_last = {}, set(), 0, 0, [], time.time()
    for i in idxs:
        c, msg = one_case(mod, cases[i])
        n += 1
        if msg is not None:
            fp = known_match(known, cases[i], msg)
            send(('bad', i, msg, fp))
            if fp is None: bad += 1
            if bad >= STOP_AFTER or 'does not terminate' in msg: break
        for k, v in c.items():
            if k == 'distinct': distinct.update(v if isinstance(v, (set, list)) else [v])
            elif k == 'sample': samples += [v] if len(samples) < 3 else []
            elif k.startswith('max_'): tot[k] = max(tot.get(k, 0), v)
            else: tot[k] = tot.get(k, 0) + v
    send(('end', n, tot, {hash_of(d) for d in distinct}, samples))

def hash_of(d): # Stable across processes, unlike hash()
    import hashlib
    return hashlib.blake2b(repr(d).encode(), digest_size = 8).digest()


def known_entries(pid):
    '''known_findings.txt lines: 'finding: property=<id> case=<json> what' suppress exactly that case; 'fixed: ...' lines suppress nothing.'''
    out = []
    f = VERIF / 'known_findings.txt'
    for l in f.read_text().splitlines() if f.exists() else []:
        if l.startswith(f'finding: property={pid} case='):
            case, _, what = l[len(f'finding: property={pid} case='):].partition(' :: ')
            out.append((json.loads(case), what))
    return out
def known_match(known, case, msg):
    return next((what for c, what in known if c == jsonable(case)), None)
def jsonable(c): return json.loads(json.dumps(c))


def explore(mod, tier, pid, n_workers):
    cases = list(mod.cases(tier))
    known = known_entries(pid)
    n_workers = max(1, min(n_workers, len(cases)))
    procs = []
    for w in range(n_workers):
        r, wr = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(r); code = 0
            for q in procs: os.close(q[1])
            try:
                devnull = os.open(os.devnull, os.O_WRONLY); os.dup2(devnull, 1) # Whatever the code under test prints
                worker(mod, cases, range(w, len(cases), n_workers), wr, known)
            except BaseException: traceback.print_exc(); code = 3
            finally: os._exit(code)
        os.close(wr); procs.append([pid_, r, b'', False])
    tot, distinct, bads, samples, n = {}, set(), [], [], 0
    open_ = {p[1]: p for p in procs}
    while open_:
        for fd in select.select(list(open_), [], [])[0]:
            p = open_[fd]; b = os.read(fd, 1 << 20)
            if not b: os.close(fd); del open_[fd]; continue
            p[2] += b
            while len(p[2]) >= 4 and len(p[2]) >= 4 + (l := struct.unpack('<I', p[2][:4])[0]):
                m, p[2] = pickle.loads(p[2][4:4 + l]), p[2][4 + l:]
                if m[0] == 'bad': bads.append(m[1:])
                else:
                    p[3] = True; n += m[1]; distinct |= m[3]; samples += m[4]
                    for k, v in m[2].items(): tot[k] = max(tot.get(k, 0), v) if k.startswith('max_') else tot.get(k, 0) + v
    for p in procs:
        st = os.waitpid(p[0], 0)[1]
        if not p[3]: bads.append((None, f'a worker died exploring (status {st})', None))
    return cases, n, tot, distinct, bads, samples[:6]


def main(argv):
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier'); ap.add_argument('--replay'); ap.add_argument('--jobs', type = int, default = int(os.environ.get('MC_JOBS', 0)) or len(os.sched_getaffinity(0)))
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    pid, seed, t0 = a.id, int(os.environ.get('VERIF_SEED', '1') or 1), time.time()
    import_error = None
    try:
        load_repo(FLAGS.get(pid))
        mod = importlib.import_module(f'mc.checks.{pid.lower()}')
        if hasattr(mod, 'setup'): mod.setup(tier)
    except Exception: import_error = traceback.format_exc()
    (VERIF / 'evidence').mkdir(exist_ok = True); (VERIF / 'replays').mkdir(exist_ok = True)

    if import_error: # Code which cannot even be imported satisfies nothing
        print(import_error)
        rep = VERIF / 'replays' / f'{pid}-import.json'; rep.write_text(json.dumps(dict(property = pid, error = import_error)))
        print(f'VIOLATION property={pid} replay={rep}'); return 1
    if a.replay:
        case = json.loads(pathlib.Path(a.replay).read_text())['case']
        _, msg = one_case(mod, case)
        print(f'case: {json.dumps(case)}\n' + ('holds' if msg is None else f'VIOLATED: {msg}'))
        return 0 if msg is None else 1

    cases, n, tot, distinct, bads, samples = explore(mod, tier, pid, a.jobs)
    news = sorted([b for b in bads if b[2] is None], key = lambda b: (b[0] is None, b[0]))
    for k in sorted({b[2] for b in bads if b[2] is not None}): print(f'KNOWN-FINDING: property={pid} {k}')

    cov = dict(samples = samples or [jsonable(c) for c in cases[:3]], exhaustive = not news, rule = mod.RULE, bounds = mod.bounds(tier) if hasattr(mod, 'bounds') else '')
    if mod.LEVEL == 'model_checking':
        ev = tot.pop('evaluations', n)
        cov.update(states = tot.pop('states', len(distinct)), transitions = tot.pop('transitions', ev)); traces = tot.pop('traces', n)
        cov['traces_validated_against_impl'] = n if traces in (cov['states'], cov['transitions']) else traces # A case is at least one whole trace
    else: cov.update(evaluations = tot.pop('evaluations', n), distinct_nontrivial = len(distinct))
    cov.update(tot)
    if n not in cov.values(): cov['cases'] = n
    wall = time.time() - t0
    (VERIF / 'evidence' / f'{pid}.json').write_text(json.dumps(dict(property = pid, tier = tier, seed = seed, level = mod.LEVEL, coverage = cov,
        assumptions = getattr(mod, 'ASSUMPTIONS', []), wall_s = round(wall, 2), violations = len(news)), indent = 1, default = str))
    print(f'{pid} [{tier}] {n} of {len(cases)} cases, {len(distinct)} distinct observations, ' + ', '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool)) + f', {wall:.0f} s')

    if n < len(cases) and not news: news = [(None, 'the exploration did not cover all cases', None)]
    for j, (i, msg, _) in enumerate(news[:8]):
        rep = VERIF / 'replays' / f'{pid}-{j}.json'
        rep.write_text(json.dumps(dict(property = pid, tier = tier, case = None if i is None else jsonable(cases[i]), violation = msg, how = f'python3 check.py {pid} --replay {rep}'), indent = 1))
        print(f'VIOLATION property={pid} replay={rep}\n    case: {None if i is None else json.dumps(jsonable(cases[i]))[:600]}\n    {msg[:1500]}')
    return 1 if news else 0
