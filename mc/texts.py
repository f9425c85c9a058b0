'''Reads back the natural-language description of a component, independently of how the code writes it.'''
import re
from mc.driver import fail, require
NUM = r'(-?\d+\.\d+|-?inf|nan)'

def parse(line):
    '''-> dict of what the sentence states'''
    d = dict(noise = 'oise' in line, constant = 'onstant' in line)
    body, _, tail = line.partition(' applies ')
    if not tail: tail = line
    v = re.findall(r'variance ' + NUM, line); require(len(v) == 1, f'not exactly one variance stated in: {line}'); d['variance'] = v[0]
    d['per'] = re.findall(r'period ' + NUM + r' and lengthscale ' + NUM, body)
    d['said_per'] = 'eriodic' in body
    d['se'] = re.findall(r'smooth(?:ly)?(?: function)? with lengthscale ' + NUM, body)
    require(len(re.findall('lengthscale', line)) == len(d['per']) + len(d['se']), f'stray lengthscales in: {line}')
    require(('smooth' in body) == bool(d['se']), f'a smooth factor without lengthscale in: {line}')
    d['lin'] = None; lin = re.search(r'linear', body); pol = re.search(r'polynomial(?:ly)?[a-z ]* of order (\d+)', body)
    require(not (lin and pol), f'both linear and polynomial: {line}')
    if lin: off = re.search(r'horizontal offset ' + NUM, body); d['lin'] = (1, [off[1]] if off else None)
    if pol:
        roots = re.search(r'with roots ((?:(?:and )?-?[\d.]+(?:, )?)+)', body)
        d['lin'] = (int(pol[1]), re.findall(NUM, roots[1]) if roots else None)
    m = re.search(r'(?:modulated by another periodic function)', body), re.search(r'repeatedly modulated by (\d+) more periodic', body)
    d['n_per'] = 2 if m[0] else 1 + int(m[1][1]) if m[1] else 1 if d['said_per'] else 0
    d['main'] = (re.search(r'main period ' + NUM, body) or [None, None])[1]
    d['intervals'] = None
    if ' applies ' in line:
        d['intervals'], tail2 = [], tail.split(', and it has')[0]
        if tail2.strip() != 'nowhere':
            pieces = [p for p in re.split(r', (?:and )?(?=until|from|between)', tail2)]
            for p in pieces:
                p0 = p.split('(')[0]
                if m := re.fullmatch(r'(?:and )?until ' + NUM, p0.strip()): i = (None, m[1])
                elif m := re.fullmatch(r'(?:and )?from ' + NUM, p0.strip()): i = (m[1], None)
                elif m := re.fullmatch(r'(?:and )?between ' + NUM + ' and ' + NUM, p0.strip()): i = (m[1], m[2])
                else: fail(f'an interval which cannot be read, {p!r}, in: {line}')
                sl = re.findall(NUM, p.partition('(')[2]); said = 'slope' in p
                require(bool(sl) == said, f'slopes without values in: {line}')
                d['intervals'].append((i, sl, 'same' in p))
    d['slopes_said'] = 'slope' in line
    return d

def num(x): return '{:.2f}'.format(float(x))
def describe(factors, variance, sigmoids, lin_offset = True, fitted_slopes = False):
    '''What must be stated of a component: factors = {base: [parameters]}, sigmoids = [(kind, location, width, slope)]'''
    from mc import intervals as iv
    per = sorted(((p['period'], p['lengthscale']) for p in factors.get('PER', [])), key = lambda p: -float(p[0]))
    d = dict(noise = 'WN' in factors, constant = 'C' in factors, variance = num(variance), per = [(num(p), num(l)) for p, l in per], n_per = len(per),
             se = [num(p['lengthscale']) for p in factors.get('SE', [])], lin = None, intervals = None)
    if 'LIN' in factors: d['lin'] = (len(factors['LIN']), sorted(num(p['offset']) for p in factors['LIN']) if lin_offset else None)
    if sigmoids: d['intervals'] = iv.intersection([s[:3] for s in sigmoids])
    return d

def compare(line, factors, variance, sigmoids, lin_offset = True, fitted_slopes = False):
    from mc import intervals as iv
    got, want = parse(line), describe(factors, variance, sigmoids, lin_offset, fitted_slopes)
    # Periodic factors of equal periods in any order
    require(sorted(got['per']) == sorted(want['per']) and all(float(a[0]) >= float(b[0]) for a, b in zip(got['per'], got['per'][1:])), lambda: f'periodic factors {got["per"]} rather than {want["per"]} in the description of {factors}: {line}')
    for k in ('noise', 'constant', 'variance', 'n_per', 'se'):
        require(got[k] == want[k], lambda: f'{k}: {got[k]} rather than {want[k]} in the description of {factors}: {line}')
    if want['lin'] is None: require(got['lin'] is None, lambda: f'a linear factor described out of {factors}: {line}')
    else:
        require(got['lin'] is not None, lambda: f'no linear factor described out of {factors}: {line}')
        g = (got['lin'][0], sorted(got['lin'][1]) if got['lin'][1] is not None else None)
        require(g == want['lin'], lambda: f'order and roots {g} rather than {want["lin"]}: {line}')
    if len(want['per']) > 1: require(got['main'] == want['per'][0][0], lambda: f'the main period is not the largest: {line}')
    if want['intervals'] is None: require(got['intervals'] is None, lambda: f'an interval is stated without sigmoids: {line}'); return
    require(got['intervals'] is not None, lambda: f'no interval is stated for {sigmoids}: {line}')
    fmt = [(None if a == -iv.INF else num(a), None if b == iv.INF else num(b)) for a, b in want['intervals']]
    require([i for i, _, _ in got['intervals']] == fmt, lambda: f'intervals {[i for i, _, _ in got["intervals"]]} rather than {fmt} for {sigmoids}: {line}')
    require(got['slopes_said'] == (fitted_slopes and bool(fmt)), lambda: f'slopes are {"" if got["slopes_said"] else "not "}stated although they are {"" if fitted_slopes else "not "}fitted: {line}')
    if fitted_slopes:
        for (a, b), (_, sl, same) in zip(want['intervals'], got['intervals']):
            ok = [[num(s[3]) for s in sigmoids if at(s[:3], x)] for x, at in ((a, iv.starts_at), (b, iv.ends_at)) if abs(x) != iv.INF]
            if same: sl = sl * len(ok)
            require(len(sl) == len(ok) and all(x in o for x, o in zip(sl, ok)), lambda: f'slopes {sl} stated for the interval {(a, b)} of {sigmoids}: {line}')
