'''Writes ../MANIFEST.json: a property is claimed if its check module exists (and is in INFO).'''
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
EX = 'exhaustive bounded enumeration on the real code'
COMMON = 'Exhaustive within the stated bounds, executed on the real code of the working tree; beyond them nothing is claimed. Trusts Python, numpy/scipy, GPy/paramz and the small independent reference in mc/. '
INFO = dict( # id: (technique, level, note)
    C01 = ('explicit-state ' + EX + ' vs a reference rewriting system', 'model_checking', 'Every raw tree of the bound in every order of its terms.'),
    C02 = (EX + ' of all pairs of expressions vs structural reference', 'model_checking', 'All ordered pairs of the pool, all term orders.'),
    C03 = ('explicit-state search over operation histories on live trees', 'model_checking', 'All operation sequences up to the depth, aliasing and links checked on every tree alive after every step.'),
    C04 = (EX + ' (rule x expression x position) vs reference rewrites', 'model_checking', 'All rules at all positions of all normal forms of the bound.'),
    C05 = ('breadth-first search of expansion histories with reference model conformance', 'model_checking', 'All expansion histories to the depth from all exported start kernels with all exported rule groups.'),
    C06 = (EX + ' of all expressions vs reference covariances', 'model_checking', 'Agreement is checked at generic all-distinct parameter values, at which misattributions differ.'),
    C07 = (EX + ' of all expressions vs independent expansion of terms', 'model_checking', 'Components, parameters and covariance at generic all-distinct parameter values.'),
    C08 = (EX + ' of all expressions and factor combinations; sentences parsed back', 'model_checking', 'Wording is free except for the phrases the parser looks for.'),
    C09 = (EX + ' of all relative orders of sigmoid edges vs set-membership model', 'model_checking', 'All multisets of sigmoids of the bound, all weak orders of their edges.'),
    C10 = (EX + ' of parameter grids x input sets vs documented formulas', 'model_checking', 'Real-valued parameters are explored on full grids including both sides of regime boundaries, not continuously.'),
    C11 = (EX + ' of parameter grids x input sets x upstream basis vs finite differences of the reference', 'model_checking', 'As C10; each element of the upstream gradient is explored separately (gradients are linear in it).'),
    C12 = ('explicit-state search over histories of kernel operations vs fresh kernels', 'model_checking', 'All operation sequences up to the depth over a finite alphabet of values and inputs.'),
    C13 = ('exhaustive exploration of all scorings (schedules of the environment) of the real search vs a protocol model', 'model_checking', 'Fits are replaced by an enumerated environment; everything else is the real search.'),
    C14 = ('exhaustive exploration of splits/continuations of the real search over all scorings', 'model_checking', 'Fits are replaced by an enumerated environment; everything else is the real search.'),
    C15 = ('exhaustive fault injection: all sequences of fit outcomes', 'fault_enumeration', 'The optimiser is replaced by one whose outcomes are enumerated.'),
    C16 = ('controlled scheduling of worker processes: all completion orders and fault patterns', 'model_checking', 'The order in which workers finish is controlled through the (replaced) optimiser.'),
    C17 = ('explicit-state search over model operation histories vs fresh models', 'model_checking', 'The optimiser is replaced by an enumerated environment.'),
    C18 = (EX + ' of all expressions and quantity grids vs standard formulas', 'model_checking', 'Free parameters counted independently on terms.'),
    C19 = (EX + ' of expressions x parameters x inputs x options vs closed-form posterior', 'model_checking', 'Tolerance 1e-6 (jitter of GPy included in the reference).'),
    C20 = (EX + ' of all small arguments vs definitions', 'model_checking', 'All lists, predicates and graphs of the bounds.'),
    C21 = (EX + ' of all argument combinations vs definitions', 'model_checking', 'All functions, locations and flags of finite alphabets.'),
    C22 = ('exhaustive enumeration of all 32 configurations x hash seeds, each with bounded exploration', 'model_checking', 'Each configuration in a process of its own, as flags are read at import.'),
    C23 = (EX + ' of all combinations of input forms', 'model_checking', 'The optimiser is replaced by an enumerated environment.'),
    C24 = (EX + ' of kernels x limits x numbers of curves, the draws being recorded', 'model_checking', 'Normal draws are replaced by known ones whose covariance is recorded.'),
    C25 = (EX + ' of all tuples of run times under a controlled clock vs definitions', 'model_checking', 'The clock is replaced by one which only benchmarked functions advance.'),
    C26 = ('exhaustive exploration of all scorings of the real search, its log parsed and compared with its results', 'model_checking', 'Fits are replaced by an enumerated environment; everything else is the real search.'))
man = dict(version = 1, setup_cmd = 'python3 -m compileall -q check.py mc tools >/dev/null && mkdir -p evidence replays', checks = [], not_applicable = [],
    notes = 'No hooks in /repo: the environment (optimiser, fitter, configuration) is controlled from outside. known_findings.txt lists the defects repaired by fix commits. See DESIGN.md.')
for l in (ROOT / 'properties.jsonl').read_text().splitlines():
    i = json.loads(l)['id']
    if i in INFO and (ROOT / f'mc/checks/{i.lower()}.py').exists():
        t, lev, note = INFO[i]
        man['checks'].append(dict(property = i, quick_cmd = f'python3 check.py {i}', thorough_cmd = f'python3 check.py {i} --tier thorough', evidence_file = f'evidence/{i}.json', technique = 'model checking: ' + t, level = lev, level_note = COMMON + note))
    else: man['not_applicable'].append(dict(property = i, reason = 'Not claimed yet: its check is still being built.'))
(ROOT / 'MANIFEST.json').write_text(json.dumps(man, indent = 1) + '\n')
print(len(man['checks']), 'claimed')
