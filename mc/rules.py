'''Reference production rules, on terms: what each documented rewrite gives at one position (subterm s), before being put back and simplified.'''
from mc.terms import *

def kids(t, op): # Operands of t seen as an n-ary op
    return list(t[1]) if not isinstance(t, str) and t[0] == op else [t]
def op(o, *ts): return (o, tuple(ts))
def bases_in(t): return sorted({k for k in t[1] if isinstance(k, str)}) if not isinstance(t, str) and t[0] in '+*' else []
def without(t, k):
    l = list(t[1]); l.remove(k); return l
def nary(o, l): return l[0] if len(l) == 1 else (o, tuple(l))

def add_base(s, B): # S -> S + B; the base factors of a product being places of their own
    res = [op('+', s, B)]
    if not isinstance(s, str) and s[0] == '*': res += [nary('*', without(s, b) + [op('+', b, B)]) for b in bases_in(s)]
    return res
def mul_base(s, B): # S -> S * B; likewise for the base terms of a sum
    res = [op('*', s, B)]
    if not isinstance(s, str) and s[0] == '+': res += [nary('+', without(s, b) + [op('*', b, B)]) for b in bases_in(s)]
    return res
def swap(s, B): # B -> B'
    if isinstance(s, str): return [B] if s != B else []
    if s[0] in '+*': return [nary(s[0], without(s, b) + [B]) for b in bases_in(s) if b != B]
    return []
def changes(s, B, ops = ('CP', 'CW')): return [x for o in ops for x in ((o, s, B), (o, B, s))]
def same(s): return [('CP', s, s), ('CW', s, s)]
def remove(s):
    if isinstance(s, str): return []
    if s[0] in '+*': return [nary(s[0], [x for j, x in enumerate(s[1]) if j != i]) for i in range(len(s[1]))]
    return [s[1], s[2]]
def higher(s):
    polys = [op('*', 'LIN', 'LIN'), op('*', 'LIN', 'LIN', 'LIN')]
    if isinstance(s, str) or s[0] == '+': return [nary('+', [k for k in kids(s, '+') if k != 'SE'] + [p]) for p in polys]
    if s[0] == '*':
        rest = [k for k in s[1] if k != 'SE']
        raised = [nf(op('*', *s[1], *more)) for more in (['LIN'] * 2, ['LIN'] * 3, ['PER'] if 'PER' in s[1] else ['PER'] * 2)]
        return [nary('*', [k for k in kids(r, '*') if k != 'SE']) if 'SE' in s[1] else r for r in raised]
    return [tuple(p if j == i else x for j, x in enumerate(s)) for i in (1, 2) if isinstance(s[i], str) for p in polys]

def rules(include_se = False):
    '''name -> function from a subterm to the terms replacing it'''
    all_b = [b for b in BASES if include_se or b != 'SE']; non_c = [b for b in all_b if b != 'C']
    each = lambda f, bs: lambda s: [x for b in bs for x in f(s, b)]
    return dict(
        plus_base = each(add_base, all_b), times_base = each(mul_base, non_c), replace_base = each(swap, all_b),
        change_new_base = each(changes, non_c), change_same = same,
        change_point_linear = lambda s: changes(s, 'LIN', ['CP']), change_window_constant = lambda s: changes(s, 'C', ['CW']), change_window_linear = lambda s: changes(s, 'LIN', ['CW']),
        times_shifted_base = each(lambda s, b: [op('*', s, op('+', b, 'C'))], non_c),
        replace_with_singleton = each(lambda s, b: [b], all_b), remove_some_term = remove, try_higher_curves = higher)

def expand_ref(t, names, table):
    from mc.bridge import positions, replaced
    return {nf(replaced(t, path, new)) for path, s in positions(t) for name in names for new in table[name](s)}
