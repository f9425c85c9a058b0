'''Reference: sigmoids as sets of reals, on which their intersection is computed by membership tests only.'''
INF = float('inf')

def on(s, x): # s: (kind, location, width or None)
    kind, l, w = s
    return {'S': lambda: x > l, 'Sr': lambda: x < l, 'SI': lambda: l < x < l + w, 'SIr': lambda: x < l or x > l + w}[kind]()
def edges(s): return [s[1]] if s[0] in ('S', 'Sr') else [s[1], s[1] + s[2]]
def intersection(sigmoids):
    '''-> increasing list of (start, end), possibly infinite, where all are on'''
    pts = sorted({e for s in sigmoids for e in edges(s)})
    cuts = [-INF] + pts + [INF]
    mids = [pts[0] - 1] + [(a + b) / 2 for a, b in zip(pts, pts[1:])] + [pts[-1] + 1]
    return [(a, b) for a, b, m in zip(cuts, cuts[1:], mids) if all(on(s, m) for s in sigmoids)]
def starts_at(s, x): return (s[0] == 'S' and x == s[1]) or (s[0] == 'SI' and x == s[1]) or (s[0] == 'SIr' and x == s[1] + s[2])
def ends_at(s, x): return (s[0] == 'Sr' and x == s[1]) or (s[0] == 'SI' and x == s[1] + s[2]) or (s[0] == 'SIr' and x == s[1])

def weak_orders(constraints, n):
    '''All rankings (with ties) of n items, given as tuples of contiguous ranks, such that rank[i] < rank[j] for (i, j) in constraints (i < j)'''
    def rec(i, blocks):
        if i == n:
            r = [0] * n
            for rank, b in enumerate(blocks):
                for x in b: r[x] = rank
            yield tuple(r); return
        lo = -1 # Lower bounds for item i
        for a, b in constraints:
            if b == i: lo = max(lo, next(k for k, bl in enumerate(blocks) if a in bl))
        for k in range(lo + 1, len(blocks)): yield from rec(i + 1, blocks[:k] + [blocks[k] + [i]] + blocks[k + 1:])
        for k in range(lo + 1, len(blocks) + 1): yield from rec(i + 1, blocks[:k] + [[i]] + blocks[k:])
    yield from rec(0, [])
