"""P12: gradients are exact: the gradient function recorded by each operation passes on, to each operand that takes part in
differentiation, the incoming gradient multiplied by the exact partial derivative, summed back to the operand's shape."""
from tape import *

def reduce_to(x, S):
    """undo broadcasting: sum over the repeated axes (P04) and restore the shape"""
    sx = mark_useq(fld(x, 'shape'))
    return ite(models.seq_eq(S, sx) if hasattr(models, 'seq_eq') else eq(S, sx), x, A('reshape', A('sum_along', x, mark_useq(mk('K', 'get_broadcasted_axes', sx, S))), S))

def partial(o):
    """-> per operand: prescribed gradient before undoing the broadcast, whether to undo it"""
    k = o.kind; x = o.x; g = GA
    y = A('scal', o.sum.args[1]) if o.scalar else (x[1] if len(x) > 1 else None)
    if k in ('add',): return [g, g], True
    if k == 'sub': return [g, A('neg', g)], True
    if k == 'mul': return [A('mul', g, x[1]), A('mul', g, x[0])], True
    if k == 'div': return [A('div', g, x[1]), A('neg', A('div', A('mul', g, x[0]), A('mul', x[1], x[1])))], True
    if k in ('sadd', 'ssub', 'view'): return [g], False
    if k == 'smul': return [A('mul', g, y)], False
    if k == 'sdiv': return [A('div', g, y)], False
    if k == 'neg': return [A('neg', g)], False
    if k == 'dot' or k == 'matmul' and o.dims == (1, 1): return [A('mul', g, x[1]), A('mul', g, x[0])], False
    if k == 'matmul' and o.dims == (2, 1): return [A('mul', A('unsqueeze', g, ONE), x[1]), A('matmul', A('T', x[0]), g)], False
    if k == 'matmul': return [A('matmul', g, A('T', x[1])), A('matmul', A('T', x[0]), g)], False
    if k == 'bmm': return [A('bmm', g, A('transpose', x[1], ONE, I(2))), A('bmm', A('transpose', x[0], ONE, I(2)), g)], False
    S = mark_useq(fld(x[0], 'shape'))
    if k == 'reshape':
        N = mark_useq(o.sum.args[1])
        return [ite(models.seq_eq(S, N) if hasattr(models, 'seq_eq') else eq(S, N), g, A('reshape', A('clone', g), S))], False
    if k in ('squeeze', 'unsqueeze'): return [A('reshape', A('clone', g), S)], False
    if k == 'T': return [A('transpose', g, ZERO, ONE)], False
    if k == 'transpose':
        a, b = [mark_int(mk('call', 'redstone_ml::util::axis::AxisType::isize', mk('&', o.sum.args[i]))) for i in (1, 2)]
        return [A('transpose', g, a, b)], False

def dims(seed, tag, lo, hi, m=3): return [length(seed, tag, i, m=m) for i in range(lo + rnd(seed, tag) % (hi - lo + 1))]

def setup(o):
    """valuations: shapes and values of the operands and of the incoming gradient, which has the shape of the result"""
    k = o.kind
    def f(n):
        d = lambda t: length(n, t)
        b = {}
        if k in ('add', 'sub', 'mul', 'div'):
            R = dims(n, 'R', 0, 3); S = []
            for j in range(2):
                cut = rnd(n, 'cut', j) % (len(R) + 1) if rnd(n, 'c?', j) % 2 else 0
                S.append([1 if rnd(n, 'one', j, i) % 3 == 0 else x for i, x in enumerate(R)][cut:])
            gs = bc(*S)
        elif o.dims == (1, 1): m = d('m'); S = [[m], [m]]; gs = []
        elif o.dims == (2, 1): S = [[d('m'), d('n')]]; S.append([S[0][1]]); gs = [S[0][0]]
        elif o.dims == (2, 2): S = [[d('m'), d('n')], [d('n'), d('k')]]; gs = [S[0][0], S[1][1]]
        elif o.dims == (3, 3): S = [[d('b'), d('m'), d('n')], [d('b'), d('n'), d('k')]]; gs = [S[0][0], S[0][1], S[1][2]]
        elif k in ('T', 'transpose'):
            S = [dims(n, 'R', 2, 3)]; r = len(S[0]); a, c = (0, 1) if k == 'T' else (rnd(n, 'a') % r, rnd(n, 'c') % r)
            gs = list(S[0]); gs[a], gs[c] = gs[c], gs[a]
            if k == 'transpose':
                for i, v, t in ((1, a, 'sa'), (2, c, 'sc')):
                    b[mk('call', 'redstone_ml::util::axis::AxisType::isize', mk('&', o.sum.args[i]))] = v - (r if rnd(n, t) % 2 else 0)
        else:
            S = [dims(n, 'R', 0, 3)]; gs = list(S[0])
            if k == 'reshape':
                gs = [nelem(gs)] if rnd(n, 'f') % 2 else gs[::-1]
                b[o.sum.args[1]] = list(gs)
            if k == 'squeeze': gs = [x for x in gs if x != 1]
            if k == 'unsqueeze': p = rnd(n, 'p') % (len(gs) + 1); gs = gs[:p] + [1] + gs[p:]
        for j, x in enumerate(o.x): b[x] = rand_arr(n, j, S[j])
        b[GA] = rand_arr(n, 'g', gs)
        if o.scalar: b[o.sum.args[1]] = 1 + rnd(n, 'scalar') % (PR - 1)
        return b
    return f

def run(cx):
    P = cx.P; tab = grad_models(P)
    for o in table(cx):
        s = summarise(cx, o, tab)
        if not s: continue
        try:
            gf = simp(fld(s.ret, 'grad_fn'), o.pre + [(s.ok, True)] * (s.ok is not TRUE) + [(o.any, True)])
            check(cx, o, s, gf, tab)
        except (Unsupported, RecursionError, Limit, ValueError, IndexError, AttributeError, TypeError) as x:
            cx.add(o.lab + ':gradient', 'undecided', f'{type(x).__name__}: {x}', o.f.sp)

def check(cx, o, s, gf, tab):
    ev = events(cx, gf, tab, o.lab)
    if ev is None: return
    log, ok, sites = ev
    site = min(sites, default=o.f.sp)
    sg = mark_useq(fld(GA, 'shape'))
    rec = receivers(log)
    wants, red = partial(o)
    nf = NF(GA)
    pre = list(o.pre)
    if o.kind in ('neg', 'smul', 'sdiv', 'sadd', 'ssub', 'view'): pre.append(('=', sg, mark_useq(fld(o.x[0], 'shape'))))
    st = setup(o)
    stray = [r for r in rec if r not in o.fn]
    cx.equal(o.lab + ':backward accepts every gradient of the result\'s shape', nf(ok), TRUE, pre=pre, site=site)
    for j, (x, r) in enumerate(zip(o.x, o.fn)):
        w = wants[j]
        if red: w = reduce_to(w, mark_useq(fld(x, 'shape')))
        got = content(log, r)
        if got is None: got = NOG
        p = pre + [(isnone(r), False)]
        a, b = nf(got), nf(w)
        lab = f'{o.lab}:gradient of operand {j}'
        if stray:
            cx.add(lab, 'undecided', 'gradient passed to an unrecognised function ' + clip(show(stray[0]), 200), site); continue
        # the operand's own flag says whether it takes part; operands that do not are free to be skipped
        cx.decide(lab, cx.same(a, b, p), lambda: refute_arrays(got, w, st, [(isnone(r), False)]), site, f'passes {clip(show(a), 300)} where the derivative requires {clip(show(b), 300)}:')
