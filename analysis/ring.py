"""Exact-arithmetic normal forms for accumulation: sums of products under summation signs, and scatter-add loops over memory.

Elements are taken in a commutative ring. rn(t) rewrites
  acc-folds of sums            fold(i, n, acc + v(k))                     -> i + SUM(k<n) v(k)
  loops that add into memory   fold(M, n, m[A(k)] += v(k))                -> scat(M; k<n; A; v)
to a canonical order of terms, factors, summation signs and loops, so that loop nests that differ only by order agree."""
from core import *
import terms as tm

def mono(fs=(), bs=()): return (tuple(fs), tuple(bs))

def rkey(t): return show(t)

class Poly:
    """list of (coefficient, [factors], [(var, bound)])"""
    def __init__(self, ms): self.ms = ms
def padd_(a, b): return a + b
def pmul(a, b):
    out = []
    for c1, f1, b1 in a:
        for c2, f2, b2 in b:
            # rename the binders of the second so that they cannot capture
            m = {v: mark_unsigned(fresh('k')) for v, _ in b2}
            f2r = [subst(x, m) for x in f2]; b2r = [(m[v], subst(n, m)) for v, n in b2]
            out.append((c1 * c2, f1 + f2r, b1 + b2r))
    return out

def issum(t): return t.op in ('fadd', 'fsub', 'fneg', 'fmul', 'zero', 'one', 'SUM') or t.op == 'fold' and _sumfold(t) is not None

def _sumfold(t):
    a, k, b = tm.fold_body(t)
    mark_unsigned(k)
    b = rn(b)
    p = tolist(b)
    own = [m for m in p if m[1] == [a] and not m[2] and m[0] == 1]
    rest = [m for m in p if m not in own]
    if len(own) != 1 or any(occurs(a, x) for m in rest for x in m[1]) or any(occurs(a, n) for m in rest for _, n in m[2]): return None
    if not rest: return None
    return a, k, rest

def tolist(t):
    if t.op == 'zero' or t is ZERO: return []
    if t.op == 'one' or t is ONE: return [(1, [], [])]
    if t.op == 'fadd': return tolist(t.args[0]) + tolist(t.args[1])
    if t.op == 'fsub': return tolist(t.args[0]) + [(-c, f, b) for c, f, b in tolist(t.args[1])]
    if t.op == 'fneg': return [(-c, f, b) for c, f, b in tolist(t.args[0])]
    if t.op == 'fmul': return pmul(tolist(t.args[0]), tolist(t.args[1]))
    if t.op == 'SUMP': return [_open(m) for m in t.args]
    if t.op == 'fold':
        r = _sumfold(t)
        if r:
            a, k, rest = r; n = t.args[1]
            return tolist(rn(t.args[0])) + [(c, f, [(k, n)] + b) for c, f, b in rest]
    return [(1, [t], [])]

def _open(m):
    """m = MON(coef, nbounds, bounds..., lam...lam tuple(factors))"""
    c, d = m.args[0], m.args[1]
    bs = []; body = m.args[2]
    for _ in range(d):
        pr = body          # pair(bound, lam)
        n, l = pr.args
        v, body = open_lam(l); mark_unsigned(v)
        bs.append((v, n))
    return (c, list(body.args), bs)

def _close(c, fs, bs):
    fs = sorted(fs, key=rkey)
    body = mk('FAC', *fs)
    for v, n in reversed(bs): body = mk('BND', n, lam(v, body))
    return mk('MON', c, len(bs), body)

def votes(v, t):
    """how often v occurs with positive minus negative sign in index polynomials of t"""
    n = 0; seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        if x in seen or not occurs(v, x): continue
        seen.add(x)
        if x.op == 'poly':
            for m, c in x.args[0]:
                if v in m: n += 1 if c > 0 else -1
        elif x is v: n += 1
        if x.op == 'poly': stack.extend(y for m, _ in x.args[0] for y in m if y is not v)
        else: stack.extend(y for y in subterms(x.args))
    return n
def direct(bs, ts):
    """run every summation index in the direction in which addresses grow"""
    out = []; m = {}
    for i, (v, n) in enumerate(bs):
        n = subst(n, m)
        if sum(votes(v, t) for t in ts) < 0 and not any(occurs(v, n2) for _, n2 in bs[i + 1:]):
            w = mark_unsigned(fresh('k'))
            r = {v: sub(sub(n, ONE), w)}
            ts = [subst(t, r) for t in ts]; m.update(r); v = w
        out.append((v, n))
    return out, ts
def canon_mono(c, fs, bs):
    """choose the order of summation signs that gives the smallest text (bounds may depend on outer variables)"""
    used, fs = direct([(v, n) for v, n in bs], list(fs))
    if len(used) > 1:
        import itertools
        best = None
        perms = itertools.permutations(used) if len(used) <= 4 else [tuple(used)]
        for p in perms:
            ok = True; seen = set(v for v, _ in p); done = set()
            for v, n in p:
                if any(occurs(w, n) for w in seen - done - {v}): ok = False; break
                done.add(v)
            if not ok: continue
            x = _close(c, fs, list(p)); s = show(x)
            if best is None or s < best[0]: best = (s, x)
        return best[1]
    return _close(c, fs, used)

def fromlist(p):
    d = {}
    for c, f, b in p:
        # a factor that is itself a sum was expanded already; combine equal monomials
        m = canon_mono(1, f, b)
        d[m] = d.get(m, 0) + c
    ms = sorted(((m, c) for m, c in d.items() if c), key=lambda x: show(x[0]))
    if not ms: return mk('zero')
    if len(ms) == 1 and ms[0][1] == 1 and ms[0][0].args[1] == 0 and len(ms[0][0].args[2].args) == 1: return ms[0][0].args[2].args[0]
    return mk('SUMP', *[mk('MON', c, m.args[1], m.args[2]) for m, c in ms])

# ---------------------------------------------------------------- scatter-add
def asscat(t):
    """(memory, [(var, bound)], address, polynomial) of one st or scat"""
    if t.op == 'st':
        m, a, v = t.args
        p = tolist(v)
        own = [x for x in p if x[0] == 1 and not x[2] and len(x[1]) == 1 and x[1][0].op == 'sel' and x[1][0].args[0] is m and x[1][0].args[1] is a]
        rest = [x for x in p if x not in own]
        if len(own) != 1: return None
        return m, [], a, rest
    if t.op == 'SCAT':
        m, d, body = t.args[0], t.args[1], t.args[2]
        bs = []
        for _ in range(d):
            n, l = body.args
            v, body = open_lam(l); mark_unsigned(v); bs.append((v, n))
        return m, bs, body.args[0], tolist(body.args[1])
    return None
def mkscat(m, bs, a, p):
    import itertools
    for v, n in bs:
        if votes(v, a) < 0 and not any(occurs(v, n2) for _, n2 in bs):
            w = mark_unsigned(fresh('k')); r = {v: sub(sub(n, ONE), w)}
            a = subst(a, r); p = [(c, [subst(x, r) for x in f], [(y, subst(z, r)) for y, z in b]) for c, f, b in p]
            bs = [(w, n) if y is v else (y, z) for y, z in bs]
    # loops the address does not depend on are summations
    ins = [(v, n) for v, n in bs if occurs(v, a) or any(occurs(v, n2) for w, n2 in bs if occurs(w, a))]
    out = [(v, n) for v, n in bs if (v, n) not in ins]
    p = [(c, f, list(out) + b) for c, f, b in p]
    if not p: return m
    if not ins and m.op == 'arr' and a.op == 'c' and 0 <= a.args[0] < len(m.args):
        return rn(tm.st(m, a, mk("fadd", m.args[a.args[0]], fromlist(p))))
    if len(ins) == 1 and m.op == 'gen' and m.args[0] is ins[0][1] and a is ins[0][0]:
        v = ins[0][0]
        return rn(gen(ins[0][1], lam(v, mk("fadd", apply(m.args[1], v), fromlist(p)))))
    best = None
    for q in (itertools.permutations(ins) if len(ins) <= 4 else [tuple(ins)]):
        seen = set(v for v, _ in q); done = set(); ok = True
        for v, n in q:
            if any(occurs(w, n) for w in seen - done - {v}): ok = False; break
            done.add(v)
        if not ok: continue
        m_ = {}
        body = mk('AV', a, fromlist(p))
        for v, n in reversed(q): body = mk('BND', n, lam(v, body))
        x = mk('SCAT', m, len(q), body); s = show(x, 0, 200)
        if best is None or s < best[0]: best = (s, x)
    return best[1]

_memo = {}
def rn(t):
    r = _memo.get(t)
    if r is not None: return r
    if t.op in ('c', 'b', 'f', 's', 'unit', 'v', 'arg', 'bv', 'fnc'): return t
    if t.op == 'fold':
        a, k, b = tm.fold_body(t); mark_unsigned(k)
        n, init = rn(t.args[1]), rn(t.args[0])
        b = rn(b)
        sc = asscat(b)
        if sc and sc[0] is a and not occurs(a, sc[2]) and not any(occurs(a, x) for c, f, bs in sc[3] for x in f):
            # consecutive scatters into the same memory stay in order
            r = mkscat(init, [(k, n)] + sc[1], sc[2], sc[3])
        else:
            s = _sumfold(mk('fold', init, n, lam(a, lam(k, b))))
            if s:
                _, k2, rest = s
                r = fromlist(tolist(init) + [(c, f, [(k2, n)] + bs) for c, f, bs in rest])
            else: r = mk('fold', init, n, lam(a, lam(k, b)))
    elif t.op == 'lam':
        v, b = open_lam(t); mark_unsigned(v); r = lam(v, rn(b))
    elif t.op in ('fadd', 'fsub', 'fneg', 'fmul', 'zero'):
        r = fromlist(tolist(mk(t.op, *[rn(x) for x in t.args])))
    elif t.op == 'st':
        x = mk('st', *[rn(y) for y in t.args])
        sc = asscat(x)
        r = mkscat(*sc) if sc else x
    elif t.op == 'ite':
        r = ite(t.args[0], rn(t.args[1]), rn(t.args[2]))
    else:
        r = rebuild(t, rn) if any(isinstance(a, T) for a in subterms(t.args)) else t
    _memo[t] = r
    return r

# ---------------------------------------------------------------- case analysis
def conds(t):
    """a condition of an ite inside t that does not depend on a bound variable"""
    seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite':
            c = x.args[0]
            while c.op in ('not', 'and'): c = c.args[0]
            if not _bound(c): return c
        stack.extend(subterms(x.args))
    return None
def _bound(c): return c.h > 0 and any(True for _ in _bvs(c))
def _bvs(c):
    st_ = [c]; seen = set()
    while st_:
        x = st_.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'bv': yield x
        if x.op == 'lam': continue
        st_.extend(subterms(x.args))

def solve_eq(c, val):
    """substitution implied by a literal, or None"""
    if c.op == 'pos' and not val:
        x = c.args[0]
        p = poly_of(x)
        if len(p) == 1:
            (m, k), = p.items()
            if len(m) == 1 and k > 0 and nonneg(m[0]): return {m[0]: ZERO}
    if c.op == 'eq0' and val:
        p = poly_of(c.args[0])
        lin = [m for m, k in p.items() if len(m) == 1 and abs(k) == 1 and not any(m[0] in y for y in p if y != m) and m[0].op in ('sel', 'fld', 'arg', 'v', 'deref')]
        for m in lin:
            k = p[m]; rest = {y: z for y, z in p.items() if y != m}
            r = from_poly({y: (-z if k == 1 else z) for y, z in rest.items()})
            return {m[0]: r}
    return None

def cases(ts, pre=(), limit=400):
    """split the tuple of terms on their conditions; yields (facts, terms)"""
    out = []
    def add_lit(ts, fs, c, val):
        n = [assume(t, c, val) for t in ts]
        m = solve_eq(c, val)
        if m: n = [subst(t, m) for t in n]
        return n, fs + [(c, val)]
    def go(ts, fs):
        if len(out) > limit: raise Limit('cases')
        c = next((x for x in (conds(t) for t in ts) if x is not None), None)
        if c is None: out.append((fs, ts)); return
        for val in (True, False):
            n, f2 = add_lit(ts, fs, c, val)
            if any(t.op == 'bottom' for t in n): continue
            if not feasible(f2): continue
            go(n, f2)
    fs = []
    for c, v in pre: ts, fs = add_lit(ts, fs, c, v)
    go(list(ts), fs)
    return out

def feasible(fs):
    try: return bool(psat([c if v else lnot(c) for c, v in fs]))
    except Exception: return True
