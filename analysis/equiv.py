"""Normal-form equivalence of two value-graph terms under facts.

Both terms are rewritten under the facts, then compared; remaining gates are eliminated by case analysis on
their atomic conditions; equal head symbols are compared argument by argument (loop bodies under 0 <= k < n).
The procedure is a rewriting/value-numbering comparison: no model search, no sampling."""
from domain import *

class Mismatch(Exception):
    def __init__(self, a, b, facts): self.a, self.b, self.facts = a, b, facts

IDLESS = {}
def strip_ids(t):
    r = IDLESS.get(t)
    if r is None:
        if t.op == 'hp': r = mk('hp', 0, strip_ids(t.args[1]))
        elif t.op in ('c', 'v', 'arg', 'bv', 'b'): r = t
        else: r = rebuild(t, strip_ids)
        IDLESS[t] = r
    return r

def eq_subst(d):
    """d == 0  ->  (atom, term) or None"""
    p = poly_of(d)
    best = None
    for m, c in p.items():
        if len(m) == 1 and abs(c) == 1:
            a = m[0]
            if a.op in ('c',): continue
            rest = dict(p); del rest[m]
            r = from_poly(rest)
            r = neg(r) if c == 1 else r
            if a in conds_of(r) or any(a in conds_of(x) for x in subterms(r.args)): continue
            rank = (a.op == 'v', a.size, a.id)
            if best is None or rank > best[0]: best = (rank, a, r)
    return best[1:] if best else None

def seq_facts(c, val):
    """length facts about opaque sequences -> substitution"""
    out = {}
    if c.op == 'pos' and not val: d = c.args[0]
    elif c.op == 'eq0' and val: d = c.args[0]
    else: return out
    p = poly_of(d)
    ks = [m for m in p if m]
    if len(ks) == 1 and len(ks[0]) == 1 and ks[0][0].op == 'len':
        X = ks[0][0].args[0]; co = p[ks[0]]; k0 = p.get((), 0)
        n = None
        if c.op == 'eq0' and k0 % co == 0: n = -k0 // co
        elif c.op == 'pos' and co == 1 and k0 == 0: n = 0
        if n is not None and 0 <= n <= 4 and X.op not in ('arr', 'ite'):
            if X.op in ('cshape', 'cstride'):
                S, D = X.args
                cs, cd = mk('cshape', S, D), mk('cstride', S, D)
                mark_useq(cs); mark_useq(cd)
                if n == 1:
                    a = size(S); b = mark_unsigned(mk('sel', cd, ZERO))
                    out[cs] = arr(a); out[cd] = arr(b)
                    out[('fi', S, D)] = b
                elif n == 0:
                    out[S] = arr(); out[cs] = arr(); out[cd] = arr()
                else:
                    out[cs] = arr(*[mark_unsigned(mk('sel', cs, I(i))) for i in range(n)])
                    out[cd] = arr(*[mark_unsigned(mk('sel', cd, I(i))) for i in range(n)])
            else:
                es = []
                for i in range(n):
                    e = mk('sel', X, I(i))
                    if X.id in tm._useq: mark_unsigned(e)
                    es.append(e)
                out[X] = arr(*es)
    return out

def apply_map(t, m):
    m1 = {k: v for k, v in m.items() if isinstance(k, T)}
    fis = {k[1:]: v for k, v in m.items() if isinstance(k, tuple)}
    memo = {}
    def go(x):
        r = m1.get(x)
        if r is not None: return r
        if x.op == 'fi' and (x.args[0], x.args[1]) in fis:
            return mul(go(x.args[2]), fis[(x.args[0], x.args[1])])
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go); memo[x] = r
        return r
    return go(t)

def learn(c, val, terms, facts):
    """-> (terms', facts') or None if contradictory; compound facts that become literals are learnt too"""
    known = set(id(f) for f, _ in facts)
    r = learn1(c, val, terms, facts)
    for _ in range(6):
        if r is None: return None
        terms, fs = r
        todo = None
        for i, (l, v) in enumerate(fs):
            if (l.op == 'eq0' and v or l.op == 'pos' and not v and nonneg(l.args[0])) and id(l) not in known and (l, v) != (c, val):
                known.add(id(l))
                if l.op == 'pos' or eq_subst(l.args[0]):
                    todo = (i, l, v); break
            elif l.op == 'and' and v:
                todo = (i, l, v); break
        if todo is None: return r
        i, l, v = todo
        r = learn1(l, v, terms, fs[:i] + fs[i + 1:])
    return r

def learn1(c, val, terms, facts):
    new = []
    for l, v in literals(c, val):
        if l.op == 'b':
            if l.args[0] != v: return None
            continue
        new.append((l, v))
    out = list(terms)
    fs = list(facts)
    for l, v in new:
        m = seq_facts(l, v)
        if not m and l.op == 'eq0' and v:
            r = eq_subst(l.args[0])
            if r: m = {r[0]: r[1]}
        elif not m and l.op == 'pos' and not v and nonneg(l.args[0]):
            r = eq_subst(l.args[0])
            if r: m = {r[0]: r[1]}
        elif not m and l.op == 'eq' and v:
            a, b = l.args
            if a not in conds_of(b) and a.op != 'adt' : m = {a: b}
        out = [assume(t, l, v) for t in out]
        nf = []
        for fl, fv in fs:
            x = assume(fl, l, v)
            if m: x = apply_map(x, m)
            nf.append((x, fv))
        fs2 = []
        for x, fv in nf:
            while x.op == 'not': x = x.args[0]; fv = not fv
            if x.op == 'b':
                if x.args[0] != fv: return None
                continue
            fs2.append((x, fv))
        fs = fs2
        if m: out = [apply_map(t, m) for t in out]
        fs.append((l, v))
    return out, fs

def simp(t, facts):
    for l, v in facts: t = assume(t, l, v)
    return t

def gate(t, depth=0):
    """an atomic condition gating t, outside binders"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite':
            for a in sorted(atoms(x.args[0]), key=lambda y: y.id):
                if a.op == 'boolv' and a.args and a.args[0] == 'join': continue
                return a
        if x.op == 'lam': continue
        stack.extend(reversed(list(subterms(x.args))))
    return None

def bool_gate(t):
    at = [a for a in sorted(atoms(t), key=lambda y: y.id)]
    return at[0] if at and t.op in ('and', 'not') else None

class Limit(Exception): pass

def equiv(a, b, facts=(), budget=None):
    """raises Mismatch; returns number of leaf comparisons discharged"""
    budget = budget if budget is not None else [6000]
    return _eq(a, b, list(facts), budget, 0)

def feasible(fs):
    return psat([l if v else lnot(l) for l, v in fs]) and not lin_infeasible(fs)

def lin_infeasible(fs):
    """two or three linear facts add up to a negative quantity that should be non-negative"""
    es = []
    for l, v in fs:
        if l.op == 'pos': es.append(sub(l.args[0], ONE) if v else neg(l.args[0]))
        elif l.op == 'eq0' and v: es += [l.args[0], neg(l.args[0])]
    es = [e for e in es if e.op in ('poly',) or is_int(e)][:16]
    for x in {x for e in es for m in poly_of(e) for x in m if x.op == 'first'}:
        k, b = open_lam(x.args[1])
        exists = (forall(x.args[0], lam(k, lnot(b))), False) in fs
        es.append(sub(sub(x.args[0], ONE) if exists else x.args[0], x))
    for l, v in fs:
        if l.op == 'eq0' and not v and l.args[0] in es and neg(l.args[0]) in es: return True
    ps = [poly_of(e) for e in es]
    neg_atoms = lambda p: {m for m, c in p.items() if m and c < 0}
    def bad(p):
        # p >= 0 is impossible: every monomial non-positive and the constant negative
        return p.get((), 0) < 0 and all(c <= 0 and all(nonneg(x) for x in m) for m, c in p.items() if m)
    def plus(p, q):
        r = dict(p)
        for m, c in q.items():
            r[m] = r.get(m, 0) + c
            if not r[m]: del r[m]
        return r
    n = len(ps)
    for i in range(n):
        for j in range(i + 1, n):
            if not any(m in ps[j] and ps[j][m] * c < 0 for m, c in ps[i].items() if m): continue
            q = plus(ps[i], ps[j])
            if bad(q): return True
            for k in range(j + 1, n):
                if any(m in ps[k] and ps[k][m] * c < 0 for m, c in q.items() if m) and bad(plus(q, ps[k])): return True
    return False

_casts = {}
def casts(t):
    """closed cast(usize, y) subterms"""
    r = _casts.get(t)
    if r is None:
        r = frozenset().union(*[casts(x) for x in subterms(t.args)]) if t.args else frozenset()
        if t.op == 'cast' and t.args[0] == 'usize' and not model_frees(t): r = r | {t}
        _casts[t] = r
    return r
def model_frees(t):
    from model import frees
    return frees(t)
def uncast(a, b, fs):
    cs = casts(a) | casts(b)
    for l, v in fs: cs |= casts(l)
    m = {c: c.args[1] for c in cs if decide(pos(add(c.args[1], ONE)), fs) is True}
    if not m: return a, b, fs
    fs2 = []
    for l, v in fs:
        x = apply_map(l, m)
        while x.op == 'not': x = x.args[0]; v = not v
        if x.op == 'b':
            if x.args[0] != v: return None
            continue
        fs2.append((x, v))
    a, b = simp(apply_map(a, m), fs2), simp(apply_map(b, m), fs2)
    return a, b, fs2

def implications(a, b, pre):
    """a <=> b for conditions with quantifiers, as two implications"""
    n = 0
    for x, y in ((a, b), (b, a)):
        try: (t,), fs = with_pre([y], list(pre) + [(x, True)])
        except ValueError: continue
        n += equiv(t, TRUE, fs)
    return n

def _eq(a, b, fs, budget, depth):
    budget[0] -= 1
    if budget[0] < 0: raise Limit()
    if a is b: return 1
    if fs and (casts(a) or casts(b) or any(casts(l) for l, v in fs)):
        r = uncast(a, b, fs)
        if r is None: return 1
        a, b, fs = r
        if a is b: return 1
        if not feasible(fs): return 1
    if b is TRUE and a.op == 'and': return sum(_eq(x, TRUE, fs, budget, depth + 1) for x in a.args)
    g = gate(a) or gate(b)
    if g is None and (is_bool(a) or is_bool(b)): g = bool_gate(a) or bool_gate(b)
    if g is not None and g.op != 'b':
        n = 0
        d = decide(g, fs) if fs else None
        for val in (True, False):
            if d is not None and d != val: continue
            r = learn(g, val, [a, b], fs)
            if r is None: continue
            (x, y), nf = r
            if len(nf) <= 24 and not feasible(nf): continue
            n += _eq(x, y, nf, budget, depth + 1)
        return n
    if a.op == 'forall' and b is TRUE or b.op == 'forall' and a is TRUE:
        f = a if a.op == 'forall' else b
        k, x = open_lam(f.args[1])
        return under_binder(x, TRUE, k, f.args[0], fs, budget, depth)
    if a.op == 'len' or b.op == 'len':
        c = eq(a, b)
        if c is TRUE or c.op == 'eq0' and decide(c, fs + [(eq(*l.args), v) for l, v in fs if l.op == 'leneq']) is True: return 1
    if fs and is_int(a) and is_int(b):
        c = eq(a, b)
        if c.op == 'eq0' and not feasible(list(fs) + [(c, False)]): return 1
    if is_bool(a) and is_bool(b) and a.op == 'b' or b.op == 'b':
        x, y = (a, b) if b.op == 'b' else (b, a)
        if x.op != 'b' and len(fs) <= 24 and not feasible(list(fs) + [(x, not y.args[0])]): return 1
        raise Mismatch(a, b, fs)
    if a.op == b.op and a.op not in ('c', 'arg', 'v', 'poly', 's', 'f', 'mem', 'deref', 'uninit') and len(a.args) == len(b.args):
        if a.op == 'fold':
            n = _eq(a.args[0], b.args[0], fs, budget, depth) + _eq(a.args[1], b.args[1], fs, budget, depth)
            acc, b1 = open_lam(a.args[2]); k, x = open_lam(b1)
            y = apply(apply2(b.args[2], acc), k)
            return n + under_binder(x, y, k, a.args[1], fs, budget, depth)
        if a.op == 'fsel':
            n = _eq(a.args[0], b.args[0], fs, budget, depth)
            k, x = open_lam(a.args[1]); y = apply(b.args[1], k)
            n += under_binder(x, y, k, a.args[0], fs, budget, depth)
            k, x = open_lam(a.args[2]); y = apply(b.args[2], k)
            return n + under_binder(x, y, k, a.args[0], fs, budget, depth)
        if a.op in ('gen', 'forall', 'isum', 'prod', 'first'):
            n = _eq(a.args[0], b.args[0], fs, budget, depth)
            k, x = open_lam(a.args[1]); y = apply(b.args[1], k)
            return n + under_binder(x, y, k, a.args[0], fs, budget, depth)
        if a.op == 'adt' and (a.args[0], a.args[1], a.args[2]) != (b.args[0], b.args[1], b.args[2]): raise Mismatch(a, b, fs)
        n = 0
        for x, y in zip(a.args, b.args): n += _eqx(x, y, fs, budget, depth, a, b)
        return n
    # sequences of different construction: extensional comparison
    if a.op in ('gen', 'concat', 'slice') and b.op in ('gen', 'concat', 'slice', 'sel', 'call', 'fld', 'deref', 'K') or \
       b.op in ('gen', 'concat', 'slice') and a.op in ('sel', 'call', 'fld', 'deref', 'K'):
        n = _eq(slen(a), slen(b), fs, budget, depth)
        k = mark_unsigned(fresh('k'))
        x, y = sel(a, k), sel(b, k)
        if not (x.op == 'sel' and x.args[0] is a and y.op == 'sel' and y.args[0] is b):
            return n + under_binder(x, y, k, slen(a), fs, budget, depth)
    raise Mismatch(a, b, fs)

def apply2(l, x): return apply(l, x)
def under_binder(x, y, k, n, fs, budget, depth):
    c = pos(sub(n, k))
    mark_unsigned(k)
    nf = fs
    if c.op != 'b':
        x, y = assume(x, c, True), assume(y, c, True)
        nf = fs + [(c, True)]
    for l, v in fs:
        if l.op == 'forall' and v and l.args[0] is n:
            r = learn(apply(l.args[1], k), True, [x, y], nf)
            if r is None: return 1
            (x, y), nf = r
    return _eq(x, y, nf, budget, depth + 1)
def _eqx(x, y, fs, budget, depth, a, b):
    if isinstance(x, T) and isinstance(y, T): return _eq(x, y, fs, budget, depth + 1)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return sum(_eqx(p, q, fs, budget, depth, a, b) for p, q in zip(x, y))
    if x == y: return 1
    raise Mismatch(a, b, fs)

def with_pre(terms, pre):
    """apply preconditions to terms; pre items: (cond, val) facts or ('=', from, to) oriented equations"""
    fs = []
    terms = list(terms)
    for p in pre:
        if p[0] == '=':
            m = {p[1]: p[2]}
            terms = [apply_map(t, m) for t in terms]
            fs = [(apply_map(c, m), v) for c, v in fs]
            continue
        c = p[0]
        for q in pre:
            if q[0] == '=': c = apply_map(c, {q[1]: q[2]})
        if c is TRUE and p[1]: continue
        r = learn(c, p[1], terms, fs)
        if r is None: raise ValueError('inconsistent precondition')
        terms, fs = r
    for p in pre:
        if p[0] == '=' and p[1].op == 'len':
            fs = fs + [(mk('leneq', p[1], p[2]), True)]
    return terms, fs
