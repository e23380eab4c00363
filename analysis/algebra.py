"""Array-level algebra: whole arrays are values, the public array operations (decided by P01, P03, P07, P15, P17)
are symbols, and a call of a gradient function's `backward` is an event (receiver, gradient).

  A(op, x, ..)   array operation      isnone(r)  the gradient function r ignores gradients
  BW             the event log, an engine variable joined at merges like any other value"""
from core import *

BW = ('X', 'bw')
BIN = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div'}

def A(op, *xs): return mk('A', op, *xs)
def val(eng, s, a, ty):
    """an array operand (owned or borrowed) or a scalar"""
    while ty.startswith('&'):
        ty = re.sub(r'^&(mut )?', '', ty); a = eng.load(s, a, (), False)
    return a if 'NdArray<' in ty or ty.endswith('Self') else A('scal', a)
def m_bin(op):
    def m(eng, fr, s, fn, args, tys, t): return A(op, val(eng, s, args[0], tys[0]), val(eng, s, args[1], tys[1])), s
    return m
def m_un(op):
    def m(eng, fr, s, fn, args, tys, t): return A(op, val(eng, s, args[0], tys[0])), s
    return m
def m_meth(op, only_array=True):
    """inherent or provided method on arrays: first argument the array, the rest arrays, axes or shapes"""
    def m(eng, fr, s, fn, args, tys, t):
        if 'Tensor<' in tys[0]: return NotImplemented
        vs = []
        for a, ty in zip(args, tys):
            while ty.startswith('&'):
                ty = re.sub(r'^&(mut )?', '', ty); a = eng.load(s, a, (), False)
            if op in ('transpose', 'unsqueeze') and vs and not is_int(a): a = mark_int(mk('call', 'redstone_ml::util::axis::AxisType::isize', mk('&', a)))
            vs.append(a)
        return A(op, *vs), s
    return m
def m_new(op):
    def m(eng, fr, s, fn, args, tys, t):
        st = subst_ty(erase(fn.selfty), fr.tmap) if fn.selfty else ''
        if 'Tensor<' in st: return NotImplemented
        vs = []
        for a, ty in zip(args, tys):
            while ty.startswith('&'):
                ty = re.sub(r'^&(mut )?', '', ty); a = eng.load(s, a, (), False)
            vs.append(a)
        return A(op, *vs), s
    return m
def isdyn(ty): return ty.startswith('&') and 'dyn ' in ty
def m_backward(eng, fr, s, fn, args, tys, t):
    if not isdyn(tys[0]): return NotImplemented
    g = args[1]; ty = tys[1]
    while ty.startswith('&'): ty = ty[1:]; g = eng.load(s, g, (), False)
    s = s.copy()
    s.env[BW] = tm.push(s.env.get(BW, arr()), tup(eng.load(s, args[0], (), False), g))
    return UNIT, s
def m_isnone(eng, fr, s, fn, args, tys, t):
    if not isdyn(tys[0]): return NotImplemented
    return isnone(eng.load(s, args[0], (), False)), s
def isnone(r): return mark_bool(mk('isnone', r))
def grad_models(P):
    tab = {}
    def put(pred, m):
        for f in P.fns.values():
            if pred(f): tab[f.id] = m
    nd = lambda f: re.search(r'NdArray<', f.impl_self or '') and 'Tensor<' not in (f.impl_self or '')
    for tr, op in BIN.items(): put(lambda f: (f.impl_trait or '').endswith('::' + tr) and f.name == op and nd(f), m_bin(op))
    put(lambda f: (f.impl_trait or '').endswith('::Neg') and f.name == 'neg' and nd(f), m_un('neg'))
    for m in ('matmul', 'dot', 'bmm', 'sum_along'):
        for i in find_ids(P, 'NdArray::' + m): tab[i] = m_meth(m)
    for m, op in (('lifetime_cast', 'same'), ('clone', 'clone')):
        for i in find_ids(P, 'NdArray::' + m): tab[i] = m_meth(op)
    for f in P.fns.values():
        if f.id.endswith('::Reshape::' + f.name) and f.impl_trait is None and f.name in ('view', 'reshape', 'squeeze', 'unsqueeze', 'T', 'transpose'):
            tab[f.id] = m_meth('same' if f.name == 'view' else f.name)
        if (f.impl_trait or '').endswith('::Reshape') and f.name in ('view', 'reshaped_view') and nd(f):
            tab[f.id] = m_meth('same' if f.name == 'view' else f.name)
        if f.id.endswith('::Constructors::' + f.name) and f.impl_trait is None and f.name in ('scalar', 'ones', 'zeros', 'full'):
            tab[f.id] = m_new(f.name)
        if f.id.endswith('GradientFuncTrait::backward') and f.impl_trait is None: tab[f.id] = m_backward
        if f.id.endswith('GradientFuncTrait::is_none') and f.impl_trait is None: tab[f.id] = m_isnone
    for k in ('get_broadcasted_axes',):
        for i in find_ids(P, k): tab[i] = m_keep(k)
    p = next((t for t in P.traits if t.endswith('::GradientFuncTrait')), None)
    if p: tab[p + '::backward'] = m_backward; tab[p + '::is_none'] = m_isnone
    return tab

# ------------------------------------------------------------------ normal form
ELEM = {'add', 'sub', 'mul', 'div', 'neg', 'scal', 'scalar'}
FRESH = ELEM | {'clone', 'sum_along', 'matmul', 'dot', 'bmm', 'reshape', 'ones', 'zeros', 'full'}
class NF:
    """elementwise expressions become sums of monomials over array atoms (a commutative ring with inverses at every
    broadcast position); `dom`: the array whose shape is the broadcast of all operands (the incoming gradient)"""
    def __init__(self, dom=None): self.dom = dom; self.memo = {}
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self.go(t)
        return r
    def go(self, t):
        if t.op == 'A':
            op, xs = t.args[0], t.args[1:]
            if op in ('same', 'clone'): return self(xs[0])
            if op in ELEM or op in ('ones', 'zeros'):
                return self.lift(op, [self(x) for x in xs]) if op not in ('ones', 'zeros') else A(op, *[self(x) for x in xs])
            if op == 'full':
                if xs[0].op in ('one', 'zero'): return A('ones' if xs[0].op == 'one' else 'zeros', self(xs[1]))
                return A(op, *[self(x) for x in xs])
            if op == 'reshape':
                x, S = self(xs[0]), self(xs[1])
                if self.shape(x) is S: return x
                fresh_ = xs[0].op == 'A' and xs[0].args[0] in FRESH
                return A('reshape' if fresh_ else 'reshape_view', x, S)
            if op == 'T': return A('transpose', self(xs[0]), ZERO, ONE)
            if op == 'transpose':
                a, b = self(xs[1]), self(xs[2])
                return A('transpose', self(xs[0]), *sorted((a, b), key=lambda z: z.id))
            return A(op, *[self(x) if isinstance(x, T) else x for x in xs])
        if t.op == 'fld' and t.args[1] == 'shape' and t.args[0].op in ('A', 'E', 'ite'): return self.shape(self(t.args[0]))
        if t.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'one', 'zero') : return t
        if not any(True for _ in subterms(t.args)): return t
        return rebuild(t, self)
    def shape(self, x):
        if x.op == 'ite': return ite(x.args[0], self.shape(x.args[1]), self.shape(x.args[2]))
        if x.op == 'E':
            at = {a for m in x.args for a in m.args[1::2] if a.op != 'sc'}
            at = {b for a in at for b in self.leaves(a)}
            if self.dom is not None and self.dom in at: return mark_useq(fld(self.dom, 'shape'))
            if len(at) == 1: return self.shape(next(iter(at)))
            return mark_useq(mk('bsh', *sorted(at, key=lambda z: z.id)))
        if x.op == 'A' and x.args[0] in ('reshape', 'reshape_view'): return x.args[2]
        if x.op == 'A' and x.args[0] in ('ones', 'zeros'): return x.args[1]
        if x.op == 'A' and x.args[0] == 'full': return x.args[2]
        return mark_useq(fld(x, 'shape'))
    def leaves(self, a):
        if a.op == 'E': return {c for m in a.args for b in m.args[1::2] if b.op != 'sc' for c in self.leaves(b)}
        return {a}
    def lift(self, op, xs):
        for i, x in enumerate(xs):
            if x.op == 'ite':
                c = x.args[0]
                return ite(c, self.lift(op, xs[:i] + [x.args[1]] + xs[i + 1:]), self.lift(op, xs[:i] + [x.args[2]] + xs[i + 1:]))
        if op in ('scal', 'scalar'): return self.out(self.sc(xs[0]))
        ps = [self.poly(x) for x in xs]
        return self.out(self.arith(op, ps))
    def arith(self, op, ps):
        if op == 'neg': return {m: -c for m, c in ps[0].items()}
        p, q = ps
        if op in ('add', 'sub'):
            r = dict(p)
            for m, c in q.items(): r[m] = r.get(m, 0) + (c if op == 'add' else -c)
            return {m: c for m, c in r.items() if c}
        if op == 'div': q = self.inv(q)
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                e = dict(m)
                for a, k in n: e[a] = e.get(a, 0) + k
                # an atom with exponent 0 still takes part in broadcasting unless it is a scalar
                k = tuple(sorted(((a, z) for a, z in e.items() if z or a.op != 'sc'), key=lambda y: y[0].id))
                r[k] = r.get(k, 0) + c * d
        return {m: c for m, c in r.items() if c}
    def inv(self, q):
        from fractions import Fraction
        if len(q) == 1:
            (m, c), = q.items()
            return {tuple((a, -k) for a, k in m): Fraction(1) / c}
        return {((self.out(q), -1),): 1}
    def sc(self, t):
        """scalar expression"""
        if t.op == 'one': return {(): 1}
        if t.op == 'zero': return {}
        if t.op in ('fadd', 'fsub', 'fmul', 'fdiv'): return self.arith({'fadd': 'add', 'fsub': 'sub', 'fmul': 'mul', 'fdiv': 'div'}[t.op], [self.sc(x) for x in t.args])
        if t.op == 'fneg': return self.arith('neg', [self.sc(t.args[0])])
        return {((mk('sc', t), 1),): 1}
    def poly(self, x):
        if x.op == 'E':
            r = {}
            for m in x.args:
                c = m.args[0]; l = m.args[1:]
                r[tuple(zip(l[::2], l[1::2]))] = c
            return r
        return {((x, 1),): 1}
    def out(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op != 'sc': return m[0][0]
        ms = []
        for m, c in p.items():
            # operands dominated by the incoming gradient do not change the shape: drop their zero powers
            d = self.dom is not None and any(a is self.dom for a, k in m)
            fl = []
            for a, k in m:
                if k or not d: fl += [a, k]
            ms.append(mk('mono', c, *fl))
        return mk('E', *sorted(ms, key=lambda z: z.id))

def content(log, r):
    """total gradient the event log hands to the gradient function r (None: nothing)"""
    if log.op == 'arr':
        out = None
        for e in log.args:
            if e.args[0] is r: out = e.args[1] if out is None else A('add', out, e.args[1])
        return out
    if log.op == 'push':
        base, e = content(log.args[0], r), log.args[1]
        if e.args[0] is not r: return base
        return plus(base, e.args[1])
    if log.op == 'ite':
        a, b = content(log.args[1], r), content(log.args[2], r)
        if a is None and b is None: return None
        return ite(log.args[0], NOG if a is None else a, NOG if b is None else b)
    raise Unsupported('event log ' + log.op)
NOG = mk('nograd')
def plus(a, g):
    if a is None or a is NOG: return g
    if a.op == 'ite': return ite(a.args[0], plus(a.args[1], g), plus(a.args[2], g))
    return A('add', a, g)
def receivers(log):
    if log.op == 'arr': return {e.args[0] for e in log.args}
    if log.op == 'push': return receivers(log.args[0]) | {log.args[1].args[0]}
    if log.op == 'ite': return receivers(log.args[1]) | receivers(log.args[2])
    raise Unsupported('event log ' + log.op)

# ------------------------------------------------------------------ valuations
class Reject(Exception): pass
class Arr:
    def __init__(s, shape, data, fresh=True): s.shape = list(shape); s.data = data; s.fresh = fresh
    def keyt(s): return ('Arr', tuple(s.shape), tuple(s.data))
def nelem(S):
    r = 1
    for x in S: r *= x
    return r
def idxs(S):
    if not S: yield (); return
    for i in range(S[0]):
        for r in idxs(S[1:]): yield (i,) + r
def flat(S, ix):
    r = 0
    for n, i in zip(S, ix): r = r * n + i
    return r
def bc(S, R):
    n = max(len(S), len(R)); S = [1] * (n - len(S)) + list(S); R = [1] * (n - len(R)) + list(R)
    if any(x != y and 1 not in (x, y) for x, y in zip(S, R)): raise Reject('shapes do not broadcast')
    return [y if x == 1 else x for x, y in zip(S, R)]
def elt(x, ix):
    o = len(ix) - len(x.shape)
    return x.data[flat(x.shape, [0 if n == 1 else i for n, i in zip(x.shape, ix[o:])])]
PR = model.PR
def ew(f, x, y):
    S = bc(x.shape, y.shape)
    return Arr(S, [f(elt(x, i), elt(y, i)) % PR for i in idxs(S)])
def perm(x, a, b):
    n = len(x.shape); a = a + n if a < 0 else a; b = b + n if b < 0 else b
    if not (0 <= a < n and 0 <= b < n): raise Reject('axis out of range')
    S = list(x.shape); S[a], S[b] = S[b], S[a]
    def src(i): i = list(i); i[a], i[b] = i[b], i[a]; return i
    return Arr(S, [x.data[flat(x.shape, src(i))] for i in idxs(S)], a == b and x.fresh)
def contract(x, y, sx, sy, so):
    """sum of products over the labels missing from the output"""
    dim = {}
    for l, n in list(zip(sx, x.shape)) + list(zip(sy, y.shape)):
        if dim.setdefault(l, n) != n: raise Reject('dimensions differ')
    inner = [l for l in dim if l not in so]
    S = [dim[l] for l in so]; out = []
    for i in idxs(S):
        e = dict(zip(so, i)); t = 0
        for j in idxs([dim[l] for l in inner]):
            e.update(zip(inner, j))
            t += x.data[flat(x.shape, [e[l] for l in sx])] * y.data[flat(y.shape, [e[l] for l in sy])]
        out.append(t % PR)
    return Arr(S, out)

class AModel(model.Model):
    def key(self, v):
        if isinstance(v, Arr): return v.keyt()
        return super().key(v)
    def same(self, x, y):
        if isinstance(x, Arr) or isinstance(y, Arr):
            return isinstance(x, Arr) and isinstance(y, Arr) and x.keyt() == y.keyt()
        return super().same(x, y)
    def ev1(self, t, env):
        op, a = t.op, t.args
        if t in self.bind: return self.bind[t]
        E = lambda x: self.ev(x, env)
        ints = lambda x: [self.i(y) for y in self.li(E(x))]
        if op == 'fld':
            v = self.bind.get(a[0])
            if v is None and a[0].op in ('A', 'ite'): v = E(a[0])
            if isinstance(v, Arr):
                if a[1] == 'shape': return list(v.shape)
                return model.Atom(self, ('fld', str(a[0].id), a[1]), None, None)
        if op == 'nograd': return ('nograd',)
        if op == 'isnone': return bool(model.hsh(self.seed, 'none', t.id) & 1)
        if op != 'A': return super().ev1(t, env)
        o, xs = a[0], a[1:]
        ar = lambda x: self.arr(E(x))
        if o in ('same',): return ar(xs[0])
        if o == 'clone': v = ar(xs[0]); return Arr(v.shape, v.data)
        if o in ('scal', 'scalar'): return Arr([], [self.i(E(xs[0])) % PR])
        if o in ('ones', 'zeros'): S = ints(xs[0]); return Arr(S, [1 if o == 'ones' else 0] * nelem(S))
        if o == 'full': S = ints(xs[1]); return Arr(S, [self.i(E(xs[0])) % PR] * nelem(S))
        if o == 'neg': v = ar(xs[0]); return Arr(v.shape, [-z % PR for z in v.data])
        if o in ('add', 'sub', 'mul', 'div'):
            f = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q, 'div': lambda p, q: p * pow(q, PR - 2, PR)}[o]
            return ew(f, ar(xs[0]), ar(xs[1]))
        if o == 'T':
            v = ar(xs[0])
            if len(v.shape) < 2: raise Reject('T of fewer than 2 dimensions')
            return perm(v, 0, 1)
        if o == 'transpose': return perm(ar(xs[0]), self.i(E(xs[1])), self.i(E(xs[2])))
        if o == 'unsqueeze':
            v = ar(xs[0]); n = len(v.shape) + 1; k = self.i(E(xs[1])); k = k + n if k < 0 else k
            if not 0 <= k < n: raise Reject('axis out of range')
            return Arr(v.shape[:k] + [1] + v.shape[k:], v.data, v.fresh)
        if o == 'squeeze': v = ar(xs[0]); return Arr([n for n in v.shape if n != 1], v.data, v.fresh)
        if o == 'reshape':
            v = ar(xs[0]); S = ints(xs[1])
            if S == v.shape: return v
            if nelem(S) != nelem(v.shape): raise Reject('reshape to a different size')
            if not v.fresh and model.hsh(self.seed, 'uni', t.id) & 1: raise Reject('reshape of a non-uniformly strided array')
            return Arr(S, v.data)
        if o == 'sum_along':
            v = ar(xs[0]); n = len(v.shape)
            av = E(xs[1]); ax = [self.i(y) for y in self.li(av)] if not isinstance(av, int) else [av]
            ax = [k + n if k < 0 else k for k in ax]
            if len(set(ax)) != len(ax) or any(not 0 <= k < n for k in ax): raise Reject('invalid axes')
            S = [m for k, m in enumerate(v.shape) if k not in ax]; out = [0] * nelem(S)
            for i in idxs(v.shape):
                j = flat(S, [z for k, z in enumerate(i) if k not in ax]); out[j] = (out[j] + v.data[flat(v.shape, i)]) % PR
            return Arr(S, out)
        if o in ('matmul', 'dot', 'bmm'):
            x, y = ar(xs[0]), ar(xs[1]); r = (len(x.shape), len(y.shape))
            if r == (1, 1) and o != 'bmm': return contract(x, y, 'i', 'i', '')
            if o == 'matmul' and r == (2, 1): return contract(x, y, 'ij', 'j', 'i')
            if o == 'matmul' and r == (2, 2): return contract(x, y, 'ij', 'jk', 'ik')
            if o == 'bmm' and r == (3, 3): return contract(x, y, 'bij', 'bjk', 'bik')
            raise Reject('dimensions not supported by ' + o)
        raise model.NoEval('A ' + str(o))
    def arr(self, v):
        if isinstance(v, Arr): return v
        if isinstance(v, int): return Arr([], [v % PR])
        raise model.NoEval('array')

SIZES = []       # axis lengths around the thresholds the terms mention
def rnd(seed, *k): return model.hsh(seed, *k)
def length(seed, *k, m=3):
    h = rnd(seed, 'size', *k)
    if SIZES and h % 4 == 0: return max(1, SIZES[(h >> 8) % len(SIZES)])
    return 1 + rnd(seed, *k) % m
def rand_arr(seed, name, S):
    if nelem(S) > 3000: raise model.Bad('size')
    return Arr(S, [1 + rnd(seed, 'el', name, i) % (PR - 1) for i in range(nelem(S))], False)
def refute_arrays(got, want, setup, facts=(), tries=120):
    """setup(seed) -> {term: value}; searches a valuation that separates the two gradients"""
    ok = 0; why = ''
    SIZES[:] = [x + d for x in model.mine([got, want]) if x < 300 for d in (-1, 0, 1)]
    for n in range(tries * (3 if SIZES else 1)):
        M = AModel(7919 + n)
        try:
            b = setup(n)
            if b is None: continue
            M.bind = dict(b)
            if not all(M.b(M.ev(c, {})) == v for c, v in facts): continue
            w = M.ev(want, {})
        except (Reject, model.Bad): continue
        except model.NoEval as e: why = str(e); continue
        sh = ', '.join(f'{clip(show(k), 40)}: {v.shape if isinstance(v, Arr) else v}' for k, v in b.items() if isinstance(v, (Arr, int, list)))
        try:
            g = M.ev(got, {})
            if not M.same(g, w): return 'differ', f'(separating valuation: {sh}: got {dsc(g)}, want {dsc(w)})'
        except Reject as e: return 'differ', f'(separating valuation: {sh}: panics: {e})'
        except model.Bad: continue
        except model.NoEval as e: why = str(e); continue
        ok += 1
    return ('same', f'{ok} valuations agree') if ok else ('noeval', why)
def dsc(v): return f'shape {v.shape} {v.data[:4]}' if isinstance(v, Arr) else str(v)
