"""P07: reshape, transpose, squeeze, unsqueeze, view and flatten reorganise an array without changing, losing or reordering elements."""
from core import *
from p01 import F, K
from p03 import absax
from p05 import kv
from p06 import offset

ND, TN = "redstone_ml::ndarray::NdArray<'a, T>", "redstone_ml::tensor::Tensor<'a, T>"
SELF = {'array': ND, '&array': "&'a " + ND, 'tensor': TN, '&tensor': "&'a " + TN}
METHODS = ('view', 'reshape', 'squeeze', 'unsqueeze', 'T', 'transpose')

def body_of(P, m, ty):
    """the method body for this Self type: an overriding impl or the trait's provided body"""
    want = erase(ty)
    for f in P.fns.values():
        if (f.impl_trait or '').endswith('::Reshape') and f.name == m and erase(f.impl_self or '') == want: return f, {}
    for f in P.fns.values():
        if f.id.endswith('::Reshape::' + m) and f.impl_trait is None: return f, {'Self': ty}
    return None, {}

def source(s, ty):
    o = s.args[0]
    if ty.startswith('&'): o = mk('deref', o)
    if 'Tensor<' in ty: o = fld(o, 'array')
    return o
def result(s, ty): return fld(s.ret, 'array') if 'Tensor<' in ty else s.ret

def at(s, p, i):
    """element of the buffer p at offset i, in the initial memory or in the fresh buffer"""
    if p.op == 'ite': return ite(p.args[0], at(s, p.args[1], i), at(s, p.args[2], i))
    if p.op == 'padd': return at(s, p.args[0], add(p.args[1], i))
    return sel(s.mem(p), i)
def elems(s, r):
    """elements of the array r in row-major order"""
    k = kv()
    def go(r):
        p, S, D = fld(r, 'ptr'), fld(r, 'shape'), fld(r, 'stride')
        for x in (p, S, D):
            if x.op == 'ite':
                c = x.args[0]
                return ite(c, go(assume(r, c, True)), go(assume(r, c, False)))
        return at(s, p, fi(S, D, k))
    return k, go(r)

def axes(s, i, n):
    """(raw axis value, absolute axis) of an `impl AxisType` argument"""
    return s.args[i]

def run(cx):
    P = cx.P
    tab = {**array_models(P), **clone_models(P)}
    for who, ty in SELF.items():
        for m in METHODS:
            f, tmap = body_of(P, m, ty)
            if not f:
                cx.add(f'anchor:{who}.{m}', 'violated', f'method {m} not found', ''); continue
            method(cx, f, tmap, who, ty, m, tab)
    f = cx.anchor('NdArray::flatten', public=True)
    if f: flatten(cx, f, tab)

def spec(s, m, S, D):
    """-> (accepts, shape, stride, pre) prescribed by the property"""
    n = slen(S)
    if m == 'view': return TRUE, S, D, []
    if m == 'squeeze':
        k = kv(); c = lam(k, lnot(eq(sel(S, k), ONE)))
        return TRUE, tm.fsel(n, c, lam(k, sel(S, k))), tm.fsel(n, c, lam(k, sel(D, k))), []
    if m == 'T':
        sw = lambda x: tm.st(tm.st(x, ZERO, sel(x, ONE)), ONE, sel(x, ZERO))
        return lt(ONE, n), sw(S), sw(D), [(lt(ONE, n), True)]
    if m == 'transpose':
        a, b = raw(s, 1), raw(s, 2)
        ok = land(valid(a, n), valid(b, n))
        x, y = absax(a, n), absax(b, n)
        return ok, models.swap(S, x, y), models.swap(D, x, y), [(valid(a, n), True), (valid(b, n), True), (lt(x, n), True), (lt(y, n), True)]
    if m == 'unsqueeze':
        a = raw(s, 1); n1 = add(n, ONE)
        x = absax(a, n1)
        return valid(a, n1), insert(S, n, x, ONE), insert(D, n, x, ONE), [(valid(a, n1), True), (lt(x, n1), True)]
    if m == 'reshape':
        N = mark_useq(s.args[1])
        n2 = slen(N)
        k, j = kv(), kv()
        d = ite(pos(n), sel(D, sub(n, ONE)), ONE)
        st_ = gen(n2, lam(k, mul(d, prod(sub(sub(n2, ONE), k), lam(j, sel(N, add(add(ONE, k), j)))))))
        return None, N, st_, []

def insert(X, n, i, v): return ite(eq(i, n), tm.push(X, v), models.insert(X, i, v))
def raw(s, i): return mk('call', 'redstone_ml::util::axis::AxisType::isize', mk('&', s.args[i]))
def valid(a, n): return land(le(ZERO, add(n, a)), lt(a, n))

def method(cx, f, tmap, who, ty, m, tab):
    lab = f'{who}.{m}'
    if m == 'reshape': tmap = {**tmap, 'impl ToVec<usize>': 'std::vec::Vec<usize>'}
    s = cx.summarise(f, tab, tmap=tmap, ob=lab)
    if not s: return
    A = source(s, ty); S, D = F(A, 'shape'), F(A, 'stride')
    n = slen(S)
    r = result(s, ty)
    acc, shape, stride, pre = spec(s, m, S, D)
    base = [('=', slen(D), n)]
    uni = mk('has', fld(A, 'flags'), 2)
    mark_bool(uni)
    if m == 'reshape':
        same = mk('eq', *((shape, S) if shape.id < S.id else (S, shape)))
        acc = lor(same_seq(s, shape, S), land(uni, eq(size(shape), size(S))))
        pre = [(uni, True), (eq(size(shape), size(S)), True)]
    cx.equal(lab + ':accepts exactly the valid arguments', s.ok, acc, pre=base + [p for p in pre if p[0].op == 'lt' and False], site=f.sp, notes=s.notes)
    P_ = base + pre
    cx.equal(lab + ':shape', fld(r, 'shape'), shape, pre=P_, site=f.sp, notes=s.notes)
    # k-th element in row-major order: the element the prescribed geometry puts there
    k, got = elems(s, r)
    want = sel(mk('mem', F(A, 'ptr')), fi(shape, stride, k))
    if m == 'reshape':
        # a uniformly strided source (flag coherent with the strides: P08): its k-th element lies at k * stride
        want = sel(mk('mem', F(A, 'ptr')), fi(S, D, k))
        c = same_seq(s, shape, S)
        ok = cx.same(got, ite(c, want, sel(mk('mem', F(A, 'ptr')), fi(shape, stride, k))), P_)
        cond = [(lt(k, size(S)), True), (lor(eq(n, ZERO), eq(slen(cshape(S, D)), ONE)), True)]
    else:
        ok = cx.same(got, want, P_)
        cond = [(lt(k, size(shape)), True)]
    if m == 'unsqueeze' and not ok:   # the stride of the new axis is free
        ok = unsq(cx, s, r, S, D, n, A, P_, raw(s, 1))
    cx.decide(lab + ':elements keep their places', ok, lambda: cx.separate(got, want, P_ + cond, ()), f.sp, 'element order differs:')

def unsq(cx, s, r, S, D, n, A, pre, a):
    x = absax(a, add(n, ONE))
    def leaf(r, pre):
        fits = lambda d: d.op in ('push', 'insert') and cx.same(d, insert(D, n, x, d.args[-1]), pre)
        for q in (fld(r, 'ptr'), fld(r, 'shape'), fld(r, 'stride')):
            if q.op == 'ite':
                c = q.args[0]
                return leaf(assume(r, c, True), pre + [(c, True)]) and leaf(assume(r, c, False), pre + [(c, False)])
        p, S2, D2 = fld(r, 'ptr'), fld(r, 'shape'), fld(r, 'stride')
        if p is F(A, 'ptr'): return fits(D2)
        k = kv()
        if p.op != 'hp' and p.op != 'padd': return False
        b = s.mem(p)
        if b.op != 'gen': return False
        v = apply(b.args[1], k)
        if not (v.op == 'sel' and v.args[1].op == 'fi'): return False
        S3, D3, k3 = v.args[1].args
        return k3 is k and v.args[0] is mk('mem', F(A, 'ptr')) and cx.same(S3, insert(S, n, x, ONE), pre) and fits(D3) \
            and cx.same(D2, K('stride_from_shape', S2), pre) and cx.same(b.args[0], size(S3), pre)
    return leaf(r, list(pre))

def same_seq(s, a, b): return models.seq_eq(a, b) if hasattr(models, 'seq_eq') else eq(a, b)

def flatten(cx, f, tab):
    s = cx.summarise(f, tab, ob='flatten')
    if not s: return
    A = mk('deref', s.args[0]); S, D = F(A, 'shape'), F(A, 'stride')
    cx.equal('flatten:shape', fld(s.ret, 'shape'), arr(size(S)), pre=[('=', slen(D), slen(S))], site=f.sp, notes=s.notes)
    k, got = elems(s, s.ret)
    cx.equal('flatten:elements in row-major order', got, sel(mk('mem', F(A, 'ptr')), fi(S, D, k)), pre=[('=', slen(D), slen(S)), (lt(k, size(S)), True)], site=f.sp, notes=s.notes)
