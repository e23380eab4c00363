"""P14: gradients accumulate: each backward pass adds its gradient to the leaf's gradient, zero_gradient resets it, and
requiring, dropping and starting differentiation change nothing else."""
from tape import *
from p13 import bit, isnone_of
from p12 import setup
GRADS = ('X', 'zg')

def m_addassign(op):
    def m(eng, fr, s, fn, args, tys, t):
        if not tys[0].startswith('&mut'): return NotImplemented
        s = s.copy()
        old = eng.load(s, args[0], (), False)
        eng.store(s, args[0], (), False, A(op, old, val(eng, s, args[1], tys[1])), fr, t.get('sp', ''))
        return UNIT, s
    return m
def m_zero(eng, fr, s, fn, args, tys, t):
    if 'Tensor<' in tys[0] or isdyn(tys[0]): return NotImplemented
    s = s.copy(); old = eng.load(s, args[0], (), False)
    eng.store(s, args[0], (), False, A('zeros', mark_useq(fld(old, 'shape'))), fr, t.get('sp', ''))
    return UNIT, s
def m_fill(eng, fr, s, fn, args, tys, t):
    s = s.copy(); old = eng.load(s, args[0], (), False)
    eng.store(s, args[0], (), False, A('full', args[1], mark_useq(fld(old, 'shape'))), fr, t.get('sp', ''))
    return UNIT, s
def m_gradient(eng, fr, s, fn, args, tys, t):
    if not isdyn(tys[0]) and not tys[0].startswith('*'): return NotImplemented
    return mk('gradof', eng.load(s, args[0], (), False)), s
def m_zerograd(eng, fr, s, fn, args, tys, t):
    if not isdyn(tys[0]): return NotImplemented
    s = s.copy(); s.env[GRADS] = tm.push(eng.get(s, GRADS), eng.load(s, args[0], (), False))
    return UNIT, s

def models14(P):
    tab = dict(grad_models(P))
    for f in P.fns.values():
        if re.search(r'NdArray<', f.impl_self or '') and 'Tensor<' not in (f.impl_self or ''):
            for tr, op in (('AddAssign', 'add'), ('SubAssign', 'sub'), ('MulAssign', 'mul'), ('DivAssign', 'div')):
                if (f.impl_trait or '').endswith('::' + tr) and f.name == op + '_assign': tab[f.id] = m_addassign(op)
            if f.name == 'zero' and f.argc == 1: tab[f.id] = m_zero
            if f.name == 'fill' and f.argc == 2: tab[f.id] = m_fill
        for n, m in (('gradient', m_gradient), ('zero_gradient', m_zerograd)):
            if f.id.endswith('GradientFuncTrait::' + n) and f.impl_trait is None: tab[f.id] = m
    p = next((t for t in P.traits if t.endswith('::GradientFuncTrait')), None)
    if p: tab[p + '::gradient'] = m_gradient; tab[p + '::zero_gradient'] = m_zerograd
    return tab

def leaf_node(cx, tab):
    """the gradient function a tensor gets when it starts to require gradients"""
    f = cx.anchor('Tensor::set_requires_grad', public=True)
    s = f and cx.summarise(f, tab, ob='set_requires_grad')
    if not s: return None, None, None
    self_ = mk('deref', s.args[0]); after = s.obj(s.args[0])
    arg = mark_bool(s.args[1]); old = bit(fld(self_, 'flags'), 5)
    sh = mark_useq(fld(fld(self_, 'array'), 'shape'))
    fl = fld(after, 'flags')
    L = 'set_requires_grad'
    cx.equal(L + ':always accepted', s.ok, TRUE, site=f.sp, notes=s.notes)
    cx.equal(L + ':the flag becomes the argument', bit(fl, 5), arg, site=f.sp, notes=s.notes)
    for b in (4,): cx.equal(L + ':keeps the other flags', bit(fl, b), bit(fld(self_, 'flags'), b), site=f.sp, notes=s.notes)
    cx.equal(L + ':keeps the values', fld(after, 'array'), fld(self_, 'array'), site=f.sp, notes=s.notes)
    gf = fld(after, 'grad_fn'); g0 = fld(self_, 'grad_fn')
    for a, o in ((True, True), (False, False)):
        pre = [(arg, a), (old, o)]
        # unchanged requirement: the gradient gathered so far stays
        got = simp(gf, pre)
        want = g0
        cx.decide(f'{L}({str(a).lower()}) again:keeps the gradient', got is want or (not a and isnone_of(cx, got) is TRUE),
                  lambda got=got: ('differ', f'the gradient function becomes {clip(show(got), 200)}') if got.op == 'adt' else kept(cx, got, g0, a, pre), f.sp)
    off = simp(gf, [(arg, False), (old, True)])
    n = isnone_of(cx, off)
    if n is None: cx.add(L + '(false):drops the gradient function', 'undecided', clip(show(off), 200), f.sp)
    else: cx.equal(L + '(false):drops the gradient function', apply_map(n, {isnone(g0): FALSE}), TRUE, site=f.sp)
    on = simp(gf, [(arg, True), (old, False)])
    n = isnone_of(cx, on)
    if n is None: cx.add(L + '(true):takes part in differentiation', 'undecided', clip(show(on), 200), f.sp)
    else: cx.equal(L + '(true):takes part in differentiation', apply_map(n, {isnone(g0): TRUE}), FALSE, site=f.sp)
    return on, sh, fld(self_, 'array')

def kept(cx, got, g0, a, pre):
    """on which paths the gradient function is replaced"""
    def q(t):
        if t.op == 'ite': return ite(t.args[0], q(t.args[1]), q(t.args[2]))
        if t is g0 or not a and isnone_of(cx, t) is TRUE: return TRUE
        if t.op == 'adt': return FALSE
        raise Unsupported('gradient function ' + clip(show(t), 100))
    try: b = q(got)
    except Unsupported as e: return 'noeval', str(e)
    return cx.separate(b, TRUE, pre, ())

def one(cx, f, lab, got, want, nf, x, pre=(), extra=None):
    """array equality with refutation over small arrays"""
    def st(n):
        from p12 import dims
        S = dims(n, 'R', 0, 3); b = {x: rand_arr(n, 'x', S), GA: rand_arr(n, 'g', S)}
        if extra: b.update({k: rand_arr(n, 'e', S) for k in extra})
        return b
    cx.decide(lab, cx.same(nf(got), nf(want), list(pre)), lambda: refute_arrays(got, want, st), f.sp, f'gives {clip(show(nf(got)), 200)} where the property requires {clip(show(nf(want)), 200)}:')

def run(cx):
    P = cx.P; tab = models14(P)
    on, sh, x = leaf_node(cx, tab)
    if on is None: return
    nf = NF(GA)
    def method(m): return node_impl(P, on.args[0], m) if on.op == 'adt' else []
    def call(m, node, args=(), t=tab):
        fs = method(m)
        if len(fs) != 1: cx.add(f'leaf.{m}', 'violated' if on.op == 'adt' and not fs else 'undecided', f'{len(fs)} implementations of {m} for the gradient function of a leaf', ''); return None, None
        return fs[0], cx.summarise(fs[0], t, args=[mk('&', node)] + list(args), ob='leaf.' + m)
    # a fresh leaf has a zero gradient of the tensor's shape
    f, s = call('gradient', on)
    if s: view(cx, f, s, 'leaf:gradient starts at zero', A('zeros', sh), nf, x)
    if on.op != 'adt': return
    # symbolic state: the gradient gathered so far
    flds = on.args[2]
    ga = [n for n in flds if is_arr(fld(on, n))]
    if len(ga) != 1: cx.add('leaf:state', 'undecided', f'fields {flds}', ''); return
    g0 = mk('arg', 'g0', 'gathered'); node = rebuild_adt(on, ga[0], g0)
    shp = [('=', mark_useq(fld(GA, 'shape')), mark_useq(fld(g0, 'shape')))]
    f, s = call('gradient', node)
    if s: view(cx, f, s, 'leaf.gradient:the gradient gathered so far', g0, nf, x, extra=[g0])
    f, s = call('backward', node, [G])
    if s:
        cx.equal('leaf.backward:accepts gradients of the tensor\'s shape', nf(s.ok), TRUE, pre=shp, site=f.sp, notes=s.notes)
        after = s.obj(s.args[0])
        one(cx, f, 'leaf.backward:adds the gradient', fld(after, ga[0]), A('add', g0, GA), nf, x, shp, [g0])
        cx.equal('leaf.backward:passes nothing on', s.eng.get(s.st, BW), arr(), site=f.sp)
    f, s = call('zero_gradient', node)
    if s:
        cx.equal('leaf.zero_gradient:always accepted', s.ok, TRUE, site=f.sp, notes=s.notes)
        one(cx, f, 'leaf.zero_gradient:resets to zero', fld(s.obj(s.args[0]), ga[0]), A('zeros', mark_useq(fld(g0, 'shape'))), nf, x, (), [g0])
    # other gradient functions hold no gradient
    for f in [f for f in P.fns.values() if (f.impl_trait or '').endswith('GradientFuncTrait') and f.name == 'gradient' and re.sub(r'<.*', '', f.impl_self or '') != on.args[0]]:
        s = cx.summarise(f, tab, ob='gradient')
        if s: cx.equal(f'{f.impl_self.split("::")[-1]}.gradient:only leaves have one', s.ret, NONE, site=f.sp, notes=s.notes)
    for f in [f for f in P.fns.values() if f.id.endswith('GradientFuncTrait::gradient') and f.impl_trait is None]:
        s = cx.summarise(f, {}, ob='gradient')
        if s: cx.equal('gradient (default):only leaves have one', s.ret, NONE, site=f.sp, notes=s.notes)
    starts(cx, tab, nf)

def is_arr(t): return t.op == 'A' and t.args[0] in ('zeros', 'ones', 'full')
def rebuild_adt(t, name, v):
    i = t.args[2].index(name)
    return mk('adt', *(t.args[:3 + i] + (v,) + t.args[4 + i:]))
def view(cx, f, s, lab, want, nf, x, extra=None):
    r = s.snap(s.ret)
    if r.op == 'adt' and r.args[1] == 'Some': one(cx, f, lab, r.args[3], want, nf, x, (), extra)
    else: cx.add(lab, 'violated' if r is NONE else 'undecided', f'returns {clip(show(r), 200)}', f.sp)

def starts(cx, tab, nf):
    """Tensor::backward, backward_with, gradient, zero_gradient act on the tensor's own gradient function, once"""
    f = cx.anchor('Tensor::backward_with', public=True)
    if f:
        g = next((erase(x) for x in f.generics if 'AsRef' in x), None)
        for ty in ("redstone_ml::ndarray::NdArray<'a, T>", "&redstone_ml::ndarray::NdArray<'a, T>"):
            s = cx.summarise(f, tab, tmap={g: ty} if g else {}, ob='backward_with')
            if not s: continue
            S = mk('deref', s.args[0]); v = mk('deref', s.args[1]) if ty.startswith('&') else s.args[1]
            lab = 'backward_with' + ('(&)' if ty.startswith('&') else '')
            a, b = mark_useq(fld(v, 'shape')), mark_useq(fld(fld(S, 'array'), 'shape'))
            cx.equal(lab + ':accepts exactly gradients of the tensor\'s shape', s.ok, models.seq_eq(a, b) if hasattr(models, 'seq_eq') else eq(a, b), site=f.sp, notes=s.notes)
            calls(cx, f, s, lab, fld(S, 'grad_fn'), v, nf)
    f = cx.anchor('Tensor::backward', public=True)
    s = f and cx.summarise(f, tab, ob='backward')
    if s:
        S = mk('deref', s.args[0]); sh = mark_useq(fld(fld(S, 'array'), 'shape'))
        cx.equal('backward:always accepted', nf(s.ok), TRUE, site=f.sp, notes=s.notes)
        calls(cx, f, s, 'backward', fld(S, 'grad_fn'), A('ones', sh), nf, fld(S, 'array'))
    f = cx.anchor('Tensor::gradient', public=True)
    s = f and cx.summarise(f, tab, ob='gradient')
    if s: cx.equal('gradient:of the tensor itself', s.ret, mk('gradof', fld(mk('deref', s.args[0]), 'grad_fn')), site=f.sp, notes=s.notes)
    f = cx.anchor('Tensor::zero_gradient', public=True)
    s = f and cx.summarise(f, tab, ob='zero_gradient')
    if s: cx.equal('zero_gradient:of the tensor itself', s.eng.get(s.st, GRADS), arr(fld(mk('deref', s.args[0]), 'grad_fn')), site=f.sp, notes=s.notes)

def calls(cx, f, s, lab, r, want, nf, x=None):
    log = s.eng.get(s.st, BW)
    try: got, rs = content(log, r), receivers(log)
    except Unsupported as e: cx.add(lab + ':starts at the tensor', 'undecided', str(e), f.sp); return
    cx.equal(lab + ':starts at the tensor\'s own gradient function', B(rs == {r}), TRUE, site=f.sp)
    if got is None: got = NOG
    pre = [(s.ok, True)] if s.ok is not TRUE else []
    def st(n):
        from p12 import dims
        S = dims(n, 'R', 0, 3); b = {}
        if x is not None: b[x] = rand_arr(n, 'x', S)
        else: b[want] = rand_arr(n, 'w', S)
        b[fld(mk('deref', s.args[0]), 'array')] = rand_arr(n, 'x', S)
        return b
    cx.decide(lab + ':passes the gradient once', cx.same(nf(got), nf(want), pre), lambda: refute_arrays(got, want, st), f.sp, f'passes {clip(show(nf(got)), 200)} instead of {clip(show(nf(want)), 200)}:')
