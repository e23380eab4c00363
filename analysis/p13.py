"""P13: tensor operations compute what the array operations compute, and record a gradient function exactly when an operand requires gradients."""
from tape import *

def bit(t, b):
    if t.op == 'ite': return ite(t.args[0], bit(t.args[1], b), bit(t.args[2], b))
    if t.op == 'flags': return t.args[1 + b]
    return mark_bool(mk('has', t, b))

def isnone_of(cx, gf, known=()):
    """condition under which the gradient function ignores gradients"""
    if gf.op == 'ite': 
        a, b = isnone_of(cx, gf.args[1]), isnone_of(cx, gf.args[2])
        return None if a is None or b is None else ite(gf.args[0], a, b)
    if gf.op == 'adt':
        fs = node_impl(cx.P, gf.args[0], 'is_none')
        if not fs:
            d = [f for f in cx.P.fns.values() if f.id.endswith('GradientFuncTrait::is_none') and f.impl_trait is None]
            if not d or not node_impl(cx.P, gf.args[0]): return None
            fs = d
        s = cx.summarise(fs[0], {}, args=[mk('&', gf)], ob='is_none')
        return s.ret if s else None
    return isnone(gf)

def forward(o):
    x = o.x; k = o.kind
    y = A('scal', o.sum.args[1]) if o.scalar else None
    if k in ('add', 'sub', 'mul', 'div'): return A(k, *x)
    if k in ('sadd', 'ssub', 'smul', 'sdiv'): return A(k[1:], x[0], y)
    if k == 'neg': return A('neg', x[0])
    if k in ('dot', 'bmm'): return A(k, *x)
    if k == 'matmul': return A('dot' if o.dims == (1, 1) else 'matmul', *x)

def run(cx):
    from p12 import setup
    P = cx.P; tab = grad_models(P)
    for o in table(cx):
        s = summarise(cx, o, tab)
        if not s: continue
        f = o.f; w = forward(o)
        if w is not None:
            cx.equal(o.lab + ':accepts whatever the array operation accepts', s.ok, TRUE, pre=o.pre, site=f.sp, notes=s.notes)
            got = fld(s.ret, 'array'); nf = NF()
            cx.decide(o.lab + ':values of the array operation', cx.same(nf(got), nf(w), o.pre), lambda: refute_arrays(got, w, setup(o)), f.sp, f'computes {clip(show(got), 200)} instead of {clip(show(w), 200)}:')
        okp = [(s.ok, True)] if s.ok is not TRUE else []
        fl = fld(s.ret, 'flags')
        cx.equal(o.lab + ':requires gradients exactly when an operand does', bit(fl, 5), o.any, pre=o.pre + okp, site=f.sp, notes=s.notes)
        # a result of an operation is not a leaf created by the user (returning the operand itself, unchanged, is no operation)
        u = bit(fl, 4)
        if o.kind in ('reshape', 'view', 'squeeze', 'unsqueeze', 'T', 'transpose') and not o.ops[0][1]:
            # consuming forms may hand back the tensor they consumed
            u = ite_drop(s.ret, o.t[0], 4)
        cx.equal(o.lab + ':not marked as created by the user', u, FALSE, pre=o.pre + okp, site=f.sp, notes=s.notes)
        gf = fld(s.ret, 'grad_fn')
        n = isnone_of(cx, gf)
        if n is None: cx.add(o.lab + ':gradient function recorded', 'undecided', 'unrecognised gradient function', f.sp); continue
        # operands satisfy the invariant: a gradient function that ignores gradients exactly when none are required
        for g, r in zip(o.fn, o.rg): n = apply_map(n, {isnone(g): lnot(r)})
        cx.equal(o.lab + ':records a gradient function exactly when required', n, lnot(o.any), pre=o.pre + okp, site=f.sp, notes=s.notes)
    creation(cx, tab)

def ite_drop(r, t, b):
    """flag b of the result, where the branch that returns the operand t itself counts as unset"""
    if r.op == 'ite': return ite(r.args[0], ite_drop(r.args[1], t, b), ite_drop(r.args[2], t, b))
    if r is t: return FALSE
    return bit(fld(r, 'flags'), b)

def creation(cx, tab):
    P = cx.P
    fs = [f for f in P.fns.values() if f.name == 'from_contiguous_owned_buffer' and 'Tensor<' in (f.impl_self or '')]
    cx.need(fs, 1, 'tensor construction from a buffer')
    for f in fs:
        s = cx.summarise(f, {}, ob='new tensor')
        if not s: continue
        fl = fld(s.ret, 'flags')
        cx.equal('new tensor:requires no gradient', bit(fl, 5), FALSE, site=f.sp, notes=s.notes)
        cx.equal('new tensor:is created by the user', bit(fl, 4), TRUE, site=f.sp, notes=s.notes)
        n = isnone_of(cx, fld(s.ret, 'grad_fn'))
        if n is not None: cx.equal('new tensor:no gradient function', n, TRUE, site=f.sp, notes=s.notes)
        else: cx.add('new tensor:no gradient function', 'undecided', 'unrecognised gradient function', f.sp)
    S = mk('deref', mk('arg', 0, 'self'))
    for m, want in (('requires_grad', bit(fld(S, 'flags'), 5)), ('is_leaf', lor(lnot(bit(fld(S, 'flags'), 5)), bit(fld(S, 'flags'), 4)))):
        f = cx.anchor('Tensor::' + m, public=True)
        s = f and cx.summarise(f, {}, ob=m)
        if s: cx.equal(m + ':reads the tensor\'s own flags', s.ret, want, site=f.sp, notes=s.notes)
    # every gradient function that claims to ignore gradients does
    for f in [f for f in P.fns.values() if (f.impl_trait or '').endswith('GradientFuncTrait') and f.name == 'is_none']:
        s = cx.summarise(f, {}, ob='is_none')
        if not s: continue
        name = re.sub(r'<.*', '', f.impl_self)
        for b in node_impl(P, name):
            t = cx.summarise(b, tab, ob=name.split('::')[-1] + '.backward')
            if not t: continue
            quiet = t.eng.get(t.st, BW) is arr() and not t.log
            short = name.split('::')[-1]
            cx.decide(f'{short}:ignores gradients when it says so', s.ret is FALSE or quiet, lambda: ('differ', 'is_none can return true but backward passes gradients on') if s.ret is TRUE else ('noeval', 'is_none is not constant'), f.sp)
