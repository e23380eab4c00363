"""The recorded operations of tensors: for each public operation, the summary of its body (array level) and, for the
gradient function it records, the events produced by that function's `backward` on a symbolic gradient."""
from algebra import *
from p07 import body_of, SELF

G = mk('arg', 'g', 'grad')          # the incoming gradient (borrowed)
GA = mk('deref', G)

class Op:
    def __init__(s, kind, lab, f, tmap, ops, scalar=None, dims=None, args=()):
        s.kind, s.lab, s.f, s.tmap, s.ops, s.scalar, s.dims, s.args = kind, lab, f, tmap, ops, scalar, dims, args
        s.sum = None

def operand(s, i, byref):
    a = s.args[i]
    return mk('deref', a) if byref else a

def table(cx):
    """every recorded operation of tensors"""
    P = cx.P; out = []
    for tr, op in {**BIN, 'Neg': 'neg'}.items():
        fs = [f for f in P.fns.values() if (f.impl_trait or '').endswith('::' + tr) and f.name == op and 'Tensor<' in (f.impl_self or '')]
        cx.need(fs, 2 if op == 'neg' else 6, f'tensor {tr} impls')
        for f in fs:
            tys = [erase(f.ty(i + 1)) for i in range(f.argc)]
            form = ' '.join(('&' if t.startswith('&') else '') + ('tensor' if 'Tensor<' in t else 'scalar') for t in tys)
            sc = f.argc == 2 and 'Tensor<' not in tys[1]
            out.append(Op('s' + op if sc else op, f'{tr}[{form}]', f, {}, [(i, t.startswith('&')) for i, t in enumerate(tys) if 'Tensor<' in t], 1 if sc else None))
    for m, dims in (('dot', (1, 1)), ('matmul', (1, 1)), ('matmul', (2, 1)), ('matmul', (2, 2)), ('bmm', (3, 3))):
        f = cx.anchor('Tensor::' + m, public=True)
        if not f: continue
        for ty, ref in (('Tensor', False), ('&Tensor', True)):
            g = next((x for x in f.generics if x.startswith('impl AsRef')), None) or (f.generics[-1] if f.generics else None)
            T_ = "redstone_ml::tensor::Tensor<'b, T>"
            out.append(Op(m, f'{m}[{dims[0]}d {dims[1]}d{" &" if ref else ""}]', f, {erase(g): ('&' if ref else '') + T_} if g else {}, [(0, True), (1, ref)], dims=dims))
    for who, ty in SELF.items():
        if 'tensor' not in who: continue
        for m in ('view', 'reshape', 'squeeze', 'unsqueeze', 'T', 'transpose'):
            f, tmap = body_of(P, m, ty)
            if not f:
                cx.add(f'anchor:{who}.{m}', 'violated', f'method {m} not found', ''); continue
            if m == 'reshape': tmap = {**tmap, 'impl ToVec<usize>': 'std::vec::Vec<usize>'}
            out.append(Op(m, f'{who}.{m}', f, tmap, [(0, who.startswith('&'))]))
    return out

def summarise(cx, o, tab):
    o.sum = s = cx.summarise(o.f, tab, tmap=o.tmap, ob=o.lab)
    if not s: return None
    o.t = [operand(s, i, r) for i, r in o.ops]
    o.x = [fld(t, 'array') for t in o.t]
    o.fn = [fld(t, 'grad_fn') for t in o.t]
    o.rg = [mark_bool(mk('has', fld(t, 'flags'), 5)) for t in o.t]
    o.any = lor(*o.rg)
    o.pre = []
    if o.dims:
        for x, d in zip(o.x, o.dims): o.pre.append(('=', slen(mark_useq(fld(x, 'shape'))), I(d)))
    return s

def simp(t, pre):
    (r,), fs = with_pre([t], pre)
    return r

def node_impl(P, name, meth='backward'):
    return [f for f in P.fns.values() if (f.impl_trait or '').endswith('GradientFuncTrait') and f.name == meth
            and re.sub(r'<.*', '', f.impl_self or '') == name]

def events(cx, gf, tab, lab, g=G):
    """event log produced by handing the gradient g to the gradient function gf -> (log, ok, sites)"""
    if gf.op == 'ite':
        a, b = events(cx, gf.args[1], tab, lab, g), events(cx, gf.args[2], tab, lab, g)
        if a is None or b is None: return None
        return ite(gf.args[0], a[0], b[0]), ite(gf.args[0], a[1], b[1]), a[2] | b[2]
    if gf.op == 'adt':
        fs = node_impl(cx.P, gf.args[0])
        if len(fs) != 1:
            cx.add(lab + ':gradient function', 'undecided', f'{len(fs)} backward implementations for {gf.args[0]}', ''); return None
        s = cx.summarise(fs[0], tab, args=[mk('&', gf), g], ob=lab + ' ' + gf.args[0])
        if not s: return None
        if s.notes: cx.add(lab + ':backward', 'undecided', '; '.join(s.notes), fs[0].sp); return None
        return s.eng.get(s.st, BW), s.ok, {fs[0].sp}
    return arr(tup(gf, mk('deref', g))), TRUE, set()
