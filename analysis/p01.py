"""P01: elementwise operators."""
from core import *
OPS = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'BitAnd', 'BitOr': 'BitOr', 'Shl': 'Shl', 'Shr': 'Shr'}
METHOD = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'bitand', 'BitOr': 'bitor', 'Shl': 'shl', 'Shr': 'shr'}
def opterm(op, a, b, ty=None):
    if ty and ty[0] in 'iu':
        f = {'Add': add, 'Sub': sub, 'Mul': mul, 'Div': tm.idiv, 'Rem': tm.irem}.get(op)
        if f: return f(a, b)
    return models.arith(OPS[op], a, b) if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem') else models.bitop(OPS[op], a, b)

def obj(s, i):
    """array value behind argument i (by value or by reference)"""
    a = s.args[i]
    ty = erase(s.fn.ty(i + 1))
    return mk('deref', a) if ty.startswith('&') else a
def is_arr(ty): return 'NdArray<' in ty
def F(o, n):
    r = fld(o, n)
    if n in ('shape', 'stride'): mark_useq(r)
    if n in ('len', 'capacity'): mark_unsigned(r)
    return r
def geom(o): return F(o, 'shape'), F(o, 'stride'), mk('mem', F(o, 'ptr'))
def K(name, *a): return mark_useq(mk('K', name, *a))
def content(s, o):
    """memory behind a returned array"""
    p = fld(o, 'ptr')
    return load_buf(s, p)
def load_buf(s, p):
    if p.op == 'ite': return ite(p.args[0], load_buf(s, p.args[1]), load_buf(s, p.args[2]))
    return s.mem(p)
def ew(n, f):
    k = mark_unsigned(fresh('k'))
    return gen(n, lam(k, f(k)))

def run(cx):
    P = cx.P
    tab = array_models(P)
    n = 0
    for op in OPS:
        fns = [f for f in cx.impls_of('std::ops::' + op, METHOD[op], 'NdArray<')]
        cx.need(fns, 6, f'{op} operator impls on arrays')
        for f in fns: n += 1; binary(cx, f, op, tab)
        # element types with kernels of their own
        for ty in overriding(P, rf'::BinaryOp{op}$|::SimdBinaryOps$'):
            for f in fns: binary(cx, f, op, tab, {'T': ty}, f' [{ty}]')
    fns = cx.impls_of('std::ops::Neg', 'neg', 'NdArray<')
    cx.need(fns, 2, 'negation impls on arrays')
    for f in fns:
        n += 1; negation(cx, f, tab)
        for ty in overriding(P, r'::UnaryOps$|::SimdNeg$'): negation(cx, f, tab, {'T': ty}, f' [{ty}]')
    return n

def negation(cx, f, tab, tmap=None, suffix=''):
    name = f'Neg({"&" if erase(f.ty(1)).startswith("&") else ""}array){suffix}'
    s = cx.summarise(f, tab, ob=name, tmap=tmap)
    if s is None: return
    if s.ret is None: cx.add(name, 'violated', 'never returns', f.sp); return
    S, D, M = geom(obj(s, 0)); ty = (tmap or {}).get('T'); pre = [('=', slen(D), slen(S))]
    want = ew(size(S), lambda k: (neg if ty and ty[0] in 'iu' else models.fneg)(sel(M, fi(S, D, k))))
    cx.equal(name + ':values', content(s, s.ret), want, pre=pre, site=f.sp, notes=s.notes)
    cx.equal(name + ':shape', fld(s.ret, 'shape'), S, pre=pre, site=f.sp, notes=s.notes)
    cx.equal(name + ':stride', fld(s.ret, 'stride'), K('stride_from_shape', S), pre=pre, site=f.sp, notes=s.notes)
    if not ty or ty[0] == 'f': cx.true(name + ':no-panic', s.ok, pre=pre, site=f.sp, notes=s.notes)

def form(f):
    d = lambda t: ('&' if t.startswith('&') else '') + ('array' if is_arr(t) else 'scalar')
    return d(erase(f.ty(1))) + ',' + d(erase(f.ty(2)))

def binary(cx, f, op, tab, tmap=None, suffix=''):
    name = f'{op}({form(f)}){suffix}'
    s = cx.summarise(f, tab, ob=name, tmap=tmap)
    if s is None: return
    if s.ret is None: cx.add(name, 'violated', 'never returns', f.sp); return
    A, B = obj(s, 0), obj(s, 1)
    S, D, M = geom(A); ty = (tmap or {}).get('T')
    notes = s.notes
    if is_arr(f.ty(2)):
        S2, D2, M2 = geom(B)
        bs = K('broadcast_shapes', S, S2)
        l = K('broadcast_stride', D, bs, S); r = K('broadcast_stride', D2, bs, S2)
        want = ew(size(bs), lambda k: opterm(op, sel(M, fi(bs, l, k)), sel(M2, fi(bs, r, k)), ty))
        pre = [('=', slen(l), slen(bs)), ('=', slen(r), slen(bs))]
        shape = bs
    else:
        want = ew(size(S), lambda k: opterm(op, sel(M, fi(S, D, k)), B, ty))
        pre = [('=', slen(D), slen(S))]; shape = S
    cx.equal(name + ':values', content(s, s.ret), want, pre=pre, site=f.sp, notes=notes)
    cx.equal(name + ':shape', fld(s.ret, 'shape'), shape, pre=pre, site=f.sp, notes=notes)
    cx.equal(name + ':stride', fld(s.ret, 'stride'), K('stride_from_shape', shape), pre=pre, site=f.sp, notes=notes)
    if not ty or ty[0] == 'f': cx.true(name + ':no-panic', s.ok, pre=pre, site=f.sp, notes=notes)
