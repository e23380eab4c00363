"""P04: broadcasting."""
from core import *
from p01 import F, geom, K, obj, OPS, METHOD, form

def fn_named(cx, name, what=None):
    ids = [f for f in cx.P.fns if f.split('::')[-1] == name and not f.startswith('<') and '{closure' not in f]
    if not ids: cx.add('anchor:' + name, 'violated', f'function {name} not found', '')
    return cx.P.fns[ids[0]] if ids else None

def seq(s, i):
    return mark_useq(mk('deref', s.args[i]))

def run(cx):
    tab = array_models(cx.P, keep=['stride_from_shape', 'has_uniform_stride'])
    f = fn_named(cx, 'broadcast_shapes')
    if f:
        s = cx.summarise(f, tab, ob='broadcast_shapes')
        if s:
            a, b = seq(s, 0), seq(s, 1)
            la, lb = slen(a), slen(b)
            n = ite(le(la, lb), lb, la)
            k = mark_unsigned(fresh('k'))
            def at(x, lx, i):
                d = sub(n, lx)
                return ite(lt(i, d), ONE, sel(x, sub(i, d)))
            A, B = at(a, la, k), at(b, lb, k)
            acc = forall(n, lam(k, lor(eq(A, ONE), eq(B, ONE), eq(A, B))))
            cx.equal('broadcast_shapes:result', ite(acc, s.ret, arr()), ite(acc, gen(n, lam(k, ite(eq(A, ONE), B, A))), arr()), site=f.sp, notes=s.notes)
    f = fn_named(cx, 'broadcast_stride')
    if f:
        s = cx.summarise(f, tab, ob='broadcast_stride')
        if s:
            D, to, frm = seq(s, 0), seq(s, 1), seq(s, 2)
            n, m = slen(to), slen(frm)
            d = sub(n, m)
            pre = [('=', slen(D), m)]
            k = mark_unsigned(fresh('k'))
            want = concat(gen(d, lam(k, ZERO)), gen(m, lam(k, ite(eq(sel(frm, k), ONE), ZERO, sel(D, k)))))
            ok = land(le(m, n), forall(m, lam(k, lor(eq(sel(frm, k), ONE), eq(sel(frm, k), sel(to, add(k, d)))))))
            cx.equal('broadcast_stride:result', ite(ok, s.ret, arr()), ite(ok, want, arr()), pre=pre, site=f.sp, notes=s.notes)
            cx.true('broadcast_stride:accepts', lor(lnot(ok), s.ok), pre=pre, site=f.sp, notes=s.notes)
    f = fn_named(cx, 'get_broadcasted_axes')
    if f:
        s = cx.summarise(f, tab, ob='get_broadcasted_axes')
        if s:
            to, frm = seq(s, 0), seq(s, 1)
            n, m = slen(to), slen(frm); d = sub(n, m)
            k = mark_unsigned(fresh('k'))
            c = lor(lt(k, d), eq(sel(frm, sub(k, d)), ONE))
            # an axis of length 1 may be listed or not: summing over it changes nothing
            pre = [(le(m, n), True), (forall(n, lam(k, lt(ONE, sel(to, k)))), True)]
            cx.equal('get_broadcasted_axes:result', s.ret, tm.fsel(n, lam(k, c), lam(k, k)), pre=pre, site=f.sp, notes=s.notes)
            cx.true('get_broadcasted_axes:accepts', s.ok, pre=pre, site=f.sp, notes=s.notes)
    tab2 = array_models(cx.P)
    f = fn_named(cx, 'broadcast_to')
    if f:
        s = cx.summarise(f, tab2, ob='broadcast_to')
        if s:
            o = obj(s, 0); to = seq(s, 1)
            S, D = F(o, 'shape'), F(o, 'stride')
            pre = [('=', slen(D), slen(S))]
            bs = K('broadcast_stride', D, to, S)
            cx.equal('broadcast_to:data', fld(s.ret, 'ptr'), F(o, 'ptr'), pre=pre, site=f.sp, notes=s.notes)
            cx.equal('broadcast_to:shape', fld(s.ret, 'shape'), to, pre=pre, site=f.sp, notes=s.notes)
            # the stride of an axis of length 1 is never used
            j = mark_unsigned(fresh('k'))
            cx.equal('broadcast_to:as many strides as axes', slen(fld(s.ret, 'stride')), slen(bs), pre=pre, site=f.sp, notes=s.notes)
            cx.equal('broadcast_to:stride', sel(fld(s.ret, 'stride'), j), sel(bs, j), pre=pre + [(lt(j, slen(to)), True), (eq(sel(to, j), ONE), False)], site=f.sp, notes=s.notes)
            # elements that are repeated must not be written through the view
            cx.equal('broadcast_to:a stretched view is read-only', models.fbits(fld(s.ret, 'flags'))[3], FALSE, pre=pre + [(eq(S, to), False)], site=f.sp, notes=s.notes)
            k = mark_unsigned(fresh('k'))
            d = sub(slen(to), slen(S))
    f = fn_named(cx, 'broadcast_to')
    if f:
        s = cx.summarise(f, tab, ob='broadcast_to')
        if s:
            o = obj(s, 0); to = seq(s, 1)
            S, D = F(o, 'shape'), F(o, 'stride')
            pre = [('=', slen(D), slen(S))]
            k = mark_unsigned(fresh('k'))
            d = sub(slen(to), slen(S))
            cx.equal('broadcast_to:accepts', s.ok, land(le(slen(S), slen(to)), forall(slen(S), lam(k, lor(eq(sel(S, k), ONE), eq(sel(S, k), sel(to, add(k, d))))))), pre=pre, site=f.sp, notes=s.notes)
    for op in OPS:
        for f in cx.impls_of('std::ops::' + op, METHOD[op], 'NdArray<'):
            if form(f) != '&array,&array': continue
            s = cx.summarise(f, tab, ob=f'{op}:accepts')
            if not s: continue
            S, S2 = F(obj(s, 0), 'shape'), F(obj(s, 1), 'shape')
            la, lb = slen(S), slen(S2)
            n = ite(le(la, lb), lb, la)
            k = mark_unsigned(fresh('k'))
            def at(x, lx, i):
                d = sub(n, lx)
                return ite(lt(i, d), ONE, sel(x, sub(i, d)))
            A, B = at(S, la, k), at(S2, lb, k)
            acc = forall(n, lam(k, lor(eq(A, ONE), eq(B, ONE), eq(A, B))))
            pre = [('=', slen(F(obj(s, 0), 'stride')), la), ('=', slen(F(obj(s, 1), 'stride')), lb)]
            cx.equal(f'{op}:accepts exactly the broadcastable shapes', s.ok, acc, pre=pre, site=f.sp, notes=s.notes)
            cx.equal(f'{op}:result shape', ite(acc, fld(s.ret, 'shape'), arr()), ite(acc, gen(n, lam(k, ite(eq(A, ONE), B, A))), arr()), pre=pre, site=f.sp, notes=s.notes)
