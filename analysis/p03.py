"""P03: reductions combine every element exactly once, over the whole array or along the given axes."""
from core import *
from p01 import F, geom, K, obj, content, load_buf
from p05 import fo, kv, walk

ONEV, ZEROV = mk('one'), mk('zero')
absv = lambda x: mk('abs', x)
RED = {  # name: (identities accepted, combiner(value, acc))
    'sum': ([ZEROV], lambda v, a: models.arith('add', a, v)),
    'product': ([ONEV], lambda v, a: models.arith('mul', a, v)),
    'min': ([mk('max_value')], lambda v, a: tm.fmm('fmin', v, a)),
    'max': ([mk('min_value')], lambda v, a: tm.fmm('fmax', v, a)),
    'min_magnitude': ([mk('max_value')], lambda v, a: tm.fmm('fmin', v, a)),
    'max_magnitude': ([mk('min_value'), ZEROV], lambda v, a: tm.fmm('fmax', v, a)),
}
KTRAITS = r'ops::reduce_|ops::simd_reduce'

def elem_types(cx):
    """the generic element type (default kernels) and every element type with an overridden kernel"""
    tys = overriding(cx.P, KTRAITS)
    return [None] + sorted(set(tys) | {'f32', 'f64'})

def signed(cx, ty):
    """Absolute::abs of ty: None = generic default (identity: unsigned), 'abs' = magnitude"""
    f, _ = cx.P.resolve('redstone_ml::util::absolute::Absolute', 'abs', ty or 'T')
    return f

def magnitude(ty): return absv if ty and re.match(r'^(f32|f64|i)', ty) else (lambda x: x)

def run(cx):
    tab = array_models(cx.P)
    for name in RED:
        whole(cx, name, tab)
        along(cx, name, tab)
    absolute(cx)
    means(cx, tab)

def pick(cx, ob, got, wants, pre, f, s):
    w = next((x for x in wants if cx.same(got, x, pre)), None)
    if w is None:      # any of the accepted starting values will do: a violation differs from all of them
        w = next((x for x in wants if cx.separate(got, x, pre, ())[0] != 'differ'), wants[0])
        if w is not wants[0] and len(wants) > 1:
            return cx.add(ob, 'undecided', 'normal forms differ, no separating valuation', f.sp)
    return cx.equal(ob, got, w, pre=pre, site=f.sp, notes=s.notes)

def comb(name, ty):
    ids, c = RED[name]
    if 'magnitude' in name:
        m = magnitude(ty)
        return ids, lambda v, a: c(m(v), a)
    return ids, c
def norm(ids, ty):
    if ty and ty[0] in 'iu': return [ZERO if x is ZEROV else ONE if x is ONEV else x for x in ids]
    return ids

def whole(cx, name, tab):
    f = cx.anchor('NdArray::' + name, public=True)
    if not f: return
    for ty in elem_types(cx):
        lab = f'{name}' + (f'<{ty}>' if ty else '')
        s = cx.summarise(f, tab, ob=lab, tmap={'T': ty} if ty else None)
        if not s: continue
        if s.ret is None: cx.add(lab, 'violated', 'never returns', f.sp); continue
        A = obj(s, 0); S, D, M = geom(A)
        pre = [('=', slen(D), slen(S)), (pos(size(S)), True)]
        ids, c = comb(name, ty)
        def want(i):
            a, k = fresh('acc'), kv()
            return arr(tm.fold(i, size(S), a, k, intop(name, c, sel(M, fi(S, D, k)), a, ty)))
        pick(cx, lab + ':value', content(s, s.ret), [want(i) for i in norm(ids, ty)], pre, f, s)
        cx.equal(lab + ':shape', fld(s.ret, 'shape'), arr(), pre=pre, site=f.sp, notes=s.notes)
        cx.true(lab + ':no-panic', s.ok, pre=pre, site=f.sp, notes=s.notes)

def intop(name, c, v, a, ty):
    if ty and ty[0] in 'iu':
        if name == 'sum': return add(a, v)
        if name == 'product': return mul(a, v)
        if 'magnitude' in name and ty[0] == 'i': v = absv(v)
        return ite(lt(a, v), v, a) if 'max' in name else ite(lt(v, a), v, a)
    return c(v, a)

def castu(x): return mark_unsigned(models_cast('usize', x))
def absax(ax, n): return castu(ite(pos(add(ax, ONE)), ax, add(n, ax)))

def along(cx, name, tab):
    f = cx.anchor('NdArray::' + name + '_along', public=True)
    if not f: return
    for ty in elem_types(cx):
        lab = f'{name}_along' + (f'<{ty}>' if ty else '')
        tmap = {g: 'std::vec::Vec<isize>' for g in generics(f)}
        if ty: tmap['T'] = ty
        s = cx.summarise(f, tab, ob=lab, tmap=tmap)
        if not s: continue
        if s.ret is None: cx.add(lab, 'violated', 'never returns', f.sp); continue
        A = obj(s, 0); S, D, M = geom(A)
        AX = mk_ints(s.args[1])
        n = slen(S)
        red = lambda i: reduced(AX, n, i)
        k, q = kv(), kv()
        out = tm.fsel(n, lam(k, lnot(red(k))), lam(k, sel(S, k)))
        ms = map_stride(S, red)
        ids, c = comb(name, ty)
        inr = in_range(AX, n)
        pre = [('=', slen(D), slen(S)), (inr, True)]
        def want(i):
            a = fresh('acc')
            k, q = kv(), kv()
            o = fi(S, ms, k)
            return tm.fold(gen(size(out), lam(q, i)), size(S), a, k, tm.st(a, o, intop(name, c, sel(M, fi(S, D, k)), sel(a, o), ty)))
        pick(cx, lab + ':values', content(s, s.ret), [want(i) for i in norm(ids, ty)], pre, f, s)
        cx.equal(lab + ':shape', fld(s.ret, 'shape'), out, pre=pre, site=f.sp, notes=s.notes)
        cx.equal(lab + ':accepts exactly distinct axes in range', s.ok, inr, pre=pre[:1], site=f.sp, notes=s.notes)

def generics(f):
    return [g for g in f.generics if g.startswith('impl ')] if hasattr(f, 'generics') else ['impl ToVec<isize>', 'impl redstone_ml::util::to_vec::ToVec<isize>']
def mk_ints(a): return a

def reduced(AX, n, i):
    j = kv()
    return lnot(forall(slen(AX), lam(j, lnot(eq(absax(sel(AX, j), n), i)))))
def in_range(AX, n):
    j, k = kv(), kv()
    c = n
    ok = lambda j: land(le(ZERO, add(c, sel(AX, j))), lt(sel(AX, j), c))
    return land(forall(slen(AX), lam(j, ok(j))), forall(slen(AX), lam(k, forall(k, lam(j, lnot(eq(absax(sel(AX, j), n), absax(sel(AX, k), n))))))))
def map_stride(S, red):
    """position weight of axis i in the result: 0 if reduced, else the product of the later axes that are kept"""
    n = slen(S); k = kv()
    a, j = fresh('acc'), kv()
    r = lambda q: sub(sub(n, ONE), q)
    w = tm.fold(ONE, r(k), a, j, ite(red(r(j)), a, mul(a, sel(S, r(j)))))
    return mark_useq(gen(n, lam(k, ite(red(k), ZERO, w))))

def absolute(cx):
    """Absolute::abs is the magnitude for every signed type"""
    for ty in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64'):
        f = next((g for g in cx.P.fns.values() if (g.impl_trait or '').endswith('absolute::Absolute') and g.impl_self == ty and g.name == 'abs'), None)
        if not f:
            cx.add(f'abs<{ty}>', 'undecided', 'no own implementation of the magnitude found', ''); continue
        s = cx.summarise(f, {}, ob=f'abs<{ty}>')
        if s: cx.equal(f'abs<{ty}>:magnitude', s.ret, absv(obj(s, 0)), site=f.sp, notes=s.notes)

def means(cx, tab):
    f = cx.anchor('NdArray::mean', public=True); g = cx.anchor('NdArray::sum', public=True)
    if f and g:
        s = cx.summarise(f, tab, ob='mean')
        if s:
            A = obj(s, 0); S, D, M = geom(A)
            a, k = fresh('acc'), kv()
            tot = tm.fold(ZEROV, size(S), a, k, models.arith('add', a, sel(M, fi(S, D, k))))
            dv = next((x for x in walk(content(s, s.ret)) if x.op == 'fdiv'), None)
            if dv is None: cx.add('mean:value', 'undecided', 'no division found', f.sp)
            else:
                n = dv.args[1]
                cnt = count_arg(n)
                pre = [('=', slen(D), slen(S)), (pos(size(S)), True)]
                if cnt is None: cx.add('mean:divides by the element count', 'undecided', show(n)[:200], f.sp)
                else: cx.equal('mean:divides by the element count', cnt, size(S), pre=pre, site=f.sp)
                cx.equal('mean:value', content(s, s.ret), arr(models.arith('div', tot, n)), pre=pre, site=f.sp, notes=s.notes)
    f = cx.anchor('NdArray::mean_along', public=True)
    if f:
        s = cx.summarise(f, tab, ob='mean_along', tmap={g: 'std::vec::Vec<isize>' for g in generics(f)})
        if s:
            A = obj(s, 0); S, D, M = geom(A)
            AX = s.args[1]; n = slen(S)
            nonneg_ = (forall(slen(AX), lam((j := kv()), le(ZERO, sel(AX, j)))), True)
            red = lambda i: reduced(AX, n, i)
            k = kv()
            out = tm.fsel(n, lam(k, lnot(red(k))), lam(k, sel(S, k)))
            pre = [('=', slen(D), slen(S)), (in_range(AX, n), True), nonneg_]
            cx.equal('mean_along:shape', fld(s.ret, 'shape'), out, pre=pre, site=f.sp, notes=s.notes)
            dvs = [x for x in walk(content(s, s.ret)) if x.op == 'fdiv']
            cnts = [count_arg(x.args[1]) for x in dvs]
            if not dvs or None in cnts: cx.add('mean_along:divides by the count', 'undecided', 'division not recognised', f.sp)
            else:
                j = kv()
                for c in set(cnts): cx.equal('mean_along:divides by the number of combined elements', c, prod_over(S, AX, n), pre=pre, site=f.sp, notes=s.notes)
            if dvs:
                nn = dvs[0].args[1]
                ms = map_stride(S, red)
                a = fresh('acc'); k, q, z = kv(), kv(), kv(); o = fi(S, ms, k)
                tot = tm.fold(gen(size(out), lam(q, ZEROV)), size(S), a, k, tm.st(a, o, models.arith('add', sel(a, o), sel(M, fi(S, D, k)))))
                cx.equal('mean_along:values', content(s, s.ret), gen(size(out), lam(z, models.arith('div', sel(tot, z), nn))), pre=pre, site=f.sp, notes=s.notes)

def prod_over(S, AX, n):
    j = kv()
    return tm.prod(slen(AX), lam(j, sel(S, absax(sel(AX, j), n))))
def count_arg(n):
    """x in NumCast::from(x).unwrap()"""
    for x in walk(n):
        if x.op in ('call', 'from', 'ncast'):
            ts = [a for a in x.args if isinstance(a, T)]
            if len(ts) == 1: return ts[0]
    return None
