"""P06: slicing and [] indexing select exactly the requested elements and reject everything outside the array."""
from core import *
from p01 import F, geom, K, obj
from p02 import has
from p03 import absax
from p05 import kv

IX = {  # indexer type: (first, length(n), accepts(n), collapses), of the index value x
    'usize': (lambda x: x, lambda x, n: ONE, lambda x, n: lt(x, n), True),
    'std::ops::Range<usize>': (lambda x: fld(x, 'start'), lambda x, n: sub(fld(x, 'end'), fld(x, 'start')), lambda x, n: le(fld(x, 'end'), n), False),
    'std::ops::RangeFull': (lambda x: ZERO, lambda x, n: n, lambda x, n: TRUE, False),
    'std::ops::RangeFrom<usize>': (lambda x: fld(x, 'start'), lambda x, n: sub(n, fld(x, 'start')), lambda x, n: le(fld(x, 'start'), n), False),
    'std::ops::RangeTo<usize>': (lambda x: ZERO, lambda x, n: fld(x, 'end'), lambda x, n: le(fld(x, 'end'), n), False),
    'std::ops::RangeToInclusive<usize>': (lambda x: ZERO, lambda x, n: add(fld(x, 'end'), ONE), lambda x, n: lt(fld(x, 'end'), n), False),
    'std::ops::RangeInclusive<usize>': (lambda x: inc(x, 0), lambda x, n: add(sub(inc(x, 1), inc(x, 0)), ONE), lambda x, n: lt(inc(x, 1), n), False),
}
def inc(x, i): return fld(x, ('start', 'end')[i])
def wellformed(ty, x, n):
    """ranges are not reversed and not empty (an empty selection is outside the property)"""
    first, length, acc, col = IX[ty]
    return pos(length(x, n)) if not col else TRUE
def mku(ty, x):
    if ty == 'usize': return mark_unsigned(x)
    for n in ('start', 'end'): mark_unsigned(fld(x, n))
    return x

def run(cx):
    tab = array_models(cx.P)
    fa = cx.anchor('NdArray::slice_along', public=True)
    fs = cx.anchor('NdArray::slice', public=True)
    for ty in IX:
        if fa: along(cx, fa, ty, tab)
        if fs: multi(cx, fs, ty, tab)
    enum_index(cx)
    index(cx, tab)

def common(cx, lab, s, f, A, shape, stride, off, pre):
    r = s.ret
    if r is None: cx.add(lab, 'violated', 'never returns', f.sp); return
    p = F(A, 'ptr')
    cx.equal(lab + ':shape', fld(r, 'shape'), shape, pre=pre, site=f.sp, notes=s.notes)
    cx.equal(lab + ':stride', fld(r, 'stride'), stride, pre=pre, site=f.sp, notes=s.notes)
    cx.equal(lab + ':first element', offset(fld(r, 'ptr'), p), off, pre=pre, site=f.sp, notes=s.notes)

def offset(p, base):
    if p.op == 'ite': return ite(p.args[0], offset(p.args[1], base), offset(p.args[2], base))
    if p is base: return ZERO
    if p.op == 'ref' and p.args[0] == ('M', base) and len(p.args[1]) == 1 and p.args[1][0][0] == 'i': return p.args[1][0][1]
    if p.op == 'padd': return add(offset(p.args[0], base), p.args[1])
    return mk('ptrdiff', p, base)

def short(ty): return ty.replace('std::ops::', '').replace('<usize>', '')

def along(cx, f, ty, tab):
    lab = f'slice_along<{short(ty)}>'
    s = cx.summarise(f, tab, ob=lab, tmap={'S': ty})
    if not s: return
    A = obj(s, 0); S, D, M = geom(A)
    x = mku(ty, s.args[2])
    n = slen(S)
    raw = fld(s.args[1], '0')
    first, length, acc, col = IX[ty]
    a = fresh('axis'); mark_unsigned(a)
    ax = absax(raw, n)
    N = sel(S, ax)
    valid = land(le(ZERO, add(n, raw)), lt(raw, n))
    base = [('=', slen(D), n)]
    pre = base + [(valid, True), (lt(ax, n), True), (acc(x, N), True), (wellformed(ty, x, N), True)]
    shape = models.remove(S, ax) if col else tm.st(S, ax, length(x, N))
    stride = models.remove(D, ax) if col else D
    common(cx, lab, s, f, A, shape, stride, mul(sel(D, ax), first(x)), pre)
    cx.equal(lab + ':accepts exactly what lies inside the axis', s.ok, land(valid, acc(x, N)),
             pre=base + [(lor(lnot(valid), lt(ax, n)), True), (lor(lnot(valid), wellformed(ty, x, N)), True)] + extra(ty, x, N), site=f.sp, notes=s.notes)

def extra(ty, x, N):
    # unsigned subtraction end - start does not wrap for well-formed ranges
    return []

def multi(cx, f, ty, tab):
    lab = f'slice<{short(ty)}>'
    s = cx.summarise(f, tab, ob=lab, tmap={'S': ty, 'I': f'std::vec::Vec<{ty}>'})
    if not s: return
    A = obj(s, 0); S, D, M = geom(A)
    X = s.args[1]
    if ty == 'usize': mark_useq(X)
    n, m = slen(S), slen(X)
    first, length, acc, col = IX[ty]
    k = kv()
    at = lambda i: mku(ty, sel(X, i))
    base = [('=', slen(D), n)]
    ok = land(le(m, n), forall(m, lam(k, acc(at(k), sel(S, k)))))
    wf = forall(m, lam(k, wellformed(ty, at(k), sel(S, k))))
    pre = base + [(le(m, n), True), (forall(m, lam(k, acc(at(k), sel(S, k)))), True), (wf, True)]
    if col:
        shape, stride = tm.slc(S, m, n), tm.slc(D, m, n)
    else:
        shape = gen(n, lam(k, ite(lt(k, m), length(at(k), sel(S, k)), sel(S, k))))
        stride = D
    off = tm.isum(m, lam(k, mul(sel(D, k), first(at(k)))))
    common(cx, lab, s, f, A, shape, stride, off, pre)
    cx.equal(lab + ':accepts exactly what lies inside the axes', s.ok, ok, pre=base + [(wf, True)], site=f.sp, notes=s.notes)

# ---- the mixed index enum delegates to the index it wraps
VARIANTS = {'Usize': 'usize', 'Range': 'std::ops::Range<usize>', 'RangeFrom': 'std::ops::RangeFrom<usize>', 'RangeFull': 'std::ops::RangeFull',
            'RangeInclusive': 'std::ops::RangeInclusive<usize>', 'RangeTo': 'std::ops::RangeTo<usize>', 'RangeToInclusive': 'std::ops::RangeToInclusive<usize>'}
def enum_index(cx):
    P = cx.P
    fns = {(f.impl_self, f.name): f for f in P.fns.values() if (f.impl_trait or '').endswith('util::index::Indexer')}
    for v, ty in VARIANTS.items():
        first, length, acc, col = IX[ty]
        for m in ('index_of_first_element', 'indexed_length', 'collapse_dimension'):
            f = fns.get(('redstone_ml::util::index::Index', m))
            if not f:
                cx.add(f'Index::{v}:{m}', 'undecided', 'method not found', ''); continue
            x = mku(ty, mk('arg', 5, 'x'))
            val = adt('redstone_ml::util::index::Index', v, ('0',), x)
            n = mark_unsigned(mk('arg', 6, 'n'))
            s = cx.summarise(f, {}, args=[mk('&', val)] + ([n] if m == 'indexed_length' else []), ob=f'Index::{v}:{m}')
            if not s: continue
            want = {'index_of_first_element': lambda: first(x), 'indexed_length': lambda: length(x, n), 'collapse_dimension': lambda: B(col)}[m]()
            cx.equal(f'Index::{v}:{m}', s.ret, want, site=f.sp, notes=s.notes)
    for f in P.fns.values():
        if f.impl_trait == 'std::convert::From' and f.impl_self == 'redstone_ml::util::index::Index':
            s = cx.summarise(f, {}, ob='Index::from')
            if not s: continue
            ty = erase(f.ty(1))
            v = next((a for a, b in VARIANTS.items() if b == ty), None)
            if v is None: continue
            cx.equal(f'Index::from<{short(ty)}>', s.ret, adt('redstone_ml::util::index::Index', v, ('0',), s.args[0]), site=f.sp, notes=s.notes)

def index(cx, tab):
    for tr, nm, mut in (('std::ops::Index', 'index', False), ('std::ops::IndexMut', 'index_mut', True)):
        fns = cx.need(cx.impls_of(tr, nm, 'NdArray<'), 2, f'{nm} impls on arrays')
        for f in fns:
            ty = erase(f.ty(2)); many = ty.startswith('[')
            lab = f'{nm}({"multi-index" if many else "usize"})'
            s = cx.summarise(f, tab, ob=lab)
            if not s: continue
            A = obj(s, 0); S, D, M = geom(A)
            n = slen(S)
            if many:
                X = mark_useq(s.args[1]); m = mark_unsigned(mk('const', ty.split(';')[1].strip(' ]'), 'usize'))
            else:
                X = arr(mark_unsigned(s.args[1])); m = ONE
            k = kv()
            inside = lambda: forall(m, lam(k, lt(sel(X, k), sel(S, k))))
            ok = land(eq(n, m), inside())
            if mut: ok = land(has(A, 3), ok)
            base = [('=', slen(D), n)] + ([('=', slen(X), m)] if many else [])
            cx.equal(lab + ':accepts exactly the indices inside the array', s.ok, ok, pre=base, site=f.sp, notes=s.notes)
            cx.equal(lab + ':element', offset(s.ret, F(A, 'ptr')), tm.isum(m, lam(k, mul(sel(X, k), sel(D, k)))), pre=base + [(eq(n, m), True)], site=f.sp, notes=s.notes)
