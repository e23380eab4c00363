"""P20: an axis argument denotes the same axis everywhere: negative axes count from the end, everything outside -n..n-1 is rejected."""
from core import *
from p01 import F, K
from p03 import absax, castu
from p05 import kv, walk
from p07 import SELF, body_of, valid, source, result
from p19 import obj

def run(cx):
    P = cx.P
    f = cx.anchor('AxisType::as_absolute', public=True)
    if f:
        impls = [i['self'] for i in P.traits.get(next((t for t in P.traits if t.endswith('::AxisType')), ''), [])]
        cx.need(impls, 2, 'axis types')
        for ty in ['T'] + sorted(impls):
            g, _ = P.resolve(next(t for t in P.traits if t.endswith('::AxisType')), 'as_absolute', ty) if ty != 'T' else (f, None)
            g = g or f
            s = cx.summarise(g, {}, tmap={'Self': ty}, ob=f'as_absolute<{ty}>')
            if not s: continue
            a = raw(s.args[0], ty); n = mark_unsigned(s.args[1]); lab = f'{ty.split("::")[-1]}.as_absolute'
            cx.equal(lab + ':accepts exactly -n..n-1', s.ok, valid(a, n), site=g.sp, notes=s.notes)
            cx.equal(lab + ':value', s.ret, absax(a, n), pre=[(valid(a, n), True)], site=g.sp, notes=s.notes)
    for f in [f for f in P.fns.values() if (f.impl_trait or '').endswith('::ToVec') and (f.impl_self or '').endswith('::Axis')]:
        s = cx.summarise(f, {}, ob='Axis.to_vec')
        if s: cx.equal('Axis.to_vec:one axis', s.ret, arr(fld(s.args[0], '0')), site=f.sp, notes=s.notes)
    users(cx)

def raw(x, ty):
    v = mk('deref', x)
    if ty == 'T': v = mk('call', 'redstone_ml::util::axis::AxisType::isize', x)
    elif ty.endswith('::Axis'): v = fld(v, '0')
    return mark_int(v)

def ax(s, i, f, const=None):
    """raw axis value of the i-th argument"""
    if const is not None: return I(const)
    return mark_int(mk('call', 'redstone_ml::util::axis::AxisType::isize', mk('&', s.args[i])))

DIAG = {'offset_diagonal_along': (1, 2, 3), 'diagonal_along': (None, 1, 2), 'offset_diagonal': (1, None, None), 'diagonal': (None, None, None)}

def users(cx):
    P = cx.P; tab = {**array_models(P), **clone_models(P)}
    for m, (io, i1, i2) in DIAG.items():
        f = cx.anchor('NdArray::' + m, public=True)
        s = f and cx.summarise(f, tab, ob=m)
        if not s: continue
        A = mk('deref', s.args[0]); S, D = F(A, 'shape'), F(A, 'stride'); n = slen(S)
        o = mark_int(s.args[io]) if io else ZERO
        r1 = ax(s, i1, f, 0 if i1 is None else None); r2 = ax(s, i2, f, 1 if i2 is None else None)
        x, y = absax(r1, n), absax(r2, n)
        up = le(ZERO, o)
        co, cn = castu(o), castu(sub(ZERO, o))
        d1, d2 = sel(S, x), sel(S, y)
        base = [('=', slen(D), n)]
        small = [(lt(I(-(1 << 62)), o), True)]
        acc = land(lt(ONE, n), valid(r1, n), valid(r2, n), lnot(eq(x, y)), ite(up, lt(co, d2), lt(cn, d1)))
        okpre = [(lt(ONE, n), True), (valid(r1, n), True), (valid(r2, n), True), (lt(x, n), True), (lt(y, n), True)]
        cx.equal(m + ':accepts exactly two different valid axes and an offset on the diagonal', s.ok, acc, pre=base + small + okpre, site=f.sp, notes=s.notes)
        cx.equal(m + ':rejects invalid axes', land(s.ok, lnot(land(lt(ONE, n), valid(r1, n), valid(r2, n)))), FALSE, pre=base + small, site=f.sp, notes=s.notes)
        k = kv(); c = lam(k, land(lnot(eq(k, x)), lnot(eq(k, y))))
        last = imin(ite(up, d1, sub(d1, cn)), ite(up, sub(d2, co), d2))
        P_ = base + small + okpre + [(acc, True)]
        cx.equal(m + ':shape', fld(s.ret, 'shape'), tm.push(tm.fsel(n, c, lam(k, sel(S, k))), last), pre=P_, site=f.sp, notes=s.notes)
        cx.equal(m + ':stride', fld(s.ret, 'stride'), tm.push(tm.fsel(n, c, lam(k, sel(D, k))), add(sel(D, x), sel(D, y))), pre=P_, site=f.sp, notes=s.notes)
        cx.equal(m + ':start', fld(s.ret, 'ptr'), models.padd(F(A, 'ptr'), ite(up, mul(co, sel(D, y)), mul(cn, sel(D, x)))), pre=P_, site=f.sp, notes=s.notes)
    # traces: the sum over the diagonal (P03 decides sum_along)
    keep = dict(tab)
    for m in ('offset_diagonal_along', 'sum_along'):
        for i in find_ids(P, 'NdArray::' + m): keep[i] = keep_model(m)
    for m, (io, i1, i2) in {'offset_trace_along': (1, 2, 3), 'trace_along': (None, 1, 2), 'offset_trace': (1, None, None), 'trace': (None, None, None)}.items():
        f = cx.anchor('NdArray::' + m, public=True)
        s = f and cx.summarise(f, keep, ob=m)
        if not s: continue
        o = mark_int(s.args[io]) if io else ZERO
        a1 = s.args[i1] if i1 else ZERO; a2 = s.args[i2] if i2 else ONE
        want = mk('K', 'sum_along', mk('K', 'offset_diagonal_along', mk('deref', s.args[0]), o, a1, a2), I(-1))
        got = s.ret
        if cx.same(got, want): cx.add(m + ':sum over the diagonal', 'proved', '', f.sp)
        else:
            ds = [x for x in walk(got) if x.op == 'K' and x.args[1 - 1] == 'offset_diagonal_along']
            bad = got.op == 'K' and got.args[0] == 'sum_along' and ds and got.args[1] is ds[0] and all(z.op in ('c', 'arg') for z in ds[0].args[2:] + (got.args[2],))
            if not bad and ds and all(x is ds[0] for x in ds):
                bad = other_axis(cx, got, want, ds[0])
            cx.add(m + ':sum over the diagonal', 'violated' if bad else 'undecided', f'computes {clip(show(got), 300)} instead of {clip(show(want), 300)}', f.sp)

def other_axis(cx, got, want, d):
    """the sum is taken over another axis of the diagonal view than its last, for some rank"""
    n = slen(mark_useq(fld(d, 'shape'))); k = mark_unsigned(mk('arg', 'r', 'rank'))
    def q(t):
        if t.op == 'ite': return ite(t.args[0], q(t.args[1]), q(t.args[2]))
        if t.op == 'K' and t.args[0] == 'sum_along' and t.args[1] is d:
            def ax(z): return ite(z.args[0], ax(z.args[1]), ax(z.args[2])) if z.op == 'ite' else ite(lt(z, ZERO), add(n, z), z)
            return eq(ax(t.args[2]), sub(n, ONE))
        raise Unsupported('')
    try: b = q(got)
    except Unsupported: return False
    return cx.separate(b, TRUE, [(lt(ZERO, n), True)], ())[0] == 'differ'

def keep_model(name):
    def m(eng, fr, s, fn, args, tys, t):
        vs = []
        for a, ty in zip(args, tys): vs.append(eng.load(s, a, (), False) if ty.startswith('&') else a)
        return mk('K', name, *vs), s
    return m
