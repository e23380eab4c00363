"""P02: in-place operators, fill, zero and indexed assignment update exactly the elements of the array."""
from core import *
from p01 import F, geom, K, obj, OPS, METHOD, opterm, is_arr, form
from p05 import fo, kv

def scatter(M, n, off, val):
    a, k = fresh('acc'), kv()
    return tm.fold(M, n, a, k, tm.st(a, off(k), val(k)))

def layouts(S, D, flags, bit):
    """representation cases of an array (invariant decided by P08): the Contiguous flag is set exactly when the
    elements lie one after the other in memory"""
    c = mk('has', flags, bit)
    cs, cd = cshape(S, D), cstride(S, D)
    one = [(pos(slen(S)), True), (eq(slen(cs), ONE), True), (eq(sel(cd, ZERO), ONE), True)]
    return [('contiguous', [(c, True)] + one), ('scalar', [(c, True), (eq(slen(S), ZERO), True)]), ('strided', [(c, False)])]

def has(o, bit): return mk('has', F(o, 'flags'), bit)

def run(cx):
    P = cx.P
    tab = array_models(P)
    for op in OPS:
        fns = cx.impls_of('std::ops::' + op + 'Assign', METHOD[op] + '_assign', 'NdArray<')
        cx.need(fns, 3, f'{op}Assign impls on arrays')
        for f in fns: assign(cx, f, op, tab)
        for ty in overriding(P, rf'::BinaryOp{op}$|::SimdBinaryOps$'):
            for f in fns: assign(cx, f, op, tab, {'T': ty}, f' [{ty}]')
    fill(cx, tab)

def assign(cx, f, op, tab, tmap=None, suffix=''):
    name = f'{op}Assign({form(f)}){suffix}'
    s = cx.summarise(f, tab, ob=name, tmap=tmap)
    if s is None: return
    A, B = obj(s, 0), obj(s, 1)
    S, D, M = geom(A); ty = (tmap or {}).get('T')
    flags = F(A, 'flags')
    p = F(A, 'ptr')
    new = s.mem(p)
    wr = mk('has', flags, 3)
    base = [('=', slen(D), slen(S))]
    if is_arr(f.ty(2)):
        S2, D2, M2 = geom(B)
        R = ite(eq(S2, S), D2, K('broadcast_stride', D2, S, S2))
        val = lambda k: opterm(op, sel(M, fi(S, D, k)), sel(M2, fi(S, R, k)), ty)
        base += [('=', slen(D2), slen(S2)), ('=', slen(K('broadcast_stride', D2, S, S2)), slen(S))]
        d = sub(slen(S), slen(S2)); k = kv()
        fits = land(le(slen(S2), slen(S)), forall(slen(S2), lam(k, lor(eq(sel(S2, k), ONE), eq(sel(S2, k), sel(S, add(k, d)))))))
        acc = land(wr, lor(eq(S, S2), fits))
    else:
        val = lambda k: opterm(op, sel(M, fi(S, D, k)), B, ty)
        acc = wr
    want = scatter(M, size(S), lambda k: fi(S, D, k), val)
    q, j = kv(), kv()
    apart = forall(size(S), lam(q, forall(q, lam(j, lnot(eq(fi(S, D, j), fi(S, D, q)))))))
    for lay, pre in layouts(S, D, flags, 1):
        pre = base + pre + ([(apart, True)] if lay == 'strided' else [])
        cx.equal(f'{name}:values:{lay}', ite(acc, new, M), ite(acc, want, M), pre=pre, site=f.sp, notes=s.notes)
    if not ty or ty[0] == 'f': cx.equal(f'{name}:accepts exactly writeable arrays and fitting operands', s.ok, acc, pre=base, site=f.sp, notes=s.notes)
    for b, m in writes(s):
        if b is not p and not fresh_ptr(b):
            cx.add(f'{name}:writes only the array', 'violated', f'memory of {show(b)} is written', f.sp)
    cx.add(f'{name}:writes only the array', 'proved', '', f.sp)

def writes(s):
    """memory regions reachable from the arguments that differ from their initial content"""
    for k, v in s.st.env.items():
        if k[0] == 'M' and v is not mk('mem', k[1]): yield k[1], v
def fresh_ptr(b): return b.op in ('hp', 'alloc', 'new')

def fill(cx, tab):
    rec = cx.anchor('Fill::fill')
    if rec:
        fill_kernel(cx, rec, tab)
        for ty in overriding(cx.P, r'ops::fill::Fill$'):
            own, _ = cx.P.resolve('redstone_ml::ops::fill::Fill', 'fill', ty)
            if own: fill_kernel(cx, own, tab, {'Self': ty}, f' [{ty}]')
    # array level
    ids = {f: m_fill for f in cx.P.fns if f == (rec.id if rec else None) or re.search(r'ops::fill::Fill>?::fill$', f)}
    tab = dict(tab); tab.update(ids)
    for nm in ('fill', 'zero'):
        f = cx.anchor('NdArray::' + nm, public=True)
        if not f: continue
        s = cx.summarise(f, tab, ob=nm)
        if not s: continue
        A = obj(s, 0); S, D, M = geom(A)
        v = s.args[1] if nm == 'fill' else None
        new = s.mem(F(A, 'ptr'))
        wr = mk('has', F(A, 'flags'), 3)
        if v is None:
            from p05 import walk
            v = next((x for x in walk(new) if x.op in ('call', 'into') and FALSE in x.args or x.op == 'zero'), None)
            if v is None:
                cx.add(nm + ':values', 'undecided', 'no conversion of false found', f.sp); continue
        pre = [('=', slen(D), slen(S))]
        cx.equal(nm + ':values', ite(wr, new, M), ite(wr, scatter(M, size(S), lambda k: fi(S, D, k), lambda k: v), M), pre=pre, site=f.sp, notes=s.notes)
        cx.equal(nm + ':accepts exactly writeable arrays', s.ok, wr, pre=pre, site=f.sp, notes=s.notes)

def m_fill(eng, fr, s, fn, args, tys, t):
    """contract of the fill kernel (decided below): every element of the view, once the given length is that of the view"""
    dst, sh, st_, n, v = args
    S, D = seqval(eng, s, sh), seqval(eng, s, st_)
    s = s.copy()
    k, pr = eng.target(dst, True)
    cur = eng.read(s, k, pr[:-1]); off = pr[-1][1]
    new = scatter(cur, size(S), lambda q: add(off, fi(S, D, q)), lambda q: v)
    # the length handed over counts only where the elements lie side by side: the number of elements, the length kept in the array
    # (the span of its memory, P08), or first length x first stride, which all agree there
    if n.op == 'fld' and n.args[1] == 'len': pass
    else: s.env[OK] = land(eng.get(s, OK), lor(eq(n, size(S)), eq(n, mul(sel(S, ZERO), sel(D, ZERO)))))
    eng.write(s, k, pr[:-1], new, fr, t['sp'])
    return UNIT, s

def fill_kernel(cx, f, tab, tmap=None, suffix=''):
    t2 = dict(tab); t2[f.id] = m_fill
    for g in cx.P.fns:
        if re.search(r'ops::fill::Fill>?::fill$', g): t2[g] = m_fill
    s = cx.summarise(f, t2, ob='fill kernel' + suffix, tmap=tmap)
    if not s: return
    p, v = s.args[0], s.args[4]
    S, D, n = mark_useq(mk('deref', s.args[1])), mark_useq(mk('deref', s.args[2])), mark_unsigned(s.args[3])
    M = mk('mem', p)
    got = s.mem(p)
    cs, cd = cshape(S, D), cstride(S, D)
    k = kv()
    pre = [('=', slen(D), slen(S)), ('=', n, size(S)), (forall(slen(S), lam(k, pos(sel(D, k)))), True)]
    want = scatter(M, size(S), lambda k: fi(S, D, k), lambda k: v)
    tS, tD = tm.slc(S, ONE, slen(S)), tm.slc(D, ONE, slen(D))
    a, k2 = fresh('acc'), kv()
    nested = tm.fold(M, sel(S, ZERO), a, k2, scatter(a, size(tS), lambda q: add(mul(k2, sel(D, ZERO)), fi(tS, tD, q)), lambda q: v))
    uniform = lor(eq(slen(S), ZERO), eq(slen(cs), ONE))
    ok = cx.same(got, ite(uniform, want, nested), pre)
    cx.decide(f'fill kernel{suffix}:values', ok, lambda: cx.separate(got, want, pre, ()), f.sp, '')
    # with gaps in memory the given length is the span of the memory, not the number of elements
    nz = [(forall(slen(S), lam(k, pos(sel(S, k)))), True), (forall(slen(S), lam(k, pos(sel(D, k)))), True)]
    k = kv(); span = add(tm.isum(slen(S), lam(k, mul(sel(D, k), sub(sel(S, k), ONE)))), ONE)
    for what, n2, more in (('given the span of its memory', span, []), ('below the first axis', mul(sel(S, ZERO), sel(D, ZERO)), [(lt(ZERO, slen(S)), True)])):
        got2 = tm.subst(got, {n: n2}); pre2 = [('=', slen(D), slen(S))] + nz + more
        dense = ite(eq(slen(S), ZERO), want, ite(eq(sel(cd, ZERO), ONE), scatter(M, n2, lambda k: k, lambda k: v), want))
        ok = any(cx.same(got2, ite(uniform, w, nested), pre2) for w in (dense, want))
        cx.decide(f'fill kernel{suffix}:values {what}', ok, lambda: cx.separate(got2, want, pre2, ()), f.sp, '')
    ok = all(cx.same(s.ok, TRUE, pre + q) for q in ([(eq(slen(S), ZERO), True)], [(eq(slen(S), ONE), True)], [(lt(ONE, slen(S)), True)]))
    cx.decide(f'fill kernel{suffix}:never fails', ok, lambda: cx.separate(s.ok, TRUE, pre, ()), f.sp, '')
