"""P05: strided traversal visits every element once, in row-major order."""
from core import *
from p01 import F, geom, K, obj

def fo(init, n, l):
    a, b = tm.open_lam(l)
    k, body = tm.open_lam(b)
    return tm.fold(init, n, a, k, body)
def walk(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.id in seen: continue
        seen.add(x.id); yield x
        todo += list(tm.subterms(x.args))
def kv(): return mark_unsigned(fresh('k'))
def seqarg(s, i): return mark_useq(mk('deref', s.args[i]))

def run(cx):
    collapse(cx)
    flat_gen(cx)
    multi_gen(cx)
    wrappers(cx)
    nditer(cx)

# ---- collapsing axes keeps the element order
def collapse(cx):
    f = cx.anchor('collapse_to_uniform_stride')
    if not f: return
    s = cx.summarise(f, ob='collapse')
    if not s: return
    S, D = seqarg(s, 0), seqarg(s, 1)
    a, st = fresh('acc'), kv()
    # canonical fold: state (last, strides, shapes); an axis is merged into the last one only when that keeps the offsets
    def canon(cond):
        last, ds, ss = fld(a, '0'), fld(a, '1'), fld(a, '2')
        x, d = sel(S, add(st, ONE)), sel(D, add(st, ONE))
        m = lor(eq(sel(ds, last), mul(x, d)), cond(sel(ss, last), sel(ds, last)))
        body = tup(ite(m, last, add(last, ONE)), ite(m, tm.st(ds, last, d), tm.push(ds, d)),
                   ite(m, tm.st(ss, last, mul(sel(ss, last), x)), tm.push(ss, x)))
        fl_ = fo(tup(ZERO, arr(sel(D, ZERO)), arr(sel(S, ZERO))), sub(slen(S), ONE), lam(a, lam(st, body)))
        c = eq(slen(S), ZERO)
        return tup(ite(c, arr(), fld(fl_, '2')), ite(c, arr(), fld(fl_, '1')))
    ok = any(cx.same(s.ret, canon(c)) for c in (lambda x, d: land(eq(x, ONE), eq(d, ZERO)), lambda x, d: eq(x, ONE)))
    k = kv()
    got = gen(size(S), lam(k, fi(fld(s.ret, '0'), fld(s.ret, '1'), k)))
    want = gen(size(S), lam(k, fi(S, D, k)))
    pre = [('=', slen(D), slen(S))]
    cs = fld(s.ret, '0')
    cx.decide('collapse:same elements in the same order', ok,
              lambda: cx.separate(tup(got, size(cs), slen(fld(s.ret, '1'))), tup(want, size(S), slen(cs)), pre, ()), f.sp, 'collapsed view visits other elements:')

def step_terms(o, n, S, X, up):
    """odometer step over axes n-1..0; up(i): digit i can advance without carry"""
    i = kv()
    r = lambda q: sub(sub(n, ONE), q)
    c = lam(i, up(r(i)))
    return r, tm.first(n, c), forall(n, lam(i, lnot(up(r(i)))))

def flat_gen(cx):
    ff = cx.anchor('FlatIndexGenerator::from'); fn = cx.anchor('FlatIndexGenerator::next')
    if not ff or not fn: return
    tab = resolve_models(cx.P, {'@collapse_to_uniform_stride': m_collapse})
    a = cx.summarise(ff, tab, ob='FlatIndexGenerator::from'); b = cx.summarise(fn, tab, ob='FlatIndexGenerator::next')
    if not a or not b: return
    S, D = seqarg(a, 0), seqarg(a, 1)
    o = mk('deref', b.args[0])
    new = b.obj(b.args[0])
    cs, cd = cshape(S, D), cstride(S, D)
    pre = [('=', slen(D), slen(S)), (le(slen(cs), I(32)), True)]
    def structural():
        nd = slen(cs)
        z = gen(I(32), lam(kv(), ZERO))
        pad = lambda x: models.splice(z, ZERO, nd, x)
        init = {'ndims': nd, 'shape': pad(cs), 'stride': pad(cd), 'size': size(cs), 'iterator_index': ZERO, 'indices': z, 'flat_index': ZERO}
        for n, w in init.items():
            if not cx.same(fld(a.ret, n), w, pre): return 'from.' + n
        n, SS, DD, X = (fld(o, x) for x in ('ndims', 'shape', 'stride', 'indices'))
        for q in (SS, DD, X): mark_useq(q)
        mark_unsigned(n)
        r, j, allwrap = step_terms(o, n, SS, X, lambda i: lt(add(sel(X, i), ONE), sel(SS, i)))
        i, acc = kv(), fresh('acc')
        red = lambda m: fo(X, m, lam(acc, lam(i, tm.st(acc, r(i), ZERO))))
        off = lambda m: tm.isum(m, lam(i, sub(sel(DD, r(i)), mul(sel(DD, r(i)), sel(SS, r(i))))))
        done = eq(fld(o, 'iterator_index'), fld(o, 'size'))
        fl = fld(o, 'flat_index')
        want = {'ndims': n, 'shape': SS, 'stride': DD, 'size': fld(o, 'size'),
                'iterator_index': ite(done, fld(o, 'iterator_index'), add(fld(o, 'iterator_index'), ONE)),
                'flat_index': ite(done, fl, ite(allwrap, add(fl, off(n)), add(add(fl, off(j)), sel(DD, r(j))))),
                'indices': ite(done, X, ite(allwrap, red(n), tm.st(red(j), r(j), add(sel(X, r(j)), ONE))))}
        for q, w in want.items():
            if not cx.same(fld(new, q), w): return 'next.' + q
        if not cx.same(b.ret, ite(done, NONE, mkSome(fl))): return 'next.return'
        return ''
    try: why = structural()
    except Exception as x: why = repr(x)
    k = kv()
    cx.decide('FlatIndexGenerator yields the row-major offsets of the view, each once', not why,
              lambda: model.iterate(a.ret, (o, new, b.ret), gen(size(S), lam(k, fi(S, D, k))), [p for p in pre if p[0] != '='], [p[1:] for p in pre if p[0] == '=']),
              fn.sp, f'({why})')

def multi_gen(cx):
    ff = cx.anchor('MultiFlatIndexGenerator::from'); fn = cx.anchor('MultiFlatIndexGenerator::next')
    if not ff or not fn: return
    a = cx.summarise(ff, {}, ob='MultiFlatIndexGenerator::from'); b = cx.summarise(fn, {}, ob='MultiFlatIndexGenerator::next')
    if not a or not b: return
    nops = mark_unsigned(a.args[0])
    S = seqarg(a, 1); ST = mk('deref', a.args[2])
    o = mk('deref', b.args[0]); new = b.obj(b.args[0])
    z = gen(I(32), lam(kv(), ZERO)); z16 = gen(I(16), lam(kv(), ZERO))
    nd = slen(S)
    def structural():
        i, acc, acc2, q = kv(), fresh('a'), fresh('b'), kv()
        sp = mk('splice', z, ZERO, nd, S)
        init = {'ndims': nd, 'nops': nops, 'shape': sp, 'size': size(S), 'iterator_index': ZERO, 'indices': sp, 'flat_indices': z16,
                'strides': fo(gen(I(32), lam(kv(), z16)), nd, lam(acc, lam(i, tm.st(acc, i, mk('splice', sel(acc, i), ZERO, nops, mk('slice', sel(ST, i), ZERO, nops))))))}
        for n, w in init.items():
            if not cx.same(fld(a.ret, n), w): return 'from.' + n
        n, m, SS, X, DD, fl = (fld(o, x) for x in ('ndims', 'nops', 'shape', 'indices', 'strides', 'flat_indices'))
        mark_useq(SS); mark_useq(X); mark_unsigned(n); mark_unsigned(m)
        r, j, allwrap = step_terms(o, n, SS, X, lambda i: lnot(eq(sel(X, i), ONE)))
        red = lambda c: fo(X, c, lam(acc, lam(i, tm.st(acc, r(i), sel(SS, r(i))))))
        dq = lambda ax, p: sel(sel(DD, ax), p)
        back = lambda c: fo(fl, c, lam(acc, lam(i, fo(acc, m, lam(acc2, lam(q, tm.st(acc2, q, add(sel(acc2, q), sub(dq(r(i), q), mul(sel(SS, r(i)), dq(r(i), q)))))))))))
        fwd = lambda x: fo(x, m, lam(acc2, lam(q, tm.st(acc2, q, add(dq(r(j), q), sel(acc2, q))))))
        done = eq(fld(o, 'iterator_index'), fld(o, 'size'))
        want = {'ndims': n, 'nops': m, 'shape': SS, 'strides': DD, 'size': fld(o, 'size'),
                'iterator_index': ite(done, fld(o, 'iterator_index'), add(fld(o, 'iterator_index'), ONE)),
                'indices': ite(done, X, ite(allwrap, red(n), tm.st(red(j), r(j), sub(sel(X, r(j)), ONE)))),
                'flat_indices': ite(done, fl, ite(allwrap, back(n), fwd(back(j))))}
        for q_, w in want.items():
            if not cx.same(fld(new, q_), w): return 'next.' + q_
        if not cx.same(b.ret, ite(done, NONE, mkSome(fl))): return 'next.return'
        return ''
    try: why = structural()
    except Exception as x: why = repr(x)
    cx.decide('MultiFlatIndexGenerator yields every operand\'s row-major offsets together', not why,
              lambda: multi_refute(a, b, o, new, S, ST, nops), fn.sp, f'({why})')

def multi_refute(a, b, o, new, S, ST, nops):
    """run the two summaries on valuations where the stride table is a real table"""
    from model import Model, hsh, NoEval, Bad, Rec, mine
    OPN = next((t for t in walk(a.ok) if t.op == 'const' and 'OPERANDS' in str(t.args)), None)
    okc = 0; ranks = mine([a.ret, a.ok, b.ret, b.ok], 2, 8)
    for n in range(240):
        M = Model(99000 + n, ranks=ranks)
        try:
            Sv = [M.i(x) for x in M.li(M.ev(S, {}))]
            no = hsh(n, 'nops') % 3 + 1
            tab = [[hsh(n, 'st', i, q) % 7 for q in range(no)] for i in range(len(Sv))]
            M.bind = {ST: tab, nops: no}
            if OPN is not None: M.bind[OPN] = no
            M.memo = {}
            st = M.ev(a.ret, {})
            if 0 in Sv: tot = 0
            else:
                tot = 1
                for x in Sv: tot *= x
            if tot > 60: continue
            for k in range(tot + 1):
                M.memo = {}; M.bind = {o: st}
                r = M.ev(b.ret, {})
                if not isinstance(r, Rec): raise NoEval('option')
                some = r.tag[1] == 'Some'
                if some != (k < tot): return 'differ', f'element {k} of {tot}: iteration length'
                if some:
                    got = [M.i(x) for x in M.li(r.vals[0])[:no]]
                    w = []
                    for q in range(no):
                        kk, off = k, 0
                        for x, row in reversed(list(zip(Sv, tab))): off += (kk % x) * row[q]; kk //= x
                        w.append(off)
                    if got != w: return 'differ', f'shape {Sv} strides {tab}: step {k} yields {got}, expected {w}'
                st = M.ev(new, {})
            okc += 1
        except (Bad, NoEval): continue
        if okc >= 60: break
    return ('same', f'{okc} valuations agree') if okc else ('noeval', 'no valuation')

# ---- iterators built on the generator
def reposition(t, k):
    """the iterator value after k steps: every generator position becomes k"""
    memo = {}
    def go(x):
        if x.op == 'iter': return mk('iter', x.args[0], k)
        r = memo.get(x)
        if r is None: r = rebuild(x, go); memo[x] = r
        return r
    return go(t)

def wrappers(cx):
    tab = array_models(cx.P, iters=False)
    for name, deref in (('BufferIterator', False), ('FlatIterator', True)):
        ff = cx.anchor(name + '::from'); fn = cx.anchor(name + '::next')
        if not ff or not fn: continue
        a = cx.summarise(ff, tab, ob=name + '::from')
        if not a: continue
        A = obj(a, 0); S, D, M = geom(A)
        pre = [('=', slen(D), slen(S))]
        k = mark_unsigned(mk('arg', 9, 'position'))
        e = cx.eng(tab)
        try:
            st = State({}, ())
            it = mk('arg', 0, 'iterator')
            st.env[('P', it)] = reposition(a.ret, k)
            b = e.analyse(fn, args=[it], st=st)
        except Exception as x:
            cx.add(name + ':order', 'undecided', repr(x), fn.sp); continue
        cx.fns |= e.visited
        g = fi(S, D, k)
        p0 = F(A, 'ptr')
        val = sel(M, g) if deref else models.padd(p0, g)
        cx.equal(name + ':element k', b.ret, ite(lt(k, size(S)), mkSome(val), NONE), pre=pre, site=fn.sp, notes=b.notes)
        nxt = b.obj(it)
        cx.equal(name + ':advances by one', ite(lt(k, size(S)), nxt, UNIT), ite(lt(k, size(S)), reposition(a.ret, add(k, ONE)), UNIT), pre=pre, site=fn.sp, notes=b.notes)
        cx.equal(name + ':starts at the first element', a.ret, reposition(a.ret, ZERO), pre=pre, site=ff.sp)
        overrides(cx, name, tab, a.ret, S, pre, lambda k: (sel(M, fi(S, D, k)) if deref else models.padd(p0, fi(S, D, k))), k)
    for f in overridden(cx, 'FlatIndexGenerator') + overridden(cx, 'MultiFlatIndexGenerator') + overridden(cx, 'NdIterator'):
        cx.add(f'{f.id.split("::")[-1]} override of {short_self(f)}', 'undecided', 'provided iterator method replaced: not examined', f.sp)
    public_iters(cx)

def short_self(f): return re.sub(r'<.*', '', (f.impl_self or '').split('::')[-1] if '<' not in (f.impl_self or '') else re.sub(r'<.*', '', f.impl_self).split('::')[-1])
def overridden(cx, name):
    return [f for f in cx.P.fns.values() if (f.impl_trait or '').endswith('::Iterator') and short_self(f) == name and f.name not in ('next',) and '{closure' not in f.id]

def overrides(cx, name, tab, start, S, pre, val, k):
    """methods of Iterator that the type replaces agree with what `next` yields, from any position"""
    n = size(S)
    at = lambda i: ite(lt(i, n), mkSome(val(i)), NONE)
    for f in overridden(cx, name):
        for c in ((0, 1, 2) if f.name == 'nth' else (None,)):
            e = cx.eng(tab); e.unroll = 8
            lab = f'{name}::{f.name}' + (f'({c})' if c is not None else '')
            try:
                st = State({}, ()); it = mk('arg', 0, 'iterator')
                byref = f.ty(1).startswith('&')
                if byref: st.env[('P', it)] = reposition(start, k)
                b = e.analyse(f, args=[it if byref else reposition(start, k)] + ([I(c)] if c is not None else []), st=st)
            except Exception as x:
                cx.add(lab, 'undecided', repr(x), f.sp); continue
            cx.fns |= e.visited
            here = pre + [(le(k, n), True)]
            eqv = lambda what, g, w: cx.equal(f'{lab}:{what}', g, w, pre=here, site=f.sp, notes=b.notes)
            if f.name == 'nth': eqv('the element', b.ret, at(add(k, I(c))))
            elif f.name == 'count': eqv('the number of elements left', b.ret, sub(n, k))
            elif f.name == 'last': eqv('the last element', b.ret, ite(lt(k, n), at(sub(n, ONE)), NONE))
            elif f.name == 'size_hint':
                lo = fld(b.ret, '0') if b.ret.op != 'tup' else b.ret.args[0]; hi = fld(b.ret, '1') if b.ret.op != 'tup' else b.ret.args[1]
                eqv('lower bound', le(lo, sub(n, k)), TRUE)
                if hi.op == 'adt' and hi.args[1] == 'Some': eqv('upper bound', le(sub(n, k), fld(hi, '0')), TRUE)
            else: cx.add(lab, 'undecided', 'provided iterator method replaced: not examined', f.sp)

def public_iters(cx):
    tab = {}
    for ty in ('FlatIterator', 'BufferIterator', 'NdIterator'):
        for fid in find_ids(cx.P, ty + '::from'):
            tab[fid] = lambda eng, fr, s, fn, args, tys, t, ty=ty: (mk('K', ty, eng.load(s, args[0], (), False), *args[1:]), s)
    for fid in [f for f in cx.P.fns if f.endswith('::as_absolute')] + ['redstone_ml::util::axis::AxisType::as_absolute']:
        tab[fid] = lambda eng, fr, s, fn, args, tys, t: (mark_unsigned(mk('K', 'as_absolute', args[0] if not tys[0].startswith('&') else eng.load(s, args[0], (), False), args[1])), s)
    for name in ('flatiter', 'flatiter_ptr', 'iter', 'iter_along', 'nditer'):
        f = cx.anchor('NdArray::' + name, public=True)
        if not f: continue
        s = cx.summarise(f, tab, ob=name)
        if not s: continue
        A = obj(s, 0)
        ax = s.args[1] if len(s.args) > 1 else None
        want = {'flatiter': lambda: mk('K', 'FlatIterator', A), 'flatiter_ptr': lambda: mk('K', 'BufferIterator', A),
                'iter': lambda: mk('K', 'NdIterator', A, arr(ZERO)), 'nditer': lambda: mk('K', 'NdIterator', A, ax),
                'iter_along': lambda: mk('K', 'NdIterator', A, arr(mk('K', 'as_absolute', ax, slen(F(A, 'shape')))))}[name]()
        if not any(x.op == 'K' for x in walk(s.ret)):
            cx.add(name + ':iterates over the whole array', 'undecided', 'not built by the known constructors', f.sp); continue
        cx.equal(name + ':iterates over the whole array', s.ret, want, site=f.sp, notes=s.notes)

def nditer(cx):
    tab = array_models(cx.P)
    ff = cx.anchor('NdIterator::from'); fn = cx.anchor('NdIterator::next')
    if not ff or not fn: return
    tab2 = dict(tab)
    for fid in find_ids(cx.P, 'NdArray::clone'): tab2[fid] = m_keep('clone')
    a = cx.summarise(ff, tab, ob='NdIterator::from', tmap={'I': 'std::vec::Vec<usize>'})
    b = cx.summarise(fn, tab2, ob='NdIterator::next')
    if not a or not b: return
    A = obj(a, 0); S, D, M = geom(A)
    ax = mark_useq(a.args[1])
    o = mk('deref', b.args[0]); new = b.obj(b.args[0])
    k, q = kv(), kv()
    chosen = lambda i: lnot(forall(slen(ax), lam(q, lnot(eq(sel(ax, q), i)))))
    n = slen(S)
    itS = tm.fsel(n, lam(k, chosen(k)), lam(k, sel(S, k))); itD = tm.fsel(n, lam(k, chosen(k)), lam(k, sel(D, k)))
    outS = tm.fsel(n, lam(k, lnot(chosen(k))), lam(k, sel(S, k))); outD = tm.fsel(n, lam(k, lnot(chosen(k))), lam(k, sel(D, k)))
    j = kv()
    distinct = forall(slen(ax), lam(k, land(lt(sel(ax, k), n), forall(k, lam(j, lnot(eq(sel(ax, j), sel(ax, k))))))))
    pre = [('=', slen(D), slen(S))]
    P = [(distinct, True)]
    cx.equal('nditer:item shape', fld(fld(a.ret, 'result'), 'shape'), outS, pre=pre + P, site=ff.sp, notes=a.notes)
    cx.equal('nditer:item stride', fld(fld(a.ret, 'result'), 'stride'), outD, pre=pre + P, site=ff.sp, notes=a.notes)
    cx.equal('nditer:accepts distinct axes in range', a.ok, distinct, pre=pre, site=ff.sp, notes=a.notes)
    def structural():
        init = {'shape': itS, 'stride': itD, 'iterator_index': ZERO, 'size': size(itS), 'indices': gen(slen(ax), lam(k, ZERO))}
        n, SS, DD, X = slen(mark_useq(fld(o, 'shape'))), mark_useq(fld(o, 'shape')), mark_useq(fld(o, 'stride')), mark_useq(fld(o, 'indices'))
        r, jj, allwrap = step_terms(o, n, SS, X, lambda i: lt(add(sel(X, i), ONE), sel(SS, i)))
        i, acc = kv(), fresh('acc')
        red = lambda m: fo(X, m, lam(acc, lam(i, tm.st(acc, r(i), ZERO))))
        ci = lambda x: x
        off = lambda m: tm.isum(m, lam(i, neg(ci(sub(mul(sel(DD, r(i)), sel(SS, r(i))), sel(DD, r(i)))))))
        done = eq(fld(o, 'iterator_index'), fld(o, 'size'))
        p0 = fld(fld(o, 'result'), 'ptr')
        pa = lambda d: models.padd(p0, d)
        want = {'shape': SS, 'stride': DD, 'size': fld(o, 'size'),
                'iterator_index': ite(done, fld(o, 'iterator_index'), add(fld(o, 'iterator_index'), ONE)),
                'indices': ite(done, X, ite(allwrap, red(n), tm.st(red(jj), r(jj), add(sel(X, r(jj)), ONE))))}
        for q_, w in want.items():
            if not cx.same(fld(new, q_), w): return 'next.' + q_
        if not cx.same(fld(fld(new, 'result'), 'ptr'), ite(done, p0, ite(allwrap, pa(off(n)), pa(add(off(jj), ci(sel(DD, r(jj)))))))): return 'next.ptr'
        for q_ in ('shape', 'stride', 'len', 'flags'):
            if not cx.same(fld(fld(new, 'result'), q_), fld(fld(o, 'result'), q_)): return 'next.result.' + q_
        if not cx.same(b.ret, ite(done, NONE, mkSome(mk('K', 'clone', fld(o, 'result'))))): return 'next.return'
        for q_, w in init.items():
            if q_ == 'indices': continue
            if not cx.same(fld(a.ret, q_), w, pre + P): return 'from.' + q_
        if not cx.same(fld(fld(a.ret, 'result'), 'ptr'), F(A, 'ptr')): return 'from.ptr'
        return ''
    try: why = structural()
    except Exception as x:
        why = repr(x)
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    def item_ptr(t):
        if t.op == 'ite': return ite(t.args[0], item_ptr(t.args[1]), item_ptr(t.args[2]))
        if t.op == 'adt' and t.args[1] == 'Some':
            c = t.args[3]
            if c.op == 'K': return mkSome(fld(c.args[1], 'ptr'))
            return mk('unknown_item')
        return t
    p0 = F(A, 'ptr')
    want = gen(size(itS), lam(k, mk('padd', p0, fi(itS, itD, k))))
    cx.decide('nditer:item k starts at the k-th index along the chosen axes', not why,
              lambda: model.iterate(a.ret, (o, new, force_padd(item_ptr(b.ret))), want, [(distinct, True)], [p[1:] for p in pre]), fn.sp, f'({why})')

def force_padd(t):
    if t.op == 'ite': return mk('ite', t.args[0], force_padd(t.args[1]), force_padd(t.args[2]))
    if t.op == 'adt' and t.args[1] == 'Some': return mkSome(mk('padd', t.args[3] if t.args[3].op != 'padd' else t.args[3].args[0], ZERO if t.args[3].op != 'padd' else t.args[3].args[1]))
    return t
