"""P16: the sum-of-products kernels and einsum loops add, for every index of the iteration space, the product of the operands'
elements to the output element; the kernel picked for given strides is correct for exactly those strides."""
from core import *
from ring import *
from p01 import F, geom, obj, content, load_buf
from p05 import kv
import itertools

def ptr(i, n): return mk('arg', 100 + i, n)
def nat(i, n): return mark_unsigned(mk('arg', 200 + i, n))
def elem(x): return mk('mem', x)

def sop(M, off, sd, ops, count):
    """M after: for k < count, M[off + k*sd] += prod of op[off_i + k*s_i]"""
    a, k = fresh('m'), kv()
    o = add(off, mul(k, sd))
    v = None
    for m, oo, s in ops:
        e = sel(m, add(oo, mul(k, s)))
        v = e if v is None else models.arith('mul', v, e)
    if v is None: v = mk('one')
    return tm.fold(M, count, a, k, tm.st(a, o, models.arith('add', sel(a, o), v)))

def agree(cx, ob, got, want, pre, f, notes=()):
    """equality in exact arithmetic: normal forms per case; a mismatch is confirmed on the original terms"""
    fs = ()
    try:
        n = 0
        for fs, (g, w) in cases([got, want], pre):
            a, b = rn(g), rn(w)
            if a is not b and not cx.same(a, b, fs): raise Mismatch(a, b, fs)
            n += 1
        cx.leaves += n
        cx.add(ob, 'proved', '', f.sp)
        return True
    except (Mismatch, Limit, RecursionError): pass
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    if os.environ.get('VERIF_DEBUG2'):
        try: print(ob, 'GOT', show(a)[:1500], '\nWANT', show(b)[:1500], fs)
        except Exception: pass
    return cx.equal(ob, got, want, pre=pre, site=f.sp, notes=notes, guide=fs)

OWN = r'::SumOfProductsType$|::DotProduct$|::SIMDSumOfProducts$'
def kernels(cx):
    """dispatch and kernels together: whichever kernel is picked for strides, it performs the sum of products with those strides"""
    P = cx.P
    for disp, sizes in (('get_sum_of_products_function', (2, 3)), ('get_sum_of_products_function_generic_nops', (2, 3, 4, 5))):
        d = cx.anchor(disp)
        if not d: continue
        # the default kernels, and those of element types with kernels of their own
        for N, ty in [(N, ty) for ty in ['T'] + overriding(P, OWN) for N in sizes]:
            S = [nat(i, f's{i}') for i in range(N)]
            PT = [ptr(i, f'p{i}') for i in range(N)]
            cnt = nat(50, 'count')
            lab = f'{disp}[{N - 1} operands]' + (f' [{ty}]' if ty != 'T' else '')
            r = cx.summarise(d, {}, args=[mk('&', arr(*S))], tmap={'N': str(N), **({'T': ty, 'Self': ty} if ty != 'T' else {})}, ob=lab)
            if not r: continue
            pre = [(pos(cnt), True)]
            try: cs = cases([r.ret], [])
            except Limit: cx.add(lab, 'undecided', 'too many cases', d.sp); continue
            seen = {}
            for fs, (fv,) in cs:
                if fv.op != 'fnc': cx.add(lab, 'undecided', 'the kernel picked is not a known function: ' + show(fv)[:100], d.sp); continue
                ref = fv.args[0]
                kf, cm = P.resolve(ref.trait, ref.name, ty, ref.args) if ref.trait else (P.fns.get(ref.path), None)
                if not kf: cx.add(lab, 'undecided', 'kernel not found: ' + ref.path, d.sp); continue
                # what the picked case says about the strides
                m = {}
                for c, v in fs:
                    q = solve_eq(subst(c, m), v)
                    if q: m = {**{x: subst(y, q) for x, y in m.items()}, **q}
                SS = [subst(x, m) for x in S]
                desc = ','.join('0' if x is ZERO else x.args[0] if x.op == 'arg' and False else show(x) for x in SS)
                ob = f'{lab}:{kf.name}({desc})'
                tm_ = {'N': str(N), 'Self': ty, 'T': ty}
                s = cx.summarise(kf, {}, args=[mk('&', arr(*PT)), mk('&', arr(*SS)), cnt], tmap=tm_, ob=ob)
                if not s: continue
                M = elem(PT[-1])
                want = sop(M, ZERO, SS[-1], [(elem(p), ZERO, x) for p, x in zip(PT[:-1], SS[:-1])], cnt)
                agree(cx, ob, s.mem(PT[-1]), want, pre, kf, s.notes)
                oth = [k for k in s.st.env if k[0] == 'M' and k[1] is not PT[-1] and s.st.env[k] is not elem(k[1])]
                if oth: cx.add(ob + ':writes only the output', 'violated', 'the kernel writes an operand', kf.sp)
                else: cx.add(ob + ':writes only the output', 'proved', '', kf.sp)

def picked(P):
    """models: the dispatcher returns 'a kernel', calling it is the sum of products (decided by kernels())"""
    tab = dict(array_models(P))
    def pick(eng, fr, s, fn, args, tys, t): return mk('sopfn', eng.load(s, args[0], (), False)), s
    for d in ('get_sum_of_products_function', 'get_sum_of_products_function_generic_nops'):
        for i in find_ids(P, d): tab[i] = pick
    def call(eng, fr, s, fv, args, tys, t):
        if fv.op != 'sopfn': return NotImplemented
        return kernel_call(eng, fr, s, args, t, fv.args[0])
    tab['fnptr'] = call
    return tab
def kernel_call(eng, fr, s, args, t, chosen=None):
    s = s.copy()
    ps, ss = eng.load(s, args[0], (), False), eng.load(s, args[1], (), False)
    n = slen(ps)
    if n.op != 'c' or not 1 <= n.args[0] <= 8: raise Unsupported('kernel with an unknown number of operands')
    n = n.args[0]
    if chosen is not None:   # the kernel is correct for the strides it was chosen for
        for i in range(n):
            c = eq(sel(ss, I(i)), sel(chosen, I(i)))
            if c is not TRUE: s.env[OK] = land(eng.get(s, OK), c)
    ops = []
    for i in range(n - 1):
        k, pr = eng.target(sel(ps, I(i)), True)
        ops.append((eng.read(s, k, pr[:-1]), pr[-1][1], sel(ss, I(i))))
    d = sel(ps, I(n - 1))
    if d.op == 'ite': raise Unsupported('conditional output pointer')
    k, pr = eng.target(d, True)
    new = sop(eng.read(s, k, pr[:-1]), pr[-1][1], sel(ss, I(n - 1)), ops, args[2])
    eng.write(s, k, pr[:-1], new, fr, t.get('sp', ''))
    return UNIT, s

def nest(M, dims, ops):
    """M[sum k_d*out_d] += prod op[sum k_d*s_d] over the whole iteration space; dims: [(bound, [op strides..., out stride])]"""
    ks = [kv() for _ in dims]
    def off(i): 
        r = ZERO
        for k, (_, st_) in zip(ks, dims): r = add(r, mul(k, st_[i]))
        return r
    v = None
    for i, m in enumerate(ops):
        e = sel(m, off(i)); v = e if v is None else models.arith('mul', v, e)
    o = off(len(ops))
    def go(m, d):
        a = fresh('m')
        if d == len(dims): return tm.st(m, o, models.arith('add', sel(m, o), v))
        return tm.fold(m, dims[d][0], a, ks[d], go(a, d + 1))
    return go(M, 0)

def mfi_models(P):
    """MultiFlatIndexGenerator: the k-th entry holds every operand's row-major offset (decided by P05)"""
    def new(eng, fr, s, fn, args, tys, t):
        S, TB = seqval(eng, s, args[1]), eng.load(s, args[2], (), False)
        s = s.copy(); s.env[OK] = land(eng.get(s, OK), eq(slen(S), slen(TB)))
        return adt('MFI', 'MFI', ('n', 'S', 'T', 'k'), args[0], S, TB, ZERO), s
    def cur(eng, fr, s, fn, args, tys, t):
        o = eng.load(s, args[0], (), False)
        n, S, TB, k = (fld(o, x) for x in ('n', 'S', 'T', 'k'))
        if n.op != 'c': raise Unsupported('unknown number of operands')
        vs = []
        for i in range(16):
            d = kv()
            vs.append(fi(S, mark_useq(gen(slen(S), lam(d, sel(sel(TB, d), I(i))))), k) if i < n.args[0] else ZERO)
        return mk('&', arr(*vs)), s
    def inc(eng, fr, s, fn, args, tys, t):
        s = s.copy()
        o = eng.load(s, args[0], (), False)
        eng.store(s, args[0], (), False, adt('MFI', 'MFI', ('n', 'S', 'T', 'k'), fld(o, 'n'), fld(o, 'S'), fld(o, 'T'), add(fld(o, 'k'), ONE)), fr, t.get('sp', ''))
        return UNIT, s
    return resolve_models(P, {'@MultiFlatIndexGenerator::from': new, '@MultiFlatIndexGenerator::cur_indices': cur, '@MultiFlatIndexGenerator::increment_flat_indices': inc})

def table(d, i): return mark_unsigned(sel(mark_useq(sel(mk('deref', mk('arg', 300, 'strides')), d)), I(i)))

def unspecialized(cx, tmap=None, suffix=''):
    P = cx.P; tab = {**picked(P), **mfi_models(P)}
    f = cx.anchor('unspecialized_einsum_loop')
    for nops in (1, 2, 3, 4):
        if not f: return
        OPS = [mk('arg', 310 + i, f'op{i}') for i in range(nops)]
        nd, dst = nat(70, 'ndims'), ptr(9, 'dst')
        SH = mark_useq(mk('deref', mk('arg', 301, 'iter_shape')))
        name = f'unspecialized_einsum_loop[{nops} operands]{suffix}'
        s = cx.summarise(f, tab, args=[mk('&', arr(*OPS)), mk('arg', 300, 'strides'), nd, mk('arg', 301, 'iter_shape'), dst], ob=name, tmap=tmap)
        if not s: continue
        ops = [elem(F(mk('deref', o), 'ptr')) for o in OPS]
        pre = [('=', slen(SH), nd), (pos(nd), True)]
        TB = mk('deref', mk('arg', 300, 'strides'))
        S1 = tm.slc(SH, ONE, slen(SH)); k, q, a, b = kv(), kv(), fresh('m'), fresh('m')
        def off(i, k, q):
            d = kv()
            return add(fi(S1, mark_useq(gen(sub(slen(SH), ONE), lam(d, table(add(d, ONE), i)))), k), mul(q, table(ZERO, i)))
        v = None
        for i, m in enumerate(ops):
            e = sel(m, off(i, k, q)); v = e if v is None else models.arith('mul', v, e)
        o = off(nops, k, q)
        want = tm.fold(elem(dst), size(S1), a, k, tm.fold(a, sel(SH, ZERO), b, q, tm.st(b, o, models.arith('add', sel(b, o), v))))
        pre = [(pos(slen(SH)), True), (pos(sel(SH, ZERO)), True)]
        agree(cx, name + ':adds every product once', s.mem(dst), want, pre, f, s.notes)
        pre += [('=', nd, slen(SH)), (le(slen(SH), slen(TB)), True), (lt(I(nops), slen(sel(TB, ZERO))), True)]
        cx.true(name + ':kernel used with the strides it was chosen for', s.ok, pre=pre, site=f.sp, notes=s.notes)

def specialized(cx, tmap=None, suffix=''):
    P = cx.P; tab = picked(P)
    f = cx.anchor('try_specialized_einsum_loop')
    if not f: return
    for nops in (1, 2, 3):
        for nd in (1, 2, 3, 4):
            OPS = [mk('arg', 310 + i, f'op{i}') for i in range(nops)]
            dst = ptr(9, 'dst')
            SH = [nat(60 + d, f'n{d}') for d in range(nd)]
            TB = [[nat(10 * d + i, f's{d}_{i}') if i <= nops else ZERO for i in range(16)] for d in range(nd)] + [[ZERO] * 16] * (32 - nd)
            name = f'try_specialized_einsum_loop[{nops} operands, {nd} labels]{suffix}'
            s = cx.summarise(f, tab, args=[mk('&', arr(*OPS)), mk('&', arr(*[arr(*r) for r in TB])), I(nd), mk('&', arr(*SH)), dst], ob=name, tmap=tmap)
            if not s: continue
            ops = [elem(F(mk('deref', o), 'ptr')) for o in OPS]
            pre = [(pos(x), True) for x in SH]
            M = elem(dst)
            done = nest(M, [(SH[d], TB[d]) for d in range(nd)], ops)
            want = ite(s.ret, done, M)
            agree(cx, name + ':adds every product once, or reports that it did nothing', s.mem(dst), want, pre, f, s.notes)
            cx.true(name + ':no panic', s.ok, pre=pre, site=f.sp, notes=s.notes)

def loops(cx, tmap=None, suffix=''):
    P = cx.P; tab = picked(P)
    for nops in (1, 2):
        for nl in (2, 3):
            name = f'einsum_{nops}operand{"s" if nops > 1 else ""}_{nl}labels'
            f = cx.anchor(name)
            if not f: continue
            SD = [[nat(10 * d + i, f's{d}_{i}') for i in range(nops + 1)] for d in range(nl)]
            SH = [nat(60 + d, f'n{d}') for d in range(nl)]
            dst = ptr(9, 'dst')
            args = [None] * nops + [mk('&', arr(*x)) for x in SD] + [mk('&', arr(*SH)), dst]
            name += suffix
            s = cx.summarise(f, tab, args=args, ob=name, tmap=tmap)
            if not s: continue
            M = elem(dst)
            ops = [elem(F(mk('deref', s.args[i]), 'ptr')) for i in range(nops)]
            pre = [(pos(x), True) for x in SH]
            want = nest(M, [(SH[d], SD[d]) for d in range(nl)], ops)
            agree(cx, name + ':adds every product once', s.mem(dst), want, pre, f, s.notes)
            cx.true(name + ':kernel used with the strides it was chosen for', s.ok, pre=pre, site=f.sp, notes=s.notes)

def run(cx):
    kernels(cx)
    loops(cx)
    specialized(cx)
    unspecialized(cx)
    for ty in overriding(cx.P, OWN):
        loops(cx, {'T': ty}, f' [{ty}]'); specialized(cx, {'T': ty}, f' [{ty}]')
