"""P08: layout metadata (shape, stride, length, contiguity and uniform-stride flags) describes the memory it goes with."""
from core import *
from p01 import F, K
from p02 import has
from p05 import kv
from p07 import SELF, source, TN
from p09 import callers, ND

def literals(P):
    """functions that build an NdArray value directly"""
    out = []
    for f in P.fns.values():
        for b in f.blocks:
            for st_ in b.get('s', b.get('stmts', [])):
                rv = st_.get('rv') if isinstance(st_, dict) else None
                if isinstance(rv, dict) and str(rv.get('adt', '')).endswith('ndarray::NdArray') and rv.get('k') in ('agg', 'aggregate', None): out.append(f); break
            else: continue
            break
    return out

def uniform(S, D): return lor(eq(slen(S), ZERO), eq(slen(cshape(S, D)), ONE))
def ustride(S, D): return sel(cstride(S, D), ZERO)

def run(cx):
    P = cx.P
    tab = array_models(P)
    strides(cx)
    lits = literals(P)
    cx.need(lits, 3, 'functions building arrays')
    fb = next((f for f in P.fns.values() if f.name == 'broadcast_to' and 'NdArray<' in f.id), None)
    todo = [(f, 0) for f in sorted(set(lits), key=lambda f: f.id) + ([fb] if fb else [])]; done = set()
    while todo:
        f, depth = todo.pop(0)
        if f.id in done: continue
        done.add(f.id)
        sub = Ctx(P, cx.pid, cx.tier)
        producer(sub, f, tab)
        cx.leaves += sub.leaves; cx.fns |= sub.fns
        if depth < 4 and not f.j.get('reach') and any(r.status == 'violated' for r in sub.results):
            # not callable from outside: what it builds depends on its callers, which are decided instead
            up = [P.fns[c] for c in callers(P, f) if 'tests::' not in c]
            if up:
                cx.add(short(f) + ':decided at its callers', 'proved', f'{len(up)} callers', f.sp)
                todo += [(g, depth + 1) for g in up]
                continue
        cx.results += sub.results
    accessors(cx, tab)

def short(f):
    m = re.search(r'<impl (?:.* for )?(.*)>::(\w+)$', f.id)
    return (('&' if m.group(1).startswith('&') else '') + 'array.' + m.group(2)) if m else f.name

def producer(cx, f, tab):
    lab = short(f)
    tmap = {}
    for g in f.generics:
        if g == 'S': tmap['S'] = 'std::ops::Range<usize>'
        if g == 'I': tmap['I'] = 'std::vec::Vec<std::ops::Range<usize>>'
    if not ND.match(erase(f.locals[0]['ty'])):
        cx.add(lab + ':flags', 'undecided', 'does not return an array', f.sp); return
    s = cx.summarise(f, tab, tmap=tmap, ob=lab)
    if not s or s.ret is None: return
    r = s.ret
    if r.op not in ('adt', 'ite', 'upd'):
        cx.add(lab + ':flags', 'undecided', 'result is not an array value', f.sp); return
    S, D, fl = fld(r, 'shape'), fld(r, 'stride'), fld(r, 'flags')
    mark_useq(S); mark_useq(D)
    base = []
    for i in range(f.argc):
        ty = erase(f.ty(i + 1))
        if 'NdArray<' in ty:
            A = mk('deref', s.args[i]) if ty.startswith('&') else s.args[i]
            S0, D0 = F(A, 'shape'), F(A, 'stride')
            base += [('=', slen(D0), slen(S0)), (coherent(S0, D0, has(A, 1), has(A, 2)), True)]
            keeps = S is S0 and D is D0
    un, d = uniform(S, D), ustride(S, D)
    bit = lambda i: mk_has(fl, i)
    if not any(p[0] == '=' for p in base) or not keeps: base = [p for p in base if p[0] == '=']
    if f.name != 'from_contiguous_owned_buffer' and not keepsflag(s, f): base += []
    cx.equal(lab + ':uniform-stride flag', bit(2), un, pre=base, site=f.sp, notes=s.notes)
    rank0 = eq(slen(S), ZERO)
    cx.true(lab + ':contiguous flag set only when element k lies at offset k', lor(lnot(bit(1)), rank0, land(un, lor(eq(d, ONE), le(size(S), ONE)))), pre=base, site=f.sp, notes=s.notes)
    cx.true(lab + ':contiguous flag set for adjacent elements', lor(bit(1), lnot(lor(rank0, land(un, eq(d, ONE))))), pre=base, site=f.sp, notes=s.notes)

    # the data length of a contiguous array is its number of elements (a whole array that keeps its buffer keeps its length)
    L = fld(r, 'len'); k = kv()
    if f.name == 'from_contiguous_owned_buffer' or any(L is F(x, 'len') for x in (s.args[0], mk('deref', s.args[0]))): return
    ok = cx.same(L, size(S), base) or cx.same(L, add(ONE, tm.isum(imin(slen(S), slen(D)), lam(k, mul(sel(D, k), sub(sel(S, k), ONE))))), base)
    cx.decide(lab + ':data length of a contiguous view', ok,
              lambda: cx.separate(land(bit(1), lnot(eq(L, size(S)))), FALSE, base + [(forall(slen(S), lam(k, pos(sel(S, k)))), True)], ()), f.sp)

def keepsflag(s, f): return False
def mk_has(fl, i):
    if fl.op == 'ite': return ite(fl.args[0], mk_has(fl.args[1], i), mk_has(fl.args[2], i))
    if fl.op == 'flags': return fl.args[1 + i]
    return mark_bool(mk('has', fl, i))
def coherent(S, D, c, u):
    un, d = uniform(S, D), ustride(S, D)
    return land(lor(lnot(u), un), lor(u, lnot(un)), lor(lnot(c), eq(slen(S), ZERO), land(un, lor(eq(d, ONE), le(size(S), ONE)))), lor(c, lnot(lor(eq(slen(S), ZERO), land(un, eq(d, ONE))))))

def strides(cx):
    f = cx.anchor('stride_from_shape')
    s = f and cx.summarise(f, {}, ob='stride_from_shape')
    if s:
        S = mark_useq(mk('deref', s.args[0])); n = slen(S); k, j = kv(), kv()
        cx.equal('stride_from_shape:row-major', s.ret, gen(n, lam(k, prod(sub(sub(n, ONE), k), lam(j, sel(S, add(add(ONE, k), j)))))), site=f.sp, notes=s.notes)
        cx.true('stride_from_shape:never panics', s.ok, site=f.sp)
    f = next((cx.P.fns[i] for i in find_ids(cx.P, 'has_uniform_stride')), None)
    s = f and cx.summarise(f, {}, ob='has_uniform_stride')
    if not s: return
    S, D = mark_useq(mk('deref', s.args[0])), mark_useq(mk('deref', s.args[1]))
    n = slen(S); k, j = kv(), kv()
    # axis i merges into the axes before it
    before = lambda i: mul(sel(S, ZERO), prod(i, lam(j, sel(S, add(ONE, j)))))
    prev = lambda i: sel(D, i)
    m = lambda extra: forall(sub(n, ONE), lam(k, lor(eq(prev(k), mul(sel(S, add(k, ONE)), sel(D, add(k, ONE)))), extra(k))))
    def want(extra): return ite(eq(n, ZERO), mkSome(ZERO), ite(m(extra), mkSome(ite(pos(sub(n, ONE)), sel(D, sub(n, ONE)), sel(D, ZERO))), NONE))
    pre = [('=', slen(D), n)]
    ok = any(cx.same(s.ret, want(e), pre) for e in (lambda i: land(eq(prev(i), ZERO), eq(before(i), ONE)), lambda i: eq(before(i), ONE)))
    q = kv()
    un = mk_isome(s.ret); v = fld(mk('as', s.ret), '0')
    def refute():
        # Some(d) promises that the k-th element lies at k * d; contiguous and merged views must be recognised
        return model.refute_ret(s.ret, S, D) if hasattr(model, 'refute_ret') else cx.separate(s.ret, ite(eq(n, ZERO), mkSome(ZERO), ite(eq(slen(cshape(S, D)), ONE), mkSome(ustride(S, D)), NONE)), pre, ())
    cx.decide('has_uniform_stride:Some exactly when all axes merge, with the common stride', ok, refute, f.sp)
    cx.true('has_uniform_stride:never panics', s.ok, pre=pre, site=f.sp)

def mk_isome(x): return x

def accessors(cx, tab):
    P = cx.P
    for who, ty in SELF.items():
        for m in ('ndims', 'len', 'size', 'is_contiguous', 'is_view', 'is_uniformly_strided', 'has_uniform_stride'):
            own = [f for f in P.fns.values() if (f.impl_trait or '').endswith('::StridedMemory') and f.name == m and erase(f.impl_self or '') == erase(ty)]
            dflt = [f for f in P.fns.values() if f.id.endswith('::StridedMemory::' + m)]
            f = (own or dflt or [None])[0]
            if f is None: cx.add(f'anchor:{who}.{m}', 'violated', 'method not found', ''); continue
            s = cx.summarise(f, tab, tmap={} if own else {'Self': ty}, ob=f'{who}.{m}')
            if not s: continue
            o = mk('deref', s.args[0])
            if ty.startswith('&'): o = mk('deref', o)
            if 'Tensor<' in ty: o = fld(o, 'array')
            S, D = F(o, 'shape'), F(o, 'stride'); n = slen(S)
            bit = lambda i: has(o, i)
            want = {'ndims': n, 'len': ite(pos(n), sel(S, ZERO), ZERO), 'size': size(S), 'is_contiguous': bit(1), 'is_view': lnot(bit(0)), 'is_uniformly_strided': bit(2),
                    'has_uniform_stride': ite(bit(2), ite(pos(n), mkSome(ustride(S, D)), mkSome(ZERO)), NONE)}[m]
            pre = [('=', slen(D), n), (coherent(S, D, bit(1), bit(2)), True)] if m == 'has_uniform_stride' else [('=', slen(D), n)]
            cx.equal(f'{who}.{m}', s.ret, want, pre=pre, site=f.sp, notes=s.notes)
            if m != 'has_uniform_stride': cx.true(f'{who}.{m}:never panics', s.ok, pre=pre, site=f.sp)
    for m in ('value', 'data_slice'):
        f = cx.anchor('NdArray::' + m, public=True)
        s = f and cx.summarise(f, tab, ob=m)
        if not s: continue
        o = mk('deref', s.args[0]); S, D = F(o, 'shape'), F(o, 'stride')
        M = mk('mem', F(o, 'ptr'))
        if m == 'value':
            cx.equal('value:only for one element', s.ok, eq(size(S), ONE), site=f.sp, notes=s.notes)
            cx.equal('value:the element', s.ret, sel(M, ZERO), pre=[(eq(size(S), ONE), True)], site=f.sp, notes=s.notes)
        else:
            cx.equal('data_slice:only for contiguous arrays', s.ok, has(o, 1), site=f.sp, notes=s.notes)
