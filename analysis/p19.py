"""P19: equality, copies, conversions and element access see exactly the logical elements, whatever the memory layout."""
from core import *
from p01 import F, K
from p05 import kv, walk
from p07 import elems, at

def wf(A): return [('=', slen(F(A, 'stride')), slen(F(A, 'shape')))]
def contig(A):
    """what the Contiguous flag says about the geometry (decided by P08)"""
    S, D = F(A, 'shape'), F(A, 'stride')
    return mark_bool(mk('has', fld(A, 'flags'), 1))

def run(cx):
    P = cx.P
    tab = array_models(P); ctab = {**tab, **clone_models(P)}
    clone_data(cx, tab)
    copies(cx, ctab)
    astype(cx, ctab)
    equality(cx, ctab)
    access(cx, ctab)

def obj(x, ty):
    while ty.startswith('&'): x = mk('deref', x); ty = re.sub(r"^&('\w+ )?(mut )?", '', ty)
    return fld(x, 'array') if 'tensor::Tensor<' in ty else x

def copy_of(cx, lab, f, s, r, A, val=None, extra=()):
    S, D = F(A, 'shape'), F(A, 'stride')
    pre = wf(A) + list(extra)
    cx.equal(lab + ':shape', fld(r, 'shape'), S, pre=pre, site=f.sp, notes=s.notes)
    k, got = elems(s, r)
    src = sel(mk('mem', F(A, 'ptr')), fi(S, D, k))
    cx.equal(lab + ':elements', got, val(src) if val else src, pre=pre + [(lt(k, size(S)), True)], site=f.sp, notes=s.notes)

def copies(cx, tab):
    for name in ('NdArray::clone', 'Tensor::detach', 'Tensor::get_ndarray', 'Tensor::into_ndarray'):
        f = cx.anchor(name, public=True)
        if not f: continue
        s = cx.summarise(f, tab, ob=name)
        if not s: continue
        A = obj(s.args[0], f.ty(1))
        cx.equal(name + ':never panics', s.ok, TRUE, pre=wf(A), site=f.sp, notes=s.notes)
        copy_of(cx, name, f, s, s.ret, A)
    # fresh storage
    for name in ('NdArray::clone', 'Tensor::detach'):
        f = cx.anchor(name, public=True)
        s = f and cx.summarise(f, tab, ob=name)
        if s:
            A = obj(s.args[0], f.ty(1)); p = fld(s.ret, 'ptr')
            ps = [x for x in leaves(p)]
            shared = [x for x in ps if any(y is F(A, 'ptr') for y in walk(x) if y.op != 'hp') and x.op != 'hp']
            cx.add(name + ':own storage', 'violated' if shared else 'proved' if all(x.op == 'hp' for x in ps) else 'undecided', 'the copy shares the buffer of its source' if shared else '', f.sp)

def leaves(t):
    if t.op == 'ite': return leaves(t.args[1]) + leaves(t.args[2])
    return [t]

def astype(cx, tab):
    f = cx.anchor('NdArray::astype', public=True)
    if not f: return
    for src, dst in (('i32', 'f32'), ('f64', 'i16'), ('f32', 'f64'), ('u8', 'u8'), ('T', 'F')):
        lab = f'astype {src}->{dst}'
        s = cx.summarise(f, tab, tmap={'T': src, 'F': dst}, ob=lab)
        if not s: continue
        A = obj(s.args[0], f.ty(1))
        copy_of(cx, lab, f, s, s.ret, A, lambda x: models.ncast(dst, src, x))

def equality(cx, tab):
    fs = [f for f in cx.P.fns.values() if f.impl_trait == 'std::cmp::PartialEq' and f.name in ('eq', 'ne') and re.search(r'::(NdArray|Tensor)<', f.impl_self or '')]
    cx.need([f for f in fs if f.name == 'eq'], 8, 'equality impls')
    for f in sorted(fs, key=lambda f: f.id):
        lab = f'{short(f.ty(1))} {"==" if f.name == "eq" else "!="} {short(f.ty(2))}'
        s = cx.summarise(f, tab, ob=lab)
        if not s: continue
        A, B = obj(s.args[0], f.ty(1)), obj(s.args[1], f.ty(2))
        SA, DA, SB, DB = F(A, 'shape'), F(A, 'stride'), F(B, 'shape'), F(B, 'stride')
        k = kv()
        same = eq(SA, SB)
        want = land(same, forall(size(SA), lam(k, eq(sel(mk('mem', F(A, 'ptr')), fi(SA, DA, k)), sel(mk('mem', F(B, 'ptr')), fi(SB, DB, k))))))
        pre = wf(A) + wf(B)
        cx.equal(lab + ':never panics', s.ok, TRUE, pre=pre, site=f.sp, notes=s.notes)
        # equal shapes: compare element by element; different shapes: not equal
        cx.equal(lab + ':value', s.ret, want if f.name == 'eq' else lnot(want), pre=pre, site=f.sp, notes=s.notes)
def short(t): return re.sub(r"(\w+::)+", '', erase(t))[1:]

def access(cx, tab):
    for name in ('NdArray::value', 'Tensor::value'):
        f = cx.anchor(name, public=True)
        s = f and cx.summarise(f, tab, ob=name)
        if not s: continue
        A = obj(s.args[0], f.ty(1)); S = F(A, 'shape')
        cx.equal(name + ':accepts exactly one-element arrays', s.ok, eq(size(S), ONE), pre=wf(A), site=f.sp, notes=s.notes)
        cx.equal(name + ':the element', s.ret, sel(mk('mem', F(A, 'ptr')), ZERO), pre=wf(A) + [(eq(size(S), ONE), True)], site=f.sp, notes=s.notes)
    f = cx.anchor('NdArray::data_slice', public=True)
    s = f and cx.summarise(f, tab, ob='data_slice')
    if s:
        A = obj(s.args[0], f.ty(1)); c = contig(A)
        cx.equal('data_slice:accepts exactly contiguous arrays', s.ok, c, site=f.sp, notes=s.notes)
        k = kv(); v = s.eng.load(s.st, s.ret, (), False) if hasattr(s, 'eng') else None
        r = s.ret
        if r.op == 'ref' and r.args[0] == ('M', F(A, 'ptr')) and len(r.args[1]) == 1 and r.args[1][0][0] == 's':
            _, a, b = r.args[1][0]
            cx.equal('data_slice:starts at the first element', a, ZERO, pre=[(c, True)], site=f.sp)
            cx.equal('data_slice:covers every element', b, F(A, 'len'), pre=[(c, True)], site=f.sp)
        else: cx.add('data_slice:content', 'undecided', clip(show(r), 200), f.sp)

def clone_data(cx, tab):
    f = cx.anchor('NdArray::clone_data')
    if not f: return
    s = cx.summarise(f, tab, ob='clone_data')
    if not s: return
    A = mk('deref', s.args[0]); S, D = F(A, 'shape'), F(A, 'stride'); M = mk('mem', F(A, 'ptr'))
    c = contig(A); n = slen(S)
    pre = wf(A) + [(pos(size(S)), True)]
    k = kv()
    want = gen(size(S), lam(k, sel(M, fi(S, D, k))))
    nonc = pre + [(c, False), (pos(n), True), (pos(slen(cshape(S, D))), True)]
    cx.equal('clone_data:never panics', s.ok, TRUE, pre=nonc, site=f.sp, notes=s.notes)
    # contiguous: len elements from the start, which is the row-major order (flag coherent with the geometry: P08)
    got = assume(s.ret, c, True)
    want1 = gen(F(A, 'len'), lam(k, sel(M, k)))
    coh = pre + [(c, True), (eq(F(A, 'len'), size(S)), True)]
    ok = cx.same(got, want1, pre + [(c, True)]) or cx.same(got, want, coh)
    cx.decide('clone_data:contiguous arrays', ok, lambda: cx.separate(got, gen(F(A, 'len'), lam(k, sel(M, k))), coh, ()), f.sp, 'copy differs:')
    got2 = assume(s.ret, c, False)
    ok = cx.same(got2, want, nonc) or blocks(cx, got2, S, D, M, nonc)
    cx.decide('clone_data:other layouts', ok, lambda: cx.separate(got2, want, nonc, ()), f.sp, 'copy differs:')

def blocks(cx, t, S, D, M, pre):
    """a copy by rows: block q of c elements comes from offset fi(S', D', q), where (S', D') is the collapsed geometry without its unit-stride last axis of length c (or all of it, c = 1)"""
    cs, cd = cshape(S, D), cstride(S, D); m = slen(cs)
    def split(t, lits):
        x = find_ite(t)
        if x is not None:
            return split(assume(t, x, True), lits + [(x, True)]) and split(assume(t, x, False), lits + [(x, False)])
        if any(infeasible(cx, lits, pre) for _ in (0,)): return True
        if t.op != 'setlen' or not cx.same(t.args[1], size(S), pre + lits): return False
        o = t.args[0]
        if o.op != 'fold' or slen(o.args[0]) is not ZERO: return False
        N = o.args[1]; a1, q, b1 = tm.unfold(o) if hasattr(tm, 'unfold') else unlam2(o)
        if b1.op == 'fold' and b1.args[0] is a1:
            c = b1.args[1]; a2, r, b2 = unlam2(b1)
        elif b1.op == 'st': c = ONE; a2, r, b2 = a1, ZERO, b1
        else: return False
        if b2.op != 'st' or b2.args[0] is not a2: return False
        if not cx.same(b2.args[1], add(r, mul(c, q)), pre + lits): return False
        v = b2.args[2]
        if v.op != 'sel' or v.args[0] is not M: return False
        for S2, D2, cc, need in ((slc(cs, ZERO, sub(m, ONE)), slc(cd, ZERO, sub(m, ONE)), sel(cs, sub(m, ONE)), eq(sel(cd, sub(m, ONE)), ONE)), (cs, cd, ONE, TRUE)):
            if cx.same(c, cc, pre + lits) and cx.same(N, size(S2), pre + lits) and cx.same(v.args[1], add(r, fi(S2, D2, q)), pre + lits) \
               and (need is TRUE or cx.same(need, TRUE, pre + lits)): return True
        return False
    return split(t, [])

def infeasible(cx, lits, pre): return cx.same(TRUE, FALSE, pre + lits) if lits else False
def find_ite(t):
    for x in walk(t):
        if x.op == 'ite' and not bound(x.args[0]): return x.args[0]
    return None
def bound(c): return any(x.op == 'v' and False for x in walk(c))
def unlam2(o):
    """fold(init, n, lam acc lam i body) -> fresh acc, i and the body"""
    a = fresh('acc'); k = kv()
    b = apply(apply(o.args[2], a), k)
    return a, k, b
