"""P17: constructors build exactly the described array (shape, row-major element values), for arrays and tensors."""
from core import *
from p01 import F, K
from p05 import kv, walk
from p07 import elems

ND = "redstone_ml::ndarray::NdArray<'a, {}>"; TN = "redstone_ml::tensor::Tensor<'a, {}>"
FL = ('f32', 'f64')
NUM = ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64')
WIDTH = {'i8': 7, 'u8': 8, 'i16': 15, 'u16': 16, 'i32': 31, 'u32': 32, 'f32': 24, 'f64': 53, 'i64': 53, 'u64': 53}   # 64-bit integers: up to 2^53
VEC = {'impl ToVec<usize>': 'std::vec::Vec<usize>'}

def selfs(tys_nd, tys_tn):
    for t in tys_nd: yield 'array', ND.format(t), t
    for t in tys_tn: yield 'tensor', TN.format(t), t

def run(cx):
    tab = {**array_models(cx.P), **clone_models(cx.P)}
    for who, ty, t in selfs(('T', 'i32', 'f64'), ('T', 'f64')):
        for m in ('full', 'zeros', 'ones', 'scalar'): filled(cx, m, who, ty, t, tab)
    for who, ty, t in selfs(NUM, FL):
        for m in ('arange', 'arange_with_step'): arange(cx, m, who, ty, t, tab)
    for who, ty, t in selfs(FL, FL):
        for m in ('linspace', 'linspace_exclusive'): linspace(cx, m, who, ty, t, tab)
    for who, ty, t in selfs(('T',), ('T',)): new(cx, who, ty, t, tab)
    nested(cx, tab)
    tovec(cx, tab)

def ctor(cx, m, trait='Constructors'):
    f = next((f for f in cx.P.fns.values() if f.id.endswith(f'::{trait}::{m}')), None)
    if not f: cx.add(f'anchor:{trait}::{m}', 'violated', f'constructor {m} not found', '')
    return f
def over(cx, m, ty):
    """an impl overriding the provided constructor"""
    want = erase(ty).split('<')[0]
    return next((f for f in cx.P.fns.values() if f.name == m and (f.impl_trait or '').endswith('Constructors') and erase(f.impl_self or '').split('<')[0] == want), None)
def get(cx, m, who, ty, t, tab, extra=None, trait='Constructors'):
    f = over(cx, m, ty)
    tmap = {'T': t, **VEC, **(extra or {})}
    if not f:
        f = ctor(cx, m, trait); tmap['Self'] = ty
    if not f: return None, None, None, None
    lab = f'{who}<{t}>::{m}'
    s = cx.summarise(f, tab, tmap=tmap, ob=lab)
    if not s: return None, None, None, None
    r = fld(s.ret, 'array') if who == 'tensor' else s.ret
    return f, s, r, lab

def ar(op, t, x, y):
    if t in models.INTS: return {'add': add, 'sub': sub, 'mul': mul}[op](mark_int(x), mark_int(y))
    return models.arith(op, x, y)
def zero(t): return ZERO if t in models.INTS else mk('zero')
def one(t): return ONE if t in models.INTS else mk('one')

def check(cx, lab, f, s, r, accept, shape, n, val, pre=(), alts=()):
    """accepted arguments, shape, and k-th element in row-major order"""
    if accept is not None: cx.equal(lab + ':accepts exactly the valid arguments', s.ok, accept, pre=list(pre), site=f.sp, notes=s.notes)
    P_ = list(pre) + ([(accept, True)] if accept is not None and accept is not TRUE else [])
    cx.equal(lab + ':shape', fld(r, 'shape'), shape, pre=P_, site=f.sp, notes=s.notes)
    cx.equal(lab + ':length', fld(r, 'len'), n, pre=P_, site=f.sp, notes=s.notes)
    k, got = elems(s, r)
    want = val(k)
    bound = P_ + [(lt(k, n), True), (le(ZERO, k), True)]
    if cx.same(got, want, bound): cx.add(lab + ':values', 'proved', '', f.sp)
    elif alts:
        ref = None
        for a in alts:
            st_, why = cx.separate(got, want, bound + list(a), ())
            if st_ == 'differ': ref = why; break
        cx.add(lab + ':values', 'violated' if ref else 'undecided', f'element {clip(show(got), 300)} instead of {clip(show(want), 300)}: {ref or why}', f.sp)
    else: cx.equal(lab + ':values', got, want, pre=bound, site=f.sp, notes=s.notes)

def filled(cx, m, who, ty, t, tab):
    f, s, r, lab = get(cx, m, who, ty, t, tab)
    if not s: return
    if m == 'scalar': return check(cx, lab, f, s, r, TRUE, arr(), ONE, lambda k: s.args[0])
    sh = mark_useq(s.args[1] if m == 'full' else s.args[0])
    v = s.args[0] if m == 'full' else zero(t) if m == 'zeros' else one(t)
    check(cx, lab, f, s, r, pos(size(sh)), sh, size(sh), lambda k: v)

def arange(cx, m, who, ty, t, tab):
    f, s, r, lab = get(cx, m, who, ty, t, tab)
    if not s: return
    a, b = s.args[0], s.args[1]
    st_ = s.args[2] if m == 'arange_with_step' else one(t)
    n = None
    # the number of elements: ceil((stop - start) / step), computed in a float type that represents every value of T
    fl = [x for x in FL if WIDTH[x] >= WIDTH[t]]
    for ff in fl:
        c = lambda x: models.ncast(ff, t, x)
        cand = models.ncast('usize', ff, mk('fceil', models.arith('div', c(ar('sub', t, b, a)), c(st_))))
        if n is None: n = cand
        if cx.same(fld(r, 'len'), cand): n = cand; break
    mark_unsigned(n)
    up = [(le(a, b), True), (lt(ZERO, st_), True), (le(st_, I(3)), True), (le(b, I(9)), True), (le(ZERO, a), True)] if t in models.INTS else []
    if t in models.INTS and not any(cx.same(fld(r, 'len'), x) for x in [n]):
        # narrow float type or another formula
        nar = narrow(fld(r, 'len'), t)
        if nar: return cx.add(lab + ':length', 'violated', f'the number of elements is computed in {nar}, which does not represent every {t}', f.sp)
    up = [p for p in up if p[0].op != 'b']
    conv = lambda k: models.ncast(t, 'usize', k)
    val = lambda k: ar('add', t, ar('mul', t, conv(k), st_), a)
    check(cx, lab, f, s, r, None, arr(n), n, val, pre=up, alts=[[]])

def narrow(term, t):
    for x in walk(term):
        if x.op == 'ncast' and x.args[0] in FL and WIDTH[x.args[0]] < WIDTH[t]: return x.args[0]
    return None

def linspace(cx, m, who, ty, t, tab):
    f, s, r, lab = get(cx, m, who, ty, t, tab)
    if not s: return
    a, b, num = s.args; mark_unsigned(num)
    conv = lambda k: models.ncast(t, 'usize', k)
    ar = models.arith
    d = ar('sub', conv(num), one(t)) if m == 'linspace' else conv(num)
    val = lambda k: ite(eq(num, ONE), a, ar('add', ar('mul', conv(k), ar('div', ar('sub', b, a), d)), a))
    check(cx, lab, f, s, r, pos(num), arr(num), num, val)

def c_shape(x): return mark_useq(mk('call', 'redstone_ml::util::shape::Shape::shape', mk('&', x)))
def c_homog(x): return mark_bool(mk('call', 'redstone_ml::util::homogenous::Homogenous::check_homogenous', mk('&', x)))
def c_flat(x): return mk('call', 'redstone_ml::util::flatten::Flatten::flatten', x)

def new(cx, who, ty, t, tab):
    f, s, r, lab = get(cx, 'new', who, ty, t, tab)
    if not s: return
    X = s.args[0]; fl = c_flat(X)
    acc = land(c_homog(X), pos(slen(fl)))
    cx.equal(lab + ':accepts exactly rectangular non-empty data', s.ok, acc, site=f.sp, notes=s.notes)
    pre = [(acc, True)]
    cx.equal(lab + ':shape', fld(r, 'shape'), c_shape(X), pre=pre, site=f.sp, notes=s.notes)
    cx.equal(lab + ':buffer', s.mem(fld(r, 'ptr')), fl, pre=pre, site=f.sp, notes=s.notes)
    cx.equal(lab + ':stride', fld(r, 'stride'), K('stride_from_shape', c_shape(X)), pre=pre, site=f.sp, notes=s.notes)

def nested(cx, tab):
    """by induction over the nesting: the shape, the elements in order and rectangularity of nested data"""
    P = cx.P
    for trait, m, least in (('Shape', 'shape', 26), ('Flatten', 'flatten', 26), ('Homogenous', 'check_homogenous', 26)):
        fs = [f for f in P.fns.values() if (f.impl_trait or '').endswith('::' + trait) and f.name == m]
        cx.need(fs, least, f'impls of {trait}')
        for f in sorted(fs, key=lambda f: f.id):
            sf = erase(f.impl_self); lab = f'{trait} for {sf}'
            inner = re.match(r'(?:std::vec::Vec<(.*)>|\[(.*); N\])$', sf)
            s = cx.summarise(f, tab, ob=lab)
            if not s or not inner: 
                if s: cx.add(lab, 'undecided', 'unknown container', f.sp)
                continue
            gen_ = (inner.group(1) or inner.group(2)) == 'T'
            X = s.args[0] if m == 'flatten' else mk('deref', s.args[0])
            n = slen(X); k = kv()
            if not gen_:
                want = {'shape': arr(n), 'flatten': X, 'check_homogenous': TRUE}[m]
                cx.equal(lab + ':base case', s.ret, want, site=f.sp, notes=s.notes)
                cx.equal(lab + ':total', s.ok, TRUE, site=f.sp, notes=s.notes)
            else:
                want = {'shape': concat(arr(n), c_shape(sel(X, ZERO))), 'flatten': mk('flatconcat', gen(n, lam(k, c_flat(sel(X, k))))),
                        'check_homogenous': land(forall(n, lam(k, c_homog(sel(X, k)))), forall(n, lam(k, eq(c_shape(sel(X, k)), c_shape(sel(X, ZERO))))))}[m]
                cx.equal(lab + ':inductive step', s.ret, want, pre=[(pos(n), True)], site=f.sp, notes=s.notes)
                N = mark_unsigned(mk('const', 'N', 'usize'))   # the length of [T; N]
                cx.equal(lab + ':total on non-empty data', s.ok, TRUE, pre=[(pos(n), True), (pos(N), True)], site=f.sp, notes=s.notes)

def tovec(cx, tab):
    P = cx.P
    fs = [f for f in P.fns.values() if (f.impl_trait or '').endswith('::ToVec') and f.name == 'to_vec']
    cx.need(fs, 7, 'impls of ToVec')
    for f in sorted(fs, key=lambda f: f.id):
        sf = erase(f.impl_self); lab = f'ToVec for {sf}'
        s = cx.summarise(f, tab, ob=lab)
        if not s: continue
        x = s.args[0]; k = kv()
        if sf == 'T': want = arr(x)
        elif sf.startswith('std::vec::Vec') or sf.startswith('['): want = x
        elif sf.startswith('&'): want = mk('deref', x)
        elif 'Range<' in sf:
            a, b = fld(x, 'start'), fld(x, 'end'); mark_unsigned(a), mark_unsigned(b)
            want = gen(sub(b, a), lam(k, add(a, k)))
        elif sf.endswith('Axis'): continue   # decided by P20
        else:
            cx.add(lab, 'undecided', 'unknown container', f.sp); continue
        cx.equal(lab + ':same items in order', s.ret, want, site=f.sp, notes=s.notes)
        cx.equal(lab + ':total', s.ok, TRUE, site=f.sp, notes=s.notes)
