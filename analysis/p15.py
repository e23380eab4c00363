"""P15: matmul, dot and bmm validate their operands and compute the mathematical product for every layout."""
from core import *
import domain
from ring import *
from p01 import F, geom, obj, content, load_buf
from p05 import kv
from p16 import nest, agree, elem, kernel_call, picked

ZV = mk('zero')
def zeros(n): k = kv(); return gen(n, lam(k, ZV))
def fill0(M, off, n):
    if M.op == 'gen' and off is ZERO:
        v, b = open_lam(M.args[1])
        if b.op == 'zero': return M
    a, k = fresh('m'), kv()
    return tm.fold(M, n, a, k, tm.st(a, add(off, k), ZV))

def text(t):
    """content of a constant string term"""
    while t.op in ('&', 'deref'): t = t.args[0]
    return str(t.args[0]).strip('"') if t.op == 's' else None

def m_einsum_into_ptr(eng, fr, s, fn, args, tys, t):
    """contract decided by P16: fills the result with zeros and adds every product; axes with the same label must agree in length"""
    s = s.copy()
    ops = eng.load(s, args[0], (), False) if tys[0].startswith('&') else args[0]
    n = slen(ops)
    if n.op != 'c': raise Unsupported('einsum with an unknown number of operands')
    A = [eng.load(s, sel(ops, I(i)), (), False) for i in range(n.args[0])]
    sub_in, sub_out = fld(args[1], '0'), fld(args[1], '1')
    sub_in = eng.load(s, sub_in, (), False) if sub_in.op in ('ref', '&') else sub_in
    ins = [text(eng.load(s, sel(sub_in, I(i)), (), False) if sel(sub_in, I(i)).op == 'ref' else sel(sub_in, I(i))) for i in range(n.args[0])]
    out = text(sub_out)
    if None in ins or out is None: raise Unsupported('einsum with unknown subscripts')
    dims = {}; ok = []
    for l, a in zip(ins, A):
        S = mark_useq(fld(a, 'shape'))
        ok.append(eq(slen(S), I(len(l))))
        for ax, c in enumerate(l):
            if c in dims: ok.append(eq(dims[c], sel(S, I(ax))))
            else: dims[c] = mark_unsigned(sel(S, I(ax)))
    oshape = [dims[c] for c in out]
    rs = seqval(eng, s, args[2])
    ok.append(eq(slen(rs), I(len(out))))
    w = ONE; ostr = {}
    for i in range(len(out) - 1, -1, -1):
        ostr[out[i]] = w
        ok.append(lor(eq(sel(rs, I(i)), w), eq(dims[out[i]], ONE)))
        w = mul(w, dims[out[i]])
    s.env[OK] = land(eng.get(s, OK), *ok)
    k, pr = eng.target(args[3], True)
    M = eng.read(s, k, pr[:-1]); off = pr[-1][1]
    rows = []
    for c in list(out) + [c for c in dims if c not in out]:
        st_ = []
        for l, a in zip(ins, A):
            r = ZERO
            for ax, x in enumerate(l):
                if x == c: r = add(r, mark_unsigned(sel(mark_useq(fld(a, 'stride')), I(ax))))
            st_.append(r)
        st_.append(ostr.get(c, ZERO))
        rows.append((dims[c], st_))
    mems = []
    for a in A:
        k2, p2 = eng.target(fld(a, 'ptr'), True)
        mems.append((eng.read(s, k2, p2[:-1]), p2[-1][1]))
    new = nest_off(fill0(M, off, w), off, rows, mems)
    eng.write(s, k, pr[:-1], new, fr, t.get('sp', ''))
    return UNIT, s

def nest_off(M, off, dims, ops):
    ks = [kv() for _ in dims]
    def at(i, o):
        r = o
        for k, (_, st_) in zip(ks, dims): r = add(r, mul(k, st_[i]))
        return r
    v = None
    for i, (m, o) in enumerate(ops):
        e = sel(m, at(i, o)); v = e if v is None else models.arith('mul', v, e)
    o = at(len(ops), off)
    def go(m, d):
        a = fresh('m')
        if d == len(dims): return tm.st(m, o, models.arith('add', sel(m, o), v))
        return tm.fold(m, dims[d][0], a, ks[d], go(a, d + 1))
    return go(M, 0)

def tab15(P):
    t = array_models(P, keep=[k for k in domain.KEEP if k != 'stride_from_shape'])
    return {**t, **resolve_models(P, {'@einsum_into_ptr': m_einsum_into_ptr})}

def ranks(*pairs): return [('=', slen(S), I(n)) for S, D, n in pairs] + [('=', slen(D), I(n)) for S, D, n in pairs]

def dot(cx, tab, tmap=None, sfx=''):
    f = cx.anchor('NdArray::dot', public=True)
    s = f and cx.summarise(f, tab, ob='dot' + sfx, tmap=tmap)
    if not s: return
    A, B_ = other(s)
    (SA, DA, MA), (SB, DB, MB) = geom(A), geom(B_)
    nn = [('=', slen(DA), slen(SA)), ('=', slen(DB), slen(SB))]
    acc = land(eq(slen(SA), ONE), eq(slen(SB), ONE), eq(sel(SA, ZERO), sel(SB, ZERO)))
    cx.equal('dot:accepts exactly 1D arrays of equal length' + sfx, s.ok, acc, pre=nn, site=f.sp, notes=s.notes)
    pre = ranks((SA, DA, 1), (SB, DB, 1)) + [('=', sel(SB, ZERO), sel(SA, ZERO))]
    want = nest(arr(ZV), [(sel(SA, ZERO), [sel(DA, ZERO), sel(DB, ZERO), ZERO])], [MA, MB])
    agree_(cx, 'dot:value' + sfx, content(s, s.ret), want, pre, f, s)
    cx.equal('dot:shape' + sfx, fld(s.ret, 'shape'), arr(), pre=pre, site=f.sp, notes=s.notes)

def other(s):
    """the two operands, behind whatever reference the signature has"""
    A = mk('deref', s.args[0])
    return A, s.args[1]

def agree_(cx, ob, got, want, pre, f, s):
    eqs = [(p[1], p[2]) for p in pre if p[0] == '=']; fs = [p for p in pre if p[0] != '=']
    (g, w), fs2 = with_pre([strip_ids(got), strip_ids(want)], list(pre))
    return agree2(cx, ob, g, w, fs2, got, want, pre, f, s)
def agree2(cx, ob, g, w, fs, got, want, pre, f, s):
    cf = ()
    try:
        n = 0
        for cf, (a, b) in cases([g, w], [x for x in fs if len(x) == 2]):
            a, b = rn(a), rn(b)
            if a is not b and not cx.same(a, b, cf): raise Mismatch(a, b, cf)
            n += 1
        cx.leaves += n; cx.add(ob, 'proved', '', f.sp); return True
    except (Mismatch, Limit, RecursionError) as x:
        if os.environ.get('VERIF_DEBUG2') and isinstance(x, Mismatch): print(ob, '\nGOT', show(a)[:2500], '\nWANT', show(b)[:2500], [(show(c)[:80], v) for c, v in cf])
    except Exception:
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    return cx.equal(ob, got, want, pre=pre, site=f.sp, notes=s.notes, guide=cf)

def matmul(cx, tab, tmap=None, sfx=''):
    f = cx.anchor('NdArray::matmul', public=True)
    s = f and cx.summarise(f, tab, ob='matmul' + sfx, limit=120, tmap=tmap)
    if not s: return
    A, B_ = other(s)
    (SA, DA, MA), (SB, DB, MB) = geom(A), geom(B_)
    nn = [('=', slen(DA), slen(SA)), ('=', slen(DB), slen(SB)), (forall(slen(SA), lam((k := kv()), pos(sel(SA, k)))), True), (forall(slen(SB), lam((k := kv()), pos(sel(SB, k)))), True)]
    a, b = (lambda i: sel(SA, I(i))), (lambda i: sel(SB, I(i)))
    x, y = (lambda i: sel(DA, I(i))), (lambda i: sel(DB, I(i)))
    p = lambda *v: [(pos(q), True) for q in v]
    acc = lor(land(eq(slen(SA), ONE), eq(slen(SB), ONE), eq(a(0), b(0))),
              land(eq(slen(SA), I(2)), eq(slen(SB), ONE), eq(a(1), b(0))),
              land(eq(slen(SA), I(2)), eq(slen(SB), I(2)), eq(a(1), b(0))))
    cx.equal('matmul:accepts exactly the compatible 1D/2D operands' + sfx, s.ok, acc, pre=nn[:2] + p(a(0), a(1), b(0), b(1)), site=f.sp, notes=s.notes)
    pre = ranks((SA, DA, 1), (SB, DB, 1)) + [('=', b(0), a(0))] + p(a(0))
    agree_(cx, 'matmul(1D,1D):value' + sfx, content(s, s.ret), nest(arr(ZV), [(a(0), [x(0), y(0), ZERO])], [MA, MB]), pre, f, s)
    cx.equal('matmul(1D,1D):shape' + sfx, fld(s.ret, 'shape'), arr(), pre=pre, site=f.sp, notes=s.notes)
    pre = ranks((SA, DA, 2), (SB, DB, 1)) + [('=', b(0), a(1))] + p(a(0), a(1))
    agree_(cx, 'matmul(2D,1D):value' + sfx, content(s, s.ret), nest(zeros(a(0)), [(a(0), [x(0), ZERO, ONE]), (a(1), [x(1), y(0), ZERO])], [MA, MB]), pre, f, s)
    cx.equal('matmul(2D,1D):shape' + sfx, fld(s.ret, 'shape'), arr(a(0)), pre=pre, site=f.sp, notes=s.notes)
    pre = ranks((SA, DA, 2), (SB, DB, 2)) + [('=', b(0), a(1))] + p(a(0), a(1), b(1))
    agree_(cx, 'matmul(2D,2D):value' + sfx, content(s, s.ret), nest(zeros(mul(a(0), b(1))), [(a(0), [x(0), ZERO, b(1)]), (b(1), [ZERO, y(1), ONE]), (a(1), [x(1), y(0), ZERO])], [MA, MB]), pre, f, s)
    cx.equal('matmul(2D,2D):shape' + sfx, fld(s.ret, 'shape'), arr(a(0), b(1)), pre=pre, site=f.sp, notes=s.notes)

def bmm(cx, tab, tmap=None, sfx=''):
    f = cx.anchor('NdArray::bmm', public=True)
    s = f and cx.summarise(f, tab, ob='bmm' + sfx, limit=120, tmap=tmap)
    if not s: return
    A, B_ = other(s)
    (SA, DA, MA), (SB, DB, MB) = geom(A), geom(B_)
    a, b = (lambda i: sel(SA, I(i))), (lambda i: sel(SB, I(i)))
    x, y = (lambda i: sel(DA, I(i))), (lambda i: sel(DB, I(i)))
    p = lambda *v: [(pos(q), True) for q in v]
    nn = [('=', slen(DA), slen(SA)), ('=', slen(DB), slen(SB))]
    acc = land(eq(slen(SA), I(3)), eq(slen(SB), I(3)), eq(a(0), b(0)), eq(a(2), b(1)))
    cx.equal('bmm:accepts exactly compatible 3D operands' + sfx, s.ok, acc, pre=nn + p(a(0), a(1), a(2), b(0), b(1), b(2)), site=f.sp, notes=s.notes)
    pre = ranks((SA, DA, 3), (SB, DB, 3)) + [('=', b(0), a(0)), ('=', b(1), a(2))] + p(a(0), a(1), a(2), b(2))
    nm = mul(a(1), b(2))
    m, k = fresh('m'), kv()
    want = tm.fold(zeros(mul(a(0), nm)), a(0), m, k, nest_off(fill0(m, mul(k, nm), nm), mul(k, nm), [(a(1), [x(1), ZERO, b(2)]), (b(2), [ZERO, y(2), ONE]), (a(2), [x(2), y(1), ZERO])],
                                                      [(MA, mul(k, x(0))), (MB, mul(k, y(0)))]))
    agree_(cx, 'bmm:value' + sfx, content(s, s.ret), want, pre, f, s)
    cx.equal('bmm:shape' + sfx, fld(s.ret, 'shape'), arr(a(0), a(1), b(2)), pre=pre, site=f.sp, notes=s.notes)

def run(cx):
    tab = tab15(cx.P)
    dot(cx, tab); matmul(cx, tab); bmm(cx, tab)
    # element types with kernels of their own
    for ty in overriding(cx.P, r'::MatrixOps$|::SumOfProductsType$|::DotProduct$|::SIMDSumOfProducts$'):
        for g in (dot, matmul, bmm): g(cx, tab, {'T': ty}, f' [{ty}]')
