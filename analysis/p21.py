"""P21: einsum plans. For a subscript pattern the planner's iteration space, strides and output shape are those of the sum over all
labels, for every size and layout of the operands."""
from core import *
import domain, itertools
from ring import *
from p01 import F, geom, obj, content, load_buf
from p05 import kv
from p15 import nest_off, zeros, ZV, agree_, fill0
from p16 import ptr, nat, elem, agree, nest

def operand(i, rank):
    """an array of the given rank with unknown lengths and strides"""
    sh = mark_useq(arr(*[nat(1000 + 20 * i + d, f'n{i}_{d}') for d in range(rank)]))
    sd = mark_useq(arr(*[nat(1500 + 20 * i + d, f's{i}_{d}') for d in range(rank)]))
    return adt('ndarray::NdArray', 'NdArray', ('ptr', 'len', 'capacity', 'shape', 'stride', 'flags', '_marker'),
               ptr(20 + i, f'p{i}'), nat(2000 + i, f'len{i}'), nat(2100 + i, f'cap{i}'), sh, sd, mk('arg', 2200 + i, f'flags{i}'), UNIT), sh, sd

def text(s): return mk('s', '"' + s + '"')

def spec(ins, out, ops):
    """labels in iteration order, their lengths, the strides of every operand and of the output, and what the operands must satisfy"""
    ins, out = [l.replace('.', '') for l in ins], out.replace('.', '')
    dims, need = {}, []
    for l, (o, sh, sd) in zip(ins, ops):
        for c, n in zip(l, sh.args):
            if c in dims: need.append(eq(dims[c], n))
            else: dims[c] = n
    labels = list(out) + sorted(c for c in dims if c not in out)
    rows = []; w = {}
    x = ONE
    for c in reversed(out): w[c] = x; x = mul(x, dims[c])
    for c in labels:
        r = []
        for l, (o, sh, sd) in zip(ins, ops):
            v = ZERO
            for d, n in zip(l, sd.args):
                if d == c: v = add(v, n)
            r.append(v)
        rows.append(r + [w.get(c, ZERO)])
    return labels, [dims[c] for c in labels], rows, land(*need), [dims[c] for c in out]

def plan_models(cx, perm):
    P = cx.P
    def order(eng, fr, s, fn, args, tys, t):
        from engine import mkSome, NONE
        if perm is None: return NONE, s
        return mkSome(arr(*[I(i) for i in perm])), s
    t = array_models(P, keep=[k for k in domain.KEEP if k != 'stride_from_shape'])
    return {**t, **resolve_models(P, {'@find_best_axis_ordering': order})}

OUT = [mk('arg', 2300 + i, x) for i, x in enumerate(('strides', 'iter_ndims', 'iter_shape', 'output_shape'))]

def prepare(cx, f, ins, out, perm, ranks=None):
    ops = [operand(i, len(l.replace('.', '')) if ranks is None else ranks[i]) for i, l in enumerate(ins)]
    name = ','.join(ins) + '->' + out
    s = cx.summarise(f, plan_models(cx, perm), args=[mk('&', arr(*[mk('&', o[0]) for o in ops])), tup(arr(*[text(l) for l in ins]), text(out))] + OUT,
                     tmap={'ArrString': f'[&str; {len(ins)}]', 'String': '&str', 'T': 'T'}, ob=f'plan {name}', unroll=140, limit=40)
    return s, ops, name

PATTERNS = """i->i ij->ji ij->i ij->j ij-> ii->i ii-> iij->ij iij->j iji->ji ijj->i ijk->kji ijk->ik ijk->j iiii-> aab->b Zb->bZ aA->Aa aA->A Aa->A iijj->ij
i,i-> i,i->i i,j->ij i,j->ji ij,j->i ij,i->j ij,jk->ik ij,kj->ik ji,jk->ik ij,jk->ki ij,ij-> ij,ij->ij ij,ji-> ii,i->i ii,ij->j i,ii-> aB,Bc->ac
bij,bjk->bik bij,bjk->ik ijk,k->ij ijk,ijk->k iij,jk->ik ij,jk->ijk ij,kl->ikjl
i,i,i-> i,j,k->ijk ij,jk,kl->il ij,ij,ij->i i,ij,j-> ij,jk,ki-> i,j,i->j
..ij->ji i..j->ij ij..->i..j ..ii->i ..iij->ij ..ij,j..k->i..k""".split() + \
    [c + '->' for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'] + ['zA,Az->', 'zZ,Za->za'] + \
    'abcde->eca abcdef->fbd abcdefgh->hgfedcba abcdefgh->hb aabbcc->abc abcabc->cab iii,i,ii-> abc,bcd,cde->ae abcd,dcba-> a,b,c,d->dcba ij,jk,kl,lm->im a,a,a,a,a-> abcd,be->acde'.split()

def noempty(t): return arr() if t.op == 'buf' else t

def plans(cx):
    f = cx.anchor('prepare_einsum')
    if not f: return
    for pat in PATTERNS:
        ins, out = pat.split('->'); ins = ins.split(',')
        n = len(set(''.join(ins)) - {'.'})
        perms = [None] + (list(itertools.permutations(range(n)))[1:] if n <= 3 else [tuple(reversed(range(n))), tuple(range(1, n)) + (0,)])
        if cx.tier == 'quick' and n > 2: perms = perms[:3]
        for perm in perms:
            s, ops, name = prepare(cx, f, ins, out, perm)
            if not s: continue
            labels, dims, rows, need, osh = spec(ins, out, ops)
            pm = perm or tuple(range(n))
            lab = f'plan {name}' + (f' order {pm}' if perm else '')
            pre = [(pos(x), True) for o, sh, sd in ops for x in sh.args]
            got = s.obj(OUT[0])
            cx.equal(lab + ':accepts exactly operands whose labels agree in length', s.ok, need, pre=pre, site=f.sp, notes=s.notes)
            pre = pre + [(need, True)] if need is not TRUE else pre
            cx.equal(lab + ':number of labels', s.obj(OUT[1]), I(n), pre=pre, site=f.sp, notes=s.notes)
            cx.equal(lab + ':lengths', s.obj(OUT[2]), arr(*[dims[i] for i in pm]), pre=pre, site=f.sp, notes=s.notes)
            cx.equal(lab + ':output shape', noempty(s.obj(OUT[3])), arr(*osh), pre=pre, site=f.sp, notes=s.notes)
            cx.equal(lab + ':strides', arr(*[sel(sel(got, I(d)), I(i)) for d in range(n) for i in range(len(ins) + 1)]), arr(*[rows[i][j] for i in pm for j in range(len(ins) + 1)]), pre=pre, site=f.sp, notes=s.notes)

def loop_models(P):
    """contracts decided by P16: the loops add, for every index of the iteration space, the product to the output"""
    def space(eng, s, args):
        ops = eng.load(s, args[0], (), False); n = slen(ops); nd = args[2]
        if n.op != 'c' or nd.op != 'c': raise Unsupported('einsum loop with unknown operands')
        n, nd = n.args[0], nd.args[0]
        st_, sh = eng.load(s, args[1], (), False), seqval(eng, s, args[3])
        rows = [(mark_unsigned(sel(sh, I(d))), [sel(sel(st_, I(d)), I(i)) for i in range(n + 1)]) for d in range(nd)]
        mems = []
        for i in range(n):
            a = eng.load(s, sel(ops, I(i)), (), False)
            k, p = eng.target(fld(a, 'ptr'), True)
            mems.append((eng.read(s, k, p[:-1]), p[-1][1]))
        k, p = eng.target(args[4], True)
        return k, p, nest_off(eng.read(s, k, p[:-1]), p[-1][1], rows, mems)
    ran = mark_bool(mk('arg', 2400, 'specialised loop ran'))
    def spec_(eng, fr, s, fn, args, tys, t):
        s = s.copy(); k, p, new = space(eng, s, args)
        eng.write(s, k, p[:-1], ite(ran, new, eng.read(s, k, p[:-1])), fr, t.get('sp', ''))
        return ran, s
    def gen_(eng, fr, s, fn, args, tys, t):
        s = s.copy(); k, p, new = space(eng, s, args)
        eng.write(s, k, p[:-1], new, fr, t.get('sp', ''))
        return UNIT, s
    return resolve_models(P, {'@try_specialized_einsum_loop': spec_, '@unspecialized_einsum_loop': gen_})

E2E = """ij->ji ij->i ij-> ii->i ii-> ijk->kji iij->j i,i-> i,j->ij ij,j->i ij,jk->ik ij,kj->ik ij,ij->ij bij,bjk->bik ij,jk,kl->il i,i,i->""".split()

def whole(cx):
    """einsum from end to end: for a pattern, the value of every output element is the sum of the products over the other labels"""
    f, g = cx.anchor('einsum::einsum', public=True), cx.anchor('einsum_into_ptr')
    for pat in E2E:
        ins, out = pat.split('->'); ins = ins.split(',')
        ops = [operand(i, len(l)) for i, l in enumerate(ins)]
        labels, dims, rows, need, osh = spec(ins, out, ops)
        pre = [(pos(x), True) for o, sh, sd in ops for x in sh.args]
        mems = [elem(fld(o, 'ptr')) for o, sh, sd in ops]
        total = ONE
        for x in osh: total = mul(total, x)
        tab = {**plan_models(cx, None), **loop_models(cx.P)}
        tm_ = {'ArrTensor': f'[&NdArray; {len(ins)}]', 'ArrString': f'[&str; {len(ins)}]', 'String': '&str', 'T': 'T'}
        a = [arr(*[mk('&', o[0]) for o in ops]), tup(arr(*[text(l) for l in ins]), text(out))]
        s = f and cx.summarise(f, tab, args=a, tmap=tm_, ob=f'einsum {pat}', unroll=140, limit=60)
        if s:
            cx.equal(f'einsum {pat}:accepts exactly operands whose labels agree in length', s.ok, need, pre=pre, site=f.sp, notes=s.notes)
            p2 = pre + ([(need, True)] if need is not TRUE else [])
            cx.equal(f'einsum {pat}:shape', noempty(fld(s.ret, 'shape')), arr(*osh), pre=p2, site=f.sp, notes=s.notes)
            agree_(cx, f'einsum {pat}:value', content(s, s.ret), nest(zeros(total) if osh else arr(ZV), list(zip(dims, rows)), mems), p2, f, s)

def into(cx):
    """einsum_into_ptr: clears the result and adds every product (the contract P15 uses for matrix products)"""
    f = cx.anchor('einsum_into_ptr')
    for pat in ('ij,jk->ik', 'ij,j->i', 'i,j->ij', 'ij->ji'):
        if not f: return
        ins, out = pat.split('->'); ins = ins.split(',')
        ops = [operand(i, len(l)) for i, l in enumerate(ins)]
        labels, dims, rows, need, osh = spec(ins, out, ops)
        pre = [(pos(x), True) for o, sh, sd in ops for x in sh.args] + ([(need, True)] if need is not TRUE else [])
        total = ONE; rs = []
        for x in reversed(osh): rs.insert(0, total); total = mul(total, x)
        dst = ptr(30, 'result')
        s = cx.summarise(f, {**plan_models(cx, None), **loop_models(cx.P)}, args=[arr(*[mk('&', o[0]) for o in ops]), tup(arr(*[text(l) for l in ins]), text(out)), mk('&', arr(*rs)), dst],
                         tmap={'ArrString': f'[&str; {len(ins)}]', 'String': '&str', 'T': 'T', 'impl AsRef<[&\'r NdArray<\'a, T>]>': f'[&NdArray; {len(ins)}]'}, ob=f'einsum_into_ptr {pat}', unroll=140, limit=60)
        if not s: continue
        cx.true(f'einsum_into_ptr {pat}:accepts a contiguous result', s.ok, pre=pre, site=f.sp, notes=s.notes)
        mems = [elem(fld(o, 'ptr')) for o, sh, sd in ops]
        agree_(cx, f'einsum_into_ptr {pat}:value', s.mem(dst), nest(fill0(elem(dst), ZERO, total), list(zip(dims, rows)), mems), pre, f, s)

def views(cx):
    """einsum_view: a view with the strides of the labels when nothing is summed, None otherwise"""
    f = cx.anchor('einsum_view', public=True)
    if not f: return
    from engine import mkSome
    for pat in 'i->i ij->ij ij->ji ii->i ij->i ij-> ii-> ijk->kji ijk->jik iij->ij iij->ji iji->ij iji->j ijk->ij iijj->ji iiii->i Zb->bZ'.split():
        l, out = pat.split('->')
        ops = [operand(0, len(l))]
        labels, dims, rows, need, osh = spec([l], out, ops)
        s = cx.summarise(f, plan_models(cx, None), args=[mk('&', ops[0][0]), tup(text(l), text(out))], tmap={'T': 'T'}, ob=f'einsum_view {pat}', unroll=140, limit=40)
        if not s: continue
        pre = [(pos(x), True) for x in ops[0][1].args]
        cx.equal(f'einsum_view {pat}:accepts exactly operands whose labels agree in length', s.ok, need, pre=pre, site=f.sp, notes=s.notes)
        if need is not TRUE: pre = pre + [(need, True)]
        some = eq(s.eng.discr(s.ret), ONE)
        cx.equal(f'einsum_view {pat}:is a view exactly if no label is summed', some, B(set(out) == set(l)), pre=pre, site=f.sp, notes=s.notes)
        if set(out) != set(l): continue
        v = fld(s.ret, '0', 'Some')
        cx.equal(f'einsum_view {pat}:shape', fld(v, 'shape'), arr(*osh), pre=pre, site=f.sp, notes=s.notes)
        cx.equal(f'einsum_view {pat}:strides', fld(v, 'stride'), arr(*[r[0] for r in rows]), pre=pre, site=f.sp, notes=s.notes)
        cx.equal(f'einsum_view {pat}:starts at the operand', fld(v, 'ptr'), fld(ops[0][0], 'ptr'), pre=pre, site=f.sp, notes=s.notes)

REJECT = [(['i'], 'ii', None), (['i'], 'j', None), (['ij'], 'ik', None), (['i1'], 'i', (2,)), (['ij'], 'i', (1,)), (['i'], 'i', (2,)), (['i.'], 'i', (1,)), (['i.j'], 'i', (2,)),
          (['i,'], 'i', (1,)), (['i-'], 'i', (1,)), (['i'], 'i.', None), (['i'], 'i,', None), (['i..'], 'i', (2,)), (['..'], '', (1,)), (['..i'], 'i', (3,)), (['i..'], 'i..', (2,)), (['..i..'], 'i', (1,)), (['i', 'j'], 'ij', (1,)), (['i'], 'i', (1, 1)), (['i', 'j'], 'ji', (2, 1)), (['iji'], 'ij', (2,))]
def rejects(cx):
    """malformed subscripts, and operands of another rank or number, are refused for every size"""
    f = cx.anchor('prepare_einsum')
    if not f: return
    for ins, out, rk in REJECT:
        rk = rk or tuple(len(l) for l in ins)
        ops = [operand(i, r) for i, r in enumerate(rk)]
        name = ','.join(ins) + '->' + out + ' on ranks ' + ','.join(map(str, rk))
        s = cx.summarise(f, plan_models(cx, None), args=[mk('&', arr(*[mk('&', o[0]) for o in ops])), tup(arr(*[text(l) for l in ins]), text(out))] + OUT,
                         tmap={'ArrString': f'[&str; {len(ins)}]', 'String': '&str', 'T': 'T'}, ob=f'reject {name}', unroll=140, limit=40)
        if s: cx.equal(f'reject {name}', s.ok, FALSE, pre=[(pos(x), True) for o, sh, sd in ops for x in sh.args], site=f.sp, notes=s.notes)

def ordering(cx):
    """the chosen order of the axes is a permutation of them, whatever the strides"""
    f = cx.anchor('find_best_axis_ordering')
    if not f: return
    for nops, nd in ((1, 1), (1, 2), (1, 3), (2, 2), (3, 2), (2, 3)):
        TB = arr(*[arr(*[nat(3000 + 10 * d + i, f's{d}_{i}') if i < nops else ZERO for i in range(4)]) for d in range(nd)])
        name = f'axis order[{nd} axes, {nops} operands]'
        s = cx.summarise(f, array_models(cx.P), args=[I(nops), I(nd), mk('&', TB)], tmap={'OPERANDS': '4'}, ob=name, unroll=40, forked=True, limit=90)
        if not s: continue
        cx.true(name + ':never panics', s.ok, site=f.sp, notes=s.notes)
        some = eq(s.eng.discr(s.ret), ONE)
        v = fld(s.ret, '0', 'Some')
        perm = land(eq(slen(v), I(nd)), *[lor(*[eq(sel(v, I(i)), I(j)) for i in range(nd)]) for j in range(nd)])
        cx.true(name + ':is a permutation of the axes', lor(lnot(some), perm), site=f.sp, notes=s.notes)

def run(cx):
    plans(cx)
    whole(cx)
    into(cx)
    views(cx)
    rejects(cx)
    ordering(cx)
