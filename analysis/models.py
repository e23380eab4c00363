"""Models (contracts) of std / core / num items and of a few crate-local value types."""
import re
from terms import *
import terms as tm
from mir import erase, parse_ty, unparse, subst_ty

NB = 8
FLAGNAMES = {}      # bit -> name, filled from the crate's constants by the checks

# ------------------------------------------------------------------ bit flags
def has(t, i):
    if t.op == 'flags': return t.args[1 + i]
    if t.op == 'ite': return ite(t.args[0], has(t.args[1], i), has(t.args[2], i))
    return mk('has', t, i)
register('has', has)
def fbits(t): return [has(t, i) for i in range(NB)]
def mkflags(bits):
    b0 = bits[0]
    if b0.op == 'has' and all(b.op == 'has' and b.args[0] is b0.args[0] and b.args[1] == i for i, b in enumerate(bits)):
        return b0.args[0]
    return mk('flags', NB, *bits)
register('flags', lambda n, *bits: mkflags(list(bits)))
def flags_const(v): return mk('flags', NB, *[B((v >> i) & 1) for i in range(NB)])

FLAG_OPS = {
    'bitor': lambda a, b: lor(a, b), 'union': lambda a, b: lor(a, b), 'insert': lambda a, b: lor(a, b),
    'bitor_assign': lambda a, b: lor(a, b),
    'bitand': land, 'intersection': land, 'bitand_assign': land,
    'sub': lambda a, b: land(a, lnot(b)), 'difference': lambda a, b: land(a, lnot(b)), 'remove': lambda a, b: land(a, lnot(b)),
    'sub_assign': lambda a, b: land(a, lnot(b)),
    'bitxor': lambda a, b: ite(a, lnot(b), b), 'toggle': lambda a, b: ite(a, lnot(b), b), 'bitxor_assign': lambda a, b: ite(a, lnot(b), b),
    'symmetric_difference': lambda a, b: ite(a, lnot(b), b),
}
def flag_model(eng, fr, s, target, args, tys, t):
    n = target.name
    val = lambda x, ty: eng.load(s, x, (), False) if ty.startswith('&') else x
    if n in ('contains', 'intersects'):
        a = val(args[0], tys[0]); b = val(args[1], tys[1])
        pairs = list(zip(fbits(a), fbits(b)))
        if n == 'contains': return land(*[lor(lnot(y), x) for x, y in pairs]), s
        return lor(*[land(x, y) for x, y in pairs]), s
    if n in ('empty',): return flags_const(0), s
    if n == 'is_empty': return land(*[lnot(x) for x in fbits(val(args[0], tys[0]))]), s
    if n == 'set':
        a = val(args[0], tys[0]); b = args[1]; v = args[2]
        r = mkflags([ite(y, v, x) for x, y in zip(fbits(a), fbits(b))])
        s = s.copy(); eng.store(s, args[0], (), False, r, fr, t['sp']); return UNIT, s
    if n in ('eq', 'ne') and len(args) == 2:
        r = land(*[lnot(ite(x, lnot(y), y)) for x, y in zip(fbits(val(args[0], tys[0])), fbits(val(args[1], tys[1])))])
        return (r if n == 'eq' else lnot(r)), s
    if n == 'clone': return val(args[0], tys[0]), s
    if n in ('not', 'complement'): return mkflags([lnot(x) for x in fbits(args[0])]), s
    f = FLAG_OPS.get(n)
    if f:
        a = val(args[0], tys[0]); b = val(args[1], tys[1])
        r = mkflags([f(x, y) for x, y in zip(fbits(a), fbits(b))])
        if tys[0].startswith('&mut'):
            s = s.copy(); eng.store(s, args[0], (), False, r, fr, t['sp']); return UNIT, s
        return r, s
    return NotImplemented

# ------------------------------------------------------------------ scalars
def arith(op, a, b):
    """floating point / generic element arithmetic; + and * commute exactly"""
    if op in ('add', 'mul'):
        a, b = sorted((a, b), key=lambda x: x.id)
    return mk('f' + op, a, b)
for _o in ('add', 'sub', 'mul', 'div', 'rem'):
    register('f' + _o, (lambda o: lambda a, b: arith(o, a, b))(_o))
def fneg(a):
    if a.op == 'fneg': return a.args[0]
    return mk('fneg', a)
register('fneg', fneg)
def bitop(op, a, b):
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        return I({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Shl': x << min(y, 200), 'Shr': x >> y}[op])
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        a, b = sorted((a, b), key=lambda x: x.id)
    return mark_int(mk('bit', op, a, b))
register('bit', bitop)

def padd(p, n):
    if p.op == 'ite': return ite(p.args[0], padd(p.args[1], n), padd(p.args[2], n))
    if p.op == 'padd': return padd(p.args[0], add(p.args[1], n))
    if n is ZERO: return p
    if p.op == 'ref' and p.args[1] and p.args[1][-1][0] == 'i':
        q = p.args[1]
        return mk('ref', p.args[0], q[:-1] + (('i', add(q[-1][1], n)),))
    return mk('padd', p, n)
register('padd', padd)

def strip_box(v): return v

def part(v, i):
    if v.op == 'iter': return v.args[i]
    return mk('part', v, i)
def part_upd(v, i, x):
    if v.op == 'iter':
        l = list(v.args); l[i] = x; return mk('iter', *l)
    return mk('partupd', v, i, x)

def splice(v, a, b, val):
    """v with v[a..b] replaced by val (same length)"""
    if a is ZERO and b is slen(v): return val
    n = slen(v)
    if v.op == 'arr' and a.op == 'c' and b.op == 'c' and slen(val).op == 'c' and slen(val).args[0] == b.args[0] - a.args[0]:
        return arr(*v.args[:a.args[0]], *[sel(val, I(j)) for j in range(b.args[0] - a.args[0])], *v.args[b.args[0]:])
    return mk('splice', v, a, b, val)
def _sel_splice(v, i): pass

def setlen(x, n):
    if x.op in ('gen', 'arr') and slen(x) is n: return x
    if x.op == 'buf': k = mark_unsigned(fresh('k')); return gen(n, lam(k, mk('uninit', k)))
    if x.op == 'st' and slen(x) is ZERO: return tm.st(setlen(x.args[0], n), x.args[1], x.args[2])
    if x.op == 'gen' and n.op != 'c' and slen(x).op != 'c':
        k = mark_unsigned(fresh('k')); return gen(n, lam(k, ite(lt(k, slen(x)), sel(x, k), mk('uninit', k))))
    if x.op == 'setlen': return setlen(x.args[0], n)
    if x.op == 'ite': return ite(x.args[0], setlen(x.args[1], n), setlen(x.args[2], n))
    return mk('setlen', x, n)
register('setlen', setlen)
_slen0 = tm.slen
def slen2(t):
    if t.op == 'setlen': return t.args[1]
    if t.op == 'splice': return slen2(t.args[0])
    if t.op == 'buf': return ZERO
    return _slen0(t)
# make the sequence functions aware of the extra constructors
def slen(t): return slen2(t)
_old_slen = tm.slen
def _patched(t):
    if t.op in ('setlen', 'splice', 'buf'): return slen2(t)
    return _old_slen(t)
tm.slen = _patched
CONS['len'] = _patched
slen = _patched
_old_sel = tm.sel
def _psel(t, i):
    if t.op == 'setlen': return _psel(t.args[0], i)
    if t.op == 'splice':
        v, a, b, val = t.args
        lo = pos(add(sub(i, a), ONE)); hi = lt(i, b)
        if lo is TRUE and hi is TRUE: return _psel(val, sub(i, a))
        if lo is FALSE or hi is FALSE: return _psel(v, i)
    return _old_sel(t, i)
tm.sel = _psel
CONS['sel'] = _psel
sel = _psel

def transmute(a, frm, to):
    if erase(frm) == erase(to): return a
    return a if (frm.startswith('*') or frm.startswith('&') or 'NonNull' in frm) else mk('transmute', to, a)

# ------------------------------------------------------------------ constants
def flit(txt):
    """a float literal; zero and one are those of every element type"""
    m = re.match(r'^(?:const )?(-?\d+(?:\.\d+)?)_?(?:f32|f64)?$', str(txt))
    if m and float(m.group(1)) == 0: return mk('zero')
    if m and float(m.group(1)) == 1: return mk('one')
    return mk('f', txt)
def named_const(eng, name, o):
    ty = erase(o.get('ty', ''))
    if ty.endswith('::NdArrayFlags') and 'int' in o: return flags_const(int(o['int']))
    n = name.split('::')[-1]
    if ty in ('f32', 'f64') : return flit(o.get('txt', name))
    if n in ('MAX', 'MIN', 'INFINITY', 'NEG_INFINITY', 'EPSILON', 'NAN') and name.startswith(('std', 'core')):
        return mk('const', name)
    if 'PhantomData' in ty: return mk('phantom')
    return None

def agg(eng, short, rv, ops):
    if short == 'std::marker::PhantomData': return mk('phantom')
    if short.endswith('InternalBitFlags'): return None
    return None

OPNAMES = {'Add::add': 'add', 'Sub::sub': 'sub', 'Mul::mul': 'mul', 'Div::div': 'div', 'Rem::rem': 'rem'}
BITNAMES = {'BitAnd::bitand': 'BitAnd', 'BitOr::bitor': 'BitOr', 'BitXor::bitxor': 'BitXor', 'Shl::shl': 'Shl', 'Shr::shr': 'Shr'}
INTS = {'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'}

def effectful(name):
    n = name.split('::')[-1]
    return n in ('backward', 'backward_with', 'zero_gradient', 'borrow_mut', '_print', '_eprint', 'sample', 'thread_rng', 'fnptr')

def local_model(eng, fr, s, target, fn, args, tys, t):
    if '::flags::' in target.id and 'NdArrayFlags' in (target.impl_self or ''):
        return flag_model(eng, fr, s, target, args, tys, t)
    return NotImplemented

# ------------------------------------------------------------------ helpers
def seq_of_ref(eng, s, p):
    """sequence of element references of the slice/vec behind p"""
    if p.op == 'ite': 
        return ite(p.args[0], seq_of_ref(eng, s, p.args[1]), seq_of_ref(eng, s, p.args[2]))
    content = eng.load(s, p, (), False)
    n = slen(content)
    i = mark_unsigned(fresh('i'))
    if p.op == '&': e = mk('&', sel(content, i))
    else:
        k, pr = eng.target(p, False)
        e = mk('ref', k, pr + (('i', i),))
    return mk('gen', n, lam(i, e)) if not n.op == 'c' else gen(n, lam(i, e))

def to_iter(eng, s, v, ty):
    """value of type ty -> iter term or None"""
    if v.op == 'iter': return v
    ty = erase(ty)
    if v.op == 'ite':
        a = to_iter(eng, s, v.args[1], ty); b = to_iter(eng, s, v.args[2], ty)
        if a is None or b is None: return None
        return ite(v.args[0], a, b)
    if v.op == 'adt' and v.args[0].endswith('ops::Range'):
        a, b = fld(v, 'start'), fld(v, 'end')
        i = mark_unsigned(fresh('i'))
        n = sub(b, a)
        return mk('iter', gen(n, lam(i, add(a, i))), ZERO)
    if ty.startswith('&mut std::ops::Range<') or ty.startswith('&mut std::slice::Iter'): return None
    if ty.startswith('std::ops::Range<'):
        a, b = fld(v, 'start'), fld(v, 'end')
        eng.mark(a, ty[17:-1]); eng.mark(b, ty[17:-1])
        i = mark_unsigned(fresh('i'))
        return mk('iter', gen(sub(b, a), lam(i, add(a, i))), ZERO)
    if v.op == 'rangeinc':
        a, b = v.args
        i = mark_unsigned(fresh('i'))
        return mk('iter', gen(add(sub(b, a), ONE), lam(i, add(a, i))), ZERO)
    t = parse_ty(ty)
    if t[0] in ('&', '&mut'):
        inner = t[1]
        if inner[0] in ('slice', 'array') or (inner[0] == 'path' and inner[1] in ('std::vec::Vec', 'std::collections::VecDeque')):
            return mk('iter', seq_of_ref(eng, s, v), ZERO)
        return None
    if t[0] == 'array' or (t[0] == 'path' and t[1] in ('std::vec::Vec', 'std::collections::VecDeque')):
        return mk('iter', v, ZERO)
    if t[0] == 'path' and t[1].split('::')[-1] in ('IntoIter', 'Iter', 'IterMut', 'Rev', 'Zip', 'Enumerate', 'Map', 'Copied', 'Cloned', 'Chain', 'Skip', 'Take'):
        return mk('iter', mk('seqof', v), ZERO)
    return None

def rest(it):
    seq, p = it.args
    if p is ZERO: return seq
    return slc(seq, p, slen(seq))

def lift_ite(f, t):
    if t.op == 'ite': return ite(t.args[0], lift_ite(f, t.args[1]), lift_ite(f, t.args[2]))
    return f(t)

def by_val(eng, s, x):
    """strip references from an item"""
    if x.op in ('ref', '&'): return by_val(eng, s, eng.load(s, x, (), False))
    if x.op == 'ite' : return ite(x.args[0], by_val(eng, s, x.args[1]), by_val(eng, s, x.args[2]))
    if x.op == 'adt' and x.args[0] == 'Option' and x.args[1] == 'Some':
        y = x.args[-1]
        if isinstance(y, T) and y.op in ('ref', '&'):
            from engine import mkSome
            return mkSome(by_val(eng, s, y))
    return x

def clos(eng, fr, s, f, args, t):
    """pure application of a closure/function value; -> term or None when impure"""
    n0 = (len(eng.log), len(eng.calls))
    base = s.copy()
    if f.op == 'ref': f = eng.load(s, f, (), False)
    try:
        r = eng.call_value(fr, base, f, args, ['' for _ in args], t)
    except Exception as e:
        if type(e).__name__ == 'Unsupported': return None
        raise
    if r is None: return None
    v, st2 = r
    v = eng.snapshot_ret(st2, v) if hasattr(eng, 'snapshot_ret') else v
    return v, st2

def map_seq(eng, fr, s, seq, f, t):
    i = mark_unsigned(fresh('i'))
    r = clos(eng, fr, s, f, [sel(seq, i)], t)
    if r is None: return None
    v, st2 = r
    from engine import OK
    # panics inside the closure become per-element obligations
    extra = [c if val else lnot(c) for c, val in st2.pc[len(s.pc):]]
    okb = eng.get(s, OK); oka = land(eng.get(st2, OK), *extra)
    req = TRUE
    if oka is not okb:
        req = land(*[x for x in (oka.args if oka.op == 'and' else (oka,)) if x is not okb and not (okb.op == 'and' and x in okb.args)])
    return i, v, req

def each(eng, fr, s, seq, n, f, t, name):
    """closure applied to the elements of a sequence of known length, one by one"""
    from engine import OK, mkSome, NONE
    out = []; st_ = s
    for j in range(n):
        item = sel(seq, I(j)); a = item
        if name == 'filter':
            st_ = st_.copy(); k = ('L', 'tmp', next(eng.fids)); st_.env[k] = item; a = mk('ref', k, ())
        r = clos(eng, fr, st_, f, [a], t)
        if r is None: return None
        v, s2 = r
        extra = [c if val else lnot(c) for c, val in s2.pc[len(st_.pc):]]
        ok = land(eng.get(s2, OK), *extra)
        if ok is not eng.get(st_, OK): st_ = st_.copy(); st_.env[OK] = ok
        if name == 'filter':
            v = eng.snapdeep(s2, v)
            if v.op != 'b': return None
            if v.args[0]: out.append(item)
        else: out.append(eng.snapdeep(s2, v) if v.op not in ('ref', '&') else v)
    if name == 'all': return land(*out), st_
    if name == 'any': return lor(*out), st_
    if name == 'position':
        r = NONE
        for j in range(n - 1, -1, -1): r = ite(out[j], mkSome(I(j)), r)
        return r, st_
    return mk('iter', arr(*out), ZERO), st_

def seq_zip(a, b):
    n = imin(slen(a), slen(b)); i = mark_unsigned(fresh('i'))
    return gen(n, lam(i, tup(sel(a, i), sel(b, i))))

def range_bounds(eng, r, ty, n):
    ty = erase(ty)
    nm = r.args[0] if r.op == 'adt' else ty
    nm = nm.split('<')[0].split('::')[-1]
    if nm == 'Range': return fld(r, 'start'), fld(r, 'end')
    if nm == 'RangeFrom': return fld(r, 'start'), n
    if nm == 'RangeTo': return ZERO, fld(r, 'end')
    if nm == 'RangeFull': return ZERO, n
    if nm == 'RangeInclusive' and r.op == 'rangeinc': return r.args[0], add(r.args[1], ONE)
    if nm == 'RangeToInclusive': return ZERO, add(fld(r, 'end'), ONE)
    return None

def index(eng, fr, s, base, idx, ity, t, checked=True):
    """&base[idx] -> (ref, state)"""
    if base.op == 'ite':
        r1 = index(eng, fr, s, base.args[1], idx, ity, t, False); r2 = index(eng, fr, s, base.args[2], idx, ity, t, False)
        return ite(base.args[0], r1[0], r2[0]), s
    content = eng.load(s, base, (), False)
    n = slen(content)
    rb = None
    if erase(ity) in INTS:
        if checked:
            ns = eng.assume_state(s, lt(idx, n), True)
            if ns is None: return None
            s = ns
        if base.op == '&': return mk('&', sel(content, idx)), s
        k, pr = eng.target(base, False)
        return mk('ref', k, pr + (('i', idx),)), s
    rb = range_bounds(eng, idx, ity, n)
    if rb is None: return NotImplemented
    a, b = rb
    if checked:
        for c in (le(a, b), le(b, n)):
            ns = eng.assume_state(s, c, True)
            if ns is None: return None
            s = ns
    if base.op == '&': return mk('&', slc(content, a, b)), s
    k, pr = eng.target(base, False)
    return mk('ref', k, pr + (('s', a, b),)), s

def copy_nonoverlapping(eng, fr, s, src, dst, n, sp):
    i = mark_unsigned(fresh('i'))
    v = eng.load(s, padd(src, i), (), True)
    write_range(eng, fr, s, dst, n, lam(i, v), sp)

def write_range(eng, fr, s, dst, n, l, sp):
    """dst[0..n] = l"""
    if dst.op == 'ite': raise Exception('write_range ite')
    k, pr = eng.target(dst, True)
    cur = eng.read(s, k, pr[:-1])
    acc = fresh('m'); kk = mark_unsigned(fresh('k'))
    off = pr[-1][1]
    new = fold(cur, n, acc, kk, tm.st(acc, add(off, kk), apply(l, kk)))
    eng.write(s, k, pr[:-1], new, fr, sp)

_old_fold = tm.fold
def _pfold(init, n, acc, k, body):
    if init.op == 'buf' and body.op == 'st' and body.args[0] is acc and body.args[1] is k and not occurs(acc, body.args[2]):
        return tm.mk('gen', n, lam(k, body.args[2]))
    if init.op == 'buf' and body.op != 'st': init = arr()
    return _old_fold(init, n, acc, k, body)
tm.fold = _pfold
fold = _pfold

# ------------------------------------------------------------------ dispatcher
def external(eng, fr, s, path, fn, args, tys, t, gargs):
    from engine import mkSome, mkOk, NONE, OK
    p = re.sub(r'^(std|num|core)::', '', path)
    p2 = '::'.join(path.split('::')[-2:])
    name = path.split('::')[-1]
    L = lambda x: eng.load(s, x, (), False)
    def V(i):
        ty = tys[i] if i < len(tys) else ''
        x = args[i]
        while ty.startswith('&'):
            x = L(x); ty = re.sub(r'^&(mut )?', '', ty)
        return x
    def ret(v): return v, s
    selfty = subst_ty(erase(fn.selfty), fr.tmap) if fn.selfty else ''
    a0ty = tys[0] if tys else ''

    # diverging
    if 'panicking' in path or name in ('panic_fmt', 'panic', 'assert_failed', 'unimplemented_default_msg', 'begin_panic', 'panic_bounds_check', 'unwrap_failed'):
        return None
    if path.startswith('std::fmt') : return ret(mk('call', path))
    if name == 'assert_unchecked': return ret(UNIT)

    # ---- smart pointers, borrowing
    if p2 in ('Deref::deref', 'DerefMut::deref_mut'):
        st = selfty.split('<')[0]
        if st in ('std::cell::RefMut', 'std::cell::Ref') : return ret(L(args[0]))
        return ret(args[0])
    if p2 in ('Rc::new', 'RefCell::new', 'ManuallyDrop::new', 'Cell::new', 'Arc::new', 'Box::new'): return ret(args[0])
    if p2 == 'Box::new_uninit':
        b = mk('box', next(eng.fids)); return ret(b)
    if name == 'box_assume_init_into_vec_unsafe':
        v = args[0]
        c = eng.get(s, ('P', v)) if v.op == 'box' else v
        return ret(find_arr(c))
    if p2 in ('RefCell::borrow', 'RefCell::borrow_mut'): return ret(args[0])
    if p2 == 'RefCell::as_ptr': return ret(args[0])
    if p2 == 'Rc::ptr_eq': return ret(mark_bool(mk('ptr_eq', *sorted((L(args[0]), L(args[1])), key=lambda x: x.id))))
    if p2 == 'Rc::try_unwrap':
        c = eq(mark_unsigned(mk('rc_count', args[0])), ONE)
        return ret(ite(c, adt('Result', 'Ok', ('0',), args[0]), adt('Result', 'Err', ('0',), args[0])))
    if p2 in ('AsRef::as_ref', 'Borrow::borrow', 'AsMut::as_mut', 'BorrowMut::borrow_mut'):
        st = selfty
        if st.startswith('std::ptr::NonNull'): return NotImplemented
        a = args[0]
        while p2 == 'AsRef::as_ref' and st.startswith('&') and not st.startswith('&mut'): st = st[1:]; a = L(a)
        return ret(a)
    if p2 in ('NonNull::as_ref', 'NonNull::as_mut'):
        return ret(L(args[0]))
    if p2 in ('NonNull::as_ptr', 'NonNull::new_unchecked', 'NonNull::cast'): return ret(args[0])
    if p2 == 'NonNull::read': return ret(eng.load(s, args[0], (), True))
    if p2 in ('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'slice::to_owned', 'slice::into_vec', 'Vec::into_boxed_slice'):
        return ret(L(args[0]) if a0ty.startswith('&') or name == 'to_vec' else args[0])
    if p2 in ('Into::into', 'From::from') and args[0].op == 'b' and tys[0] == 'bool':
        dst = (gargs[-1] if p2 == 'Into::into' else selfty)
        if dst in INTS: return ret(ONE if args[0] is TRUE else ZERO)
        if dst != 'bool': return ret(mk('one' if args[0] is TRUE else 'zero'))
    if p2 in ('Into::into', 'From::from'):
        if fn.res and fn.res['krate'] == eng.P.crate: return NotImplemented
        if len(gargs) >= 2 and gargs[0] == gargs[1]: return ret(args[0])
        if len(gargs) >= 2 and gargs[0].startswith('std::vec::Vec<') and gargs[1].startswith('std::collections::VecDeque<'): return ret(args[0])
        if len(gargs) >= 2 and gargs[0].startswith('std::vec::Vec<') and gargs[1].startswith('['): return ret(args[0])
        if len(gargs) >= 2 and gargs[0].startswith('std::vec::Vec<') and gargs[1].startswith('&'): return ret(L(args[0]))
        return NotImplemented
    if p2 == 'Default::default':
        if selfty in INTS: return ret(ZERO)
        if selfty == 'bool': return ret(FALSE)
        if selfty.startswith('std::vec::Vec'): return ret(arr())
        if 'PhantomData' in selfty: return ret(mk('phantom'))
        if re.match(r'^([A-Z]\w*|elem::Any)$', selfty) or selfty in ('f32', 'f64'): return ret(mk('zero'))
        return NotImplemented
    if name == 'drop' and len(args) == 1 and eng.on_drop:
        s = eng.on_drop(eng, s, args[0], tys[0]); return ret(UNIT)
    if name in ('forget', 'drop') and len(args) == 1: return ret(UNIT)
    if p2 in ('mem::replace', 'mem::take', 'mem::swap'):
        s = s.copy(); old = L(args[0])
        if name == 'swap':
            o2 = L(args[1]); eng.store(s, args[0], (), False, o2, fr, t['sp']); eng.store(s, args[1], (), False, old, fr, t['sp']); return UNIT, s
        new = args[1] if name == 'replace' else (arr() if 'Vec' in gargs[0] else NONE if 'Option' in gargs[0] else mk('default', gargs[0]))
        eng.store(s, args[0], (), False, new, fr, t['sp']); return old, s

    # ---- constant strings and characters
    if name in ('is_ascii', 'as_bytes', 'chars', 'len', 'is_empty', 'as_ref', 'as_str', 'bytes') and args and strlit(L, args[0]) is not None and '::str::' in path.replace('impl str', '::str::') + ('::str::' if name == 'as_ref' else ''):
        txt = strlit(L, args[0])
        if name in ('as_ref', 'as_str'): return ret(mk('s', '"' + txt + '"'))
        if name == 'is_ascii': return ret(B(all(ord(x) < 128 for x in txt)))
        if name == 'is_empty': return ret(B(not txt))
        bs = [I(b) for b in txt.encode()]
        if name == 'len': return ret(I(len(bs)))
        if name == 'as_bytes': return ret(mk('&', mark_useq(arr(*bs))))
        return ret(mk('iter', arr(*bs) if name == 'bytes' else arr(*[mk('char', ord(x)) for x in txt]), ZERO))
    if name.startswith(('is_ascii_', 'to_ascii_')) and args:
        x = args[0]
        while x.op in ('ref', '&'): x = L(x)
        if x.op in ('c', 'char'):
            k = chr(x.args[0]) if 0 <= x.args[0] < 128 else '\u0100'
            r = {'is_ascii_alphabetic': k.isalpha(), 'is_ascii_alphanumeric': k.isalnum(), 'is_ascii_digit': k.isdigit(), 'is_ascii_lowercase': k.islower(),
                 'is_ascii_uppercase': k.isupper(), 'is_ascii_whitespace': k in ' \t\n\r\x0c', 'is_ascii_punctuation': k.isprintable() and not k.isalnum() and k != ' '}.get(name)
            if r is not None: return ret(B(r and k != '\u0100'))
            if name in ('to_ascii_lowercase', 'to_ascii_uppercase') and k != '\u0100': return ret(I(ord(k.lower() if name == 'to_ascii_lowercase' else k.upper())))
    # ---- arithmetic traits
    ops2 = '::'.join(path.split('::')[-2:])
    base_ty = re.sub(r'^&', '', selfty)
    if ops2 in OPNAMES or ops2 in BITNAMES or ops2 in ('Neg::neg', 'Not::not'):
        if any(x.startswith(eng.P.crate) for x in [re.sub(r'^&(mut )?', '', y) for y in [selfty] + gargs]): return NotImplemented
        vs = [V(i) for i in range(len(args))]
        if ops2 in OPNAMES:
            if base_ty in INTS: return ret(eng.binop(OPNAMES[ops2].capitalize(), vs[0], vs[1], base_ty))
            return ret(arith(OPNAMES[ops2], vs[0], vs[1]))
        if ops2 in BITNAMES:
            if base_ty == 'bool': return ret(eng.binop(BITNAMES[ops2], vs[0], vs[1], 'bool'))
            return ret(bitop(BITNAMES[ops2], vs[0], vs[1]))
        if ops2 == 'Neg::neg': return ret(neg(vs[0]) if base_ty in INTS else fneg(vs[0]))
        if ops2 == 'Not::not': return ret(lnot(vs[0]) if base_ty == 'bool' else mk('bitnot', vs[0]))
    m = re.match(r'^(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|Shl|Shr|BitXor)Assign::', ops2)
    if m:
        if any(x.startswith(eng.P.crate) for x in [selfty]): return NotImplemented
        o = m.group(1)
        s = s.copy(); cur = L(args[0]); b = args[1]
        if tys[1].startswith('&'): b = V(1)
        if base_ty in INTS or base_ty == 'bool': v = eng.binop(o, cur, b, base_ty)
        elif o in ('Add', 'Sub', 'Mul', 'Div', 'Rem'): v = arith(o.lower(), cur, b)
        else: v = bitop(o, cur, b)
        eng.store(s, args[0], (), False, v, fr, t['sp']); return UNIT, s
    if p2 in ('PartialEq::eq', 'PartialEq::ne'):
        if any(y.startswith(eng.P.crate) for y in [re.sub(r'^[&]*', '', x) for x in gargs]) and not 'Flags' in selfty:
            if not (fn.res is None): return NotImplemented
        a, b = V(0), V(1)
        r = eq(by_val(eng, s, a), by_val(eng, s, b))
        return ret(r if name == 'eq' else lnot(r))
    if p2 in ('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge'):
        a, b = V(0), V(1)
        if base_ty in INTS:
            return ret({'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[name])
        return ret({'lt': mk('flt', a, b), 'le': mk('fle', a, b), 'gt': mk('flt', b, a), 'ge': mk('fle', b, a)}[name])
    if p2 == 'PartialOrd::partial_cmp' and base_ty not in INTS: return ret(mk('pcmp', by_val(eng, s, V(0)), by_val(eng, s, V(1))))
    if p2 in ('Ord::min', 'cmp::min') and (selfty in INTS or (gargs and gargs[0] in INTS)): return ret(imin(args[0], args[1]))
    if p2 in ('Ord::max', 'cmp::max') and (selfty in INTS or (gargs and gargs[0] in INTS)): return ret(imax(args[0], args[1]))
    if p2 == 'NumCast::from':
        dst, src = selfty or (gargs[0] if gargs else ''), tys[0] if tys else ''
        return ret(mkSome(ncast(dst, src, args[0])))
    if p2 in ('Float::ceil', 'f32::ceil', 'f64::ceil'): return ret(mk('fceil', V(0)))
    if p2 in ('Float::floor', 'f32::floor', 'f64::floor'): return ret(mk('ffloor', V(0)))
    if p2 in ('Float::round', 'f32::round', 'f64::round'): return ret(mk('fround', V(0)))
    if p2 in ('Float::trunc', 'f32::trunc', 'f64::trunc'): return ret(mk('ftrunc', V(0)))
    if p2 == 'One::one': return ret(ONE if selfty in INTS else mk('one'))
    if p2 == 'Zero::zero': return ret(ZERO if selfty in INTS else mk('zero'))
    if p2 == 'Zero::is_zero': return ret(eq(V(0), mk('zero')))
    if p2 in ('TryInto::try_into', 'TryFrom::try_from'):
        to = gargs[1] if p2.startswith('TryInto') and len(gargs) > 1 else gargs[0] if gargs else ''
        m = re.match(r'^(&(?:mut )?)?\[.*; (\d+)(?:_usize)?\]$', to)
        if m:
            x = L(args[0]) if tys[0].startswith('&') else args[0]
            v = mk('&', x) if m.group(1) else x
            return ret(ite(eq(slen(x), I(int(m.group(2)))), mkOk(v), adt('Result', 'Err', ('0',), mk('opaque_err'))))
    if p2 == 'MulAdd::mul_add': return ret(arith('add', arith('mul', args[0], args[1]), args[2]))
    if p2 in ('Bounded::max_value', 'Bounded::min_value'): return ret(mk(name))
    if p2 == 'Signed::abs': return ret(mk('abs', V(0)))

    if '::num::' in path and tys and tys[0] in ('usize', 'isize', 'u32', 'u64', 'i64', 'i8', 'u8'):
        r = int_method(eng, name, args, tys[0])
        if r is not None: return ret(r)
    if p2 == 'Ord::clamp' and selfty in INTS: return ret(imin(imax(args[0], args[1]), args[2]))

    # ---- pointers
    if path.startswith('std::ptr') or p2.startswith('NonNull::'):
        if name in ('add', 'wrapping_add'): return ret(padd(args[0], args[1]))
        if name in ('offset', 'wrapping_offset'): return ret(padd(args[0], args[1]))
        if name == 'sub' and len(args) == 2: return ret(padd(args[0], neg(args[1])))
        if name in ('cast', 'cast_mut', 'cast_const', 'as_ptr'): return ret(args[0])
        if name == 'read': return ret(eng.load(s, args[0], (), True))
        if name == 'write':
            s = s.copy(); eng.store(s, args[0], (), True, args[1], fr, t['sp']); return UNIT, s
        if name in ('copy_nonoverlapping', 'copy'):
            s = s.copy(); copy_nonoverlapping(eng, fr, s, args[0], args[1], args[2], t['sp']); return UNIT, s
        if name in ('null_mut', 'null'): return ret(mk('null'))
    if p2 in ('slice::from_raw_parts', 'slice::from_raw_parts_mut'):
        k, pr = eng.target(args[0], True)
        off = pr[-1][1] if pr and pr[-1][0] == 'i' else ZERO
        return ret(mk('ref', k, pr[:-1] + (('s', off, add(off, args[1])),)))

    # ---- Vec / slices
    c0 = path.split('::')[-2] if '::' in path else ''
    if c0 in ('Vec', 'slice', 'VecDeque', 'array') or path == 'std::vec::from_elem' or (p2 == 'Extend::extend' and 'Vec<' in tys[0]):
        r = vec_model(eng, fr, s, name, args, tys, t, L, V)
        if r is not NotImplemented: return r
    if p2 in ('Index::index', 'IndexMut::index_mut'):
        if selfty.startswith(eng.P.crate): return NotImplemented
        return index(eng, fr, s, args[0], args[1], tys[1], t)
    if p2 == 'RangeInclusive::new': return ret(mk('rangeinc', args[0], args[1]))
    if p2 == 'RangeInclusive::start': return ret(field_ref(eng, s, args[0], 0))
    if p2 == 'RangeInclusive::end': return ret(field_ref(eng, s, args[0], 1))

    # ---- Option / Result
    if c0 in ('Option', 'Result'):
        r = opt_model(eng, fr, s, c0, name, args, tys, t, L)
        if r is not NotImplemented: return r
    if p2 == 'Try::branch':
        x = args[0]
        def br(x):
            if x.op == 'adt':
                if x.args[1] in ('Some', 'Ok'): return adt('ControlFlow', 'Continue', ('0',), x.args[3])
                return adt('ControlFlow', 'Break', ('0',), x)
            okn = 'Some' if 'Option' in selfty else 'Ok'
            c = eq(eng.discr(x), I(1 if okn == 'Some' else 0))
            return mk('ite', c, adt('ControlFlow', 'Continue', ('0',), fld(x, '0', okn)), adt('ControlFlow', 'Break', ('0',), x))
        return ret(lift_ite(br, x))
    if p2 == 'FromResidual::from_residual':
        def fr_(x):
            if x.op == 'adt' and x.args[1] == 'Err': return x
            return x
        return ret(lift_ite(fr_, args[0]))
    if p2 == 'TryInto::try_into' or p2 == 'TryFrom::try_from': return NotImplemented

    # ---- closures
    if re.match(r'^Fn(Mut|Once)?::call(_mut|_once)?$', p2):
        f = args[0]
        while f.op in ('ref', '&'): f = L(f)
        a = args[1]
        parts = list(a.args) if a.op == 'tuple' else [] if a is UNIT else [fld(a, '0')]
        r = eng.call_value(fr, s, f, parts, ['' for _ in parts], t)
        return r

    # ---- iterators
    if p2 == 'IntoIterator::into_iter':
        it = to_iter(eng, s, args[0], a0ty)
        return ret(it if it is not None else args[0])
    if path.startswith('std::iter') or c0 in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
        r = iter_model(eng, fr, s, p2, name, fn, args, tys, t, gargs, L)
        if r is not NotImplemented: return r
    return NotImplemented

def field_ref(eng, s, r, i):
    v = eng.load(s, r, (), False)
    if v.op == 'rangeinc': return mk('&', v.args[i])
    return mk('&', mk('fld', v, ('start', 'end')[i]))

def find_arr(c):
    if c.op in ('arr', 'gen'): return c
    if c.op == 'upd': return find_arr(c.args[2])
    if c.op == 'adt' and len(c.args) > 3: return find_arr(c.args[-1])
    return mk('vecof', c)

def int_method(eng, name, a, ty):
    """inherent methods of integers, over the integers (overflow is outside the analysis, unsigned underflow is not)"""
    from engine import mkSome, NONE
    uns = ty.startswith('u')
    x, y = (list(a) + [None, None])[:2]
    if name == 'saturating_sub': return imax(sub(x, y), ZERO) if uns else sub(x, y)
    if name == 'saturating_add': return add(x, y)
    if name == 'saturating_mul': return mul(x, y)
    if name == 'checked_sub': return ite(le(y, x), mkSome(sub(x, y)), NONE) if uns else mkSome(sub(x, y))
    if name == 'checked_add': return mkSome(add(x, y))
    if name == 'checked_mul': return mkSome(mul(x, y))
    if name in ('checked_div', 'checked_rem') and uns: return ite(eq(y, ZERO), NONE, mkSome((idiv if name == 'checked_div' else irem)(x, y)))
    if name == 'abs_diff': return ite(le(y, x), sub(x, y), sub(y, x))
    if name in ('unsigned_abs', 'abs') and ty == 'isize': return ite(lt(x, ZERO), neg(x), x)
    if name == 'rem_euclid' and uns: return irem(x, y)
    if name == 'div_euclid' and uns: return idiv(x, y)
    if name == 'div_ceil' and uns: return idiv(add(x, sub(y, ONE)), y)
    if name == 'pow' and y is not None and y.op == 'c' and 0 <= y.args[0] <= 4:
        r = ONE
        for _ in range(y.args[0]): r = mul(r, x)
        return r
    return None

def vec_model(eng, fr, s, name, args, tys, t, L, V):
    def ret(v): return v, s
    def setv(new, r=UNIT):
        nonlocal s
        s = s.copy(); eng.store(s, args[0], (), False, new, fr, t['sp']); return r, s
    if name == 'new': return ret(arr())
    if name == 'with_capacity': return ret(mk('buf', args[0]))
    if name == 'from_elem':
        i = fresh('i'); return ret(mk('gen', args[1], lam(i, args[0])) if args[1].op != 'c' else gen(args[1], lam(i, args[0])))
    if name == 'from_raw_parts': return ret(mk('vecraw', *args))
    c = None
    if tys and tys[0].startswith('&'):
        c = L(args[0])
        if c.op == 'buf' and name not in ('as_mut_ptr', 'as_ptr', 'set_len', 'capacity', 'len'): c = arr()
    if name == 'len': return ret(slen(c))
    if name == 'is_empty': return ret(lnot(pos(slen(c))))
    if name == 'capacity': return ret(mark_unsigned(mk('cap', c)))
    if name == 'push' or name == 'push_back': return setv(push(c, args[1]))
    if name == 'push_front': return setv(concat(arr(args[1]), c))
    if name == 'pop':
        n = slen(c)
        last = sub(n, ONE)
        from engine import mkSome, NONE
        if c.op == 'push':
            return setv(c.args[0], mkSome(c.args[1]))
        r = ite(pos(n), mkSome(sel(c, last)), NONE)
        return setv(ite(pos(n), slc(c, ZERO, last), c), r)
    if name == 'insert':
        return setv(insert(c, args[1], args[2]))
    if name == 'remove':
        ns = eng.assume_state(s, lt(args[1], slen(c)), True)
        if ns is None: return None
        s = ns
        return setv(remove(c, args[1]), sel(c, args[1]))
    if name == 'set_len': return setv(setlen(c, args[1]))
    if name == 'resize':
        return setv(resize(c, args[1], args[2]))
    if name == 'truncate': return setv(slc(c, ZERO, imin(args[1], slen(c))))
    if name == 'clear': return setv(arr())
    if name == 'extend' and len(args) > 1:
        it = to_iter(eng, s, args[1], tys[1])
        if it is None or it.op != 'iter': return NotImplemented
        q = rest(it); n = slen(q); i = mark_unsigned(fresh('i'))
        e = sel(q, i)
        if erase(tys[1]).startswith('&') or e.op in ('ref', '&') and not elem_is_ref(tys[0]): e = by_val(eng, s, e)
        if q.op == 'fsel': return NotImplemented
        return setv(concat(c, mkgen(n, i, e)))
    if name in ('extend_from_slice',): return setv(concat(c, L(args[1])))
    if name == 'append': return NotImplemented
    if name in ('as_mut_ptr', 'as_ptr'):
        p = args[0]
        def f(p):
            if p.op == '&': return mk('&ptr', p)
            k, pr = eng.target(p, False)
            if pr and pr[-1][0] == 's': return mk('ref', k, pr[:-1] + (('i', pr[-1][1]),))
            return mk('ref', k, pr + (('i', ZERO),))
        return ret(lift_ite(f, p))
    if name in ('as_slice', 'as_mut_slice', 'as_ref'): return ret(args[0])
    if name in ('iter', 'iter_mut'): return ret(mk('iter', seq_of_ref(eng, s, args[0]), ZERO))
    if name == 'into_iter': return ret(mk('iter', args[0], ZERO))
    if name == 'contains':
        if slen(c).op == 'c' and slen(c).args[0] <= 64: return ret(lor(*[eq(sel(c, I(j)), V(1)) for j in range(slen(c).args[0])]))
        i = mark_unsigned(fresh('i')); x = V(1)
        return ret(lnot(forall(slen(c), lam(i, lnot(eq(sel(c, i), x))))))
    if name in ('get_unchecked', 'get_unchecked_mut'):
        return index(eng, fr, s, args[0], args[1], tys[1], t, False)
    if name in ('get', 'get_mut'):
        from engine import mkSome, NONE
        r = index(eng, fr, s, args[0], args[1], tys[1], t, False)
        if r is NotImplemented or r is None: return NotImplemented
        if erase(tys[1]) not in INTS: return NotImplemented
        return ret(ite(lt(args[1], slen(c)), mkSome(r[0]), NONE))
    if name in ('first', 'last', 'last_mut', 'first_mut'):
        from engine import mkSome, NONE
        n = slen(c); i = ZERO if name.startswith('first') else sub(n, ONE)
        r = index(eng, fr, s, args[0], i, 'usize', t, False)
        return ret(ite(pos(n), mkSome(r[0]), NONE))
    if name == 'swap':
        a, b = args[1], args[2]
        for i in (a, b):
            ns = eng.assume_state(s, lt(i, slen(c)), True)
            if ns is None: return None
            s = ns
        return setv(swap(c, a, b))
    if name == 'reverse': return setv(rev(c))
    if name == 'fill':
        i = fresh('i'); return setv(gen(slen(c), lam(i, args[1])))
    if name == 'split_at':
        k = args[1]; n = slen(c)
        ns = eng.assume_state(s, le(k, n), True)
        if ns is None: return None
        s = ns
        def f(p):
            if p.op == '&': return tup(mk('&', slc(c, ZERO, k)), mk('&', slc(c, k, n)))
            kk, pr = eng.target(p, False)
            return tup(mk('ref', kk, pr + (('s', ZERO, k),)), mk('ref', kk, pr + (('s', k, n),)))
        return ret(lift_ite(f, args[0]))
    if name == 'copy_from_slice' or name == 'clone_from_slice':
        src = L(args[1])
        ns = eng.assume_state(s, eq(slen(c), slen(src)), True)
        if ns is None: return None
        s = ns
        return setv(src)
    if name == 'concat':
        # slice of two seqs
        if c.op == 'arr':
            r = arr()
            for x in c.args: r = concat(r, by_val(eng, s, x))
            return ret(r)
        return ret(mk('flatconcat', c))
    if name == 'starts_with':
        b = L(args[1]); return ret(land(le(slen(b), slen(c)), eq(slc(c, ZERO, slen(b)), b)))
    if name == 'drain': return NotImplemented
    return NotImplemented

def ncast(dst, src, x):
    """numeric conversion (assumed to succeed; a failing one panics)"""
    if dst == src: return x
    r = mk('ncast', dst, x)
    if dst in INTS:
        mark_int(r)
        if dst in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize'): mark_unsigned(r)
    return r
def insert(c, i, v):
    if c.op == 'arr' and i.op == 'c' and 0 <= i.args[0] <= len(c.args):
        l = list(c.args); l.insert(i.args[0], v); return arr(*l)
    if i is ZERO: return concat(arr(v), c)
    if i is slen(c): return push(c, v)
    return mk('insert', c, i, v)
def remove(c, i):
    if c.op == 'arr' and i.op == 'c' and 0 <= i.args[0] < len(c.args):
        l = list(c.args); del l[i.args[0]]; return arr(*l)
    return mk('remove', c, i)
def resize(c, n, v):
    if c.op == 'ite': return ite(c.args[0], resize(c.args[1], n, v), resize(c.args[2], n, v))
    if slen(c) is ZERO:
        i = fresh('i'); return gen(n, lam(i, v))
    d = sub(n, slen(c))
    if pos(add(d, ONE)) is TRUE:
        i = fresh('i'); return concat(c, gen(d, lam(i, v)))
    return mk('resize', c, n, v)
def swap(c, a, b):
    return tm.st(tm.st(c, a, sel(c, b)), b, sel(c, a)) if a.op == 'c' and b.op == 'c' else mk('swap', c, *sorted((a, b), key=lambda x: x.id))
register('insert', insert); register('remove', remove)
register('swap', swap)

def strlit(L, x):
    """text of a constant string behind references"""
    for _ in range(6):
        if x.op == 's': return str(x.args[0])[1:-1]
        if x.op not in ('ref', '&'): return None
        x = L(x)
    return None
def opt_model(eng, fr, s, c0, name, args, tys, t, L):
    from engine import mkSome, NONE
    def ret(v): return v, s
    okn = 'Some' if c0 == 'Option' else 'Ok'
    okd = 1 if c0 == 'Option' else 0
    x = args[0]
    if name in ('as_ref', 'as_mut', 'as_deref'):
        v = L(x)
        r = args[0]
        def f(v):
            if v.op == 'adt': return mkSome(mk('&', v.args[3])) if v.args[1] == 'Some' else v
            return mk('asref', v)
        if v.op == 'adt' and r.op == 'ref' and v.args[1] == 'Some': return ret(mkSome(mk('ref', r.args[0], r.args[1] + (('f', '0', 'Some', ''),))))
        if r.op == 'ref' or True:
            k, pr = eng.target(r, False)
            d = eq(eng.discr(v), I(okd))
            return ret(ite(d, adt(c0, okn, ('0',), mk('ref', k, pr + (('f', '0', okn, ''),))), NONE if c0 == 'Option' else v))
    if tys[0].startswith('&'): x = L(x)
    is_ok = eq(eng.discr(x), I(okd))
    if name in ('is_some', 'is_ok'): return ret(is_ok)
    if name in ('is_none', 'is_err'): return ret(lnot(is_ok))
    val = fld(x, '0', okn)
    if name in ('unwrap', 'expect', 'unwrap_or_else_panic'):
        ns = eng.assume_state(s, is_ok, True)
        if ns is None: return None
        return val if not val.op == 'ite' else assume(val, is_ok, True), ns
    if name == 'unwrap_unchecked': return ret(val)
    if name == 'unwrap_or': return ret(ite(is_ok, val, args[1]))
    if name == 'unwrap_or_default': return NotImplemented
    if name == 'unwrap_or_else':
        r = clos(eng, fr, s, args[1], [] if c0 == 'Option' else [fld(x, '0', 'Err')], t)
        if r is None: return NotImplemented
        return ret(ite(is_ok, val, r[0]))
    if name == 'ok': return ret(ite(is_ok, mkSome(val), NONE))
    if name == 'map':
        r = clos(eng, fr, s, args[1], [val], t)
        if r is None: return NotImplemented
        return ret(ite(is_ok, adt(c0, okn, ('0',), r[0]), x if c0 == 'Result' else NONE))
    if name in ('and_then',):
        r = clos(eng, fr, s, args[1], [val], t)
        if r is None: return NotImplemented
        return ret(ite(is_ok, r[0], x if c0 == 'Result' else NONE))
    if name == 'map_or':
        r = clos(eng, fr, s, args[2], [val], t)
        if r is None: return NotImplemented
        return ret(ite(is_ok, r[0], args[1]))
    if name in ('is_some_and', 'is_ok_and'):
        r = clos(eng, fr, s, args[1], [val], t)
        if r is None: return NotImplemented
        return ret(land(is_ok, r[0]))
    if name in ('copied', 'cloned'):
        return ret(ite(is_ok, mkSome(by_val(eng, s, val)), NONE))
    return NotImplemented

def nonneg_len(n): return n

def iter_model(eng, fr, s, p2, name, fn, args, tys, t, gargs, L):
    from engine import mkSome, NONE, OK
    def ret(v): return v, s
    if name in ('next', 'next_back', 'nth'):
        it = L(args[0])
        conv = to_iter(eng, s, it, re.sub(r'^&mut ', '', tys[0]))
        if conv is None or conv.op != 'iter': return NotImplemented
        if name != 'next':
            if name == 'next_back' and conv.args[1] is ZERO:
                seq = conv.args[0]; n = slen(seq); c = pos(n)
                s = s.copy(); eng.store(s, args[0], (), False, mk('iter', ite(c, slc(seq, ZERO, sub(n, ONE)), seq), ZERO), fr, t['sp'])
                return ite(c, mkSome(sel(seq, sub(n, ONE))), NONE), s
            return NotImplemented
        seq, p = conv.args
        c = lt(p, slen(seq))
        s = s.copy()
        eng.store(s, args[0], (), False, mk('iter', seq, ite(c, add(p, ONE), p)), fr, t['sp'])
        return ite(c, mkSome(sel(seq, p)), NONE), s
    it = to_iter(eng, s, args[0], tys[0])
    if it is None and tys[0].startswith('&mut'):
        inner = L(args[0])
        it = to_iter(eng, s, inner, re.sub(r'^&mut ', '', tys[0]))
    if it is None or it.op != 'iter': return NotImplemented
    seq = rest(it); n = slen(seq)
    mkit = lambda q: mk('iter', q, ZERO)
    if name in ('iter', 'into_iter', 'by_ref'): return ret(it)
    if name == 'enumerate':
        i = mark_unsigned(fresh('i')); return ret(mkit(mkgen(n, i, tup(i, sel(seq, i)))))
    if name == 'rev':
        i = mark_unsigned(fresh('i')); return ret(mkit(mkgen(n, i, sel(seq, sub(sub(n, ONE), i)))))
    if name == 'zip':
        o = to_iter(eng, s, args[1], tys[1])
        if o is None or o.op != 'iter': return NotImplemented
        q = rest(o); i = mark_unsigned(fresh('i'))
        return ret(mkit(mkgen(imin(n, slen(q)), i, tup(sel(seq, i), sel(q, i)))))
    if name in ('copied', 'cloned'):
        i = mark_unsigned(fresh('i')); return ret(mkit(mkgen(n, i, by_val(eng, s, sel(seq, i)))))
    if name == 'skip': return ret(mkit(slc(seq, imin(args[1], n), n)))
    if name == 'take': return ret(mkit(slc(seq, ZERO, imin(args[1], n))))
    if name == 'chain':
        o = to_iter(eng, s, args[1], tys[1])
        if o is None: return NotImplemented
        return ret(mkit(concat(seq, rest(o))))
    if eng.unroll and n.op == 'c' and n.args[0] <= 64 and name in ('all', 'any', 'position', 'filter', 'map'):
        r = each(eng, fr, s, seq, n.args[0], args[1], t, name)
        if r is not None: return r
    if name == 'map':
        r = map_seq(eng, fr, s, seq, args[1], t)
        if r is None: return NotImplemented
        i, v, req = r
        s2 = s
        if req is not TRUE:
            s2 = s.copy(); s2.env[OK] = land(eng.get(s, OK), forall(n, lam(i, req)))
        return mkit(mkgen(n, i, v)), s2
    if name in ('flat_map', 'flatten'):
        if name == 'flat_map':
            r = map_seq(eng, fr, s, seq, args[1], t)
            if r is None or r[2] is not TRUE: return NotImplemented
            i, v, req = r
        else: i = mark_unsigned(fresh('i')); v = sel(seq, i)
        inner = v if v.op == 'iter' else to_iter(eng, s, v, 'std::vec::Vec<_>') if not v.op in ('ref', '&') else to_iter(eng, s, v, '&std::vec::Vec<_>')
        if inner is None or inner.op != 'iter': return NotImplemented
        return ret(mkit(mk('flatconcat', mkgen(n, i, rest(inner)))))
    if name in ('all', 'any'):
        r = map_seq(eng, fr, s, seq, args[1], t)
        if r is None: return NotImplemented
        i, v, req = r
        return ret(forall(n, lam(i, v)) if name == 'all' else lnot(forall(n, lam(i, lnot(v)))))
    if name == 'position':
        r = map_seq(eng, fr, s, seq, args[1], t)
        if r is None: return NotImplemented
        i, v, req = r
        found = lnot(forall(n, lam(i, lnot(v))))
        return ret(ite(found, mkSome(first(n, lam(i, v))), NONE))
    if name == 'find':
        i = mark_unsigned(fresh('i'))
        return NotImplemented
    if name == 'filter':
        i = mark_unsigned(fresh('i'))
        item = apply(seq.args[2], i) if seq.op == 'fsel' else sel(seq, i)
        s1 = s.copy(); k = ('L', 'tmp', next(eng.fids)); s1.env[k] = item
        r = clos(eng, fr, s1, args[1], [mk('ref', k, ())], t)
        if r is None: return NotImplemented
        c = eng.snapdeep(r[1], r[0])
        if seq.op == 'fsel': return ret(mkit(tm.fsel(seq.args[0], lam(i, land(apply(seq.args[1], i), c)), seq.args[2])))
        return ret(mkit(tm.fsel(n, lam(i, c), lam(i, item))))
    if name == 'count': return ret(n)
    if name in ('sum', 'product'):
        if n.op == 'c' and n.args[0] <= 64: seq = arr(*[by_val(eng, s, sel(seq, I(j))) for j in range(n.args[0])])
        i = mark_unsigned(fresh('i')); v = by_val(eng, s, sel(seq, i))
        ty = gargs[-1] if gargs else ''
        if ty in INTS: return ret(isum(n, lam(i, v)) if name == 'sum' else prod(n, lam(i, v)))
        acc = fresh('acc')
        return ret(fold(mk('zero' if name == 'sum' else 'one'), n, acc, i, arith('add' if name == 'sum' else 'mul', acc, v)))
    if name == 'fold':
        acc = fresh('acc'); i = mark_unsigned(fresh('i'))
        eng.mark(acc, gargs[1] if len(gargs) > 1 else '')
        if is_int(args[1]): mark_int(acc)
        r = clos(eng, fr, s, args[2], [acc, sel(seq, i)], t)
        if r is None: return NotImplemented
        return ret(fold(args[1], n, acc, i, r[0]))
    if name == 'for_each':
        acc = None
        return NotImplemented
    if name == 'collect':
        ty = gargs[-1] if gargs else ''
        if ty.startswith('std::vec::Vec') or ty.startswith('std::collections::VecDeque'): return ret(seq)
        return NotImplemented
    if name == 'last': return ret(ite(pos(n), mkSome(sel(seq, sub(n, ONE))), NONE))
    if name == 'unzip':
        i = mark_unsigned(fresh('i'))
        outs = []
        for j in ('0', '1'):
            item = fld(apply(seq.args[2], i) if seq.op == 'fsel' else sel(seq, i), j)
            if item.op in ('ref', '&'): item = by_val(eng, s, item)
            outs.append(tm.fsel(seq.args[0], seq.args[1], lam(i, item)) if seq.op == 'fsel' else mkgen(n, i, item))
        return ret(tup(*outs))
    if name == 'extend': return NotImplemented
    return NotImplemented

def elem_is_ref(ty):
    m = re.search(r'Vec<(.*)>$', erase(ty))
    return bool(m) and m.group(1).startswith('&')
def mkgen(n, i, v):
    return gen(n, lam(i, v))
