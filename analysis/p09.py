"""P09: every data buffer has exactly one owner, which frees it exactly once with the layout it was allocated with.

An owner is an NdArray with the Owned flag, or a Vec. Safe Rust moves and drops owners correctly by itself, so ownership can
only go wrong where it is forged: where an NdArray is assembled from parts, where its fields are overwritten, and where a Vec is
rebuilt from raw parts. Those sites are found in the MIR of the whole crate, and for each function with one the conservation law
is decided: tokens (pointer, length, capacity) taken in by value are handed on, freed or returned exactly once on every path;
borrowed tokens are neither freed nor returned nor altered."""
from core import *
from p13 import bit
FREE = ('X', 'free')
CORE = ('ptr', 'len', 'capacity', 'flags')
ND = re.compile(r'^(redstone_ml::)?(ndarray::)?NdArray<')
PRIM = re.compile(r'(Vec<[^>]*>|Vec::<[^>]*>)::from_raw_parts|Box::<[^>]*>::from_raw$|alloc::dealloc|ptr::drop_in_place|ManuallyDrop::<.*>::(drop|take)$')
RAW = re.compile(r'(ptr::|<impl \*(const|mut) [^>]*>::|ptr::\w+::<impl [^>]*>::)(read|read_unaligned|read_volatile|write|copy_to\w*|copy_from\w*)$|mem::(forget|transmute|transmute_copy|zeroed|replace|take|swap)$|ManuallyDrop::<.*>::new$|intrinsics::transmute|Rc::<[^>]*>::(from_raw|into_raw|increment_strong_count|decrement_strong_count)$|Vec::<[^>]*>::(leak|into_raw_parts)$')

def isnd(ty): return bool(ND.match(erase(ty)))
def isvec(ty): return erase(ty) == 'std::vec::Vec<T>'
def token(v): return tup(fld(v, 'ptr'), fld(v, 'len'), fld(v, 'capacity'))
def sites(P):
    """functions that forge ownership -> reasons"""
    out = {}
    for k, f in P.fns.items():
        why = set()
        for b in f.blocks:
            for x in b['s']:
                if x['k'] != 'assign': continue
                rv = x['rv']
                if rv.get('k') == 'agg' and rv.get('kind') == 'adt' and rv['adt'].endswith('::NdArray'): why.add('assembles an array')
                for pl, mut in ((x['place'], True), (rv.get('place'), rv.get('k') in ('ref', 'rawptr', 'addr') and rv.get('mut'))):
                    if not pl or not mut: continue
                    for p in pl['p']:
                        if p['k'] == 'field' and (p.get('adt') or '').endswith('::NdArray') and p.get('name') in CORE: why.add('overwrites ' + p['name'])
            t = b['t']
            if t['k'] == 'call':
                fn = t['f'].get('fn')
                if fn and (PRIM.search(fn['path']) or RAW.search(fn['path']) and re.search(r'NdArray<|Vec<|Rc<|Tensor<', ' '.join(fn['args']))): why.add('calls ' + fn['path'].split('::')[-1])
                for p in (t.get('d') or {}).get('p', []):
                    if p['k'] == 'field' and (p.get('adt') or '').endswith('::NdArray') and p.get('name') in CORE: why.add('overwrites ' + p['name'])
        if why: out[k] = why
    return out

def callers(P, f):
    out = []
    names = {f.id}
    if f.impl_trait: names.add(f.impl_trait + '::' + f.name)
    for k, g in P.fns.items():
        for b in g.blocks:
            fn = b['t']['k'] == 'call' and b['t']['f'].get('fn')
            if fn and (fn['path'] in names or (fn.get('res') or {}).get('path') in names): out.append(k); break
    return out

def on_drop(eng, s, v, ty):
    t = erase(ty)
    if isnd(t):
        c = owns_of(v)
        if c is FALSE: return s
        tk = token(v)
        if rooted(tk.args[0]) is None: return s
        s = s.copy(); log = eng.get(s, FREE)
        s.env[FREE] = ite(c, tm.push(log, tk), log)
    elif t == 'std::vec::Vec<T>':
        tk = vtoken(v)
        if tk is None: return s
        s = s.copy(); s.env[FREE] = tm.push(eng.get(s, FREE), tk)
    return s

def owns_of(v):
    fl = fld(v, 'flags')
    def go(x):
        if x.op == 'ite': return ite(x.args[0], go(x.args[1]), go(x.args[2]))
        return bit(x, 0)
    return go(fl)

def vtoken(v):
    if v.op == 'vecraw': return tup(*v.args)
    if v.op == 'arg': return tup(mk('vptr', v), slen(v), mark_unsigned(mk('cap', v)))
    if v.op == 'ite':
        a, b = vtoken(v.args[1]), vtoken(v.args[2])
        return ite(v.args[0], a, b) if a is not None and b is not None else None
    return None

def rooted(p):
    """the argument a pointer comes from"""
    if p.op == 'arg': return p
    if p.op in ('lam', 'sym'): return None
    for a in subterms(p.args):
        r = rooted(a)
        if r is not None: return r
    return None

# ------------------------------------------------------------------ the conservation law
class Slot:
    """an array or vector a function takes in: how it is held, its value on entry and on exit"""
    def __init__(self, how, name, before, after): self.how, self.name, self.before, self.after = how, name, before, after

def fields_with_arrays(P, ty):
    """(field name, type) of the arrays held directly by a local struct type"""
    m = re.match(r'^([\w:]+)<', erase(ty))
    a = P.adts.get(m.group(1)) if m else None
    if not a: return []
    out = []
    for v in a.get('variants', []):
        for x in v.get('fields', []):
            if isnd(x['ty']): out.append((x['name'], x['ty']))
    return out

def slots(P, s, f, tmap):
    out = []
    for i in range(f.argc):
        ty = subst_ty(erase(f.ty(i + 1)), tmap); x = s.args[i]; n = f.lname(i + 1)
        base = re.sub(r'^&(mut )?', '', ty); ref = ty != base; mut = ty.startswith('&mut')
        if base.startswith('&'): base = re.sub(r'^(&(mut )?)+', '', base); ref = True; mut = False; x = mk('deref', x)
        how = 'moved' if not ref else 'mutable' if mut else 'borrowed'
        b = mk('deref', x) if ref else x
        a = s.obj(x) if mut else b
        if isnd(base): out.append(Slot(how, n, b, a))
        elif isvec(base): out.append(Slot('vec' if not ref else 'vecref', n, b, a))
        elif base.startswith('redstone_ml::tensor::Tensor<'): out.append(Slot('borrowed', n + '.array', fld(b, 'array'), fld(a, 'array')))
        else:
            for fn_, _ in fields_with_arrays(P, base): out.append(Slot(how, n + '.' + fn_, fld(b, fn_), fld(a, fn_)))
    return out

def normp(s, p):
    """pointer to the first element of a vector held in a local -> vptr(vector)"""
    if p.op == 'ite': return ite(p.args[0], normp(s, p.args[1]), normp(s, p.args[2]))
    if p.op == 'ref' and p.args[0][0] == 'L' and len(p.args[1]) == 1 and p.args[1][0][0] == 'i' and p.args[1][0][1] in (0, ZERO):
        v = s.st.env.get(p.args[0])
        if v is not None and v.op == 'arg': return mk('vptr', v)
    return p

def outcome(cx, s, f, tmap):
    """(condition, token) pairs: owners handed back to the caller; None when the return type is not understood"""
    ty = subst_ty(erase(f.locals[0]['ty']), tmap); r = s.ret
    if r is None: return []
    if isnd(ty): return [(owns_of(r), tup(normp(s, fld(r, 'ptr')), fld(r, 'len'), fld(r, 'capacity')))]
    if ty.startswith('redstone_ml::tensor::Tensor<'):
        r = fld(r, 'array'); return [(owns_of(r), tup(normp(s, fld(r, 'ptr')), fld(r, 'len'), fld(r, 'capacity')))]
    if isvec(ty):
        t = vtoken(r); return [(TRUE, t)] if t is not None else []
    return []

def law(cx, f, tmap, inv, tab, lab, ob_site):
    """-> list of (obligation, got, want, pre) or None"""
    t = {k: v for k, v in tab.items() if k != f.id}
    s = cx.summarise(f, t, tmap=tmap, ob=lab, on_drop=on_drop, limit=15)
    if not s: return None, None
    out = []; log = s.eng.get(s.st, FREE)
    ss = slots(cx.P, s, f, tmap)
    pre = [(bit(fld(x.before, 'flags'), 0), False) for x in ss if x.name in inv.get(f.impl_self_name, ())]
    rets = outcome(cx, s, f, tmap)
    total = log
    for c, tk in rets: total = ite(c, tm.push(total, tk), total)
    isdrop = (f.impl_trait or '').endswith('::Drop')
    moved = [x for x in ss if x.how in ('moved', 'vec')]
    want = arr()
    foreign = lambda tk: rooted(tk.args[0]) is None and 'vptr' not in {y.op for y in walk_(tk)}
    if not moved and not isdrop and rets and all(foreign(tk) for c, tk in rets if tk is not None):
        total = log                                 # a freshly allocated result
    if isdrop:
        x = ss[0]; want = ite(owns_of(x.before), arr(token(x.before)), arr())
        out.append(('frees the buffer exactly if it owns it, with its own pointer, length and capacity', total, want, pre))
    else:
        for x in moved:
            tk = vtoken(x.before) if x.how == 'vec' else token(x.before)
            c = TRUE if x.how == 'vec' else owns_of(x.before)
            want = ite(c, tm.push(want, tk), want)
        what = 'hands on the buffers it takes over exactly once' if moved else 'neither frees nor claims a borrowed buffer'
        out.append((what, total, want, pre))
        for x in ss:
            if x.how == 'mutable' and x.after is not x.before:
                o = owns_of(x.before)
                out.append((f'{x.name} owns exactly what it owned', owns_of(x.after), o, pre))
                out.append((f'{x.name} keeps the buffer it owns', ite(o, token(x.after), UNIT), ite(o, token(x.before), UNIT), pre))
    return s, out

def walk_(t):
    from p05 import walk
    return walk(t)

def label(f): return (f.impl_trait.split('::')[-1].split('<')[0] + '.' if f.impl_trait else '') + f.name + ('(&)' if (f.impl_self or '').startswith('&') else '')

def invariants(cx, tab):
    """struct fields that never own their buffer: at every construction of the struct the field's value does not own"""
    P = cx.P; inv = {}
    cand = {}
    for a in P.adts.values():
        if a['id'].endswith('::NdArray') or a['id'].endswith('::Tensor'): continue
        for v in a.get('variants', []):
            for x in v.get('fields', []):
                if isnd(x['ty']): cand.setdefault(a['id'], []).append(x['name'])
    for ad, fs in cand.items():
        ok = True; n = 0
        for k, f in P.fns.items():
            if not any(x['k'] == 'assign' and x['rv'].get('k') == 'agg' and x['rv'].get('adt') == ad for b in f.blocks for x in b['s']): continue
            n += 1
            s = cx.summarise(f, tab, ob=label(f), on_drop=on_drop)
            if not s or s.ret is None or not erase(f.locals[0]['ty']).startswith(ad): ok = False; break
            for x in fs:
                if owns_of(fld(s.ret, x)) is not FALSE: ok = False
        if ok and n: inv[ad] = fs
    return inv

def m_unit(eng, fr, s, fn, args, tys, t): return UNIT, s
def inert(P):
    """functions that cannot touch ownership: they return nothing and get no array by value or by mutable reference"""
    out = {}
    for k, f in P.fns.items():
        if f.kind == 'Closure' or f.locals[0]['ty'] != '()': continue
        tys = [erase(f.ty(i + 1)) for i in range(f.argc)]
        if any(isnd(t) or 'Tensor<' in t or 'Vec<T>' in t or t.startswith('&mut ') or not re.match(r'^(&|\*|usize|T$|Self$|isize)', t) for t in tys): continue
        out[k] = m_unit
    return out

def run(cx):
    P = cx.P; tab = {**inert(P), **array_models(P), **clone_models(P)}
    st = sites(P)
    for f in P.fns.values(): f.impl_self_name = re.sub(r'<.*', '', erase(f.impl_self or ''))
    cx.need([k for k in st if P.fns[k].name == 'drop' and (P.fns[k].impl_trait or '').endswith('::Drop')], 1, 'destructor of NdArray')
    cx.anchor('NdArray::into_data_vector', public=True)
    raw_inv = None
    done = set(); todo = [(k, {}, ()) for k in st]
    while todo:
        k, tmap, via = todo.pop(0)
        if k in done: continue
        done.add(k); f = P.fns[k]
        if f.kind == 'Closure':
            par = k.rsplit('::{closure', 1)[0]
            if par in P.fns: todo.append((par, {}, via + (k,)))
            continue
        lab = label(f); note = (' through ' + ' <- '.join(label(P.fns[v]) for v in via)) if via else ''
        if raw_inv is None or via:
            raw_inv = raw_inv if raw_inv is not None else invariants(cx, tab)
        inv = {a: ['self.' + x for x in fs] for a, fs in raw_inv.items()}
        s, obs = law(cx, f, tmap, inv, tab, lab, f.sp)
        if not s: continue
        sub = Ctx(P, cx.pid, cx.tier)
        for ob, got, want, pre in obs:
            if not sub.same(got, want, pre): got, want = ite(s.ok, got, UNIT), ite(s.ok, want, UNIT)
            sub.equal(lab + ':' + ob, got, want, pre=pre, site=f.sp, notes=s.notes, key=lab + ':' + ob)
        cx.leaves += sub.leaves
        bad = [r for r in sub.results if r.status == 'violated']
        # a function the public cannot call, or an unsafe one whose contract can ask for a view, is decided where it is called
        ss = slots(P, s, f, tmap)
        views = [(bit(fld(x.before, 'flags'), 0), False) for x in ss if x.how in ('borrowed', 'mutable')]
        internal = not f.j.get('reach') or f.j.get('unsafe') and len(views) == len(ss) > 0 and all(sub.same(g, w, p + views) for _, g, w, p in obs)
        if bad and internal and len(via) < 4:
            up = [c for c in callers(P, f) if c not in done and 'tests::' not in c]
            cx.add(lab + ':used only where ownership is conserved', 'proved', f'decided at its {len(up)} callers', f.sp)
            todo += [(c, {}, (k,) + via) for c in up]
            continue
        for r in sub.results:
            if r.status != 'proved': r.detail = r.detail + note
            cx.results.append(r)
    for k in done: cx.fns.add(k)
