"""P18: random constructors: requested shape, one separate draw per element, every value inside the stated range.
Interval dataflow over the value graph: each sampled element is abstracted to a symbolic interval with open/closed ends."""
from core import *
from p01 import K
from p05 import kv, walk
from p07 import elems
from p17 import get, selfs, narrow, FL, WIDTH, ND, TN

INT = ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64')
DRAW = ('sample', 'gen_range', 'gen', 'random', 'random_range')

def run(cx):
    tab = {**array_models(cx.P), **clone_models(cx.P)}
    for who, ty, t in selfs(FL, FL):
        for m in ('randn', 'rand', 'uniform'): ctor(cx, m, who, ty, t, tab)
    for who, ty, t in selfs(INT + FL, FL): ctor(cx, 'randint', who, ty, t, tab)

def ctor(cx, m, who, ty, t, tab):
    f, s, r, lab = get(cx, m, who, ty, t, tab, trait='RandomConstructors')
    if not s: return
    sh = mark_useq(s.args[0])
    lo, hi = (s.args[1], s.args[2]) if m in ('uniform', 'randint') else (None, None)
    pre = [(lt(lo, hi) if t in models.INTS else mark_bool(mk('flt', lo, hi)), True)] if lo is not None else []
    cx.equal(lab + ':shape', fld(r, 'shape'), sh, pre=pre, site=f.sp, notes=s.notes)
    cx.equal(lab + ':length', fld(r, 'len'), size(sh), pre=pre, site=f.sp, notes=s.notes)
    cx.equal(lab + ':stride', fld(r, 'stride'), K('stride_from_shape', sh), pre=pre, site=f.sp, notes=s.notes)
    ok = drop_dist(s.ok)
    cx.equal(lab + ':valid arguments accepted', ok, TRUE, pre=pre, site=f.sp, notes=s.notes)
    sites, once = draws(cx.P, f)
    if not sites: cx.add(lab + ':separate draw per element', 'undecided', 'no sampling call found', f.sp)
    elif all(x in once for x in sites): cx.add(lab + ':separate draw per element', 'violated', 'the only sampling call is not inside the per-element iteration: all elements share one draw', sites[0])
    elif any(x in once for x in sites): cx.add(lab + ':separate draw per element', 'undecided', 'some sampling calls are outside the per-element iteration', sites[0])
    else: cx.add(lab + ':separate draw per element', 'proved', '', sites[0])
    b = s.mem(fld(r, 'ptr'))
    k = kv(); v = sel(b, k)
    if m == 'randn': return normal(cx, lab, f, v)
    if m == 'rand': lo, hi = mk('zero'), mk('one')
    nar = narrow(v, t) if t in INT else None
    if nar: return cx.add(lab + ':range', 'violated', f'the bounds pass through {nar}, which does not represent every {t}: values outside [low, high) can appear', f.sp)
    rank, found = ('violated', 'undecided', 'proved'), []
    for x in leaves(v):
        iv = interval(x, t)
        if iv is None: found.append(('undecided', f'element {clip(show(x), 300)}')); continue
        a, b, op = iv
        st_, why = inside(cx, a, b, op, lo, hi, t)
        found.append((st_, f'every element lies in [{show(a)}, {show(b)}{")" if op else "]"}, required [{show(lo)}, {show(hi)}){why}'))
    st_, why = min(found, key=lambda z: rank.index(z[0]))
    cx.add(lab + ':range', st_, why, f.sp)

def drop_dist(c):
    """the success of building the distribution (Normal::new with constant parameters) is not an argument check"""
    parts = c.args if c.op == 'and' else (c,)
    return land(*[p for p in parts if not any(x.op == 'call' and 'Normal' in str(x.args[0]) for x in walk(p))]) if parts else TRUE

def num(x):
    if x.op == 'zero': return 0.0
    if x.op == 'one': return 1.0
    if x.op == 'c': return float(x.args[0])
    if x.op in ('fc', 'const'):
        m = re.match(r'^(-?[\d.]+(?:[eE][-+]?\d+)?)_?(f32|f64)?$', str(x.args[0]))
        if m: return float(m.group(1))
    m = re.match(r'^(-?[\d.]+(?:[eE][-+]?\d+)?)_?(f32|f64)$', show(x))
    return float(m.group(1)) if m else None
def strip(x):
    while x.op == 'ncast': x = x.args[1]
    return x
def unref(x):
    while x.op in ('&', 'deref'): x = x.args[0]
    return x
def name(x): return str(x.args[0]).split('::')[-1]

def rounding(v):
    n = name(v) if v.op == 'call' and len(v.args) == 2 else v.op
    return {'round': 'round', 'fround': 'round', 'round_ties_even': 'round', 'trunc': 'trunc', 'ftrunc': 'trunc'}.get(n)

def leaves(v, n=0):
    if v.op == 'ite' and n < 6: return leaves(v.args[1], n + 1) + leaves(v.args[2], n + 1)
    return [v]

def interval(v, t):
    """(lo, hi, hi_open) or None"""
    if v.op == 'call' and name(v) in ('sample',):
        d = unref(v.args[1])
        if d.op == 'call' and 'Uniform' in str(d.args[0]) and len(d.args) == 3:
            if name(d) == 'new': return d.args[1], d.args[2], True
            if name(d) == 'new_inclusive': return d.args[1], d.args[2], False
        return None
    if v.op == 'call' and name(v) in ('gen_range', 'random_range'):
        d = v.args[-1]
        if d.op == 'adt' and str(d.args[0]).endswith('Range'): return fld(d, 'start'), fld(d, 'end'), True
        if d.op == 'rangeinc': return d.args[0], d.args[1], False
        return None
    if v.op == 'call' and name(v) in ('gen', 'random'): return mk('zero'), mk('one'), True
    if v.op == 'ffloor':
        r = interval(v.args[0], t)
        return None if r is None else (r[0], r[1], r[2])       # bounds are whole numbers: floor keeps [a, b) inside [a, b)
    if v.op == 'fceil':
        r = interval(v.args[0], t)
        return None if r is None else (r[0], r[1], False)
    if rounding(v):
        r = interval(v.args[1] if v.op == 'call' else v.args[0], t)
        if r is None: return None
        if rounding(v) == 'trunc' and (t.startswith('u') or not r[2]): return r
        return r[0], r[1], False                               # rounding, or truncation of a negative value, reaches the upper bound
    if v.op == 'ncast':
        x = v.args[1]
        r = interval(x, t)
        if r is None: return None
        if v.args[0] == 'f32': return r[0], r[1], False        # rounding to the narrower type can reach the upper bound
        if v.args[0] in models.INTS and x.op not in ('ffloor', 'fceil') and not rounding(x) and v.args[0].startswith('i'): return r[0], r[1], False   # truncation towards zero reaches an upper bound <= 0
        return r
    if v.op == 'fadd':
        for a, b in (v.args, v.args[::-1]):
            if b.op == 'fmul':
                for u, w in (b.args, b.args[::-1]):
                    r = interval(u, t)
                    if r and num(strip(r[0])) == 0 and num(strip(r[1])) == 1 and w.op == 'fsub' and w.args[1] is a: return a, w.args[0], False   # rounding can reach the upper bound
    return None

def inside(cx, a, b, op, lo, hi, t):
    def same(x, y):
        x, y = strip(x), strip(y)
        if num(x) is not None and num(y) is not None: return num(x) == num(y)
        return x is y or cx.same(x, y)
    def known(x): return num(strip(x)) is not None or strip(x).op in ('arg', 'v')
    if same(a, lo) and same(b, hi): return ('proved', '') if op else ('violated', ': the upper bound itself can be returned')
    if num(strip(a)) is not None and num(strip(b)) is not None and num(strip(lo)) is not None and num(strip(hi)) is not None:
        ok = num(strip(a)) >= num(strip(lo)) and (num(strip(b)) < num(strip(hi)) or op and num(strip(b)) == num(strip(hi)))
        return ('undecided' if ok else 'violated'), ''
    # integer bound shifted by a constant: [low, high + c]
    for x, y, up in ((a, lo, False), (b, hi, True)):
        d = sub(strip(x), strip(y)) if t in INT else None
        if d is not None and d.op == 'c' and d.args[0] != 0:
            bad = d.args[0] > (0 if op else -1) if up else d.args[0] < 0
            if bad: return 'violated', ': the sampled range exceeds the requested one'
    if same(a, lo) and t in INT and not op and cx.same(strip(b), sub(strip(hi), ONE)): return 'proved', ''
    if known(a) and known(b) and not (same(a, lo) and same(b, hi)): return 'violated', ': the sampled range is not the requested one'
    return 'undecided', ''

def normal(cx, lab, f, v):
    ds = [x for x in walk(v) if x.op == 'call' and ('Normal' in str(x.args[0])) and name(x) == 'new']
    if strip(v).op == 'call' and name(strip(v)) == 'sample' and ds:
        p = [num(a) for a in ds[0].args[1:3]]
        if p == [0.0, 1.0]: return cx.add(lab + ':standard normal', 'proved', '', f.sp)
        if None not in p: return cx.add(lab + ':standard normal', 'violated', f'samples a normal distribution with mean {p[0]} and deviation {p[1]}', f.sp)
    elif any('StandardNormal' in show(x) for x in walk(v) if x.op in ('call', 'adt', 'const')) and strip(v).op == 'call': return cx.add(lab + ':standard normal', 'proved', '', f.sp)
    us = [x for x in walk(v) if x.op == 'call' and 'Uniform' in str(x.args[0])]
    cx.add(lab + ':standard normal', 'violated' if us and not ds else 'undecided', f'element {clip(show(v), 300)}', f.sp)

def draws(P, f):
    """sampling call sites reachable from f, and those executed at most once per constructor call"""
    sites, once, seen = [], set(), set()
    def go(g, rep, depth):
        if (g.id, rep) in seen or depth > 6: return
        seen.add((g.id, rep))
        cl = [c for c in P.fns.values() if c.id.startswith(g.id + '::{closure')]
        for bi, b in enumerate(g.blocks):
            t = b['t']
            if t['k'] != 'call' or 'fn' not in t['f']: continue
            inloop = rep or any(bi in body for body in g.cfg.loops.values())
            p = t['f']['fn']['path']
            nm = p.split('::')[-1].split('<')[0]
            if nm in DRAW and 'rand' in p:
                sites.append(t['sp'])
                if not inloop: once.add(t['sp'])
            h = P.fns.get(p) or P.fns.get((t['f']['fn'].get('res') or {}).get('path', ''))
            if h is not None and h.id.startswith(f.id.split('::')[0]): go(h, inloop, depth + 1)
        for c in cl: go(c, True, depth + 1)
    go(f, False, 0)
    return sites, once
