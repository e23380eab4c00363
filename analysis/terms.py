"""Hash-consed terms of the gated value graph, with normalising constructors.

A term denotes a value computed by the program for *all* inputs.  Nothing here evaluates
program code: constructors apply algebraic identities only (integer polynomials, if-then-else
gating, sequences, structural loops with locally-nameless binders)."""
import time
import itertools, sys
sys.setrecursionlimit(20000)

class T:
    __slots__ = ('op', 'args', 'id', 'h', 'fv', 'size')
    def __repr__(self): return show(self)

_tab = {}
_n = itertools.count()
EMPTY = frozenset()

class Budget(Exception): pass
_budget = [None, 0]            # time limit of the current analysis step, tick counter
def set_budget(seconds):
    old = _budget[0]
    _budget[0] = None if seconds is None else time.monotonic() + seconds
    return old
def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        if _budget[0] is not None:
            _budget[1] += 1
            if not _budget[1] & 1023 and time.monotonic() > _budget[0]: raise Budget('analysis step exceeds its time budget')
        t = T(); t.op = op; t.args = args; t.id = next(_n)
        h = 0; fv = EMPTY; size = 1
        for a in subterms(args):
            if a.h > h: h = a.h
            if a.fv: fv = fv | a.fv
            size += a.size
        if op == 'v': fv = frozenset((args[0],))
        if op == 'lam': h = args[0]
        t.h = h; t.fv = fv; t.size = min(size, 10**9)
        _tab[key] = t
    return t

def subterms(args):
    for a in args:
        if isinstance(a, T): yield a
        elif isinstance(a, tuple):
            yield from subterms(a)

TRUE = mk('b', True); FALSE = mk('b', False); UNIT = mk('unit')
def I(n): return mk('c', int(n))
ZERO, ONE = I(0), I(1)
def B(x): return TRUE if x else FALSE
_fresh = itertools.count(1)
def fresh(hint=''): return mk('v', next(_fresh), hint)

# ---------------------------------------------------------------- polynomials
def poly_of(t):
    """-> dict {monomial(tuple of T sorted by id): coeff}"""
    if t.op == 'c': return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly': return dict(t.args[0])
    return {(t,): 1}

def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d: return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return I(c)
        if c == 1 and len(m) == 1: return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0]))))
    return mk('poly', items)

def add(a, b):
    if a.op == 'ite' or b.op == 'ite':
        r = lift2(add, a, b)
        if r is not None: return r
    d = poly_of(a)
    for m, c in poly_of(b).items(): d[m] = d.get(m, 0) + c
    return from_poly(d)

def mul(a, b):
    if a.op == 'ite' or b.op == 'ite':
        r = lift2(mul, a, b)
        if r is not None: return r
    d = {}
    for m1, c1 in poly_of(a).items():
        for m2, c2 in poly_of(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)

def neg(a): return mul(I(-1), a)
def sub(a, b): return add(a, neg(b))

def lift2(f, a, b):
    # only lift when one side is a constant: keeps ite(c,1,0)-style values decidable
    if a.op == 'ite' and b.op == 'c' and leaves_const(a):
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == 'ite' and a.op == 'c' and leaves_const(b):
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None

def leaves_const(t):
    if t.op == 'c': return True
    return t.op == 'ite' and leaves_const(t.args[1]) and leaves_const(t.args[2])

def idiv(a, b):
    if b is ONE: return a
    if a.op == 'c' and b.op == 'c' and b.args[0] and a.args[0] >= 0 and b.args[0] > 0: return I(a.args[0] // b.args[0])
    return mk('idiv', a, b)
def irem(a, b):
    if a.op == 'c' and b.op == 'c' and a.args[0] >= 0 and b.args[0] > 0: return I(a.args[0] % b.args[0])
    if b is ONE: return ZERO
    return mk('irem', a, b)

def imin(a, b):
    if a is b: return a
    d = sub(a, b)
    if d.op == 'c': return a if d.args[0] <= 0 else b
    if a.op == 'c' and a.args[0] > 1: a, b = b, a
    if b.op == 'c' and b.args[0] > 1: return ite(pos(sub(a, b)), b, a)      # a threshold: decided by cases
    xs = []
    for t in (a, b):
        xs += list(t.args) if t.op == 'min' else [t]
    xs = sorted(set(xs), key=lambda x: x.id)
    return mk('min', *xs)
def imax(a, b):
    if a is b: return a
    d = sub(a, b)
    if d.op == 'c': return b if d.args[0] <= 0 else a
    if a.op == 'c' and a.args[0] > 1: a, b = b, a
    if b.op == 'c' and b.args[0] > 1: return ite(pos(sub(a, b)), a, b)
    return mk('max', *sorted((a, b), key=lambda x: x.id))

# ---------------------------------------------------------------- booleans
def lnot(a):
    if a.op == 'b': return B(not a.args[0])
    if a.op == 'not': return a.args[0]
    if a.op == 'pos':
        pass
    return mk('not', a)

def land(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        out += list(x.args) if x.op == 'and' else [x]
    s = []
    seen = set()
    for x in out:
        if x.id in seen: continue
        seen.add(x.id); s.append(x)
    for x in s:
        n = lnot(x)
        if n.id in seen: return FALSE
    if not s: return TRUE
    # absorption: a & !(a & b) -> a & !b
    lits = set(x for x in s)
    changed = False
    res = []
    for x in s:
        if x.op == 'not' and x.args[0].op == 'and':
            inner = [y for y in x.args[0].args if y not in lits]
            if any(lnot(y) in lits for y in inner):
                changed = True; continue
            if len(inner) != len(x.args[0].args):
                changed = True
                res.append(lnot(land(*inner))); continue
        res.append(x)
    if changed: return land(*res)
    if len(s) == 1: return s[0]
    return mk('and', *sorted(s, key=lambda x: x.id))

def lor(*xs): return lnot(land(*[lnot(x) for x in xs]))

UNSIGNED_ATOMS = ('len', 'usz')
def nonneg(t):
    """syntactically non-negative integer"""
    if t.op == 'c': return t.args[0] >= 0
    if t.op in ('len', 'min', 'first', 'isum', 'usz', 'idiv', 'irem', 'prod', 'max'): return True
    if t.op == 'fld' and t.args[1] in ('start', 'end') and t.id not in _ints: return True   # bounds of usize ranges
    if t.op in ('sel', 'fld', 'v', 'arg', 'call', 'deref'): return t.id in _unsigned
    if t.op == 'poly': return all(c >= 0 and all(nonneg(x) for x in m) for m, c in t.args[0])
    if t.op == 'ite': return nonneg(t.args[1]) and nonneg(t.args[2])
    return False
_unsigned = set()
def mark_unsigned(t):
    if isinstance(t, T) and t.op not in ('c', 'poly'): _unsigned.add(t.id)
    return t

def pos(d):
    """d >= 1 over integers"""
    if d.op == 'c': return B(d.args[0] >= 1)
    if d.op == 'ite':
        return ite(d.args[0], pos(d.args[1]), pos(d.args[2]))
    p = poly_of(d)
    g = ite_atom(p)
    if g is not None: return lift_cmp(pos, d, g)
    c0 = p.get((), 0)
    rest = {m: c for m, c in p.items() if m != ()}
    # all nonneg terms and positive constant -> true ; all nonpos and c0<=0 -> false
    if all(c > 0 and all(nonneg(x) for x in m) for m, c in rest.items()) and c0 >= 1: return TRUE
    if all(c < 0 and all(nonneg(x) for x in m) for m, c in rest.items()) and c0 <= 0: return FALSE
    # polarity canonicalisation: leading monomial must have positive coefficient
    lead = max(rest, key=lambda m: (len(m), tuple(x.id for x in m)))
    if rest[lead] < 0:
        return lnot(pos(sub(ONE, d)))
    if len(p) == 1 and len(lead) > 1 and all(nonneg(x) for x in lead): return land(*[pos(x) for x in dict.fromkeys(lead)])
    return mk('pos', d)

def ite_atom(p):
    for m in p:
        for x in m:
            if x.op == 'ite': return x
    return None
def lift_cmp(f, d, g):
    """comparison over a polynomial containing the gated atom g"""
    def repl(v):
        r = ZERO
        for m, c in poly_of(d).items():
            x = I(c)
            for a in m: x = mul(x, v if a is g else a)
            r = add(r, x)
        return r
    return ite(g.args[0], f(repl(g.args[1])), f(repl(g.args[2])))

def lt(a, b): return pos(sub(b, a))
def le(a, b): return pos(add(sub(b, a), ONE))

def eq(a, b):
    """integer / generic equality"""
    if a is b: return TRUE
    if a.op == 'b' or b.op == 'b':
        if a.op == 'b': a, b = b, a
        return a if b.args[0] else lnot(a)
    if a.op == 'ite' and leaves_const(a) and b.op == 'c':
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and leaves_const(b) and a.op == 'c': return eq(b, a)
    if a.op == 'adt' and b.op == 'adt' and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]: return FALSE
        return land(*[eq(x, y) for x, y in zip(a.args[3:], b.args[3:])])
    if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
        return land(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if is_int(a) and is_int(b):
        return eq0(sub(a, b))
    if a.op in ('s', 'f') and b.op == a.op: return B(a is b)
    if a.op == 'pcmp': a, b = b, a
    if b.op == 'pcmp' and a.op == 'adt':
        x, y = b.args
        o = a.args[3] if a.args[1] == 'Some' else a
        if o.op == 'adt' and o.args[1] in ('Less', 'Greater', 'Equal'):
            return {'Less': flt_, 'Greater': lambda p, q: flt_(q, p), 'Equal': lambda p, q: mk('feq', *sorted((p, q), key=lambda t: t.id))}[o.args[1]](x, y)
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk('eq', x, y)

def fmm(op, a, b): return a if a is b else mk(op, *sorted((a, b), key=lambda t: t.id))
def flt_(a, b): return FALSE if a is b else mk('flt', a, b)
def eq0(d):
    if d.op == 'c': return B(d.args[0] == 0)
    if d.op == 'ite': return ite(d.args[0], eq0(d.args[1]), eq0(d.args[2]))
    p = poly_of(d)
    g = ite_atom(p)
    if g is not None: return lift_cmp(eq0, d, g)
    lead = max((m for m in p if m != ()), key=lambda m: (len(m), tuple(x.id for x in m)))
    if p[lead] < 0: d = neg(d); p = poly_of(d)
    rest = {m: c for m, c in p.items() if m != ()}
    if all(c > 0 and all(nonneg(x) for x in m) for m, c in rest.items()):
        c0 = p.get((), 0)
        if c0 > 0: return FALSE
        if c0 == 0: return lnot(pos(d))
    return mk('eq0', d)

def is_int(t):
    return t.op in ('c', 'poly', 'len', 'idiv', 'irem', 'min', 'max', 'first', 'isum', 'prod') or t.id in _unsigned or t.id in _ints
_ints = set()
def mark_int(t):
    if isinstance(t, T): _ints.add(t.id)
    return t

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if c.op == 'not': return ite(c.args[0], b, a)
    if a is b: return a
    if a.size < 4000: a = assume(a, c, True)
    if b.size < 4000: b = assume(b, c, False)
    if a is b: return a
    if is_bool(a) and is_bool(b):
        if a is TRUE: return lor(c, b)
        if b is FALSE: return land(c, a)
        if a is FALSE: return land(lnot(c), b)
        if b is TRUE: return lor(lnot(c), a)
    if a.op == b.op == 'adt' and a.args[:3] == b.args[:3]:
        return mk('adt', *a.args[:3], *[ite(c, x, y) for x, y in zip(a.args[3:], b.args[3:])])
    if a.op == b.op == 'tuple' and len(a.args) == len(b.args):
        return mk('tuple', *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == b.op == 'flags' and a.args[0] == b.args[0]:
        return mk('flags', a.args[0], *[ite(c, x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op == b.op == 'iter':
        return mk('iter', ite(c, a.args[0], b.args[0]), ite(c, a.args[1], b.args[1]))
    if a.op == b.op == 'gen' and a.args[1] is b.args[1]: return gen(ite(c, a.args[0], b.args[0]), a.args[1])
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    # if v > 0 then X else X[v := 0]
    if c.op == 'pos' and c.args[0].op == 'v' and nonneg(c.args[0]) and a.size < 300 and occurs(c.args[0], a) and subst(a, {c.args[0]: ZERO}) is b: return a
    # min / max of comparable elements
    if c.op in ('flt', 'fle'):
        if a is c.args[1] and b is c.args[0]: return fmm('fmax', a, b)
        if a is c.args[0] and b is c.args[1]: return fmm('fmin', a, b)
    # ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if b.op == 'ite':
        if b.args[1] is a: return ite(lor(c, b.args[0]), a, b.args[2])
        if b.args[2] is a: return ite(lor(c, lnot(b.args[0])), a, b.args[1])
    if a.op == 'ite':
        if a.args[2] is b: return ite(land(c, a.args[0]), a.args[1], b)
        if a.args[1] is b: return ite(land(c, lnot(a.args[0])), a.args[2], b)
    if is_bool(a) and is_bool(b): return mark_bool(mk('ite', c, a, b))
    # conditional element update / append: gate the element, not the sequence
    if a.op == b.op == 'push' and a.args[0] is b.args[0]: return push(a.args[0], ite(c, a.args[1], b.args[1]))
    if a.op == b.op == 'st' and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return st(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    if a.op == 'st' and a.args[0] is b: return st(b, a.args[1], ite(c, a.args[2], sel(b, a.args[1])))
    if b.op == 'st' and b.args[0] is a: return st(a, b.args[1], ite(c, sel(a, b.args[1]), b.args[2]))
    r = mk('ite', c, a, b)
    if nonneg(a) and nonneg(b): mark_unsigned(r)
    elif is_int(a) and is_int(b): mark_int(r)
    return r

BOOLOPS = ('b', 'not', 'and', 'pos', 'eq', 'eq0', 'forall', 'has', 'flt', 'fle', 'feq', 'boolv')
_bools = set()
def mark_bool(t):
    _bools.add(t.id); return t
def is_bool(t):
    return t.op in BOOLOPS or t.id in _bools

# ---------------------------------------------------------------- rewriting
def rebuild(t, f):
    """rebuild t applying f to direct subterms, through the smart constructors"""
    op, args = t.op, t.args
    if op in ('c', 'b', 'f', 's', 'unit', 'v', 'arg', 'bv', 'fnc'): return t
    if op == 'poly':
        r = ZERO
        for m, c in args[0]:
            x = I(c)
            for a in m: x = mul(x, f(a))
            r = add(r, x)
        return r
    if op == 'lam':
        v, body = open_lam(t)
        nb = f(body)
        return t if nb is body else lam(v, nb)
    new = mapargs(args, f)
    if new == args: return t
    r = build(op, new)
    if t.id in _unsigned: mark_unsigned(r)
    if t.id in _bools and r.op not in BOOLOPS: mark_bool(r)
    if t.id in _ints: mark_int(r)
    return r

def mapargs(args, f):
    return tuple(f(a) if isinstance(a, T) else (mapargs(a, f) if isinstance(a, tuple) else a) for a in args)

def build(op, a):
    c = CONS.get(op)
    return c(*a) if c else mk(op, *a)

def subst(t, m, memo=None):
    """replace terms (keys of m, T->T) in t"""
    if not m: return t
    if memo is None: memo = {}
    vs = None
    if all(k.op == 'v' for k in m):
        vs = frozenset(k.args[0] for k in m)
    def go(x):
        r = m.get(x)
        if r is not None: return r
        if vs is not None and not (x.fv & vs): return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)

_contains_memo = {}
def conds_of(t):
    """set of all subterms (not under lam)"""
    r = _contains_memo.get(t)
    if r is None:
        s = {t}
        for a in subterms(t.args): s |= conds_of(a)
        r = frozenset(s)
        _contains_memo[t] = r
    return r

def literals(c, val):
    """atomic facts implied by c == val"""
    if c.op == 'not': return literals(c.args[0], not val)
    if c.op == 'and' and val:
        out = [(c, True)]
        for x in c.args: out += literals(x, True)
        return out
    out = [(c, val)]
    return out

_assume_memo = {}
def assume(t, c, val):
    k = (t, c, val)
    r = _assume_memo.get(k)
    if r is None:
        r = _assume(t, c, val)
        _assume_memo[k] = r
    return r

def _assume(t, c, val):
    m = {}
    for l, v in literals(c, val):
        m[l] = B(v)
        if l.op == 'pos':   # d>=1 known; also decide weaker/stronger constant shifts
            pass
    subs = conds_of(t)
    if not any(l in subs for l in m):
        if val and c.op != 'eq0' and c.op != 'and':
            if not any(x.op == 'pos' for x in subs if x.op == 'pos') : return t
        # arithmetic neighbours
    facts = list(m.items())
    rel = {}
    for l, b in facts:
        if l.op == 'pos' or l.op == 'eq0':
            for x in subs:
                if x in m or x in rel: continue
                r = implied(l, b is TRUE, x)
                if r is not None: rel[x] = B(r)
    if rel:
        m = dict(m); m.update(rel)
    if not any(l in subs for l in m): return t
    return subst(t, m)

def implied(l, val, x):
    """does fact (l == val) decide x?  l, x in pos/eq0 forms over the same polynomial up to constant"""
    if x.op not in ('pos', 'eq0'): return None
    lo, hi = rng(l, val)
    if lo is None and hi is None: return None
    base_l, c_l = split_const(l.args[0]); base_x, c_x = split_const(x.args[0])
    if base_l is base_x: pass
    elif base_l is neg(base_x):
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        base_l = base_x
        # value of base_l' = -base_l ; l.args = base_l + c_l
        # lo,hi currently bound (base_l + c_l); convert below
        # bound on base_l:
        #   handled by using c_l sign flip
        c_l = -c_l
    else: return None
    # lo/hi bound (base + c_l); bound on base:
    blo = None if lo is None else lo - c_l
    bhi = None if hi is None else hi - c_l
    # x arg = base + c_x
    xlo = None if blo is None else blo + c_x
    xhi = None if bhi is None else bhi + c_x
    if x.op == 'pos':
        if xlo is not None and xlo >= 1: return True
        if xhi is not None and xhi <= 0: return False
    else:
        if xlo is not None and xlo > 0: return False
        if xhi is not None and xhi < 0: return False
        if xlo is not None and xlo == xhi == 0: return True
    return None

def rng(l, val):
    if l.op == 'pos': return (1, None) if val else (None, 0)
    if l.op == 'eq0' and val: return (0, 0)
    return (None, None)

def split_const(t):
    p = poly_of(t)
    c = p.pop((), 0)
    return from_poly(p), c

# ---------------------------------------------------------------- binders
def lam(v, body):
    h = body.h + 1
    b = mk('bv', h)
    return mk('lam', h, subst(body, {v: b}))

def open_lam(l, v=None):
    if v is None: v = fresh('k')
    return v, _unbv(l.args[1], l.args[0], v, {})

def _unbv(t, h, v, memo):
    if t.op == 'bv': return v if t.args[0] == h else t
    if t.h < h and not has_bv(t, h): return t
    r = memo.get(t)
    if r is not None: return r
    if t.op == 'lam':
        nb = _unbv(t.args[1], h, v, memo)
        r = mk('lam', t.args[0], nb) if nb is not t.args[1] else t
    elif t.op == 'poly':
        r = rebuild(t, lambda x: _unbv(x, h, v, memo))
    else:
        new = mapargs(t.args, lambda x: _unbv(x, h, v, memo))
        if new == t.args: r = t
        else:
            r = build(t.op, new)
            if t.id in _unsigned: mark_unsigned(r)
            if t.id in _bools and r.op not in BOOLOPS: mark_bool(r)
            if t.id in _ints: mark_int(r)
    memo[t] = r
    return r

_hb = {}
def has_bv(t, h):
    k = (t, h)
    r = _hb.get(k)
    if r is None:
        if t.op == 'bv': r = t.args[0] == h
        else: r = any(has_bv(a, h) for a in subterms(t.args))
        _hb[k] = r
    return r

def apply(l, x):
    if l.op == 'ite': return ite(l.args[0], apply(l.args[1], x), apply(l.args[2], x))
    v, b = open_lam(l)
    return subst(b, {v: x})

def occurs(v, t): return v.args[0] in t.fv

# ---------------------------------------------------------------- records
def adt(path, variant, names, *vals): return mk('adt', path, variant, tuple(names), *vals)

def fld(t, name, variant=None):
    if t.op == 'adt':
        if variant is not None and t.args[1] != variant: return mk('bottom')
        if name in t.args[2]: return t.args[3 + t.args[2].index(name)]
        return mk('fld', t, name)
    if t.op == 'tuple' and name.isdigit() and int(name) < len(t.args): return t.args[int(name)]
    if t.op == 'ite':
        a, b = fld(t.args[1], name, variant), fld(t.args[2], name, variant)
        if a.op == 'bottom': return b
        if b.op == 'bottom': return a
        return ite(t.args[0], a, b)
    if t.op == 'upd':
        if t.args[1] == name: return t.args[2]
        return fld(t.args[0], name, variant)
    if t.op == 'bottom': return t
    if variant is not None: return mk('vfld', t, variant, name)
    return mk('fld', t, name)

def upd(t, name, v, variant=None):
    if t.op == 'adt' and name in t.args[2]:
        i = 3 + t.args[2].index(name)
        return mk('adt', *t.args[:i], v, *t.args[i + 1:])
    if t.op == 'tuple' and name.isdigit():
        i = int(name)
        return mk('tuple', *t.args[:i], v, *t.args[i + 1:])
    if fld(t, name) is v: return t
    if t.op == 'upd':
        if t.args[1] == name: return upd(t.args[0], name, v)
        if t.args[1] > name: return mk('upd', upd(t.args[0], name, v), t.args[1], t.args[2])
    return mk('upd', t, name, v)

# ---------------------------------------------------------------- sequences
def gen(n, l):
    if n.op == 'c' and 0 <= n.args[0] <= 8:
        return arr(*[apply(l, I(i)) for i in range(n.args[0])])
    # eta: gen(len s, \i. s[i]) = s
    v, b = open_lam(l)
    b2 = bounded(n, v, b)
    if b2 is not b: b = b2; l = lam(v, b)
    if b.op == 'sel' and b.args[1] is v and not occurs(v, b.args[0]) and slen(b.args[0]) is n:
        return b.args[0]
    return mk('gen', n, l)

def arr(*xs): return mk('arr', *xs)

def slen(t):
    if t.op == 'K' and t.args[0] == 'stride_from_shape': return slen(t.args[1])
    if t.op == 'gen': return t.args[0]
    if t.op == 'arr': return I(len(t.args))
    if t.op in ('st', 'swap'): return slen(t.args[0])
    if t.op == 'push': return add(slen(t.args[0]), ONE)
    if t.op == 'concat': return add(slen(t.args[0]), slen(t.args[1]))
    if t.op == 'ite': return ite(t.args[0], slen(t.args[1]), slen(t.args[2]))
    if t.op == 'slice': return sub(t.args[2], t.args[1])
    if t.op == 'insert': return add(slen(t.args[0]), ONE)
    if t.op == 'remove': return sub(slen(t.args[0]), ONE)
    if t.op == 'cstride': return slen(mk('cshape', *t.args))
    if t.op == 'fold':
        b = fold_body(t)
        acc, k, body = b
        l = subst(slen(body), {})
        if slen_preserving(body, acc): return slen(t.args[0])
    return mk('len', t)

def slen_preserving(b, acc):
    while True:
        if b is acc: return True
        if b.op in ('st', 'swap'): b = b.args[0]
        elif b.op == 'ite':
            return slen_preserving(b.args[1], acc) and slen_preserving(b.args[2], acc)
        else: return False

def sel(t, i):
    if t.op == 'gen': return apply(t.args[1], i)
    if t.op == 'arr' and i.op == 'c' and 0 <= i.args[0] < len(t.args): return t.args[i.args[0]]
    if t.op == 'st':
        if t.args[1] is i: return t.args[2]
        d = sub(t.args[1], i)
        if d.op == 'c' and d.args[0] != 0: return sel(t.args[0], i)
    if t.op == 'push':
        n = slen(t.args[0])
        if n is i: return t.args[1]
        d = sub(n, i)
        if d.op == 'c' and d.args[0] > 0: return sel(t.args[0], i)
        if i.op == 'c' and n.op != 'c' : pass
    if t.op == 'concat':
        n = slen(t.args[0]); d = sub(i, n)
        if d.op == 'c' and d.args[0] < 0: return sel(t.args[0], i)
        if pos(add(d, ONE)) is TRUE: return sel(t.args[1], d)
        return ite(pos(neg(d)), sel(t.args[0], i), sel(t.args[1], d))
    if t.op == 'ite': return ite(t.args[0], sel(t.args[1], i), sel(t.args[2], i))
    if t.op == 'fold':
        r = sel_fold(t, i)
        if r is not None: return r
    if i.op == 'ite' and leaves_const(i): return ite(i.args[0], sel(t, i.args[1]), sel(t, i.args[2]))
    if t.op == 'slice': return sel(t.args[0], add(t.args[1], i))
    if t.op == 'remove':
        d = sub(i, t.args[1])
        if pos(neg(d)) is TRUE: return sel(t.args[0], i)
        if pos(add(d, ONE)) is TRUE: return sel(t.args[0], add(i, ONE))
    r = mk('sel', t, i)
    if t.id in _useq: mark_unsigned(r)
    return r
def sel_fold(t, i):
    """element of a sequence filled by a loop writing index c+k or c-k at step k"""
    a, k, b = fold_body(t)
    if b.op != 'st' or b.args[0] is not a: return None
    if b.args[2].op == 'b' and not occurs(a, b.args[1]):
        # bit set: element i was written iff some step wrote index i
        none = forall(t.args[1], lam(k, lnot(eq(b.args[1], i))))
        return ite(none, sel(t.args[0], i), b.args[2])
    p = poly_of(b.args[1]); ck = p.get((k,), 0)
    if abs(ck) != 1 or any(m != (k,) and any(occurs(k, x) or occurs(a, x) for x in m) for m in p): return None
    c = from_poly({m: x for m, x in p.items() if m != (k,)})
    j = sub(i, c) if ck == 1 else sub(c, i)      # the step that writes i
    n = t.args[1]
    if pos(add(sub(j, n), ONE)) is TRUE or pos(neg(j)) is TRUE: return sel(t.args[0], i)
    if not occurs(a, b.args[2]) and pos(add(j, ONE)) is TRUE and pos(sub(n, j)) is TRUE:
        return subst(b.args[2], {k: j})
    return None
_useq = set()
def mark_useq(t):
    """t is a sequence of unsigned integers"""
    _useq.add(t.id); return t

def st(t, i, v):
    if t.op == 'st' and t.args[1] is i: return st(t.args[0], i, v)
    if t.op == 'arr' and i.op == 'c' and 0 <= i.args[0] < len(t.args):
        l = list(t.args); l[i.args[0]] = v; return arr(*l)
    if v.op == 'sel' and v.args[0] is t and v.args[1] is i: return t
    if t.op == 'st':
        d = sub(t.args[1], i)
        if d.op == 'c' and d.args[0] > 0:   # canonical order for distinct known offsets
            return mk('st', st(t.args[0], i, v), t.args[1], t.args[2])
    r = mk('st', t, i, v)
    return r

def push(t, v):
    if t.op == 'buf': return arr(v)
    if t.op == 'arr': return arr(*t.args, v)
    return mk('push', t, v)

def concat(a, b):
    if a.op == 'buf' or a.op == 'arr' and not a.args: return b
    if b.op == 'arr' and not b.args: return a
    if a.op == 'arr' and b.op == 'arr': return arr(*a.args, *b.args)
    if b.op == 'push': return push(concat(a, b.args[0]), b.args[1])
    if b.op == 'arr':
        r = a
        for x in b.args: r = push(r, x)
        return r
    return mk('concat', a, b)

def slc(t, a, b):
    if a is ZERO and b is slen(t): return t
    if t.op == 'slice': return slc(t.args[0], add(t.args[1], a), add(t.args[1], b))
    if t.op == 'arr' and a.op == 'c' and b.op == 'c': return arr(*t.args[a.args[0]:b.args[0]])
    r = mk('slice', t, a, b)
    if t.id in _useq: mark_useq(r)
    return r

def rev(t):
    n = slen(t)
    v = fresh('i')
    return gen(n, lam(v, sel(t, sub(sub(n, ONE), v))))

# ---------------------------------------------------------------- loops
def bounded(n, v, b):
    """simplify b under 0 <= v < n"""
    if n.op == 'min' and ONE in n.args: return subst(b, {v: ZERO})
    if n.op == 'inf' or not any(x.op in ('pos', 'eq0', 'min') for x in conds_of(b)): return b
    mark_unsigned(v)
    c = pos(sub(n, v))
    b = subst(b, {v: v})  if False else b
    if c.op == 'b': return b
    return assume(b, c, True)

def forall(n, l):
    if n is ZERO: return TRUE
    v, b = open_lam(l)
    b2 = bounded(n, v, b)
    if b2 is not b: b = b2; l = lam(v, b)
    if b is TRUE: return TRUE
    if not occurs(v, b) : return lor(lnot(pos(n)), b)
    if n.op == 'c' and 0 < n.args[0] <= 8:
        return land(*[apply(l, I(i)) for i in range(n.args[0])])
    # forall over conjunction splits into conjunction of foralls
    if b.op == 'and': return land(*[forall(n, lam(v, x)) for x in b.args])
    # every k < n is below c: n <= c
    x, neg_ = (b.args[0], True) if b.op == 'not' else (b, False)
    if x.op == 'pos':
        p = poly_of(x.args[0])
        if neg_: p = poly_of(sub(ONE, x.args[0]))
        if p.get((v,)) == -1 and not any(m != (v,) and any(occurs(v, y) for y in m) for m in p):
            d = dict(p); del d[(v,)]
            return lor(lnot(pos(n)), le(n, from_poly(d)))
    return mk('forall', n, l)

def first(n, l):
    """least k < n with l(k), else n"""
    v, b = open_lam(l)
    if b is FALSE: return n
    if n is ZERO: return ZERO
    if b.op == 'pos' and n.op == 'inf':
        # least k with k > c: c + 1 when that is not negative
        p = poly_of(b.args[0])
        if p.get((v,)) == 1 and not any(m != (v,) and any(occurs(v, y) for y in m) for m in p):
            d = dict(p); del d[(v,)]
            c = sub(ONE, from_poly(d))
            if nonneg(c): return c
    return mk('first', n, l)

def isum(n, l):
    if n is ZERO: return ZERO
    v, b = open_lam(l)
    if not occurs(v, b): return mul(n, b)
    if n.op == 'c' and 0 < n.args[0] <= 8:
        r = ZERO
        for i in range(n.args[0]): r = add(r, apply(l, I(i)))
        return r
    return mk('isum', n, unreverse(n, v, b, l))

def prod(n, l):
    if n is ZERO: return ONE
    v, b = open_lam(l)
    if b is ONE: return ONE
    if b.op == 'sel' and b.args[0].op == 'cshape' and b.args[1] is v and n is slen(b.args[0]):
        return size(b.args[0].args[0])
    if n.op == 'c' and 0 < n.args[0] <= 8:
        r = ONE
        for i in range(n.args[0]): r = mul(r, apply(l, I(i)))
        return r
    return mk('prod', n, unreverse(n, v, b, l))

def unreverse(n, v, b, l):
    """commutative range operators: index sequences upwards"""
    neg_ = 0
    seen = set(); stack = [b]
    while stack:
        t = stack.pop()
        if id(t) in seen or not occurs(v, t): continue
        seen.add(id(t))
        if t.op == 'sel':
            c = poly_of(t.args[1]).get((v,))
            if c is not None:
                if c > 0: return l
                neg_ += 1
        stack.extend(subterms(t.args))
    if not neg_: return l
    return lam(v, subst(b, {v: sub(sub(n, ONE), v)}))

def fsel(n, c, v):
    """the values v(k), k = 0..n-1, for which c(k)"""
    if n is ZERO: return arr()
    _, b = open_lam(c)
    if b is TRUE: return gen(n, v)
    if b is FALSE: return arr()
    return mk('fsel', n, c, v)

# strided-traversal vocabulary (see domain.py)
def size(S):
    i = mark_unsigned(fresh('i'))
    return mark_unsigned(prod(slen(S), lam(i, sel(S, i))))
def cshape(S, D):
    if S.op == 'arr' and len(S.args) == 0: return S
    if S.op == 'cshape' and D.op == 'cstride' and S.args == D.args: return S
    if S.op == 'arr' and len(S.args) == 1: return S
    if row_major(S, D): return ite(eq(slen(S), ZERO), arr(), arr(size(S)))
    return mark_useq(mk('cshape', S, D))
def cstride(S, D):
    if S.op == 'arr' and len(S.args) == 0: return S
    if S.op == 'cshape' and D.op == 'cstride' and S.args == D.args: return D
    if S.op == 'arr' and len(S.args) == 1: return arr(mark_unsigned(sel(D, ZERO)))
    if row_major(S, D): return ite(eq(slen(S), ZERO), arr(), arr(ONE))
    return mark_useq(mk('cstride', S, D))
def row_major(S, D):
    if S.op == 'arr' and D.op == 'arr' and len(S.args) == len(D.args) and S.args:
        w = ONE
        for n, d in zip(reversed(S.args), reversed(D.args)):
            if d is not w: return False
            w = mul(w, n)
        return True
    return D.op == 'K' and D.args[0] == 'stride_from_shape' and D.args[1] is S
def swapped(x):
    """(base, a, b) when x is base with elements a and b exchanged"""
    if x.op == 'swap': return x.args
    if x.op == 'st' and x.args[0].op == 'st':
        y, b, vb = x.args; z, a, va = y.args
        if va is sel(z, b) and vb is sel(z, a): return z, a, b
    return None
def fi(S, D, k):
    if row_major(S, D): return k
    if k.op == 'fi':
        # row-major copy of (S, D) read with two axes exchanged
        p, q = swapped(k.args[0]), swapped(k.args[1])
        if p and q and p[1:] == q[1:] and p[0] is S and row_major(S, q[0]):
            return fi(k.args[0], subst(k.args[1], {q[0]: D}), k.args[2])
    if S.op == 'cshape' and D.op == 'cstride' and S.args == D.args: return fi(*S.args, k)
    if S.op == 'arr' and not S.args: return ZERO
    if S.op == 'arr' and D.op == 'arr' and len(S.args) == 1 == len(D.args): return mul(k, D.args[0])
    return mark_unsigned(mk('fi', S, D, k))

def fold_body(t):
    a, b1 = open_lam(t.args[2])
    k, b = open_lam(b1)
    return a, k, b

def fold(init, n, acc, k, body):
    """n-fold iteration acc := body(acc,k) for k = 0..n-1"""
    if body is acc or n is ZERO: return init
    body = bounded(n, k, body)
    if body is acc: return init
    if n.op == 'c' and 0 < n.args[0] <= 6:
        r = init
        for i in range(n.args[0]): r = subst(body, {acc: r, k: I(i)})
        return r
    if not occurs(acc, body):
        return ite(pos(n), subst(body, {k: sub(n, ONE)}), init)
    if is_int(init) or is_int(body) or is_int(acc):
        p = poly_of(body)
        if p.get((acc,)) == 1 and not any(m != (acc,) and any(occurs(acc, x) for x in m) for m in p):
            d = dict(p); del d[(acc,)]
            return add(init, isum(n, lam(k, from_poly(d))))
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and m.count(acc) == 1 and not any(x is not acc and occurs(acc, x) for x in m):
                rest = list(m); rest.remove(acc)
                return mul(init, prod(n, lam(k, from_poly({tuple(rest): 1}))))
        # saturating counter: acc := if acc < N then acc+1 else acc
        if body.op == 'ite' and not occurs(k, body):
            c, x, y = body.args
            if y is add(acc, ONE) and x is acc: c, x, y = lnot(c), y, x
            if x is add(acc, ONE) and y is acc:
                N = saturation_bound(c, acc)
                if N is not None and pos(add(sub(N, init), ONE)) is TRUE: return imin(add(init, n), N)
    if any(x.op == 'min' for x in conds_of(body)):
        body = drop_min(body, k, n)
    if body.op == 'push' and body.args[0] is acc and not occurs(acc, body.args[1]):
        return concat(init, gen(n, lam(k, body.args[1])))
    if body.op == 'ite' and body.args[1].op == 'push' and body.args[1].args[0] is acc and body.args[2] is acc \
            and not occurs(acc, body.args[0]) and not occurs(acc, body.args[1].args[1]):
        return concat(init, fsel(n, lam(k, body.args[0]), lam(k, body.args[1].args[1])))
    if body.op == 'ite' and body.args[2].op == 'push' and body.args[2].args[0] is acc and body.args[1] is acc \
            and not occurs(acc, body.args[0]) and not occurs(acc, body.args[2].args[1]):
        return concat(init, fsel(n, lam(k, lnot(body.args[0])), lam(k, body.args[2].args[1])))
    if init.op == 'arr' and not init.args:
        pf = prepends(body, acc)
        if pf is not None:
            r = sub(sub(n, ONE), k)
            vs = [p for p in pf if p[1] is not None]
            if all(p[1] is not None for p in pf):
                v = pf[-1][1]
                for c, x in reversed(pf[:-1]): v = ite(c, x, v)
                return gen(n, lam(k, subst(v, {k: r})))
            v = vs[-1][1]
            keep = TRUE
            for c, x in reversed(vs[:-1]): v = ite(c, x, v)
            keep = FALSE
            for c, x in reversed(pf): keep = ite(c, b_(x is not None), keep) if c is not None else b_(x is not None)
            return fsel(n, lam(k, subst(keep, {k: r})), lam(k, subst(v, {k: r})))
    if body.op == 'st' and body.args[0] is acc and not occurs(acc, body.args[2]):
        if body.args[1] is k and slen(init) is n:
            return gen(n, lam(k, body.args[2]))
        if slen(init) is n and body.args[1] is sub(sub(n, ONE), k):
            return gen(n, lam(k, subst(body.args[2], {k: sub(sub(n, ONE), k)})))
    if body.op == 'st' and body.args[0] is acc and body.args[1] is k and slen(init) is n:
        # in-place map: acc[k] = f(acc[k], k)
        v = body.args[2]
        s = mk('sel', acc, k)
        x = fresh('x')
        v2 = subst(v, {s: x})
        if not occurs(acc, v2):
            return gen(n, lam(k, subst(v2, {x: sel(init, k)})))
    if body.op == 'st' and body.args[0] is acc and occurs(acc, body.args[2]) and is_affine(body.args[1], k):
        # only cell e(k) is read at step k and e is injective: it still holds its initial value
        x = fresh('x')
        v2 = subst(body.args[2], {mk('sel', acc, body.args[1]): x})
        if not occurs(acc, v2):
            body = st(acc, body.args[1], subst(v2, {x: sel(init, body.args[1])}))
            return mk('fold', init, n, lam(acc, lam(k, body)))
    if is_bool(init):
        if body.op == 'and' and acc in body.args:
            rest = land(*[x for x in body.args if x is not acc])
            if not occurs(acc, rest): return land(init, forall(n, lam(k, rest)))
        nb = lnot(body)
        if nb.op == 'and' and lnot(acc) in nb.args:
            rest = land(*[x for x in nb.args if x is not lnot(acc)])
            if not occurs(acc, rest): return lnot(land(lnot(init), forall(n, lam(k, rest))))
    return mk('fold', init, n, lam(acc, lam(k, body)))

def b_(v): return TRUE if v else FALSE
def prepends(body, acc):
    """[(cond, value or None)] when every path of body is concat([value], acc) or acc (value None)"""
    if body is acc: return [(None, None)]
    if body.op == 'concat' and body.args[1] is acc and body.args[0].op == 'arr' and len(body.args[0].args) == 1:
        v = body.args[0].args[0]
        return None if occurs(acc, v) else [(None, v)]
    if body.op == 'ite' and not occurs(acc, body.args[0]):
        x, y = prepends(body.args[1], acc), prepends(body.args[2], acc)
        if x is None or y is None or len(x) != 1: return None
        if x[0][1] is None and all(q[1] is None for q in y): return None
        return [(body.args[0], x[0][1])] + y
    return None

def is_affine(e, k):
    """e = c*k + d with a positive constant c and d free of k"""
    p = poly_of(e)
    c = p.get((k,), 0)
    return isinstance(c, int) and c > 0 and not any(m != (k,) and any(occurs(k, x) for x in m) for m in p)

def saturation_bound(c, acc):
    """N such that c is (acc < N), N free of acc"""
    d = None
    if c.op == 'pos': d = c.args[0]                                   # d >= 1
    elif c.op == 'not' and c.args[0].op == 'pos': d = sub(ONE, c.args[0].args[0])  # e <= 0  <=> 1-e >= 1
    if d is None: return None
    N = add(d, acc)
    return None if occurs(acc, N) else N
def drop_min(body, k, n):
    """inside a loop k < n: min(k+c, N) with n <= N is k"""
    m = {}
    for x in conds_of(body):
        if x.op == 'min' and k in x.args:
            others = [y for y in x.args if y is not k]
            if all(not occurs(k, y) and pos(add(sub(y, n), ONE)) is TRUE for y in others): m[x] = k
    return subst(body, m) if m else body

def refold(init, n, l):
    a, b1 = open_lam(l); k, b = open_lam(b1)
    return fold(init, n, a, k, b)

def tup(*a): return mk('tuple', *a)

CONS = {
    'ite': ite, 'and': land, 'not': lnot, 'pos': pos, 'eq0': eq0, 'eq': eq, 'idiv': idiv, 'irem': irem,
    'min': lambda *a: __import__('functools').reduce(imin, a), 'max': imax,
    'len': slen, 'sel': sel, 'st': st, 'push': push, 'concat': concat, 'slice': slc, 'gen': gen,
    'fsel': fsel, 'forall': forall, 'first': first, 'isum': isum, 'prod': prod, 'fold': refold,
    'cshape': cshape, 'cstride': cstride, 'fi': fi,
    'fld': fld, 'vfld': lambda t, v, n: fld(t, n, v), 'upd': upd,
}
def register(op, f): CONS[op] = f
register('deref', lambda a: a.args[0] if a.op == '&' else mk('deref', a))

# ---------------------------------------------------------------- printing
def show(t, depth=0, maxd=40):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ','.join(show(x, depth + 1, maxd) for x in t) + ')'
        return str(t)
    if depth > maxd: return '…'
    s = lambda x: show(x, depth + 1, maxd)
    op, a = t.op, t.args
    if op in ('c', 'b', 'f'): return str(a[0])
    if op == 's': return repr(a[0])
    if op == 'unit': return '()'
    if op == 'v': return f'${a[1]}{a[0]}'
    if op == 'bv': return f'#{a[0]}'
    if op == 'arg': return str(a[1]) if len(a) > 1 else f'arg{a[0]}'
    if op == 'poly':
        out = []
        for m, c in a[0]:
            if m == (): out.append(str(c)); continue
            ms = '*'.join(s(x) for x in m)
            out.append(ms if c == 1 else f'{c}*{ms}' if c != -1 else f'-{ms}')
        return '(' + ' + '.join(out) + ')'
    if op == 'pos': return f'({s(a[0])} > 0)'
    if op == 'eq0': return f'({s(a[0])} == 0)'
    if op == 'eq': return f'({s(a[0])} == {s(a[1])})'
    if op == 'not': return f'!{s(a[0])}'
    if op == 'and': return '(' + ' & '.join(s(x) for x in a) + ')'
    if op == 'ite': return f'if({s(a[0])}, {s(a[1])}, {s(a[2])})'
    if op == 'lam': return f'\\#{a[0]}.{s(a[1])}'
    if op == 'fld': return f'{s(a[0])}.{a[1]}'
    if op == 'vfld': return f'{s(a[0])}@{a[1]}.{a[2]}'
    if op == 'sel': return f'{s(a[0])}[{s(a[1])}]'
    if op == 'deref': return f'*{s(a[0])}'
    if op == '&': return f'&{s(a[0])}'
    if op == 'adt':
        return a[0].split('::')[-1] + '.' + str(a[1]) + '{' + ', '.join(f'{n}: {s(v)}' for n, v in zip(a[2], a[3:])) + '}'
    if op == 'tuple': return '(' + ', '.join(s(x) for x in a) + ')'
    if op == 'arr': return '[' + ', '.join(s(x) for x in a) + ']'
    if op == 'call': return str(a[0]).split('::')[-1] + '(' + ', '.join(s(x) for x in a[1:]) + ')'
    return op + '(' + ', '.join(s(x) for x in a) + ')'
register('fmax', lambda a, b: fmm('fmax', a, b))
register('fmin', lambda a, b: fmm('fmin', a, b))
register('flt', flt_)
