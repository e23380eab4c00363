"""Gated value-graph construction: abstract interpretation of MIR over the term domain.

Every function body is traversed once per loop-fixpoint pass in reverse post-order; joins build
gated (if-then-else) terms, loops are turned into folds by recurrence recognition, crate-local
calls are inlined unless the policy keeps them as contracts.  No input is chosen, no path is
handed to a solver."""
import os, re, itertools
from terms import *
import terms as tm
from mir import *

class Unsupported(Exception): pass

INT_TYS = {'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'}
UNS = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128'}

def norm_path(p):
    p = p.replace('bitflags::__private::core', 'std')
    p = re.sub(r'\b(core|alloc)::', 'std::', p)
    # strip <impl X> segments and generic args
    out = ''; d = 0
    for i, c in enumerate(p):
        if c == '<': d += 1
        elif c == '>' and (i == 0 or p[i - 1] != '-'): d -= 1
        elif d == 0: out += c
    out = re.sub(r'(::)+', '::', out)
    return out.strip(':')

class State:
    __slots__ = ('env', 'pc')
    def __init__(self, env, pc): self.env = env; self.pc = pc
    def copy(self): return State(dict(self.env), self.pc)

OK = ('X', 'ok'); EFF = ('X', 'eff')

class Frame:
    def __init__(self, fn, fid, tmap, depth): self.fn = fn; self.fid = fid; self.tmap = tmap; self.depth = depth

class Write:
    __slots__ = ('key', 'projs', 'val', 'pc', 'sp', 'fn', 'loops', 'ok', 'env')

def mkSome(x): return adt('Option', 'Some', ('0',), x)
NONE = adt('Option', 'None', ())
def mkOk(x): return adt('Result', 'Ok', ('0',), x)

VARIDX = {('Option', 'None'): 0, ('Option', 'Some'): 1, ('Result', 'Ok'): 0, ('Result', 'Err'): 1,
          ('ControlFlow', 'Continue'): 0, ('ControlFlow', 'Break'): 1}

def lit(c):
    v = True
    while c.op == 'not': c = c.args[0]; v = not v
    return (c, v)
def decide(F, lits):
    """value of F under a list of literals, or None"""
    for c, v in lits:
        if c is F: return v
    x = F
    for c, v in lits:
        x = assume(x, c, v)
        if x.op == 'b': return x.args[0]
    fs = [c if v else lnot(c) for c, v in lits]
    rel = [f for f in fs if share_atoms(f, F)]
    if not rel: return None
    if not psat(fs + [lnot(F)]): return True
    if not psat(fs + [F]): return False
    # literals that earlier ones simplify
    x = F; done = []; new = False
    for c, v in lits:
        q = c
        for d, w in done: q = assume(q, d, w)
        while q.op == 'not': q, v = q.args[0], not v
        if q.op == 'b':
            if q.args[0] != v: return None
            continue
        new |= q is not c
        done.append((q, v)); x = assume(x, q, v)
        if x.op == 'b': return x.args[0]
    if new:
        fs = [c if v else lnot(c) for c, v in done]
        if not psat(fs + [lnot(x)]): return True
        if not psat(fs + [x]): return False
    return None
_atoms_memo = {}
def atoms(f):
    r = _atoms_memo.get(f)
    if r is None:
        if f.op in ('not', 'and'): r = frozenset().union(*[atoms(x) for x in f.args])
        elif f.op == 'ite' and is_bool(f): r = atoms(f.args[0]) | atoms(f.args[1]) | atoms(f.args[2])
        elif f.op == 'b': r = frozenset()
        else: r = frozenset([f])
        _atoms_memo[f] = r
    return r
def share_atoms(f, g):
    return bool(atoms(f) & atoms(g)) or any(x.op in ('pos', 'eq0') for x in atoms(g))
def psat(fs, budget=None):
    """propositional satisfiability of a conjunction, atoms related by `implied`"""
    if budget is None: budget = [400]
    budget[0] -= 1
    if budget[0] < 0: return True
    todo = land(*fs)
    if todo.op == 'b': return todo.args[0]
    parts = todo.args if todo.op == 'and' else (todo,)
    units = [lit(p) for p in parts if lit(p)[0].op not in ('and', 'ite')]
    rest = [p for p in parts if lit(p)[0].op in ('and', 'ite')]
    # unit propagation
    for c, v in units:
        new = []
        for p in rest:
            q = assume(p, c, v)
            if q is FALSE: return False
            new.append(q)
        rest = new
    for i, (c, v) in enumerate(units):
        for d, w in units[i + 1:]:
            x = implied(c, v, d)
            if x is not None and x != w: return False
            x = implied(d, w, c)
            if x is not None and x != v: return False
    rest = [r for r in rest if r is not TRUE]
    if not rest: return True
    at = sorted(atoms(rest[0]), key=lambda t: t.id)
    if not at: return True
    a = at[0]
    for val in (True, False):
        if psat([assume(r, a, val) for r in rest] + [a if val else lnot(a)] + [c if v else lnot(c) for c, v in units], budget): return True
    return False
def residue(lits, F, val):
    out = []
    for c, v in lits:
        x = assume(c, F, val)
        while x.op == 'not': x = x.args[0]; v = not v
        if x.op == 'b': continue
        if x.op == 'and' and v: out += [lit(y) for y in x.args]
        else: out.append((x, v))
    return out

def models_cast(to, a):
    if to == 'usize' and nonneg(a): return a
    if a.op == 'c' and to in INT_BITS and in_range(to, a.args[0]): return a
    return mk('cast', to, a)
INT_BITS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}
def in_range(ty, v):
    b = INT_BITS[ty]
    return 0 <= v < 1 << b if ty[0] == 'u' else -(1 << b - 1) <= v < 1 << b - 1
register('cast', models_cast)
class Engine:
    def __init__(self, prog, policy=None, models=None, max_depth=40):
        self.P = prog
        self.policy = policy or (lambda f, fr: 'inline')
        self.fids = itertools.count(1)
        self.max_depth = max_depth
        self.log = []          # Write records
        self.calls = []        # opaque call records (term, pc, sp, fn)
        self.notes = []        # imprecision notes
        self.visited = set()   # functions whose body was analysed
        self.ext = {}
        self.stack = []
        import models as M
        self.M = M
        self.user_models = models or {}
        self.on_drop = None    # hook: values going out of scope
        self.forked = False    # stepping through a loop may also follow undecided exits
        self.unroll = 0        # >0: loops whose every exit test is decided are stepped through, up to that many rounds
        self.flag_bits = self._flag_bits()

    def _flag_bits(self):
        return {}

    # ------------------------------------------------------------ storage
    def init(self, key, st=None):
        k = key[0]
        if k == 'P': return self.deref_content(key[1])
        if k == 'M': return key[1].args[1] if key[1].op == 'hp' else mk('mem', key[1])
        if key == OK: return TRUE
        if k == 'X': return arr()
        return None
    def deref_content(self, p):
        if p.op == '&': return p.args[0]
        t = mk('deref', p)
        return t
    def get(self, st, key):
        v = st.env.get(key)
        if v is None:
            v = self.init(key)
            if v is None:
                v = mk('uninit', key)
        return v
    def proj(self, st, v, projs):
        for p in projs:
            k = p[0]
            if k == 'f': v = self.field(v, p[1], p[2], p[3] if len(p) > 3 else None)
            elif k == 'i': v = sel(v, p[1])
            elif k == 's': v = slc(v, p[1], p[2])
            elif k == 'part': v = self.M.part(v, p[1])
            else: raise Unsupported('proj ' + str(k))
        return v
    def field(self, v, name, variant, fty=None):
        r = fld(v, name, variant)
        if r.op in ('fld', 'vfld') and fty: self.mark(r, fty)
        return r
    def mark(self, r, ty):
        """record integer-ness / unsignedness from the static type"""
        if not isinstance(r, T): return r
        ty = erase(ty)
        if ty in UNS: mark_unsigned(r)
        elif ty in INT_TYS: mark_int(r)
        elif ty == 'bool' and r.op not in ('b',): mark_bool(r)
        elif re.match(r'^(std::vec::Vec<usize>|\[usize; .*\]|\[usize\])$', ty): mark_useq(r)
        return r
    def read(self, st, key, projs): return self.proj(st, self.get(st, key), projs)
    def write(self, st, key, projs, val, fr=None, sp=''):
        if key[0] in ('P', 'M'):
            w = Write(); w.key = key; w.projs = projs; w.val = val; w.pc = st.pc; w.sp = sp
            w.fn = fr.fn.id if fr else ''; w.loops = (); w.ok = self.get(st, OK); w.env = None
            self.log.append(w)
        st.env[key] = self.upd(st, self.get(st, key), projs, val)
    def upd(self, st, v, projs, val):
        if not projs: return val
        p = projs[0]
        if p[0] == 'f':
            inner = self.upd(st, fld(v, p[1], p[2]) , projs[1:], val) if len(projs) > 1 else val
            if v.op == 'ite':
                return ite(v.args[0], self.upd(st, v.args[1], projs, val), self.upd(st, v.args[2], projs, val))
            if v.op == 'uninit': return mk('upd', v, p[1], inner)
            return upd(v, p[1], inner)
        if p[0] == 'i':
            inner = self.upd(st, sel(v, p[1]), projs[1:], val) if len(projs) > 1 else val
            if v.op == 'slice': pass
            return tm.st(v, p[1], inner)
        if p[0] == 's':
            if len(projs) > 1 and projs[1][0] == 'i':
                return self.upd(st, v, (('i', add(p[1], projs[1][1])),) + projs[2:], val)
            if len(projs) == 1: return self.M.splice(v, p[1], p[2], val)
        if p[0] == 'part': return self.M.part_upd(v, p[1], self.upd(st, self.M.part(v, p[1]), projs[1:], val))
        raise Unsupported('upd ' + str(p[0]))

    # pointer term -> list of (key, projs); handles opaque pointers
    def target(self, p, raw):
        """p: pointer value term (not ite). -> (key, projs)"""
        if p.op == 'ref': return p.args[0], p.args[1]
        if raw:
            if p.op == 'padd': return ('M', p.args[0]), (('i', p.args[1]),)
            return ('M', p), (('i', ZERO),)
        return ('P', p), ()
    def load(self, st, p, projs, raw):
        if p.op == 'ite':
            return ite(p.args[0], self.load(st, p.args[1], projs, raw), self.load(st, p.args[2], projs, raw))
        if p.op in ('sel', 'fld'):
            ps = chosen(p)                      # one of finitely many known references, picked by a symbolic index
            if ps: return sel(arr(*[self.load(st, x, projs, raw) for x in ps[0]]), ps[1])
        k, pr = self.target(p, raw)
        return self.read(st, k, pr + projs)
    def store(self, st, p, projs, raw, val, fr, sp):
        if p.op == 'ite':
            c = p.args[0]
            o1 = self.load(st, p.args[1], projs, raw); o2 = self.load(st, p.args[2], projs, raw)
            self.store(st, p.args[1], projs, raw, ite(c, val, o1), fr, sp)
            self.store(st, p.args[2], projs, raw, ite(c, o2, val), fr, sp)
            return
        k, pr = self.target(p, raw)
        self.write(st, k, pr + projs, val, fr, sp)

    # ------------------------------------------------------------ places
    def place_loc(self, fr, st, pl):
        """-> ('loc', key, projs) or ('ptr', term, projs, raw)"""
        key = ('L', fr.fid, pl['l']); projs = (); cur = None; raw = False
        ty = fr.fn.ty(pl['l']) if pl['l'] < len(fr.fn.locals) else ''
        variant = None
        for e in pl['p']:
            k = e['k']
            if k == 'deref':
                v = self.read(st, key, projs) if cur is None else self.load(st, cur, projs, raw)
                t = erase(ty)
                v = self.M.strip_box(v)
                cur = v; raw = t.startswith('*'); projs = ()
                key = None
                if raw: ty = re.sub(r'^\*(const|mut) ', '', t)
                elif t.startswith('&'): ty = re.sub(r'^&(mut )?', '', t)
                else:
                    m = re.match(r'^std::boxed::Box<(.*)>$', t); ty = m.group(1) if m else ''
                    # Box is transparent: stay at the same place
            elif k == 'field':
                projs += (('f', e['name'], variant, e['ty']),); ty = e['ty']; variant = None
            elif k == 'downcast':
                variant = e['name']
            elif k == 'index':
                projs += (('i', self.get(st, ('L', fr.fid, e['l']))),); ty = elem_ty(ty)
            elif k == 'cindex':
                if e['end']:
                    base = self.read(st, key, projs) if cur is None else self.load(st, cur, projs, raw)
                    projs += (('i', sub(slen(base), I(e['off']))),)
                else: projs += (('i', I(e['off'])),)
                ty = elem_ty(ty)
            else: raise Unsupported('place ' + k)
        if cur is None: return ('loc', key, projs, ty)
        return ('ptr', cur, projs, raw, ty)
    def read_place(self, fr, st, pl):
        r = self.place_loc(fr, st, pl)
        v = self.read(st, r[1], r[2]) if r[0] == 'loc' else self.load(st, r[1], r[2], r[3])
        return self.mark(v, r[-1]) if v.op in ('sel', 'fld', 'vfld', 'deref', 'call', 'arg', 'v', 'uninit') else v
    def write_place(self, fr, st, pl, val, sp):
        r = self.place_loc(fr, st, pl)
        if r[0] == 'loc': self.write(st, r[1], r[2], val, fr, sp)
        else: self.store(st, r[1], r[2], r[3], val, fr, sp)
    def ref_place(self, fr, st, pl):
        r = self.place_loc(fr, st, pl)
        if r[0] == 'loc': return mk('ref', r[1], r[2])
        return self.mkref(r[1], r[2], r[3])
    def mkref(self, p, projs, raw):
        if p.op == 'ite': return ite(p.args[0], self.mkref(p.args[1], projs, raw), self.mkref(p.args[2], projs, raw))
        if not projs and (not raw or p.op == 'ref'): return p
        k, pr = self.target(p, raw)
        return mk('ref', k, pr + projs)

    # ------------------------------------------------------------ operands
    def const(self, fr, o):
        if 'fn' in o:
            j = o['fn']
            if fr is not None and fr.tmap:      # a function value keeps the type arguments of where it was named
                sb = lambda a: a if a.startswith("'") else erase(subst_ty(erase(a), fr.tmap))
                na = [sb(a) for a in j['args']]
                if na != [a if a.startswith("'") else erase(a) for a in j['args']]:
                    j = dict(j, args=na)
                    if j.get('self'): j['self'] = sb(j['self'])
                    if j.get('res'): j['res'] = dict(j['res'], args=[sb(a) for a in j['res']['args']])
            return mk('fnc', FnRef(j))
        if 'closure' in o: return mk('closure', o['closure'])
        ty = erase(o['ty'])
        if 'promoted' in o:
            f = self.P.fns.get(o['uneval'])
            if f: return self.eval_promoted(f, o['promoted'], fr)
        if 'uneval' in o and 'int' not in o:
            name = o['uneval']
            r = self.M.named_const(self, name, o)
            if r is not None: return r
            f = self.P.fns.get(name)
            if f is not None: return self.eval_const(f)
            return mk('const', name, tuple(o.get('uargs', [])))
        if 'int' in o:
            v = int(o['int'])
            if ty == 'bool': return B(v)
            if ty in INT_TYS:
                if ty not in UNS:
                    bits = o['size'] * 8
                    if v >> (bits - 1): v -= 1 << bits
                return I(v)
            if ty == 'char': return mk('char', v)
            if 'uneval' in o:
                r = self.M.named_const(self, o['uneval'], o)
                if r is not None: return r
            if ty in ('f32', 'f64'): return self.M.flit(o['txt'])
        r = self.M.named_const(self, o.get('uneval', ''), o)
        if r is not None: return r
        v = fr.tmap.get(o.get('txt', '')) if fr is not None and ty in INT_TYS else None
        if v is not None and re.match(r'^\d+(_usize)?$', str(v)): return I(int(str(v).split('_')[0]))
        if ty == '()': return UNIT
        if ty in ('&str', "&'static str"): return mk('s', o['txt'])
        return mk('const', o.get('txt', ''), ty)
    def eval_promoted(self, f, i, fr):
        sub_ = Fn(dict(f.j, **f.j['promoted'][i], id=f.id + f'::promoted{i}'))
        st = State({}, ())
        r = self.exec_fn(Frame(sub_, next(self.fids), fr.tmap, fr.depth + 1), st)
        v = r[0]
        # promoted returns a reference to a promoted static; keep content by value
        return self.snap_val(r[1], v)
    def snap_val(self, st, v):
        if v.op == 'ref': return mk('&', self.snap_val(st, self.read(st, v.args[0], v.args[1])))
        return v
    _cc = None
    def eval_const(self, f):
        st = State({}, ())
        try:
            r = self.exec_fn(Frame(f, next(self.fids), {}, 0), st)
            return self.snap_val(r[1], r[0])
        except Unsupported:
            return mk('const', f.id)
    def operand(self, fr, st, o):
        if o['k'] == 'const': return self.const(fr, o)
        if o['k'] == 'rtcheck': return FALSE
        return self.read_place(fr, st, o['place'])
    def op_ty(self, fr, o):
        if o['k'] == 'const': return o['ty']
        if o['k'] == 'rtcheck': return 'bool'
        pl = o['place']
        ty = fr.fn.ty(pl['l'])
        for e in pl['p']:
            if e['k'] == 'field': ty = e['ty']
            elif e['k'] == 'deref':
                t = erase(ty); ty = re.sub(r'^(\*const |\*mut |&mut |&)', '', t)
                m = re.match(r'^std::boxed::Box<(.*)>$', t)
                if m: ty = m.group(1)
            elif e['k'] in ('index', 'cindex'): ty = elem_ty(ty)
        return ty

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv):
        k = rv['k']
        if k == 'use': return self.operand(fr, st, rv['o'])
        if k in ('ref', 'rawptr'): return self.ref_place(fr, st, rv['place'])
        if k == 'bin':
            a = self.operand(fr, st, rv['a']); b = self.operand(fr, st, rv['b'])
            return self.binop(rv['op'], a, b, erase(subst_ty(rv['ty'], fr.tmap)))
        if k == 'un':
            a = self.operand(fr, st, rv['a'])
            op = rv['op']
            if op == 'Not':
                if erase(rv['ty']) == 'bool': return lnot(a)
                return mk('bitnot', a)
            if op == 'Neg':
                if erase(rv['ty']) in INT_TYS: return neg(a)
                return self.M.fneg(a)
            if op == 'PtrMetadata': return slen(self.load(st, a, (), False))
            raise Unsupported('unop ' + op)
        if k == 'cast':
            a = self.operand(fr, st, rv['o'])
            return self.cast(a, rv['kind'], erase(subst_ty(rv['from'], fr.tmap)), erase(subst_ty(rv['ty'], fr.tmap)), st)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in rv['ops']]
            kd = rv['kind']
            if kd == 'array': return arr(*ops)
            if kd == 'tuple': return tup(*ops) if ops else UNIT
            if kd == 'adt': return self.aggregate(rv, ops)
            if kd == 'closure': return mk('closure', rv['def'], *ops)
            if kd == 'rawptr': return ops[0]
            raise Unsupported('agg ' + kd)
        if k == 'discr':
            v = self.read_place(fr, st, rv['place'])
            return self.discr(v)
        if k == 'repeat':
            n = rv['n']
            v = self.operand(fr, st, rv['o'])
            if fr.tmap and n in fr.tmap: n = str(fr.tmap[n])
            try: cnt = I(int(re.sub(r'_?usize$', '', n)))
            except ValueError: cnt = mark_unsigned(mk('constn', n))
            if self.unroll and cnt.op == 'c' and cnt.args[0] <= 256: return arr(*[v] * cnt.args[0])
            i = fresh('i')
            return mk('gen', cnt, lam(i, v))
        raise Unsupported('rvalue ' + k)
    def aggregate(self, rv, ops):
        path = rv['adt']; short = {'std::option::Option': 'Option', 'std::result::Result': 'Result',
                                   'std::ops::ControlFlow': 'ControlFlow'}.get(path, path)
        r = self.M.agg(self, short, rv, ops)
        if r is not None: return r
        if rv['vi'] or (short, rv['variant']) not in VARIDX:
            VARIDX.setdefault((short, rv['variant']), rv['vi'])
        return adt(short, rv['variant'], tuple(rv['fields']), *ops)
    def discr(self, v):
        if v.op == 'adt':
            i = VARIDX.get((v.args[0], v.args[1]))
            if i is None:
                a = self.P.adts.get(v.args[0])
                if a: i = [x['name'] for x in a['variants']].index(v.args[1])
            if i is not None: return I(i)
        if v.op == 'ite': return ite(v.args[0], self.discr(v.args[1]), self.discr(v.args[2]))
        return mark_int(mk('discr', v))
    def binop(self, op, a, b, ty):
        isint = ty in INT_TYS or (ty.startswith('*') and op in ('Eq', 'Ne'))
        if op.endswith('WithOverflow'):
            return tup(self.binop(op[:-12], a, b, ty), FALSE)
        if op.endswith('Unchecked'): op = op[:-9]
        if op == 'Offset': return self.M.padd(a, b)
        if ty == 'bool':
            if op in ('BitAnd',): return land(a, b)
            if op == 'BitOr': return lor(a, b)
            if op in ('BitXor', 'Ne'): return lnot(eq(a, b)) if not (a.op == 'b' or b.op == 'b') else lnot(eq(a, b))
            if op == 'Eq': return eq(a, b)
        if isint:
            if op == 'Add': return add(a, b)
            if op == 'Sub': return sub(a, b)
            if op == 'Mul': return mul(a, b)
            if op == 'Div': return idiv(a, b)
            if op == 'Rem': return irem(a, b)
            if op == 'Lt': return lt(a, b)
            if op == 'Le': return le(a, b)
            if op == 'Gt': return lt(b, a)
            if op == 'Ge': return le(b, a)
            if op == 'Eq': return self.ieq(a, b)
            if op == 'Ne': return lnot(self.ieq(a, b))
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
                return self.M.bitop(op, a, b)
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            return self.M.arith(op.lower(), a, b)
        if op == 'Lt': return mk('flt', a, b)
        if op == 'Gt': return mk('flt', b, a)
        if op == 'Le': return mk('fle', a, b)
        if op == 'Ge': return mk('fle', b, a)
        if op == 'Eq': return eq(a, b)
        if op == 'Ne': return lnot(eq(a, b))
        return mk('bin', op, a, b)
    def ieq(self, a, b):
        if a.op == 'ite' and leaves_const(a) and b.op == 'c': return eq(a, b)
        for x, y in ((a, b), (b, a)):
            if x.op == 'ref' or y.op == 'ref' or x.op == 'padd': return eq(a, b)
        return eq0(sub(a, b))
    def cast(self, a, kind, frm, to, st):
        if 'Transmute' in kind:
            b = a
            while b.op == 'fld': b = b.args[0]
            if b.op == 'box': return mk('ref', ('P', b), ())
        if kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion') or kind.startswith('Subtype'):
            if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind: return a
            return a
        if kind == 'IntToInt':
            if a.op == 'c':
                v = a.args[0]
                if to in INT_BITS and not in_range(to, v):
                    if to in UNS: return mk('cast', to, a)
                    b = INT_BITS[to]; v &= (1 << b) - 1
                    return I(v - (1 << b) if v >> (b - 1) else v)
                return a
            if a.op == 'ite' and leaves_const(a): return a
            if frm == to: return a
            # index arithmetic is assumed not to overflow: usize values fit isize
            if frm == 'usize' and to in ('isize', 'i64', 'i128', 'u64', 'u128') or frm == 'u64' and to == 'usize': return a
            r = models_cast(to, a)
            if is_bool(a): return ite(a, ONE, ZERO)
            return mark_unsigned(r) if to in UNS else mark_int(r)
        if kind == 'Transmute': return self.M.transmute(a, frm, to)
        return mk('cast', to, a)

    # ------------------------------------------------------------ facts
    def assume_state(self, st, c, val):
        """returns new state with literal added, or None if contradictory"""
        if c.op == 'b': return st if c.args[0] == val else None
        ns = st.copy()
        while c.op == 'not': c = c.args[0]; val = not val
        ns.pc = st.pc + ((c, val),)
        for k, v in list(ns.env.items()):
            if v.size > 30000: continue
            nv = assume(v, c, val)
            if nv is not v: ns.env[k] = nv
        return ns

    # ------------------------------------------------------------ merging
    def ptree(self, items):
        """partition tree of mutually exclusive states: items = [(state, [(c, val)...])]
        node: ('leaf', state, facts) | ('split', F, t, f) | ('fact', F, val, node) | ('amb', [nodes])"""
        if len(items) == 1:
            return ('leaf', items[0][0], [c if v else lnot(c) for c, v in items[0][1]])
        tried = set()
        cands = []
        for s, lits in items:
            if lits and lits[0][0] not in tried: tried.add(lits[0][0]); cands.append(lits[0][0])
        for s, lits in items:
            for c, v in lits[1:]:
                if c not in tried: tried.add(c); cands.append(c)
        if any(not l for _, l in items): cands = []
        for F in cands:
            vals = []
            for s, lits in items:
                x = decide(F, lits)
                if x is None: break
                vals.append(x)
            if len(vals) < len(items): continue
            T_ = [(s, residue(l, F, True)) for (s, l), x in zip(items, vals) if x]
            F_ = [(s, residue(l, F, False)) for (s, l), x in zip(items, vals) if not x]
            if T_ and F_: return ('split', F, self.ptree(T_), self.ptree(F_))
            return ('fact', F, bool(T_), self.ptree(T_ or F_))
        for j, (s, lits) in enumerate(items):     # whole path conditions, if mutually exclusive
            F = land(*[c if v else lnot(c) for c, v in lits])
            if F.op == 'b': continue
            if all(i == j or decide(F, l) is False for i, (_, l) in enumerate(items)):
                others = [(s2, [(c, v) for c, v in l2 if psat([lnot(F), lnot(c) if v else c])])
                          for i, (s2, l2) in enumerate(items) if i != j]
                return ('split', F, ('leaf', s, []), self.ptree(others))
        self.notes.append('ambiguous join')
        return ('amb', [self.ptree([x]) for x in items])
    def t_env(self, node, prefix):
        if node[0] == 'leaf': return State(node[1].env, prefix)
        if node[0] == 'fact': return self.t_env(node[3], prefix)
        if node[0] == 'split': return self.merge2(node[1], self.t_env(node[2], prefix), self.t_env(node[3], prefix), prefix)
        r = self.t_env(node[1][-1], prefix)
        for n in reversed(node[1][:-1]):
            r = self.merge2(mk('boolv', 'join', next(self.fids)), self.t_env(n, prefix), r, prefix)
        return r
    def t_cond(self, node):
        if node[0] == 'leaf': return land(*node[2])
        if node[0] == 'fact':
            return land(node[1] if node[2] else lnot(node[1]), self.t_cond(node[3]))
        if node[0] == 'split': return ite(node[1], self.t_cond(node[2]), self.t_cond(node[3]))
        return lor(*[self.t_cond(n) for n in node[1]])
    def t_paths(self, node, ds=(), fs=()):
        """[(state, decisions, facts)]"""
        if node[0] == 'leaf': return [(node[1], ds, fs + tuple(node[2]))]
        if node[0] == 'fact': return self.t_paths(node[3], ds, fs + (node[1] if node[2] else lnot(node[1]),))
        if node[0] == 'split':
            return self.t_paths(node[2], ds + (node[1],), fs) + self.t_paths(node[3], ds + (lnot(node[1]),), fs)
        return [x for n in node[1] for x in self.t_paths(n, ds, fs)]
    def dtree(self, states, base):
        """for each state: (decision conditions, facts) among pc[base:]"""
        n0 = len(self.notes)
        states = [s for s in states if any(c.op in ('and', 'ite') for c, v in s.pc[base:]) is False or psat([c if v else lnot(c) for c, v in s.pc[base:]])] or states
        t = self.ptree([(s, list(s.pc[base:])) for s in states])
        amb = len(self.notes) > n0
        return {id(s): (list(d), list(f)) for s, d, f in self.t_paths(t)}, amb
    def merge(self, states):
        if len(states) == 1: return states[0]
        n = 0
        m = min(len(s.pc) for s in states)
        while n < m and all(s.pc[n] == states[0].pc[n] for s in states): n += 1
        prefix = states[0].pc[:n]
        live = [s for s in states if any(c.op in ('and', 'ite') for c, v in s.pc[n:]) is False or psat([c if v else lnot(c) for c, v in s.pc[n:]])]
        if live and len(live) < len(states):
            if len(live) == 1: return live[0]
            states = live
        t = self.ptree([(s, list(s.pc[n:])) for s in states])
        r = self.t_env(t, prefix)
        c = self.t_cond(t)
        cs = c.args if c.op == 'and' else (c,)
        for x in cs:
            v = True
            if x.size < 3000 and not psat([lnot(x)]): continue
            while x.op == 'not': x = x.args[0]; v = not v
            if x.op != 'b': r.pc = r.pc + ((x, v),)
        return r
    def merge2(self, c, a, b, prefix):
        env = {}
        for k in list(a.env.keys()) + [k for k in b.env.keys() if k not in a.env]:
            x = a.env.get(k); y = b.env.get(k)
            if x is y: env[k] = x; continue
            if x is None or y is None:
                i = self.init(k)
                if i is None:
                    env[k] = x if x is not None else y
                    continue
                x = i if x is None else x; y = i if y is None else y
            env[k] = ite(c, x, y)
        return State(env, prefix)

    # ------------------------------------------------------------ execution
    def exec_fn(self, fr, st):
        """-> (ret term or None if diverges, state)"""
        fn = fr.fn
        if fr.depth > self.max_depth: raise Unsupported('inline depth')
        self.visited.add(fn.id)
        cfg = fn.cfg
        base = len(st.pc)
        outs = self.region(fr, 0, st, set(cfg.rpo), None)
        rets = outs.get('ret', [])
        if not rets: return None, None
        s = self.merge(rets).copy()
        if len(s.pc) > base:     # what every return path assumed: the no-panic condition
            s.env[OK] = land(self.get(s, OK), *[c if v else lnot(c) for c, v in s.pc[base:]])
            s.pc = st.pc
        ret = s.env.get(('L', fr.fid, 0), UNIT)
        return ret, s
    def purge(self, fr, st):
        for k in [k for k in st.env if k[0] == 'L' and k[1] == fr.fid]: del st.env[k]

    def region(self, fr, entry, st, blocks, header):
        cfg = fr.fn.cfg
        pend = {entry: [st]}
        out = {}
        order = [b for b in cfg.rpo if b in blocks]
        for b in order:
            ss = pend.pop(b, None)
            if not ss: continue
            s = self.merge(ss)
            if b in cfg.loops and b != header:
                outs = self.loop(fr, b, s)
            else:
                outs = self.block(fr, b, s)
            for t, lst in outs.items():
                if t != 'ret' and t in blocks and not (t == header):
                    pend.setdefault(t, []).extend(lst)
                else:
                    out.setdefault(t, []).extend(lst)
        return out

    def block(self, fr, b, s):
        s = s.copy()
        blk = fr.fn.blocks[b]
        for x in blk['s']:
            if x['k'] == 'assign':
                v = self.rvalue(fr, s, x['rv'])
                self.write_place(fr, s, x['place'], v, x['sp'])
            elif x['k'] == 'copy_nonoverlapping':
                self.M.copy_nonoverlapping(self, fr, s, self.operand(fr, s, x['src']), self.operand(fr, s, x['dst']),
                                           self.operand(fr, s, x['count']), x['sp'])
            elif x['k'] == 'setdiscr': raise Unsupported('setdiscr')
        t = blk['t']; k = t['k']
        if k == 'goto': return {t['t']: [s]}
        if k == 'return': return {'ret': [s]}
        if k in ('unreachable', 'resume'): return {}
        if k == 'drop':
            if self.on_drop: s = self.on_drop(self, s, self.read_place(fr, s, t['place']), subst_ty(erase(t['ty']), fr.tmap))
            return {t['t']: [s]}
        if k == 'assert':
            c = self.operand(fr, s, t['o'])
            if not t['exp']: c = lnot(c)
            ns = self.assume_state(s, c, True)
            return {t['t']: [ns]} if ns else {}
        if k == 'switch':
            d = self.operand(fr, s, t['o'])
            ty = erase(t['ty'])
            outs = {}
            cur = s
            vals = t['vals']
            if ty == 'bool':
                # vals: [["0", bbF]], else bbT
                fb = vals[0][1] if vals[0][0] == '0' else t['else']
                tb = t['else'] if vals[0][0] == '0' else vals[0][1]
                a = self.assume_state(s, d, True); f = self.assume_state(s, d, False)
                if a: outs.setdefault(tb, []).append(a)
                if f: outs.setdefault(fb, []).append(f)
                return outs
            for v, bb in vals:
                v = int(v)
                if ty in INT_TYS and ty not in UNS and v >> 63:
                    bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}[ty]
                    if v >> (bits - 1): v -= 1 << bits
                c = eq(d, I(v)) if d.op != 'char' and ty != 'char' else eq(d, mk('char', v))
                if d.op == 'discr': c = eq0(sub(d, I(v)))
                a = self.assume_state(cur, c, True)
                if a: outs.setdefault(bb, []).append(a)
                cur = self.assume_state(cur, c, False)
                if cur is None: break
            if cur is not None and fr.fn.blocks[t['else']]['t']['k'] != 'unreachable':
                outs.setdefault(t['else'], []).append(cur)
            elif cur is not None and len(vals) > 1:
                # otherwise-unreachable: the last listed value is implied; drop its literal
                v, bb = vals[-1]
                l = outs.get(bb)
                if l and l[-1].pc and len(l[-1].pc) == len(s.pc) + len(vals):
                    last = l[-1]
                    last.pc = last.pc[:-1]
            return outs
        if k == 'call': return self.call(fr, s, t)
        raise Unsupported('terminator ' + k)

    # ------------------------------------------------------------ calls
    def call(self, fr, s, t):
        args = [self.operand(fr, s, a) for a in t['a']]
        tys = [erase(subst_ty(erase(self.op_ty(fr, a)), fr.tmap)) for a in t['a']]
        f = t['f']
        if 'fn' in f:
            r = self.invoke(fr, s, FnRef(f['fn']), args, tys, t)
        else:
            fv = self.operand(fr, s, f)
            r = self.call_value(fr, s, fv, args, tys, t)
        if r is None or t['t'] is None: return {}
        v, s = r
        v = self.mark(v, subst_ty(erase(t['dty']), fr.tmap))
        self.write_place(fr, s, t['d'], v, t['sp'])
        return {t['t']: [s]}

    def call_value(self, fr, s, fv, args, tys, t):
        if fv.op == 'fnc': return self.invoke(fr, s, fv.args[0], args, tys, t)
        if fv.op == 'closure': return self.call_closure(fr, s, fv, args, t)
        um = self.user_models.get('fnptr')
        if um:
            r = um(self, fr, s, fv, args, tys, t)
            if r is not NotImplemented: return r
        if fv.op == 'ite':      # a function chosen by a condition: both calls, merged
            outs = []
            for val, g in ((True, fv.args[1]), (False, fv.args[2])):
                a = self.assume_state(s, fv.args[0], val)
                r = a and self.call_value(fr, a, assume(g, fv.args[0], val), args, tys, t)
                if r: outs.append(r)
            if not outs: return None
            if len(outs) == 1: return outs[0]
            key = ('L', 0, 'fnret', next(self.fids))
            for v, st in outs: st.env[key] = v
            m = self.merge([st for _, st in outs]).copy()
            return m.env.pop(key), m
        return self.opaque(fr, s, 'fnptr', [fv] + args, ['fn'] + tys, t)

    def call_closure(self, fr, s, c, args, t):
        """args: list of individual arguments"""
        f = self.P.fns.get(c.args[0])
        if f is None: raise Unsupported('closure ' + c.args[0])
        selfty = erase(f.ty(1))
        fid = next(self.fids)
        nfr = Frame(f, fid, fr.tmap, fr.depth + 1)
        clos = tup(*c.args[1:])
        ns = s.copy()
        if selfty.startswith('&'):
            ns.env[('L', fid, 'self')] = clos
            ns.env[('L', fid, 1)] = mk('ref', ('L', fid, 'self'), ())
        else:
            ns.env[('L', fid, 1)] = clos
        for i, a in enumerate(args): ns.env[('L', fid, 2 + i)] = a
        ret, st2 = self.exec_fn(nfr, ns)
        if ret is None: return None
        ret = self.unframe(st2, ret, fid)
        self.purge(nfr, st2)
        return ret, st2

    def unframe(self, st, v, fid):
        """references into the callee's own frame: a by-value snapshot, or a heap pointer that owns its content"""
        memo = {}
        def mine(x): return x.op == 'ref' and x.args[0][0] == 'L' and x.args[0][1] == fid
        def go(x):
            if mine(x):
                key, pr = x.args
                if pr and pr[-1][0] == 'i':
                    h = mk('hp', next(self.fids), self.read(st, key, pr[:-1]))
                    return mkptr(h, pr[-1][1]) if pr[-1][1] is not ZERO else h
                return mk('&', go(self.read(st, key, pr)))
            if x.op in ('lam', 'poly', 'c', 'v', 'arg', 'fnc') or not hasref(x): return x
            if x not in memo: memo[x] = rebuild(x, go)
            return memo[x]
        return go(v)

    def invoke(self, fr, s, fn, args, tys, t):
        tmap = fr.tmap
        gargs = [erase(subst_ty(erase(a), tmap)) for a in fn.args if not a.startswith("'")]
        path = norm_path(fn.path)
        # resolution
        target = None; cm = None
        if fn.krate == self.P.crate or fn.res:
            if fn.trait and not fn.local_res:
                selfty = subst_ty(erase(fn.selfty), tmap)
                if fn.trait.startswith(self.P.crate):
                    target, cm = self.P.resolve(fn.trait, fn.name, selfty, gargs)
                elif fn.res and fn.res['krate'] == self.P.crate:
                    target = self.P.fns.get(fn.res['path'])
            elif fn.res and fn.res['krate'] == self.P.crate:
                target = self.P.fns.get(fn.res['path'])
            elif fn.krate == self.P.crate:
                target = self.P.fns.get(fn.path)
        if target is None and fn.trait and fn.krate != self.P.crate:
            selfty = subst_ty(erase(fn.selfty), tmap)
            if fn.trait in self.P.traits:
                tt, cm2 = self.P.resolve(fn.trait, fn.name, selfty, gargs)
                if tt is not None: target, cm = tt, cm2
        if target is not None and fn.trait and fn.krate == self.P.crate and cm is None and target.trait_default:
            cm = {}
        if target is None and fn.trait == 'std::cmp::PartialEq' and fn.name in ('eq', 'ne') and len(gargs) == 2:
            # std: &A == &B compares A == B; `ne` is the negation of `eq`
            ga, xs, ys = list(gargs), list(args), list(tys)
            tt, cm2 = self.P.resolve(fn.trait, 'eq', ga[0], ga) if self.P.crate in ga[0] else (None, None)
            while tt is None and ga[0].startswith('&') and ga[1].startswith('&') and self.P.crate in ga[0]:
                ga = [g[1:] for g in ga]; ys = [y[1:] for y in ys]
                xs = [self.load(s, x, (), False) for x in xs]
                tt, cm2 = self.P.resolve(fn.trait, 'eq', ga[0], ga)
            if tt is not None and tt.id not in self.stack:
                r = self.inline(fr, s, tt, None, xs, ga, cm2)
                if r is None or fn.name == 'eq': return r
                return lnot(r[0]), r[1]
        um = self.user_models.get(path) or (self.user_models.get(target.id) if target else None)
        if um:
            r = um(self, fr, s, fn, args, tys, t)
            if r is not NotImplemented: return r
        if target is not None:
            r = self.M.local_model(self, fr, s, target, fn, args, tys, t)
            if r is not NotImplemented: return r
            pol = self.policy(target, fr)
            if pol == 'inline' and target.id not in self.stack:
                return self.inline(fr, s, target, fn, args, gargs, cm)
            return self.opaque(fr, s, target.id, args, tys, t)
        r = self.M.external(self, fr, s, path, fn, args, tys, t, gargs)
        if r is not NotImplemented: return r
        self.ext[path] = self.ext.get(path, 0) + 1
        return self.opaque(fr, s, path, args, tys, t)

    def inline(self, fr, s, target, fn, args, gargs, cm):
        fid = next(self.fids)
        tmap = {}
        names = [erase(g) for g in target.generics if not g.startswith("'")]
        if fn is not None:
            if target.trait_default or (target.impl_self is None and target.trait_default is None) or fn.path == target.id:
                for n_, a in zip(names, gargs): tmap[n_] = a
                if target.trait_default: tmap['Self'] = gargs[0] if gargs else 'Self'
            elif fn.res and fn.res['path'] == target.id:
                ra = [erase(subst_ty(erase(a), fr.tmap)) for a in fn.res['args'] if not a.startswith("'")]
                for n_, a in zip(names, ra): tmap[n_] = a
            elif cm:
                for k, v in cm.items(): tmap[k] = unparse(v) if isinstance(v, tuple) else v
                # method generics are the trailing arguments
                own = [n_ for n_ in names if n_ not in tmap]
                if own:
                    for n_, a in zip(own, gargs[len(gargs) - len(own):]): tmap[n_] = a
        tmap = {k: v for k, v in tmap.items() if k != v}
        nfr = Frame(target, fid, tmap, fr.depth + 1 if fr else 0)
        ns = s.copy()
        for i, a in enumerate(args): ns.env[('L', fid, 1 + i)] = a
        self.stack.append(target.id)
        try: ret, st2 = self.exec_fn(nfr, ns)
        finally: self.stack.pop()
        if ret is None: return None
        ret = self.unframe(st2, ret, fid)
        self.purge(nfr, st2)
        return ret, st2

    def snapshot(self, s, a):
        if a.op == 'ref':
            return mk('&', self.snapdeep(s, self.read(s, a.args[0], a.args[1])))
        if a.op == 'ite':
            return ite(a.args[0], self.snapshot(s, a.args[1]), self.snapshot(s, a.args[2]))
        if a.op in ('tuple', 'adt', 'closure', 'arr', 'upd', 'gen', 'iter'): return self.snapdeep(s, a)
        if a.op in ('arg', 'call', 'fld', 'deref', 'sel', 'vfld') and ('P', a) in s.env:
            return mk('&', s.env[('P', a)])
        return a
    def snapdeep(self, s, v):
        memo = {}
        def go(x):
            if x.op == 'ref' and x.args[0][0] == 'L':
                return mk('&', go(self.read(s, x.args[0], x.args[1])))
            if x.op == 'ref':
                return mk('&', go(self.read(s, x.args[0], x.args[1])))
            if x.op in ('lam', 'poly', 'c', 'v', 'arg', 'fnc'): return x
            if x in memo: return memo[x]
            r = rebuild(x, go) if hasref(x) else x
            memo[x] = r
            return r
        return go(v)

    def opaque(self, fr, s, name, args, tys, t):
        sa = [self.snapshot(s, a) for a in args]
        term = mk('call', name, *sa)
        mutable = any(ty.startswith('&mut') or ty.startswith('*mut') for ty in tys)
        s = s.copy()
        self.calls.append((term, s.pc, t.get('sp', ''), fr.fn.id, args, s))
        if mutable or self.M.effectful(name):
            s.env[EFF] = push(self.get(s, EFF), term)
            i = 0
            for a, ty in zip(args, tys):
                if ty.startswith('&mut'):
                    self.store(s, a, (), False, mk('out', term, i), fr, t.get('sp', ''))
                elif ty.startswith('*mut'):
                    x = a
                    if x.op == 'padd': x = x.args[0]
                    if x.op == 'ref' and x.args[1] and x.args[1][-1][0] == 'i':
                        self.write(s, x.args[0], x.args[1][:-1], mk('out', term, i), fr, t.get('sp', ''))
                    elif x.op == 'ref':
                        self.write(s, x.args[0], x.args[1], mk('out', term, i), fr, t.get('sp', ''))
                    elif x.op != 'ite':
                        self.write(s, ('M', x), (), mk('out', term, i), fr, t.get('sp', ''))
                i += 1
        if t['t'] is None: return None
        return term, s

    # ------------------------------------------------------------ loops
    def step_through(self, fr, h, st0):
        """a loop whose control is decided in every round (constant bounds), followed round by round; None when it is not"""
        body = fr.fn.cfg.loops[h]
        nlog, ncalls, nn = len(self.log), len(self.calls), len(self.notes)
        st = st0; acc = {}
        for i in range(self.unroll):
            outs = self.region(fr, h, st.copy(), body, h)
            conts = outs.pop(h, [])
            for t, l in outs.items(): acc.setdefault(t, []).extend(l)
            if not conts: return acc
            self.why = 'too many rounds'
            outs = {t: l for t, l in outs.items() if t == 'ret' or t in fr.fn.cfg.returning}      # ways out that only panic do not count
            if outs and not self.forked:      # both leaving and going on are possible
                self.why = [[(show(c)[:200], v) for c, v in x.pc[len(st0.pc):]] for l in outs.values() for x in l][:3]; break
            st = self.merge(conts)
        del self.log[nlog:]; del self.calls[ncalls:]; del self.notes[nn:]
        return None

    def loop(self, fr, h, st0):
        body = fr.fn.cfg.loops[h]
        if self.unroll:
            r = self.step_through(fr, h, st0)
            if r is not None: return r
            if os.environ.get('VERIF_UNROLL'): print('not stepped', fr.fn.id, h, fr.fn.blocks[h]['t'].get('sp'), self.why)
        changed = {}     # (key, path) -> var
        noptr = set()
        nlog, ncalls = len(self.log), len(self.calls)
        st0 = st0.copy()
        for _ in range(14):
            del self.log[nlog:]; del self.calls[ncalls:]
            st = st0.copy()
            for (key, path), (var, base) in changed.items():
                st.env[key] = set_leaf(self.get(st, key), path, var if base is None else mkptr(base, var))
            before = dict(st.env)
            outs = self.region(fr, h, st, body, h)
            conts = outs.pop(h, [])
            if not conts: return outs
            allst = conts + [s for l in outs.values() for s in l]
            nxt = self.merge_from(conts, len(st0.pc), st0.pc, allst)
            new = set()
            for key, val in nxt.env.items():
                b = before.get(key)
                if b is None:
                    b = self.init(key)
                    if b is None: continue
                for p in diff_leaves(b, val):
                    new.add((key, p))
            # also exits may show changes for keys that only change there: no need
            missing = [x for x in new if not covered(x, changed)]
            demote = [x for x, (v, base) in changed.items() if base is not None
                      and ptr_parts(get_leaf(nxt.env[x[0]], x[1]))[0] != base]
            for x in demote: noptr.add(x); del changed[x]; missing.append(x)
            if not missing: break
            for x in missing:
                # drop finer leaves subsumed by a coarser one
                for y in list(changed):
                    if y[0] == x[0] and y[1][:len(x[1])] == x[1]: del changed[y]
                v = fresh('m')
                iv = get_leaf(self.get(st0, x[0]), x[1])
                ty = fr.fn.locals[x[0][2]]['ty'] if x[0][0] == 'L' and not x[1] and isinstance(x[0][2], int) and x[0][1] == fr.fid else None
                if ty: self.mark(v, ty)
                elif is_int(iv): (mark_unsigned if nonneg(iv) else mark_int)(v)
                if is_bool(iv): mark_bool(v)
                if iv.id in tm._useq: mark_useq(v)
                base = None
                nv = get_leaf(nxt.env[x[0]], x[1])
                if x not in noptr and nv.op in ('padd', 'ref') and ptr_parts(nv)[0] == ptr_parts(iv)[0]:
                    base = ptr_parts(iv)[0]; mark_int(v)
                changed[x] = (v, base)
        else:
            raise Unsupported('loop fixpoint')
        k = mark_unsigned(fresh('k'))
        leaves = list(changed.items())
        def lf(x, base): return x if base is None else ptr_parts(x)[1]
        init = {v: lf(get_leaf(self.get(st0, kp[0]), kp[1]), b) for kp, (v, b) in leaves}
        nextv = {v: lf(get_leaf(nxt.env.get(kp[0], before.get(kp[0])), kp[1]), b) for kp, (v, b) in leaves}
        sol = self.solve(init, nextv, k)
        # exits
        dec, amb = self.dtree(allst, len(st0.pc))
        if amb: self.notes.append('ambiguous loop exits')
        exits = []
        for tgt, lst in outs.items():
            for s in lst:
                if id(s) not in dec: continue      # infeasible path
                ds, fs = dec[id(s)]
                cond = land(*ds)
                exits.append([tgt, s, subst(cond, sol), [subst(c, sol) for c in fs]])
        if not exits: return {}
        N = None; cnt = None
        for e in exits:
            n = bound_of(e[2], k)
            if n is not None and N is None: N = n; cnt = e
        others = [e for e in exits if e is not cnt]
        if N is None: N = mk('inf')
        ctxN = N
        kk = k
        if others:
            inner = pos(sub(N, k)) if N.op != 'inf' else TRUE
            bs = []
            for e in others:
                b = e[2]
                if inner.op != 'b':
                    b = assume(b, inner, True)
                bs.append(b)
            anyb = lor(*bs)
            K = first(N, lam(k, anyb))
            notfound = forall(N, lam(k, lnot(anyb))) if N.op != 'inf' else FALSE
        else:
            K = N; notfound = TRUE
            bs = []
        res = {}
        pc = st0.pc
        def finish(e, kval, pcs):
            tgt, s, cond, facts = e
            ns = State({}, pcs)
            m = {k: kval}
            for key, v in s.env.items():
                if v.fv:
                    v = subst(v, sol); v = subst(v, m)
                ns.env[key] = v
            if facts:
                ns.env[OK] = land(self.get(ns, OK), *[subst(f, m) for f in facts])
            # re-simplify under known facts
            res.setdefault(tgt, []).append(ns)
        if cnt is not None:
            p = pc
            ok = True
            if others:
                c = notfound; v = True
                while c.op == 'not': c = c.args[0]; v = not v
                if c.op != 'b': p = pc + ((c, v),)
                elif c.args[0] != v: ok = False
            if ok: finish(cnt, N, p)
        if others:
            p = pc
            if cnt is not None:
                c = notfound; v = False
                while c.op == 'not': c = c.args[0]; v = not v
                if c.op != 'b': p = pc + ((c, v),)
                elif c.args[0] != v: others = []
            # at the exit iteration anyb(K) holds
            for i, (e, b) in enumerate(zip(others, bs)):
                if i == len(others) - 1:
                    finish(e, K, p)
                else:
                    c = subst(b, {k: K}); v = True
                    while c.op == 'not': c = c.args[0]; v = not v
                    if c.op == 'b':
                        if c.args[0] == v: finish(e, K, p); break
                        continue
                    finish(e, K, p + ((c, v),))
                    p = p + ((c, not v),)
        # rewrite records made inside the loop body
        for w in self.log[nlog:]:
            w.val = subst(w.val, sol)
            w.projs = mapargs(w.projs, lambda x: subst(x, sol))
            w.key = mapargs(w.key, lambda x: subst(x, sol))
            w.pc = tuple((subst(c, sol), v) for c, v in w.pc)
            w.loops = ((k, ctxN),) + tuple((a, subst(b, sol)) for a, b in w.loops)
        for i in range(ncalls, len(self.calls)):
            c = self.calls[i]
            self.calls[i] = (subst(c[0], sol), tuple((subst(x, sol), v) for x, v in c[1]), c[2], c[3], [subst(a, sol) for a in c[4]], c[5])
        return res

    def merge_from(self, conts, base, basepc, allst):
        """merge back-edge states; facts = literals with no live sibling anywhere"""
        dec, amb = self.dtree(allst, base)
        sts = []
        for s in conts:
            if id(s) not in dec: continue
            ds, fs = dec[id(s)]
            n = s.copy()
            if fs and not amb: n.env[OK] = land(self.get(s, OK), *fs)
            if not amb: n.pc = basepc + tuple(lit(d) for d in ds)
            sts.append(n)
        if not sts: sts = [c.copy() for c in conts[:1]]
        # decisions against exits are not facts: strip them after merging
        if len(sts) == 1:
            r = sts[0].copy(); r.pc = basepc; return r
        return self.t_env(self.ptree([(s, list(s.pc[base:])) for s in sts]), basepc)

    def solve(self, init, nextv, k):
        """closed forms of loop-carried leaves as functions of the iteration number k"""
        sol = {}
        un = dict(nextv)
        guard = 0
        while un:
            guard += 1
            prog = False
            ids = {v.args[0] for v in un}
            for v in list(un):
                nx = subst(un[v], sol) if sol else un[v]
                un[v] = nx
                dep = (nx.fv & ids) - {v.args[0]}
                if dep: continue
                kk = mark_unsigned(fresh('k'))
                f = fold(init[v], k, v, kk, subst(nx, {k: kk}))
                sol[v] = f
                if is_bool(v) and not is_bool(f): mark_bool(f)
                if v.id in tm._unsigned and f.op not in ('c', 'poly'): mark_unsigned(f)
                if v.id in tm._ints and f.op not in ('c', 'poly'): mark_int(f)
                del un[v]; ids.discard(v.args[0]); prog = True
                # later ones may depend on v
            if prog: continue
            # mutually dependent group: smallest strongly-connected component
            grp = scc_min(un)
            pw = pointwise(grp, un, init, k)
            if pw is not None:
                un.update(pw); continue
            grp.sort(key=lambda v: (show(un[v]).count(''), v.id))
            a = fresh('g'); kk = mark_unsigned(fresh('k'))
            m = {v: fld(a, str(i)) for i, v in enumerate(grp)}
            for v, x in m.items():
                if v.id in tm._unsigned: mark_unsigned(x)
                if v.id in tm._ints: mark_int(x)
                if is_bool(v): mark_bool(x)
                if v.id in tm._useq: mark_useq(x)
            body = tup(*[subst(subst(subst(un[v], sol), m), {k: kk}) for v in grp])
            F = mk('fold', tup(*[init[v] for v in grp]), k, lam(a, lam(kk, body)))
            for i, v in enumerate(grp):
                r = fld(F, str(i))
                if v.id in tm._unsigned: mark_unsigned(r)
                if v.id in tm._ints: mark_int(r)
                if is_bool(v): mark_bool(r)
                if v.id in tm._useq: mark_useq(r)
                sol[v] = r; del un[v]
        # sol values may mention other solved vars solved earlier only (already substituted)
        for _ in range(3):
            for v in sol: sol[v] = subst(sol[v], {x: y for x, y in sol.items() if x is not v})
        return sol

    # ------------------------------------------------------------ entry
    def analyse(self, fn, args=None, tmap=None, st=None):
        """summary of fn with opaque arguments"""
        self.log = []; self.calls = []; self.notes = []
        fid = next(self.fids)
        fr = Frame(fn, fid, tmap or {}, 0)
        s = st or State({}, ())
        vals = []
        for i in range(fn.argc):
            if args and i < len(args) and args[i] is not None: v = args[i]
            else:
                v = mk('arg', i, fn.lname(i + 1))
                self.mark(v, subst_ty(erase(fn.ty(i + 1)), fr.tmap))
                pt = erase(fn.ty(i + 1))
                if re.match(r'^&(mut )?(\[usize\]|std::vec::Vec<usize>|\[usize; .*\])$', pt): mark_useq(mk('deref', v))
                if pt in ('std::vec::Vec<usize>',) or pt.startswith('[usize;'): mark_useq(v)
            vals.append(v)
            s.env[('L', fid, 1 + i)] = v
        self.stack = [fn.id]
        ret, s2 = self.exec_fn(fr, s)
        self.stack = []
        return Summary(self, fn, fr, vals, ret, s2)

class Summary:
    def __init__(self, eng, fn, fr, args, ret, st):
        self.eng = eng; self.fn = fn; self.args = args; self.ret = ret; self.st = st
        self.log = list(eng.log); self.calls = list(eng.calls); self.notes = list(eng.notes)
        self.diverges = ret is None
        self.never = mk('arg', -1, 'never returns')
    @property
    def ok(self):
        if self.st is None: return FALSE      # never returns
        return land(self.eng.get(self.st, OK), *[c if v else lnot(c) for c, v in self.st.pc])
    @property
    def eff(self): return self.never if self.st is None else self.eng.get(self.st, EFF)
    def mem(self, base): return self.never if self.st is None else self.eng.get(self.st, ('M', base))
    def obj(self, p): return self.never if self.st is None else self.eng.get(self.st, ('P', p))
    def deref(self, t):
        """value behind a (possibly ref) term"""
        return self.eng.load(self.st, t, (), False)
    def snap(self, t): return self.eng.snapdeep(self.st, t)

def chosen(p):
    """p = [x0, x1, ..][k] (possibly a field of it) with references among the x -> ([x0, x1, ..], k)"""
    if p.op == 'sel' and p.args[0].op == 'arr' and hasref(p.args[0]): return list(p.args[0].args), p.args[1]
    if p.op == 'fld':
        q = chosen(p.args[0]) if p.args[0].op in ('sel', 'fld') else None
        if q: return [fld(x, p.args[1]) for x in q[0]], q[1]
    return None

class FnRef:
    __slots__ = ('path', 'krate', 'name', 'args', 'trait', 'selfty', 'res', 'local_res', 'unsafe')
    _tab = {}
    def __new__(cls, j):
        key = (j['path'], tuple(j['args']))
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls); cls._tab[key] = o
            o.path = j['path']; o.krate = j['krate']; o.name = j['name']; o.args = j['args']
            o.trait = j.get('trait'); o.selfty = j.get('self'); o.res = j.get('res')
            o.local_res = False; o.unsafe = j.get('unsafe')
        return o
    def __repr__(self): return 'fn ' + self.path

def hasref(t):
    r = _hr.get(t)
    if r is None:
        r = t.op == 'ref' or any(hasref(a) for a in subterms(t.args))
        _hr[t] = r
    return r
_hr = {}

def elem_ty(ty):
    t = parse_ty(erase(ty))
    if t[0] in ('array', 'slice'): return unparse(t[1])
    if t[0] == 'path' and t[1].endswith('Vec') and len(t) > 2: return unparse(t[2])
    return ''

def diff_leaves(a, b):
    if a is b: return []
    if a.op == 'adt' and b.op == 'adt' and a.args[:3] == b.args[:3]:
        out = []
        for n, x, y in zip(a.args[2], a.args[3:], b.args[3:]): out += [(('f', n),) + p for p in diff_leaves(x, y)]
        return out
    if a.op == b.op == 'tuple' and len(a.args) == len(b.args):
        out = []
        for i, (x, y) in enumerate(zip(a.args, b.args)): out += [(('f', str(i)),) + p for p in diff_leaves(x, y)]
        return out
    if a.op == b.op == 'iter':
        out = []
        for i in (0, 1): out += [(('it', i),) + p for p in diff_leaves(a.args[i], b.args[i])]
        return out
    if b.op == 'upd':
        # opaque record with updated fields
        names = []; x = b
        while x.op == 'upd': names.append(x.args[1]); x = x.args[0]
        y = a
        while y.op == 'upd': names.append(y.args[1]); y = y.args[0]
        if x is y:
            out = []
            for n in sorted(set(names)):
                out += [(('f', n),) + p for p in diff_leaves(fld(a, n), fld(b, n))]
            return out
    return [()]

def ptr_parts(x):
    if x.op == 'padd': return x.args[0], x.args[1]
    if x.op == 'ref' and x.args[1] and x.args[1][-1][0] == 'i': return (x.args[0], x.args[1][:-1]), x.args[1][-1][1]
    return x, ZERO
def mkptr(base, off):
    if isinstance(base, tuple): return mk('ref', base[0], base[1] + (('i', off),))
    import models
    return models.padd(base, off)

def get_leaf(v, path):
    if v is None: return mk('uninit', 'leaf')
    for p in path:
        if p[0] == 'f': v = fld(v, p[1])
        elif p[0] == 'it':
            if v.op == 'iter': v = v.args[p[1]]
            else: v = mk('itpart', v, p[1])
    return v
def set_leaf(v, path, x):
    if not path: return x
    p = path[0]
    if p[0] == 'f': return upd(v, p[1], set_leaf(fld(v, p[1]), path[1:], x))
    if p[0] == 'it':
        l = list(v.args); l[p[1]] = set_leaf(l[p[1]], path[1:], x)
        return mk('iter', *l)
def covered(x, changed):
    for y in changed:
        if y[0] == x[0] and x[1][:len(y[1])] == y[1]: return True
    return False

def bound_of(cond, k):
    """cond(k) is 'k >= N' or 'k == N' for k-free N -> N"""
    c = cond
    neg_ = c.op == 'not' and c.args[0].op == 'ite'
    if neg_ or c.op == 'ite':
        g = c.args[0] if neg_ else c
        if occurs(k, g.args[0]): return None
        x, y = (bound_of(lnot(z) if neg_ else z, k) for z in g.args[1:])
        return None if x is None or y is None else ite(g.args[0], x, y)
    if c.op == 'not' and c.args[0].op == 'pos': d = c.args[0].args[0]      # d <= 0
    elif c.op == 'pos': d = sub(ONE, c.args[0])     # arg >= 1  <=> 1-arg <= 0
    elif c.op == 'eq0': d = c.args[0]
    else: return None
    p = poly_of(d)
    ck = p.get((k,), 0)
    if any(m != (k,) and any(occurs(k, x) for x in m) for m in p): return None
    if c.op == 'eq0':
        if ck == 1: return neg(from_poly({m: c for m, c in p.items() if m != (k,)}))
        if ck == -1: return from_poly({m: c for m, c in p.items() if m != (k,)})
        return None
    rest = from_poly({m: c for m, c in p.items() if m != (k,)})
    if ck == -1: return rest
    if ck < -1 and tm.nonneg(add(rest, I(-ck - 1))): return tm.idiv(add(rest, I(-ck - 1)), I(-ck))
    return None

def pointwise(grp, un, init, k):
    """sequences updated together, each only at the element it reads (same index, injective in k):
    the element read is still the initial one"""
    idx = None
    for v in grp:
        b = un[v]
        if b.op != 'st' or b.args[0] is not v: return None
        if idx is None: idx = b.args[1]
        elif idx is not b.args[1]: return None
    p = poly_of(idx)
    if abs(p.get((k,), 0)) != 1 or any(k in m and m != (k,) for m in p) or any(occurs(v, idx) for v in grp): return None
    if any(any(occurs(k, x) for x in m) for m in p if m != (k,)): return None
    m = {mk('sel', v, idx): sel(init[v], idx) for v in grp}
    out = {}
    for v in grp:
        val = subst(un[v].args[2], m)
        if any(occurs(w, val) for w in grp): return None
        out[v] = tm.st(v, idx, val)
    return out

def scc_min(un):
    vs = list(un)
    ids = {v.args[0]: v for v in vs}
    adj = {v: [ids[i] for i in un[v].fv if i in ids and ids[i] is not v] for v in vs}
    # a component with no outgoing edges outside
    def reach(v):
        seen = {v}; st = [v]
        while st:
            x = st.pop()
            for y in adj[x]:
                if y not in seen: seen.add(y); st.append(y)
        return seen
    best = None
    for v in vs:
        r = reach(v)
        if best is None or len(r) < len(best): best = r
    return list(best)
