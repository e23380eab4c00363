"""Distinguishing valuations for two value-graph terms.

When two normal forms differ syntactically, the obligation is only reported as violated if some small valuation of
the *terms* (finite sequences, small integers, opaque element values) separates them; otherwise it is undecided.
Valuations interpret terms, never program code; they only serve to keep rewriting incompleteness from raising alarms."""
import re, hashlib, time
import terms as tm
from terms import T

class NoEval(Exception): pass      # term outside the interpreted vocabulary
class Bad(Exception): pass         # valuation does not satisfy a side condition
PR = (1 << 61) - 1

def hsh(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), 'little')

class Atom:
    __slots__ = ('M', 'key', 'kind', '_seq', '_int', 'term')
    def __init__(s, M, key, kind, term): s.M = M; s.key = key; s.kind = kind; s._seq = None; s._int = None; s.term = term
    def int(s):
        if s._int is None: s._int = s.M.pick_int(s.key, s.kind)
        return s._int
    def seq(s):
        if s._seq is None and s.kind == 'useq' and s.key not in s.M.lay: s.M.lay[s.key] = s.M.layout(s.key, s.term)
        if s._seq is None: s._seq = Seq(s.M, s.key, s.M.pick_len(s.key, s.term), s.kind == 'useq')
        return s._seq
class Seq:
    __slots__ = ('M', 'key', 'n', 'u')
    def __init__(s, M, key, n, u): s.M = M; s.key = key; s.n = n; s.u = u
    def get(s, i): return s.M.pick_elem(s.key, i, s.u)
class Spare(list):
    """a list with values stored beyond its length, in capacity that set_len takes in"""
    __slots__ = ('spare',)

class Mem:
    """memory: an unbounded base with finitely many overwritten cells"""
    __slots__ = ('base', 'over')
    def __init__(s, base, over): s.base = base; s.over = over
    def get(s, i): return s.over[i] if i in s.over else s.base.get(i)

def show_bit(x): return x.args[0] if isinstance(x, T) and x.op == 'c' else x

class Model:
    def __init__(self, seed, lens=(), mx=3, consts=(), ranks=()):
        # small constants may be ranks or positions: some valuations use that many axes, of small extent
        self.deep = bool(ranks) and hsh(seed, 'deep') % 4 == 0
        if self.deep: mx = max(mx, min(ranks[hsh(seed, 'rk') % len(ranks)] + 2, 9))
        self.seed = seed; self.mx = mx
        # thresholds mentioned by the terms: some valuations pick values around them
        self.consts = consts if consts and hsh(seed, 'big') % 2 else ()
        self.L = hsh(seed, 'L') % (mx + 1) if hsh(seed, 'u') % 3 else None
        self.zeros = hsh(seed, 'z') % 4 == 0
        self.kin = hsh(seed, 'kin') % 6 == 0
        self.bind = {}
        self.lens = dict(lens); self.memo = {}; self.used = {}; self.steps = 0; self.lay = {}
    def pick_int(self, key, kind):
        if kind in ('uint', 'int'):
            r = hsh(self.seed, 'i', key) % 5
            if self.consts: r = self.near(r, 'i', key)
            if kind == 'int' and isinstance(key, tuple) and (key[0] == 'arg' or key[0] == 'call' and 'AxisType::isize' in str(key[1])):
                h = hsh(self.seed, 'neg', key)
                if h % 3 == 0: r = -1 - (h >> 8) % 3
        elif kind == 'bool': r = bool(hsh(self.seed, 'b', key) & 1)
        else: r = hsh(self.seed, 'e', key) % PR
        self.used[key] = r
        return r
    def near(self, r, *k):
        h = hsh(self.seed, 'near', *k)
        if h % 3: return r
        return max(0, self.consts[(h >> 8) % len(self.consts)] + (h >> 20) % 5 - 1)
    def pick_len(self, key, term):
        t = self.lens.get(term)
        if t is not None: return self.i(self.ev(t, {}))
        sh = self.sibling(key, term)
        if sh is not None: return sh.n
        r = self.L if self.L is not None else hsh(self.seed, 'n', key) % (self.mx + 1)
        self.used[('len', key)] = r
        return r
    def sibling(self, key, term):
        """shape sequence of the array whose stride sequence this is"""
        if term is not None and term.op == 'fld' and term.args[1] == 'stride':
            return Atom(self, ('fld', key[1], 'shape'), 'useq', None).seq()
        if term is not None and term.op == 'deref' and term.args[0].op == 'arg' and 'stride' in str(term.args[0].args[1]) and len(key) > 1 and isinstance(key[1], tuple) and len(key[1]) == 3:
            a = key[1]
            return Atom(self, ('deref', (a[0], str(int(a[1]) - 1), a[2].replace('stride', 'shape'))), 'useq', None).seq()
        return None
    def layout(self, key, term):
        """a plausible stride vector for the sibling shape: row-major, scaled, padded, permuted or arbitrary"""
        sh = self.sibling(key, term)
        if sh is None: return None
        r = hsh(self.seed, 'lay', key)
        mode = r % 8
        if mode >= 6: return None
        S = [sh.get(i) for i in range(sh.n)]
        n = len(S); d = [1] * n; pad = (r >> 8) % max(n, 1)
        for j in range(n - 2, -1, -1): d[j] = d[j + 1] * S[j + 1] + (1 if mode == 3 and j == pad else 0)
        big = self.consts[(r >> 20) % len(self.consts)] + (r >> 28) % 2 if self.consts and (r >> 16) % 3 == 0 else 0
        if mode in (1, 2): d = [x * (big or mode + 1) for x in d]
        elif big and mode == 3: d = [x * big for x in d]
        if mode == 4: d = d[::-1]
        if mode == 5: d = [0 if (r >> (10 + j)) & 1 else x for j, x in enumerate(d)]
        return d
    def pick_elem(self, key, i, u):
        if u:
            lay = self.lay.get(key)
            if lay is not None and 0 <= i < len(lay): return lay[i]
            if self.kin and not self.deep:      # related lists: permutations of one list (equal products, different entries)
                q = (hsh(self.seed, 'perm', key) >> 3) % 6
                if i < 3: i = ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))[q][i]
                key = 'kin'
            r = hsh(self.seed, 's', key, i)
            v = (1 + r % 3) if not self.zeros else r % 4
            if self.deep: v = 1 + (r >> 4) % 8 // 5
            if self.consts: v = self.near(v, 's', key, i)
            self.used[(key, i)] = v
            return v
        q = key[1] if isinstance(key, tuple) and len(key) == 2 and key[0] in ('deref', 'tovec') else key
        if isinstance(q, tuple) and len(q) == 3 and q[0] == 'arg' and re.search('ax[ei]s', str(q[2])):
            # a list of axes: small integers
            r = hsh(self.seed, 'ax', key, i)
            return (r >> 8) % 4 - (3 if r % 5 == 0 else 0)
        return Atom(self, ('el', key, i), None, None)
    # ---- coercions
    def i(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if isinstance(v, Atom): return int(v.int())
        raise NoEval('int of ' + type(v).__name__)
    def b(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, Atom):
            return bool(hsh(self.seed, 'b', v.key) & 1)
        if isinstance(v, int): return bool(v)
        raise NoEval('bool')
    def mem(self, v):
        """memory view of an evaluated value, or None"""
        if isinstance(v, Mem): return v
        if isinstance(v, Atom) and v.key and v.key[0] == 'mem': return Mem(v.seq(), {})
        return None
    def s(self, v):
        if isinstance(v, (list, Seq, Mem)): return v
        if isinstance(v, Atom): return v.seq()
        raise NoEval('seq of ' + str(type(v)))
    def n(self, v):
        v = self.s(v)
        if isinstance(v, Mem): return v.base.n
        return len(v) if isinstance(v, list) else v.n
    def at(self, v, i):
        v = self.s(v)
        if isinstance(v, list):
            if not 0 <= i < len(v): return Atom(self, ('oob', len(v), i), 'uint', None)
            return v[i]
        return v.get(i)
    def li(self, v):
        n = self.n(v)
        if n < 0 or n > 4000: raise Bad('len')
        v = self.s(v)
        if isinstance(v, Mem): return [v.get(i) for i in range(v.base.n)]
        return list(v) if isinstance(v, list) else [v.get(i) for i in range(n)]
    # ---- canonical keys
    def key(self, v):
        if isinstance(v, bool): return ('b', v)
        if isinstance(v, int): return v
        if isinstance(v, list): return ('L',) + tuple(self.key(x) for x in v)
        if isinstance(v, Seq): return ('L',) + tuple(self.key(x) for x in self.li(v)) if v.u else v.key
        if isinstance(v, tuple): return v
        if isinstance(v, Mem): return ('mem', v.base.key, tuple(sorted((i, self.key(x)) for i, x in v.over.items())))
        if isinstance(v, Atom):
            if v.kind == 'useq': return self.key(v.seq())
            if v.kind in ('uint', 'int'): return v.int()
            if v.kind == 'bool': return ('b', self.b(v))
            return v.key
        raise NoEval('key')
    def same(self, x, y):
        if isinstance(x, Mem) or isinstance(y, Mem):
            x, y = self.mem(x), self.mem(y)
            if x is None or y is None: raise NoEval('mem')
            if x.base.key != y.base.key: return False
            return all(self.same(x.get(k), y.get(k)) for k in sorted(set(x.over) | set(y.over)))
        if isinstance(x, (list, Seq)) or isinstance(y, (list, Seq)):
            if self.n(x) != self.n(y): return False
            return all(self.same(self.at(x, k), self.at(y, k)) for k in range(self.n(x)))
        if isinstance(x, tuple) and isinstance(y, tuple): return x == y
        if isinstance(x, Atom) and isinstance(y, Atom) and x.key == y.key: return True
        if isinstance(x, bool) or isinstance(y, bool): return self.b(x) == self.b(y)
        if isinstance(x, int) or isinstance(y, int): return self.i(x) == self.i(y)
        return self.key(x) == self.key(y)
    # ---- evaluation
    def ev(self, t, env):
        self.steps += 1
        if self.steps > 400000: raise Bad('steps')
        k = None
        hs = frees(t)
        if hs and t.op != 'bv':
            k = (t, tuple((h, self.kk(env[h])) for h in hs if h in env))
        elif not hs and t.op not in ('c', 'b'): k = (t, ())
        if k is not None:
            r = self.memo.get(k, self)
            if r is not self: return r
        r = self.ev1(t, env)
        if k is not None: self.memo[k] = r
        return r
    def kk(self, v):
        try: return self.key(v)
        except NoEval: return id(v)
    def lam(self, l, env):
        if l.op == 'ite': return self.lam(l.args[1] if self.b(self.ev(l.args[0], env)) else l.args[2], env)
        if l.op != 'lam': raise NoEval('lam')
        h, b = l.args
        def f(x):
            e = dict(env); e[h] = x
            return self.ev(b, e)
        return f
    def cnt(self, t, env):
        if t.op == 'inf': raise NoEval('inf')
        n = self.i(self.ev(t, env))
        if n > 3000: raise Bad('count')
        return max(n, 0)
    def ev1(self, t, env):
        op, a = t.op, t.args
        E = lambda x: self.ev(x, env)
        i = lambda x: self.i(self.ev(x, env))
        if op == 'c' or op == 'b': return a[0]
        if t in self.bind: return self.bind[t]
        if op in ('A', 'E', 'bsh'): raise NoEval('array term')
        if op == 'bv':
            if a[0] not in env: raise NoEval('bv')
            return env[a[0]]
        if op == 'poly':
            r = 0
            for m, c in a[0]:
                x = c
                for y in m: x *= i(y)
                r += x
            return r
        if op == 'pos': return i(a[0]) >= 1
        if op == 'eq0': return i(a[0]) == 0
        if op == 'eq': return self.same(E(a[0]), E(a[1]))
        if op == 'not': return not self.b(E(a[0]))
        if op == 'and': return all(self.b(E(x)) for x in a)
        if op == 'ite': return E(a[1]) if self.b(E(a[0])) else E(a[2])
        if op == 'idiv':
            x, y = i(a[0]), i(a[1])
            if y == 0: return Atom(self, ('div0', x), 'uint', None)
            return x // y
        if op == 'irem':
            x, y = i(a[0]), i(a[1])
            if y == 0: return Atom(self, ('rem0', x), 'uint', None)
            return x % y
        if op == 'min': return min(i(x) for x in a)
        if op == 'max': return max(i(x) for x in a)
        if op == 'fadd': return (i(a[0]) + i(a[1])) % PR
        if op == 'fsub': return (i(a[0]) - i(a[1])) % PR
        if op == 'fmul': return (i(a[0]) * i(a[1])) % PR
        if op == 'fdiv':
            y = i(a[1]) % PR
            return i(a[0]) * pow(y, PR - 2, PR) % PR
        if op == 'fneg': return -i(a[0]) % PR
        if op == 'bit':
            x, y = i(a[1]), i(a[2])
            if a[0] == 'BitAnd': return x & y
            if a[0] == 'BitOr': return x | y
            if a[0] == 'BitXor': return x ^ y
        if op == 'zero': return 0
        if op == 'one': return 1
        if op == 'f':
            m = re.match(r'^(?:const )?(-?\d+)(?:\.0*)?_?(?:f32|f64)?$', str(t.args[0]))
            if m: return int(m.group(1)) % PR
        if op == 'ncast':
            x = i(a[1])
            if a[0][:1] in 'ui' and a[0] in ('usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128'):
                return x if -50 <= x <= 50 else hsh('ncast', x) % 5
            return x % PR
        if op in ('fceil', 'ffloor', 'fround', 'ftrunc'):
            # a quotient of small integers has a definite ceiling/floor; anything else is an arbitrary function of its argument
            d = a[0]
            while d.op == 'ncast' and d.args[0] in ('f32', 'f64'): d = d.args[1]
            if d.op == 'fdiv':
                sg = lambda x: x - PR if 2 * x > PR else x
                p, q = sg(i(d.args[0]) % PR), sg(i(d.args[1]) % PR)
                if q < 0: p, q = -p, -q
                if q and abs(p) < 1000 and abs(q) < 1000:
                    if op == 'fceil': return -((-p) // q) % PR
                    if op == 'ffloor': return p // q % PR
                    r = (2 * abs(p) + q) // (2 * q) if op == 'fround' else abs(p) // q
                    return (r if p >= 0 else -r) % PR
            return hsh(op, i(a[0]) % PR) % PR
        if op in ('flt', 'fle', 'fmax', 'fmin', 'abs', 'signum'):
            sg = lambda x: x - PR if 2 * x > PR else x
            x = sg(i(a[0]))
            if op == 'abs': return abs(x)
            y = sg(i(a[1]))
            return x < y if op == 'flt' else x <= y if op == 'fle' else max(x, y) if op == 'fmax' else min(x, y)
        if op == 'min_value': return -PR // 2
        if op == 'max_value': return PR // 2
        if op == 'cast':
            v = E(a[1])
            if isinstance(v, Atom) and v.kind == 'int' and v.key[0] in ('arg', 'call'): v = v.int()
            if isinstance(v, int) and v < 0 and str(a[0]) in ('usize', 'u64'): return v + (1 << 64)
            if isinstance(v, bool) or isinstance(v, int) and -1000 < v < 1 << 32: return int(v) if isinstance(v, bool) else v
            if isinstance(v, Atom) and v.kind in ('uint', 'int'): return v
            return Atom(self, ('cast', a[0], self.key(v)), 'int' if t.id in tm._ints or t.id in tm._unsigned else None, None)
        # sequences
        if op == 'gen':
            f = self.lam(a[1], env)
            return [f(j) for j in range(self.cnt(a[0], env))]
        if op == 'arr': return [E(x) for x in a]
        if op == 'buf': return [Atom(self, ('uninit', j), None, None) for j in range(self.cnt(a[0], env))]
        if op == 'len': return self.n(E(a[0]))
        if op == 'sel': return self.at(E(a[0]), i(a[1]))
        if op == 'st':
            m = self.mem(E(a[0]))
            if m is not None:
                o = dict(m.over); o[i(a[1])] = E(a[2]); return Mem(m.base, o)
            v = E(a[0]); l = self.li(v); j = i(a[1])
            sp = getattr(v, 'spare', None)
            if j < 0: return v
            if j >= len(l):
                r = Spare(l); r.spare = dict(sp or {}); r.spare[j] = E(a[2]); return r
            l[j] = E(a[2])
            if sp: l = Spare(l); l.spare = sp
            return l
        if op == 'swap':
            l = self.li(E(a[0])); x, y = i(a[1]), i(a[2])
            if not (0 <= x < len(l) and 0 <= y < len(l)): return l
            l[x], l[y] = l[y], l[x]; return l
        if op == 'push': return self.li(E(a[0])) + [E(a[1])]
        if op == 'concat': return self.li(E(a[0])) + self.li(E(a[1]))
        if op == 'slice':
            x, y = i(a[1]), i(a[2]); v = E(a[0])
            if x < 0 or y < x or y - x > 3000: return []
            return [self.at(v, j) for j in range(x, y)]
        if op == 'insert':
            l = self.li(E(a[0])); j = i(a[1]); l.insert(j, E(a[2])); return l
        if op == 'remove':
            l = self.li(E(a[0])); j = i(a[1])
            if 0 <= j < len(l): del l[j]
            return l
        if op == 'splice':
            x, y = i(a[1]), i(a[2]); w = self.li(E(a[3])); m = self.mem(E(a[0]))
            if m is not None:
                o = dict(m.over)
                for j in range(x, y):
                    if j - x < len(w): o[j] = w[j - x]
                return Mem(m.base, o)
            l = self.li(E(a[0]))
            for j in range(x, min(y, len(l))):
                if j >= 0 and j - x < len(w): l[j] = w[j - x]
            return l
        if op == 'resize':
            l = self.li(E(a[0])); n = i(a[1])
            return l[:n] + [E(a[2])] * max(0, n - len(l)) if n < 3000 else l
        if op == 'setlen':
            l = E(a[0]); n = self.cnt(a[1], env)
            sp = getattr(l, 'spare', {}); m = self.n(l)
            return [sp[j] if j >= m and j in sp else self.at(l, j) for j in range(n)]
        if op == 'flatconcat':
            r = []
            for x in self.li(E(a[0])): r += self.li(x)
            return r
        if op == 'fsel':
            c, f = self.lam(a[1], env), self.lam(a[2], env)
            return [f(j) for j in range(self.cnt(a[0], env)) if self.b(c(j))]
        if op == 'forall':
            f = self.lam(a[1], env)
            return all(self.b(f(j)) for j in range(self.cnt(a[0], env)))
        if op == 'first':
            f = self.lam(a[1], env)
            if a[0].op == 'inf':
                for j in range(20000):
                    if self.b(f(j)): return j
                raise NoEval('inf')
            n = self.cnt(a[0], env)
            for j in range(n):
                if self.b(f(j)): return j
            return n
        if op == 'isum':
            f = self.lam(a[1], env)
            return sum(self.i(f(j)) for j in range(self.cnt(a[0], env)))
        if op == 'prod':
            f = self.lam(a[1], env); r = 1
            for j in range(self.cnt(a[0], env)): r *= self.i(f(j))
            return r
        if op == 'fold':
            acc = E(a[0]); l = a[2]
            if l.op != 'lam': raise NoEval('fold')
            for j in range(self.cnt(a[1], env)):
                e = dict(env); e[l.args[0]] = acc
                l2 = l.args[1]
                if l2.op != 'lam': raise NoEval('fold')
                e[l2.args[0]] = j
                acc = self.ev(l2.args[1], e)
            return acc
        if op in ('cshape', 'cstride'):
            return self.collapse(E(a[0]), E(a[1]))[op == 'cstride']
        if op == 'fi':
            S, D = [self.i(x) for x in self.li(E(a[0]))], [self.i(x) for x in self.li(E(a[1]))]
            k = i(a[2]); r = 0
            for x, d in reversed(list(zip(S, D))):
                if x == 0: return 0
                r += (k % x) * d; k //= x
            return r
        if op == 'K':
            r = self.keep(a[0], [E(x) for x in a[1:]])
            if r is not NotImplemented: return r
        # records
        if op == 'adt':
            return Rec(self, a[2], tuple(E(x) for x in a[3:]), (a[0], a[1]))
        if op == 'upd':
            v = E(a[0])
            if isinstance(v, Rec) and a[1] in v.names:
                w = list(v.vals); w[v.names.index(a[1])] = E(a[2]); return Rec(self, v.names, tuple(w), v.tag)
        if op == 'tuple': return Rec(self, tuple(str(j) for j in range(len(a))), tuple(E(x) for x in a))
        if op in ('fld', 'vfld'):
            v = E(a[0])
            if isinstance(v, Rec):
                r = v.get(a[-1])
                if r is not None: return r
        if op == 'hp': return ('hp', self.key(E(a[1])))
        if op == 'flags': return ('flags',) + tuple(self.b(E(x)) for x in a[1:])
        if op in ('uninit', 'inf', 'boolv', 'bottom', 'ptrdiff') or op == 'deref' and t.args[0].op == 'ref': raise NoEval(op)
        if op == 'padd':
            p = E(a[0]); o = i(a[1])
            if isinstance(p, tuple) and p and p[0] == 'padd': return ('padd', p[1], p[2] + o)
            return ('padd', self.key(p), o)
        # uninterpreted
        key = (op,) + tuple(self.akey(x, env) for x in a)
        if op == 'has' and isinstance(a[0], T) and a[0].op == 'fld' and a[0].args[1] == 'flags' and str(show_bit(a[1])) in ('1', '2'):
            g = self.geometry(a[0].args[0], env)
            if g is not None: return g[str(show_bit(a[1])) == '2']
        kind = 'useq' if t.id in tm._useq else 'uint' if t.id in tm._unsigned else 'int' if t.id in tm._ints else 'bool' if t.id in tm._bools or op == 'has' else None
        return Atom(self, key, kind, t)
    def akey(self, x, env):
        if isinstance(x, T): return self.key(self.ev(x, env))
        if isinstance(x, tuple): return tuple(self.akey(y, env) for y in x)
        return str(x)
    def geometry(self, A, env):
        """(contiguous, uniformly strided): what the flags of an array say about its shape and strides (P08)"""
        try:
            S, D = (self.ev(tm.mark_useq(tm.fld(A, x)), env) for x in ('shape', 'stride'))
            S, D = [self.i(x) for x in self.li(S)], [self.i(x) for x in self.li(D)]
            if len(S) != len(D): return None
            s, d = self.collapse(S, D)
        except (NoEval, Bad): return None
        n = 1
        for x in S: n *= x
        if not S: return True, True
        if len(s) != 1: return False, False
        return d[0] == 1 or d[0] == 0 and n <= 1, True
    def collapse(self, S, D):
        S, D = [self.i(x) for x in self.li(S)], [self.i(x) for x in self.li(D)]
        if not S: return [], []
        if len(D) < len(S): raise Bad('rank')
        s, d = [S[0]], [D[0]]
        for x, y in zip(S[1:], D[1:]):
            if d[-1] == x * y or s[-1] == 1 and d[-1] == 0: s[-1] *= x; d[-1] = y
            else: s.append(x); d.append(y)
        return s, d
    def keep(self, name, v):
        L = lambda x: [self.i(y) for y in self.li(x)]
        if name == 'stride_from_shape':
            S = L(v[0]); r = [1] * len(S)
            for j in range(len(S) - 2, -1, -1): r[j] = r[j + 1] * S[j + 1]
            return r
        if name == 'broadcast_shapes':
            A, B = L(v[0]), L(v[1]); n = max(len(A), len(B))
            A = [1] * (n - len(A)) + A; B = [1] * (n - len(B)) + B
            if any(x != y and 1 not in (x, y) for x, y in zip(A, B)): raise Bad('incompatible shapes')
            return [y if x == 1 else x for x, y in zip(A, B)]
        if name == 'broadcast_stride':
            D, to, fr = L(v[0]), L(v[1]), L(v[2])
            if len(fr) > len(to) or len(D) != len(fr): raise Bad('rank')
            o = len(to) - len(fr)
            if any(x != 1 and x != y for x, y in zip(fr, to[o:])): raise Bad('incompatible shapes')
            return [0] * o + [0 if x == 1 else d for x, d in zip(fr, D)]
        if name == 'get_broadcasted_axes':
            to, fr = L(v[0]), L(v[1])
            if len(fr) > len(to): raise Bad('rank')
            o = len(to) - len(fr)
            return [j for j in range(len(to)) if j < o or fr[j - o] == 1 and to[j] > 1]
        return NotImplemented

class Rec(tuple):
    """tuple value with named parts"""
    def __new__(cls, M, names, vals, tag=()):
        o = super().__new__(cls, ('rec', tag, names, tuple(M.key(x) for x in vals))); o.names = names; o.vals = vals; o.tag = tag
        return o
    def get(self, n):
        return self.vals[self.names.index(n)] if n in self.names else None

_frees = {}
def frees(t):
    r = _frees.get(t)
    if r is None:
        if t.op == 'bv': r = (t.args[0],)
        else:
            s = set()
            for a in tm.subterms(t.args): s.update(frees(a))
            if t.op == 'lam': s.discard(t.args[0])
            r = tuple(sorted(s))
        _frees[t] = r
    return r

def mine(ts, lo=4, hi=1100):
    """integer thresholds occurring in the terms"""
    seen = set(); out = set(); st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'c' and isinstance(t.args[0], int): out.add(abs(t.args[0]))
        if t.op == 'poly':
            k = abs(dict(t.args[0]).get((), 0)); out |= {k, k - 1, k + 1}
            for m, c in t.args[0]:
                out.add(abs(c)); st += list(m)
                if m and k and abs(c) > 1: out.add(k // abs(c))
        else: st += list(tm.subterms(t.args))
    return tuple(sorted(x for x in out if lo < x <= hi))[:24]

def refute(a, b, facts=(), eqs=(), guide=(), seed=1, budget=12.0):
    """-> (status, description); valuations satisfying the path facts of the mismatch (guide) are tried first"""
    guide = [g for g in guide if not g[0].fv]
    big = thresholds([a, b] + [c for c, v in guide])
    if big:
        # thresholds out of reach of valuations are scaled down, consistently and in order
        sc = {k: 40 + 9 * j for j, k in enumerate(sorted(big))}
        r = refute0(rescale(a, sc), rescale(b, sc), [(rescale(c, sc), v) for c, v in facts], [(rescale(x, sc), rescale(y, sc)) for x, y in eqs], [(rescale(c, sc), v) for c, v in guide], seed, budget / 2)
        if r[0] == 'differ': return r
    return refute0(a, b, facts, eqs, guide, seed, budget)

def thresholds(ts):
    """large constants that occur, and only as the constant of a comparison against variables"""
    seen = set(); out = set(); bad = set()
    st = [(t, False) for t in ts]
    while st:
        t, cmp_ = st.pop()
        if (t, cmp_) in seen: continue
        seen.add((t, cmp_))
        if t.op == 'c' and isinstance(t.args[0], int) and abs(t.args[0]) > 1000: bad.add(abs(t.args[0]))
        if t.op == 'poly':
            for m, c in t.args[0]:
                if abs(c) > 1000: (out if not m and cmp_ else bad).add(abs(c))
                st += [(x, False) for x in m]
        else: st += [(x, t.op in ('pos', 'eq0')) for x in tm.subterms(t.args)]
    return set() if any(k > (1 << 22) for k in out | bad) else out | bad
_resc = {}
def rescale(t, sc):
    key = (t, tuple(sorted(sc.items())))
    r = _resc.get(key)
    if r is None:
        if t.op == 'c': r = tm.I((1 if t.args[0] > 0 else -1) * sc[abs(t.args[0])]) if isinstance(t.args[0], int) and abs(t.args[0]) in sc else t
        elif t.op == 'poly':
            r = tm.ZERO
            for m, c in t.args[0]:
                x = tm.I((1 if c > 0 else -1) * sc[abs(c)] if abs(c) in sc else c)
                for y in m: x = tm.mul(x, rescale(y, sc))
                r = tm.add(r, x)
        else: r = tm.rebuild(t, lambda x: rescale(x, sc)) if t.args and any(isinstance(x, tm.T) for x in tm.subterms(t.args)) else t
        _resc[key] = r
    return r

def unify(guide):
    """fields the path has found equal (shapes, strides, buffers), as replacements"""
    out = {}
    for c, v in guide:
        if not v or c.op != 'eq' or len(c.args) != 2: continue
        x, y = c.args
        if all(isinstance(z, tm.T) and z.op == 'fld' and z.args[1] in ('ptr', 'shape', 'stride') for z in (x, y)) and x.args[1] == y.args[1] and x is not y: out[x] = y
    return out
def replace(t, m, memo):
    r = memo.get(t)
    if r is None:
        r = m[t] if t in m else tm.rebuild(t, lambda x: replace(x, m, memo)) if t.args and any(isinstance(x, tm.T) for x in tm.subterms(t.args)) else t
        memo[t] = r
    return r

def refute0(a, b, facts, eqs, guide, seed, budget):
    t0 = time.time()
    m = unify(guide)
    if any(x.args[1] == 'ptr' for x in m):
        # two views of one buffer: unrelated valuations never make two pointers equal
        memo = {}; q = lambda t: replace(t, m, memo)
        r = refute1(q(a), q(b), [(q(c), v) for c, v in facts], [(q(x), q(y)) for x, y in eqs], [(q(c), v) for c, v in guide], 6000, seed, t0 + budget / 3, 40)
        if r[0] == 'differ': return r
    if guide:
        r = refute1(a, b, list(facts), eqs, guide, 6000, seed, t0 + budget / 2, 120)
        if r[0] == 'differ': return r
    return refute1(a, b, list(facts), eqs, (), 3000, seed, t0 + budget, 600)

def refute1(a, b, facts, eqs, guide, tries, seed, tmax, enough):
    """-> (status, description): 'differ' with a separating valuation, 'same' when none was found, 'noeval'"""
    lens = [(f.args[0], g) for f, g in eqs if f.op == 'len']
    ok = 0; why = ''
    consts = mine([a, b] + [c for c, v in guide]); ranks = mine([a, b] + [c for c, v in guide], 2, 8)
    if consts: enough *= 3; tries *= 2
    for n in range(tries):
        if time.time() > tmax: break
        M = Model(seed * 1000003 + n, lens, consts=consts, ranks=ranks)
        try:
            if not all(M.b(M.ev(c, {})) == v for c, v in guide): continue
            if not all(M.b(M.ev(c, {})) == v for c, v in facts): continue
            if not all(M.same(M.ev(f, {}), M.ev(g, {})) for f, g in eqs): continue
            x, y = M.ev(a, {}), M.ev(b, {})
            if not M.same(x, y): return 'differ', describe(M, x, y)
            ok += 1
        except Bad: continue
        except NoEval as e: why = str(e); continue
        if ok >= enough: break
    return ('same', f'{ok} valuations agree') if ok else ('noeval', why)

def iterate(start, nxt, want, pre=(), eqs=(), tries=3000, seed=7, extra=3, cap=80, enough=600, final=None):
    """start: term of the iterator's initial state; nxt: (self term, new state term, returned Option term);
    want: list term of the values the iterator must yield, in order. Valuation-wise run of the two summaries.
    -> ('differ', why) | ('same', n) | ('noeval', why)"""
    selft, newt, rett = nxt
    lens = [(f.args[0], g) for f, g in eqs if f.op == 'len']
    ok = 0; why = ''
    t0 = time.time()
    allt = [start, newt, rett, want] + [c for c, v in pre]
    consts = mine(allt); ranks = mine(allt, 2, 8)
    for n in range(tries):
        if time.time() - t0 > 10: break
        M = Model(seed * 1000003 + n, lens, consts=consts, ranks=ranks)
        try:
            if not all(M.b(M.ev(c, {})) == v for c, v in pre): continue
            if not all(M.same(M.ev(f, {}), M.ev(g, {})) for f, g in eqs): continue
            w = M.li(M.ev(want, {}))
            if len(w) > cap: continue
            st = M.ev(start, {})
            for k in range(len(w) + 1):
                M.memo = {}; M.bind = {selft: st}
                r = M.ev(rett, {})
                if not isinstance(r, Rec) or len(r.tag) < 2: raise NoEval('option')
                some = r.tag[1] in ('Some', 1)
                if some != (k < len(w)): return 'differ', f'element {k} of {len(w)}: ' + ('an extra element is produced' if some else 'the iteration ends early')
                if some and not M.same(r.vals[0], w[k]): return 'differ', f'element {k}: ' + describe(M, r.vals[0], w[k])
                st = M.ev(newt, {})
            ok += 1
        except Bad: continue
        except NoEval as e: why = str(e); continue
        if ok >= enough: break
    return ('same', f'{ok} valuations agree') if ok else ('noeval', why)

def describe(M, x, y):
    def sh(v):
        try: v = M.li(v) if isinstance(v, (list, Seq)) else v
        except Exception: pass
        if isinstance(v, list): return '[' + ', '.join(sh(q) for q in v[:12]) + (' …' if len(v) > 12 else '') + ']'
        if isinstance(v, Atom):
            return str(v.int()) if v.kind in ('uint', 'int') else 'x' + str(hsh(v.key) % 997)
        return str(v)[:80]
    return f'{sh(x)} vs {sh(y)}'
