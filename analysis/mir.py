"""Loads the MIR dump; CFG utilities; type strings; impl lookup."""
import json, re, functools

class Fn:
    def __init__(self, j):
        self.j = j
        self.id = j['id']; self.name = j['name']; self.sp = j['sp']
        self.locals = j['locals']; self.blocks = j['blocks']; self.argc = j['argc']
        self.kind = j['kind']
        self.generics = j.get('generics', [])
        self.parent = j.get('parent', '')
        self.impl_self = j.get('impl_self'); self.impl_trait = j.get('impl_trait')
        self.trait_default = j.get('trait_default')
        self._cfg = None
    def ty(self, l): return self.locals[l]['ty']
    def lname(self, l): return self.locals[l].get('name', f'_{l}')
    @property
    def cfg(self):
        if self._cfg is None: self._cfg = Cfg(self.blocks)
        return self._cfg

def succs(t):
    k = t['k']
    if k == 'goto': return [t['t']]
    if k == 'switch': return [b for _, b in t['vals']] + [t['else']]
    if k in ('drop', 'assert'): return [t['t']]
    if k == 'call': return [t['t']] if t['t'] is not None else []
    return []

class Cfg:
    def __init__(self, blocks):
        n = len(blocks)
        self.succ = [succs(b['t']) for b in blocks]
        # reachable, rpo
        order = []; seen = set()
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); st.pop()
        self.rpo = order[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]: self.pred[s].append(b)
        self._dom()
        self._loops()
        self.returning = set(); st = [b for b in self.rpo if blocks[b]['t']['k'] == 'return']      # blocks from which the function can return
        while st:
            x = st.pop()
            if x in self.returning: continue
            self.returning.add(x); st += self.pred[x]
    def _dom(self):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while self.idx[a] > self.idx[c]: a = idom[a]
                        while self.idx[c] > self.idx[a]: c = idom[c]
                    d = a
                if idom.get(b) != d: idom[b] = d; ch = True
        self.idom = idom
    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]
    def _loops(self):
        self.loops = {}   # header -> set of blocks
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += self.pred[x]

# ------------------------------------------------------------------ types
def erase(s):
    s = re.sub(r"for<[^>]*> ", '', s)
    s = re.sub(r"&'[a-zA-Z_0-9]+ ", '&', s)
    s = re.sub(r"<'[a-zA-Z_0-9]+, ", '<', s)
    s = re.sub(r"<'[a-zA-Z_0-9]+>", '', s)
    s = re.sub(r", '[a-zA-Z_0-9]+", '', s)
    s = re.sub(r"\+ '[a-zA-Z_0-9]+", '', s)
    return s.strip()

def split_top(s):
    out = []; d = 0; cur = ''
    prev = ''
    for c in s:
        if c in '<([{': d += 1
        elif c in ')]}' or (c == '>' and prev != '-'): d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
        prev = c
    if cur.strip(): out.append(cur.strip())
    return out

@functools.lru_cache(None)
def parse_ty(s):
    s = s.strip()
    if s.startswith('&mut '): return ('&mut', parse_ty(s[5:]))
    if s.startswith('&'): return ('&', parse_ty(s[1:]))
    if s.startswith('*const '): return ('*const', parse_ty(s[7:]))
    if s.startswith('*mut '): return ('*mut', parse_ty(s[5:]))
    if s.startswith('[') and s.endswith(']'):
        inner = s[1:-1]
        d = 0
        for i, c in enumerate(inner):
            if c in '<([': d += 1
            elif c in '>)]': d -= 1
            elif c == ';' and d == 0: return ('array', parse_ty(inner[:i]), parse_ty(inner[i + 1:]))
        return ('slice', parse_ty(inner))
    if s.startswith('('): return ('tuple',) + tuple(parse_ty(x) for x in split_top(s[1:-1]))
    m = re.match(r'^([A-Za-z_0-9:]+?)(::)?<(.*)>$', s)
    if m: return ('path', m.group(1)) + tuple(parse_ty(x) for x in split_top(m.group(3)))
    return ('path', s)

def unify(p, t, vars, m):
    if p[0] == 'path' and len(p) == 2 and p[1] in vars:
        if p[1] in m: return m[p[1]] == t
        m[p[1]] = t; return True
    if isinstance(p, str) or isinstance(t, str): return p == t
    if len(p) != len(t) or p[0] != t[0]: return False
    for a, b in zip(p[1:], t[1:]):
        if isinstance(a, str) or isinstance(b, str):
            if a != b: return False
        elif not unify(a, b, vars, m): return False
    return True

def unparse(t):
    k = t[0]
    if k == '&mut': return '&mut ' + unparse(t[1])
    if k == '&': return '&' + unparse(t[1])
    if k in ('*const', '*mut'): return k + ' ' + unparse(t[1])
    if k == 'array': return f'[{unparse(t[1])}; {unparse(t[2])}]'
    if k == 'slice': return f'[{unparse(t[1])}]'
    if k == 'tuple': return '(' + ', '.join(unparse(x) for x in t[1:]) + ')'
    return t[1] + ('<' + ', '.join(unparse(x) for x in t[2:]) + '>' if len(t) > 2 else '')

ASSOC = {}     # (self type, trait, associated type name) -> type
_qp = re.compile(r'<([\w:]+) as ([\w:]+)>::(\w+)')
def subst_ty(s, m):
    if ' as ' in s and s.startswith('<'):
        s = _qp.sub(lambda q: ASSOC.get(((m or {}).get(q.group(1), q.group(1)), q.group(2), q.group(3)), q.group(0)), s)
    if not m: return s
    if s in m: return m[s]
    def go(t):
        if t[0] == 'path' and len(t) == 2 and t[1] in m: return parse_ty(m[t[1]])
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)
    try: return unparse(go(parse_ty(erase(s))))
    except RecursionError: return s

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.fns = {}
        for j in d['fns']:
            f = Fn(j)
            k = f.id
            if k in self.fns:   # several closures/consts can share a printed path
                n = 2
                while f'{k}#{n}' in self.fns: n += 1
                k = f'{k}#{n}'
            self.fns[k] = f
        self.impls = d['impls']; self.adts = {a['id']: a for a in d['adts']}
        self.traits = {}
        for i in self.impls:
            i['_self'] = parse_ty(erase(i['self']))
            if 'trait' in i:
                self.traits.setdefault(i['trait'], []).append(i)
                for x in i['items']:
                    if 'ty' in x: ASSOC[(erase(i['self']), i['trait'], x['name'])] = x['ty']
        self.by_name = {}
        for f in self.fns.values(): self.by_name.setdefault(f.name, []).append(f)
    def overrides(self, trait, method):
        return [i for i in self.traits.get(trait, []) if any(x['name'] == method for x in i['items'])]
    def default(self, trait, method):
        return self.fns.get(f'{trait}::{method}')
    def resolve(self, trait, method, selfty, targs=()):
        """-> Fn or None; selfty string (concrete as far as known)"""
        st = parse_ty(erase(selfty))
        cands = []
        generic = st[0] == 'path' and len(st) == 2 and '::' not in st[1] and re.match(r'^[A-Z]\w*$', st[1])
        for i in self.traits.get(trait, []):
            vs = set(i['generics']); m = {}
            if i['_self'][0] == 'path' and len(i['_self']) == 2 and i['_self'][1] in vs:
                cands.append((1, i, m)); continue
            if not generic and unify(i['_self'], st, vs, m): cands.append((0, i, m))
        if not generic:
            spec = [c for c in cands if c[0] == 0]
            pool = spec or cands
            hits = [(i, m) for _, i, m in pool]
            if len(hits) > 1 and targs:
                h2 = []
                for i, m in hits:
                    m2 = dict(m)
                    ok = all(unify(parse_ty(erase(a)), parse_ty(erase(b)), set(i['generics']), m2)
                             for a, b in zip(i.get('trait_args', [])[1:], targs[1:]) if not a.startswith("'"))
                    if ok: h2.append((i, m2))
                hits = h2
            if len(hits) == 1:
                i, m = hits[0]
                for x in i['items']:
                    if x['name'] == method:
                        f = self.fns.get(x['id'])
                        return f, m
                return self.default(trait, method), None
        # generic receiver: the default body is what every impl without an override runs;
        # impls that override are analysed separately with the concrete type (core.instances)
        if self.default(trait, method) is not None or not self.overrides(trait, method):
            return self.default(trait, method), None
        return None, None
