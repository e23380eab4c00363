"""Obligation bookkeeping, verdicts, reports and evidence shared by all property checkers."""
import sys, os, json, time, re, traceback
sys.setrecursionlimit(20000)
from equiv import *
import model, terms

UNKNOWN_OPS = {'boolv', 'uninit', 'inf', 'seqof', 'ptrdiff'}
_taint = {}
def tainted(t):
    r = _taint.get(t)
    if r is None:
        if t.op in UNKNOWN_OPS: r = t.op
        elif t.op == 'deref' and t.args[0].op == 'ref': r = 'reference resolved too late'
        elif t.op == 'call' and not str(t.args[0]).startswith(('redstone_ml', '<redstone_ml')) and '<redstone_ml' not in str(t.args[0]): r = 'call ' + str(t.args[0])
        else:
            r = ''
            for a in subterms(t.args):
                if t.op == 'first' and a.op == 'inf': continue      # least index with a property: searched for
                r = tainted(a)
                if r: break
        _taint[t] = r
    return r

class Result:
    def __init__(self, ob, status, detail='', site='', key=''): self.ob, self.status, self.detail, self.site, self.key = ob, status, detail, site, key

class Ctx:
    def __init__(self, P, pid, tier):
        self.P = P; self.pid = pid; self.tier = tier
        self.results = []; self.fns = set(); self.leaves = 0; self.rules = []; self.notes = []; self.extras = {}
    # --- anchors
    def impls_of(self, trait, name, self_has, module=None):
        """functions implementing trait::name for types whose name contains self_has"""
        return [f for f in self.P.fns.values() if f.impl_trait == trait and f.name == name and re.search(self_has, f.impl_self or '')]
    def need(self, lst, minimum, what):
        if len(lst) < minimum:
            self.add('anchor:' + what, 'violated', f'expected at least {minimum} {what}, found {len(lst)}', '')
        return lst
    # --- results
    def add(self, ob, status, detail='', site='', key=None):
        self.results.append(Result(ob, status, detail, site, key or ob))
    def eng(self, models=None, policy=None): return Engine(self.P, policy=policy, models=models)
    def summarise(self, f, models=None, args=None, tmap=None, policy=None, ob=None, on_drop=None, limit=None, unroll=0, forked=False):
        """-> Summary or None (records undecided)"""
        e = self.eng(models, policy); e.on_drop = on_drop; e.unroll = unroll; e.forked = forked
        old = set_budget(limit) if limit else None
        try:
            s = e.analyse(f, args=args, tmap=tmap)
        except Exception as x:
            self.add((ob or f.id) + ':summary', 'undecided', f'{type(x).__name__}: {x}', f.sp)
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            return None
        finally:
            if limit: terms._budget[0] = old
        self.fns |= e.visited
        return s
    def equal(self, ob, got, want, facts=(), pre=(), site='', notes=(), key=None, extra=None, guide=()):
        """obligation: the two terms denote the same value under pre"""
        try:
            a, b = strip_ids(got), strip_ids(want)
            (a, b), fs = with_pre([a, b], list(pre) + list(facts))
            try: n = equiv(a, b, fs)
            except Mismatch:
                if not (is_bool(a) and is_bool(b)) or a.op == 'b' or b.op == 'b': raise
                try: n = implications(strip_ids(got), strip_ids(want), list(pre) + list(facts))
                except (Mismatch, Limit): n = None
                if n is None: raise
            self.leaves += n
            self.add(ob, 'proved', '', site, key)
            return True
        except Mismatch as m:
            t = tainted(m.a) or tainted(m.b) or next((tainted(c) for c, v in m.facts if tainted(c)), '') or (', '.join(sorted(set(notes))) if notes else '')
            cond = ' and '.join(('' if v else 'not ') + clip(show(c), 160) for c, v in m.facts[-6:])
            d = f'code computes {clip(show(m.a), 400)} where the property requires {clip(show(m.b), 400)}' + (f' when {cond}' if cond else '')
            if extra: d += ' [' + extra + ']'
            if not t:
                st_, why = self.separate(got, want, pre, facts, m.facts)
                if st_ != 'differ' and guide: st_, why = self.separate(got, want, pre, facts, guide)
                if st_ == 'differ': d += f' (separating valuation: {why})'
                else: t = 'normal forms differ, ' + why
            self.add(ob, 'undecided' if t else 'violated', (f'(analysis imprecise: {t}) ' if t else '') + d, site, key)
        except (Limit, RecursionError) as x:
            self.add(ob, 'undecided', f'{type(x).__name__} in comparison', site, key)
        except Exception as x:
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            self.add(ob, 'undecided', f'{type(x).__name__}: {x}', site, key)
        return False
    def same(self, got, want, pre=()):
        """normal forms agree (no verdict recorded)"""
        try:
            a, b = strip_ids(got), strip_ids(want)
            (a, b), fs = with_pre([a, b], list(pre))
            self.leaves += equiv(a, b, fs)
            return True
        except (Mismatch, Limit, RecursionError): return False
        except Exception:
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            return False
    def decide(self, ob, ok, refuter, site='', detail=''):
        """proved when the structural argument went through; otherwise only a refuting valuation makes it a violation"""
        if ok: self.add(ob, 'proved', '', site); return True
        try: st_, why = refuter()
        except RecursionError: st_, why = 'noeval', 'recursion'
        except Exception as x:
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            st_, why = 'noeval', f'{type(x).__name__}: {x}'
        self.add(ob, 'violated' if st_ == 'differ' else 'undecided', (detail + ' ' if detail else '') + why, site)
        return False
    def anchor(self, name, public=False):
        """the function with this (path suffix) name; a missing public function is a violation, a missing internal one is undecided"""
        ids = find_ids(self.P, name)
        if not ids:
            self.add('anchor:' + name, 'violated' if public else 'undecided', f'function {name} not found', '')
            return None
        return self.P.fns[ids[0]]
    def separate(self, got, want, pre, facts, guide=()):
        eqs = [(p[1], p[2]) for p in pre if p[0] == '=']
        fs = [p for p in list(pre) + list(facts) if p[0] != '=']
        if not guide:
            # where the normal forms part
            try:
                (a, b), fs2 = with_pre([strip_ids(got), strip_ids(want)], list(pre) + list(facts)); equiv(a, b, fs2)
            except Mismatch as m: guide = m.facts
            except (Limit, RecursionError): pass
        try: return model.refute(strip_ids(got), strip_ids(want), fs, eqs, guide)
        except RecursionError: return 'noeval', 'recursion'
    def true(self, ob, cond, pre=(), site='', notes=(), key=None, extra=None): return self.equal(ob, cond, TRUE, pre=pre, site=site, notes=notes, key=key, extra=extra)

def clip(s, n): return s if len(s) <= n else s[:n] + '…'

def instances(P, trait_rx):
    """element types to analyse: the generic T plus every impl of the kernel traits that overrides a method"""
    tys = set()
    for tr, impls in P.traits.items():
        if re.search(trait_rx, tr):
            for i in impls:
                if i['items'] and all(x.get('kind', 'fn') != 'const' for x in i['items']): tys.add(i['self'])
    return sorted(tys)

PRIM = re.compile(r'^(f32|f64|[iu](8|16|32|64|128|size)|bool)$')
def overriding(P, trait_rx):
    """element types whose kernels are not the default ones: each type with an impl that overrides a method; elem::Any stands
    for the types of a blanket impl that does"""
    out = set()
    for t in instances(P, trait_rx): out |= {t} if PRIM.match(t) else {'elem::Any'}
    return sorted(out)

def isolate(mod):
    """an unexpected construct in one part of an analysis leaves that part undecided and the others examined"""
    import functools, types, inspect, traceback
    for n, f in list(vars(mod).items()):
        if not isinstance(f, types.FunctionType) or n == 'run': continue
        ps = list(inspect.signature(f).parameters)
        if not ps or ps[0] != 'cx' or getattr(f, 'isolated', False): continue
        def wrap(f, n):
            @functools.wraps(f)
            def g(cx, *a, **k):
                try: return f(cx, *a, **k)
                except (Unsupported, Limit, Mismatch, RecursionError): raise
                except Exception as x:
                    traceback.print_exc(limit=-3)
                    cx.add(f'analysis of {n}', 'undecided', f'{type(x).__name__}: {x}')
            g.isolated = True
            return g
        setattr(mod, n, wrap(f, n))
