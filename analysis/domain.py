"""Domain vocabulary shared by the checkers: the traversal order fi(S,D,k) (flat memory offset of the
k-th element, in row-major index order, of a view with shape S and stride D), the collapsed view
(cshape, cstride), and the case-splitting normal-form comparison `equiv`.

Rewrite rules used for fi / cshape / cstride (each is a consequence of what property P05 decides about
FlatIndexGenerator and collapse_to_uniform_stride on the current tree):
  fi(cshape(S,D), cstride(S,D), k) = fi(S,D,k)
  prod(cshape(S,D)) = prod(S);  len(cstride(S,D)) = len(cshape(S,D))
  len(cshape(S,D)) = 1  =>  fi(S,D,k) = k*cstride(S,D)[0]  and  prod(S) = cshape(S,D)[0]
  len(S) = 0            =>  cshape = cstride = []
"""
import re
from terms import *
import terms as tm
from engine import *
import models

# ------------------------------------------------------------------ contract models
def m_collapse(eng, fr, s, fn, args, tys, t):
    S = seqval(eng, s, args[0]); D = seqval(eng, s, args[1])
    c = lor(eq(slen(S), ZERO), le(slen(S), slen(D)))
    s = s.copy(); s.env[OK] = land(eng.get(s, OK), c)
    return tup(cshape(S, D), cstride(S, D)), s

def m_fig_from(eng, fr, s, fn, args, tys, t):
    S = seqval(eng, s, args[0]); D = seqval(eng, s, args[1])
    k = mark_unsigned(fresh('k'))
    g = mk('gen', size(S), lam(k, fi(S, D, k)))
    return mk('iter', g, ZERO), s

def m_fig_next(eng, fr, s, fn, args, tys, t):
    it = eng.load(s, args[0], (), False)
    if it.op != 'iter': return NotImplemented
    return eng.M.iter_model(eng, fr, s, '', 'next', fn, args, ['&mut'] , t, [], lambda a: it)

def traversal_models():
    C = 'ndarray::iterator::'
    return {'@collapse_to_uniform_stride': m_collapse, '@FlatIndexGenerator::from': m_fig_from,
            '@FlatIndexGenerator::next': m_fig_next}

def seqval(eng, s, p):
    """content of the slice/vec behind a reference"""
    if p.op == 'ite': return ite(p.args[0], seqval(eng, s, p.args[1]), seqval(eng, s, p.args[2]))
    return mark_useq(eng.load(s, p, (), False))

def resolve_models(P, table):
    """'@suffix' keys -> function ids; '@A::b' also matches '<..A as ..>::b' """
    out = {}
    for k, m in table.items():
        if not k.startswith('@'): out[k] = m; continue
        for fid in find_ids(P, k[1:]): out[fid] = m
    return out

def find_ids(P, suf):
    if '::' in suf:
        ty, name = suf.rsplit('::', 1)
        pat = re.compile(r'(^|::)' + re.escape(ty) + r'(::<.*>|<[^>]*>)?::' + re.escape(name) + r'$')
        pat2 = re.compile(r'^<(&?\w*::)*' + re.escape(ty) + r'(<.*>)? as [^>]*(<.*>)?>::' + re.escape(name) + r'$')
        pat3 = re.compile(r'::<impl (\w+::)*' + re.escape(ty) + r'(<.*>)?>::' + re.escape(name) + r'$')
        return [f for f in P.fns if pat.search(f) or pat2.search(f) or pat3.search(f)]
    return [f for f in P.fns if f.split('::')[-1] == suf and not f.startswith('<')]

# functions kept as uninterpreted symbols at the array level (their own behaviour is decided by P04/P08)
KEEP = ['broadcast_shapes', 'broadcast_stride', 'get_broadcasted_axes', 'stride_from_shape', 'has_uniform_stride']
def m_keep(name):
    def m(eng, fr, s, fn, args, tys, t):
        vs = []
        for a, ty in zip(args, tys):
            vs.append(seqval(eng, s, a) if ty.startswith('&') else a)
        return mark_useq(mk('K', name, *vs)), s
    return m
def m_hus(eng, fr, s, fn, args, tys, t):
    """has_uniform_stride: Some(the single stride) exactly when the view collapses to one axis (decided by P08)"""
    if len(args) < 2: return NotImplemented      # the method of the same name
    S = seqval(eng, s, args[0]); D = seqval(eng, s, args[1])
    cs, cd = cshape(S, D), cstride(S, D)
    return ite(eq(slen(S), ZERO), mkSome(ZERO), ite(eq(slen(cs), ONE), mkSome(sel(cd, ZERO)), NONE)), s
def m_iter_from(deref):
    """BufferIterator / FlatIterator over an array (decided by P05)"""
    def m(eng, fr, s, fn, args, tys, t):
        A = eng.load(s, args[0], (), False)
        S, D, p = mark_useq(fld(A, 'shape')), mark_useq(fld(A, 'stride')), fld(A, 'ptr')
        k = mark_unsigned(fresh('k'))
        q = models.padd(p, fi(S, D, k))
        if deref:
            q = eng.load(s, q, (), True)
        return mk('iter', gen(size(S), lam(k, q)), ZERO), s
    return m
def iter_models():
    return {'@BufferIterator::from': m_iter_from(False), '@BufferIterator::next': m_fig_next,
            '@FlatIterator::from': m_iter_from(True), '@FlatIterator::next': m_fig_next}
def m_clone_data(eng, fr, s, fn, args, tys, t):
    """NdArray::clone_data: the elements in row-major order (decided by P19)"""
    A = eng.load(s, args[0], (), False)
    S, D, p = mark_useq(fld(A, 'shape')), mark_useq(fld(A, 'stride')), fld(A, 'ptr')
    k = mark_unsigned(fresh('k'))
    return gen(size(S), lam(k, eng.load(s, models.padd(p, fi(S, D, k)), (), True))), s
def clone_models(P): return resolve_models(P, {'@NdArray::clone_data': m_clone_data})
def array_models(P, keep=KEEP, iters=True):
    t = dict(traversal_models())
    if iters: t.update(iter_models())
    for k in keep: t['@' + k] = m_hus if k == 'has_uniform_stride' else m_keep(k)
    return resolve_models(P, t)
