"""P10: no safe program can use an array, view, slice or iterator after the memory it refers to is gone, or while it is being changed
through its owner, share arrays between threads, or forge an array. Decided by the compiler's own borrow and type checker on
witness programs: each forbidden program must be rejected for the stated reason, and its twin without the misuse must be accepted.
What a tensor hands out with an unlimited lifetime is decided on the value graph: it must own its memory."""
import subprocess, glob, tempfile, shutil
from core import *
from p07 import body_of, SELF, METHODS
from p09 import owns_of
BORROW = {'E0505', 'E0502', 'E0506', 'E0597', 'E0515', 'E0716', 'E0499', 'E0503', 'E0521'}

A = 'let mut a = NdArray::<f32>::ones([3, 3]);'
V = A + ' let v = (&a).view();'
T = 'let mut t = Tensor::<f32>::ones([3, 3]); t.set_requires_grad(true);'
TV = T + ' let v = (&t).view();'
W = []          # (name, kind, prelude, expression, misuse, allowed codes)

def borrows(name, pre, expr, owner='a'):
    """x = expr refers to memory of owner: it cannot outlive it, and the owner cannot be changed, moved or replaced meanwhile"""
    new = 'NdArray::<f32>::ones([3])' if owner != 't' else 'Tensor::<f32>::ones([3])'
    W.append((name + ': outlives its source', pre, expr, f'drop({owner});', BORROW))
    W.append((name + ': source replaced', pre, expr, f'{owner} = {new};', BORROW))
    if owner == 'a': W.append((name + ': source overwritten', pre, expr, 'a.fill(0.0);', BORROW))
    else: W.append((name + ': source changed', pre, expr, 't.set_requires_grad(false);', BORROW))

ARR = {'view': '(&a).view()', 'reshape': '(&a).reshape([9])', 'squeeze': '(&a).squeeze()', 'unsqueeze': '(&a).unsqueeze(0)', 'T': '(&a).T()',
       'transpose': '(&a).transpose(0, 1)', 'slice_along': 'a.slice_along(Axis(0), 0..2)', 'slice_along(index)': 'a.slice_along(Axis(1), 1)',
       'slice': 'a.slice(s![0..2, 1])', 'diagonal': 'a.diagonal()', 'offset_diagonal': 'a.offset_diagonal(1)', 'diagonal_along': 'a.diagonal_along(0, 1)',
       'offset_diagonal_along': 'a.offset_diagonal_along(1, 0, 1)', 'broadcast_to': 'a.broadcast_to(&[2, 3, 3])', 'flatiter': 'a.flatiter()',
       'iter': 'a.iter()', 'iter_along': 'a.iter_along(Axis(1))', 'nditer': 'a.nditer([0, 1])', 'data_slice': 'a.data_slice()', 'shape': 'a.shape()', 'stride': 'a.stride()',
       '[]': '&a[[1, 2]]', 'einsum_view': 'einsum_view(&a, ("ij", "ji"))'}
CHAIN = {'view': 'v.view()', 'reshape': 'v.reshape([9])', 'squeeze': 'v.squeeze()', 'unsqueeze': 'v.unsqueeze(0)', 'T': 'v.T()', 'transpose': 'v.transpose(0, 1)'}
TEN = {'view': '(&t).view()', 'reshape': '(&t).reshape([9])', 'squeeze': '(&t).squeeze()', 'unsqueeze': '(&t).unsqueeze(0)', 'T': '(&t).T()',
       'transpose': '(&t).transpose(0, 1)', 'ndarray': 't.ndarray()', 'gradient': 't.gradient()', 'shape': 't.shape()', 'stride': 't.stride()'}
for n, e in ARR.items(): borrows('array.' + n, A, e)
for n, e in CHAIN.items(): borrows('view moved into ' + n, V, e)
borrows('slice moved into T', A, 'a.slice_along(Axis(0), 0..2).T()')
borrows('diagonal moved into unsqueeze', A, 'a.diagonal().unsqueeze(0)')
borrows('broadcast view moved into transpose', A, 'a.broadcast_to(&[2, 3, 3]).transpose(0, 1)')
for n, e in TEN.items(): borrows('tensor.' + n, T, e, 't')
borrows('array of a tensor view', TV, 'v.ndarray()', 't')
borrows('view of a tensor\'s array', T, 't.ndarray().view()', 't')
W.append(('[]=: exclusive', A, '&mut a[[1, 2]]', 'sink(&a);', BORROW))
W.append(('[]=: exclusive against views', V, 'v', 'a[[0, 0]] = 2.0;', BORROW))
W.append(('+=: exclusive against views', V, 'v', 'a += 1.0;', BORROW))
W.append(('zero: exclusive against slices', A + ' let v = a.data_slice();', 'v', 'a.zero();', BORROW))

# whole programs that must be rejected, with a twin that must be accepted
P2 = [('arrays are not Send', 'need_send::<NdArray<f32>>();', 'need_send::<Vec<f32>>();', {'E0277'}),
      ('arrays are not Sync', 'need_sync::<NdArray<f32>>();', 'need_sync::<Vec<f32>>();', {'E0277'}),
      ('tensors are not Send', 'need_send::<Tensor<f32>>();', 'need_send::<Vec<f32>>();', {'E0277'}),
      ('tensors are not Sync', 'need_sync::<Tensor<f32>>();', 'need_sync::<Vec<f32>>();', {'E0277'}),
      ('the data pointer is private', A + ' let p = a.ptr;', A + ' let p = a.shape();', {'E0616'}),
      ('flags are private', A + ' a.flags = a.flags;', A + ' let p = a.flags();', {'E0616'}),
      ('length is private', A + ' a.len = 100;', A + ' let p = a.len();', {'E0616', 'E0615'}),
      ('shape is private', A + ' a.shape = vec![100];', A + ' let p = a.shape();', {'E0616', 'E0615'}),
      ('stride is private', A + ' a.stride = vec![100];', A + ' let p = a.stride();', {'E0616', 'E0615'}),
      ('adopting a buffer is unsafe', 'let p = NdArray::<f32>::from_contiguous_owned_buffer(vec![100], vec![1.0]);',
       'let p = unsafe { NdArray::<f32>::from_contiguous_owned_buffer(vec![1], vec![1.0]) };', {'E0133'}),
      ('adopting a buffer is unsafe (tensor)', 'let p = Tensor::<f32>::from_contiguous_owned_buffer(vec![100], vec![1.0]);',
       'let p = unsafe { Tensor::<f32>::from_contiguous_owned_buffer(vec![1], vec![1.0]) };', {'E0133'}),
      ('an arbitrary layout is unsafe', A + ' let p = (&a).reshaped_view(vec![100], vec![1]);', A + ' let p = unsafe { (&a).reshaped_view(vec![9], vec![1]) };', {'E0133'}),
      ('an arbitrary layout is unsafe (moved)', A + ' let p = a.reshaped_view(vec![100], vec![1]);', A + ' let p = unsafe { a.reshaped_view(vec![9], vec![1]) };', {'E0133'}),
      ('an arbitrary layout is unsafe (tensor)', T + ' let p = (&t).reshaped_view(vec![100], vec![1]);', T + ' let p = unsafe { (&t).reshaped_view(vec![9], vec![1]) };', {'E0133'})]
# results with storage of their own may outlive their operands
OWN = {'clone': (A, 'a.clone()', 'a'), 'flatten': (A, 'a.flatten()', 'a'), 'sum': (A, 'a.sum()', 'a'), 'sum_along': (A, 'a.sum_along(0)', 'a'), '&a + &a': (A, '&a + &a', 'a'),
       '&a * 2': (A, '&a * 2.0', 'a'), 'matmul': (A, 'a.matmul(&a)', 'a'), 'trace': (A, 'a.trace()', 'a'), 'astype': (A, 'a.astype::<f64>()', 'a'), 'clone of a view': (V, '{ let y = v.clone(); drop(v); y }', 'a'),
       '-&a': (A, '-&a', 'a'), 'einsum': (A, 'einsum([&a, &a], (["ij", "jk"], "ik"))', 'a'),
       'detach': (T, 't.detach()', 't'), 'get_ndarray': (T, 't.get_ndarray()', 't'), 'get_ndarray of a view': (TV, 'v.get_ndarray()', 't'),
       'into_ndarray of a view': (TV, 'v.into_ndarray()', 't'), '&t * &t': (T, '&t * &t', 't')}

HEAD = '''#![allow(unused, dropping_references)]
use redstone_ml::*;
fn sink<X: ?Sized>(_: &X) {}
fn need_send<X: Send>() {}
fn need_sync<X: Sync>() {}
'''

def programs():
    """(name, forbidden body or None, accepted body, codes)"""
    out = []
    for name, pre, e, misuse, codes in W:
        out.append((name, f'{pre} let x = {e}; {misuse} sink(&x);', f'{pre} {{ let x = {e}; sink(&x); }} {misuse}', codes))
    for name, bad, good, codes in P2: out.append((name, bad, good, codes))
    for name, (pre, e, o) in OWN.items(): out.append((f'own storage: {name} outlives its operand', None, f'{pre} let x = {e}; drop({o}); sink(&x);', set()))
    return out

def compile_(cx, bodies, src, meta, libs):
    """type- and borrow-check one file with one function per body -> {index: set of error codes} or None"""
    lines = HEAD.count('\n')
    with open(src, 'w') as f:
        f.write(HEAD)
        for i, b in enumerate(bodies): f.write(f'pub fn w{i}() {{ {b} }}\n')
    cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '-Awarnings', '-Ctarget-cpu=x86-64-v3',
           '--extern', 'redstone_ml=' + meta, '-o', src + '.rmeta', src]
    for l in libs: cmd += ['-L', 'dependency=' + l]
    env = {k: v for k, v in os.environ.items() if k not in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'RUSTC_WRAPPER')}
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300, env=env)
    errs = {i: {} for i in range(len(bodies))}
    for l in r.stderr.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('level') != 'error' or not d.get('spans'): 
            if d.get('level') == 'error' and (d.get('code') or {}).get('code') in ('E0463', 'E0460', 'E0514'): return None, d.get('message', '')
            continue
        sp = next((s for s in d['spans'] if s['is_primary'] and s['file_name'] == src), None) or next((s for s in d['spans'] if s['file_name'] == src), None)
        if not sp: continue
        i = sp['line_start'] - lines - 1
        if i < 0: return None, d.get('message', '')
        errs[i][(d.get('code') or {}).get('code') or '?'] = d.get('message', '')
    return errs, ''

def witnesses(cx):
    root = os.environ.get('MIR_TARGET') or os.path.join(cx.V, 'target', 'mir')
    metas = sorted(glob.glob(root + '/debug/**/libredstone_ml-*.rmeta', recursive=True), key=os.path.getmtime)
    libs = sorted({os.path.dirname(p) for p in glob.glob(root + '/debug/**/*.rmeta', recursive=True) if '/incremental/' not in p} | {os.path.dirname(p) for p in glob.glob(root + '/debug/**/*.so', recursive=True)})
    if not metas: cx.add('witnesses', 'undecided', 'no compiled library to check the witnesses against'); return
    ps = programs()
    d = tempfile.mkdtemp(prefix='p10-', dir=os.path.join(cx.V, 'work'))
    try:
        good, e1 = compile_(cx, [g for _, _, g, _ in ps], d + '/good.rs', metas[-1], libs)
        neg = [i for i, p in enumerate(ps) if p[1] is not None]
        bad, e2 = compile_(cx, [ps[i][1] for i in neg], d + '/bad.rs', metas[-1], libs)
    finally: shutil.rmtree(d, ignore_errors=True)
    if good is None or bad is None:
        cx.add('witnesses', 'undecided', 'the witness programs could not be compiled: ' + (e1 or e2)); return
    badof = dict(zip(neg, range(len(neg))))
    for i, (name, b, g, codes) in enumerate(ps):
        ge = good[i]
        if b is None:
            if not ge: cx.add(name, 'proved')
            elif set(ge) <= BORROW: cx.add(name, 'violated', f'the compiler rejects `{g}`: {"; ".join(ge.values())[:200]}', 'witness')
            else: cx.add(name, 'undecided', '; '.join(ge.values())[:200])
            continue
        be = bad[badof[i]]
        if set(be) & codes and not set(be) - codes: cx.add(name, 'proved')
        elif not be and not ge: cx.add(name, 'violated', f'the compiler accepts the safe program `{b}`', 'witness')
        elif not be: cx.add(name, 'violated', f'the compiler accepts the safe program `{b}`', 'witness')
        else: cx.add(name, 'undecided', 'rejected for another reason: ' + '; '.join(be.values())[:200])
    cx.extras['witness_programs'] = len(ps); cx.extras['witness_rejected'] = len(neg)

def owned(cx):
    """arrays leave a tensor with an unlimited lifetime only if they own their memory"""
    P = cx.P; tab = {**array_models(P), **clone_models(P)}
    for n in ('get_ndarray', 'into_ndarray', 'detach'):
        f = cx.anchor('Tensor::' + n, public=True)
        s = f and cx.summarise(f, tab, ob='tensor.' + n)
        if s: cx.equal(f'tensor.{n}:owns its memory', ite(s.ok, owns_of(s.ret), TRUE), TRUE, site=f.sp, notes=s.notes)
    for m in METHODS:
        f, tmap = body_of(P, m, SELF['tensor'])
        s = f and cx.summarise(f, tab, tmap=tmap, ob='tensor.' + m)
        if s: cx.equal(f'tensor.{m} (moved):owns its memory', ite(s.ok, owns_of(fld(s.ret, 'array')), TRUE), TRUE, site=f.sp, notes=s.notes)

def run(cx):
    owned(cx); witnesses(cx)
