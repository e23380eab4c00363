#!/usr/bin/env python3
"""check.py <PROPERTY> : analyse /repo's current source and decide one property.
exit 0: every obligation holds (known findings excepted); exit 1: VIOLATION lines; exit 2: the check itself failed."""
import sys, os, json, time, subprocess, importlib, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'analysis'))
sys.setrecursionlimit(100000)
import threading, resource
resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))   # of this process only; what does not fit is undecided
threading.stack_size(512 * 1024 * 1024)

def main():
    pid = sys.argv[1]
    repo = os.environ.get('VERIF_REPO', '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = os.path.join(V, 'work'); os.makedirs(work, exist_ok=True)
    from props import PROPS
    spec = PROPS[pid]
    pre = os.environ.get('VERIF_MIR')
    out = pre or os.path.join(work, f'{pid}.mir.json')
    if not pre:
        r = subprocess.run(['bash', os.path.join(V, 'dump.sh'), out, repo], stdout=sys.stderr)
        if r.returncode != 0:
            print(f'check {pid}: could not compile {repo} for analysis', file=sys.stderr); return 2
    from core import Ctx, Program
    P = Program(out)
    if not pre: os.remove(out)
    cx = Ctx(P, pid, tier); cx.repo = repo; cx.V = V
    mod = importlib.import_module(spec['module'])
    from core import isolate
    isolate(mod)
    def analysis():
        try: getattr(mod, spec.get('entry', 'run'))(cx)
        except Exception as x:
            import traceback; traceback.print_exc()
            cx.add('analysis', 'undecided', f'analysis stopped: {type(x).__name__}: {x}')
    th = threading.Thread(target=analysis, daemon=True); th.start(); th.join(float(os.environ.get('VERIF_LIMIT', 780)))
    if th.is_alive(): cx.add('analysis', 'undecided', 'time limit reached: the remaining obligations were not examined')
    cx.results = list(cx.results); cx.fns = set(cx.fns)
    known = load_known(V, pid)
    viol, kf = [], []
    for r in cx.results:
        if r.status == 'violated': (kf if r.key in known else viol).append(r)
    proved = [r for r in cx.results if r.status == 'proved']
    und = [r for r in cx.results if r.status == 'undecided']
    floor = (spec.get('floor', 1) + 1) // 2      # half of what the source had when the check was written
    # an undecided summary stands for all obligations of its function: the count says nothing then
    if not viol and not und and len(cx.results) < floor:
        class A: pass
        a = A(); a.ob = a.key = 'anchor:obligations'; a.site = ''; a.status = 'violated'
        a.detail = f'only {len(cx.results)} obligations were found in the source, at least {floor} expected: code this property is about has disappeared'
        viol.append(a)
    for r in kf: print(f'KNOWN-FINDING: property={pid} {r.key}: {known[r.key]}')
    seen = {}
    for r in viol:
        if r.ob in seen: continue
        seen[r.ob] = 1
    rep = os.path.join(V, 'evidence', f'{pid}.report.txt')
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, 'w') as f:
        f.write(f'property {pid}: {len(viol)} violation(s), {len(proved)} obligations discharged, {len(und)} undecided\n')
        for r in viol: f.write(f'\nVIOLATED {r.ob}\n  key:  {r.key}\n  site: {r.site}\n  {r.detail}\n')
        for r in und: f.write(f'\nundecided {r.ob}\n  site: {r.site}\n  {r.detail}\n')
        for r in kf: f.write(f'\nknown finding {r.key}\n  site: {r.site}\n  {r.detail}\n')
    cov = dict(obligations=len(cx.results), discharged=len(proved), undecided=len(und), known_findings=len(kf),
               functions_analysed=len(cx.fns), leaf_comparisons=cx.leaves,
               checker_cmd=f'python3 check.py {pid}', trusted_base=['rustc nightly MIR construction', 'analysis/*.py (value-graph domain, std models)'] + spec.get('trusted', []),
               rule=spec['rule'], samples=[{'obligation': r.ob, 'site': r.site} for r in proved[:6]],
               explanation=spec['rule'], analysed=sorted(cx.fns)[:400], undecided_list=[r.ob for r in und][:50])
    cov.update(cx.extras)
    ev = dict(property=pid, tier=tier, seed=seed, level=spec['level'], coverage=cov, assumptions=spec.get('assume', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(V, 'evidence', f'{pid}.json'), 'w') as f: json.dump(ev, f, indent=1)
    print(f'{pid}: {len(cx.results)} obligations, {len(proved)} discharged, {len(und)} undecided, {len(kf)} known, {len(viol)} violated; '
          f'{len(cx.fns)} functions analysed in {time.time()-t0:.1f}s')
    for r in und[:5]: print(f'  undecided: {r.ob}: {r.detail[:200]}')
    if viol:
        for r in viol[:20]:
            print(f'VIOLATION property={pid} replay={rep} {r.ob} at {r.site}: {r.detail[:300]}')
        return 1
    return 0

def load_known(V, pid):
    out = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f'finding: property={pid} key='):
                rest = l.split('key=', 1)[1]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out

if __name__ == '__main__':
    rc = [2]
    def go():
        try: rc[0] = main()
        except SystemExit: raise
        except Exception:
            import traceback; traceback.print_exc(); rc[0] = 2
    th = threading.Thread(target=go); th.start(); th.join()
    sys.stdout.flush()
    os._exit(rc[0])
