"""Runs the cases of one property, prints verdicts, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

from . import loader

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known(pid):
    """Lines 'known: property=<id> key=<case>:<label> :: text'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def _child(modname, tier, idx, seed, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass
    try:
        import threading
        threading.stack_size(512 << 20)
        out = {}

        def go():
            try:
                mod = importlib.import_module(modname)
                case = mod.cases(tier)[idx]
                case.known = frozenset(k[len(case.name) + 1:] for k, _ in known(modname.split('.')[-1].upper()) if k.startswith(case.name + ':'))
                if hasattr(case, 'run'):
                    out['r'] = case.run(seed)
                else:
                    from . import explore
                    out['r'] = explore.run_case(case, seed)
            except BaseException as e:      # noqa
                out['r'] = {'case': f'#{idx}', 'crash': f'{type(e).__name__}: {e}', 'tb': traceback.format_exc()}
        t = threading.Thread(target=go)
        t.start()
        t.join()
        q.put((idx, out['r']))
    except BaseException as e:      # noqa
        q.put((idx, {'case': f'#{idx}', 'crash': repr(e), 'tb': ''}))


def run(pid, tier, jobs=8, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    modname = f'checks.{pid.lower()}'
    mod = importlib.import_module(modname)
    cases = mod.cases(tier)
    sel = [i for i, c in enumerate(cases) if only is None or only in c.name]
    budget = getattr(mod, 'BUDGET', {'quick': 420, 'thorough': 3000})[tier]
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pending, running, results = list(sel), {}, {}
    while pending or running:
        while pending and len(running) < jobs and time.time() - t0 < budget:
            i = pending.pop(0)
            p = ctx.Process(target=_child, args=(modname, tier, i, seed, q))
            p.start()
            running[i] = (p, time.time())
        if not running:
            break
        try:
            i, r = q.get(timeout=1)
            results[i] = r
            p, _ = running.pop(i)
            p.join(5)
            if p.is_alive():
                p.kill()
            if verbose:
                brief(r)
            continue
        except Exception:
            pass
        for i, (p, ts) in list(running.items()):
            lim = getattr(cases[i], 'seconds', 120) * 1.6 + 40
            if not p.is_alive() and q.empty():
                time.sleep(.3)
                if q.empty():
                    results[i] = {'case': cases[i].name, 'crash': f'process ended with code {p.exitcode}', 'tb': ''}
                    running.pop(i)
            elif time.time() - ts > lim or time.time() - t0 > budget + 60:
                p.kill()
                results[i] = {'case': cases[i].name, 'crash': 'time limit of the case', 'tb': ''}
                running.pop(i)
    for i in pending:
        results[i] = {'case': cases[i].name, 'crash': 'not started: budget of the check used up', 'tb': ''}
    return finish(pid, tier, seed, mod, [results[i] for i in sorted(results)], time.time() - t0)


def brief(r):
    if 'crash' in r:
        print(f"  {r['case']}: CRASH {r['crash']}\n{r['tb'][-2500:]}")
        return
    print(f"  {r['case']}: paths {r['paths']} proved {r['proved']} open {len(r['open'])} viol {len(r['violations'])} "
          f"unsup {r['unsupported']} gaps {len(r['gaps'])} replays {r['replays']} q {r['queries']} {r['solver_s']:.1f}s wall {r['wall']:.1f}s complete {r['complete']}")
    for o in r['open'][:5]:
        print('     open:', o)
    for v in r['violations'][:3]:
        print('     VIOL:', v['label'], v['detail'][:400], {k: x for k, x in list(v['input'].items())[:12]})
    for n in r['notes'][:4]:
        print('     note:', n[:400])
    for n in r['gaps'][:3]:
        print('     gap:', n[:400])


def finish(pid, tier, seed, mod, results, wall):
    viol, kn, inconcl = [], [], []
    kl = known(pid)
    for r in results:
        if 'crash' in r:
            inconcl.append(f"{r['case']}: {r['crash']}")
            continue
        for v in r['violations']:
            key = f"{r['case']}:{v['label']}"
            hit = [t for k, t in kl if k == key]
            if hit:
                kn.append((key, hit[0]))
            else:
                viol.append((r['case'], v))
        for o in r['open']:
            inconcl.append(f"{r['case']}: undecided: {o}")
        for g in sorted(set(r['gaps'])):
            inconcl.append(f"{r['case']}: not driven: {g}")
        if r['unsupported']:
            inconcl.append(f"{r['case']}: {r['unsupported']} path(s) not encodable, covered by replays of solver models only")
        if not r['complete']:
            inconcl.append(f"{r['case']}: exploration incomplete")
        if not r['proved'] and not r['violations']:
            inconcl.append(f"{r['case']}: no claim was reached")
    ok = [r for r in results if 'crash' not in r]
    paths = sum(r['paths'] for r in ok)
    proved = sum(r['proved'] for r in ok)
    nopen = sum(len(r['open']) for r in ok)
    queries = sum(r['queries'] for r in ok)
    sols = sum(r['solver_s'] for r in ok)
    obl = sum(r.get('obligations', 0) for r in ok)
    funcs = sorted({f for r in ok for f in r['functions']})
    branches = sum(r.get('branches', 0) for r in ok)
    reps = sum(r['replays'] for r in ok)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'bounded'),
        'coverage': {
            'explanation': (f"Symbolic execution of the current sources: {len(ok)} harness cases, {paths} paths, {proved} elementary claims decided by z3 for all "
                            f"values within the bounds ({obl} obligations, {queries} queries, {sols:.1f} s solver time); {nopen} claims left undecided; "
                            f"{reps} solver models replayed on the real code."),
            'counting': 'states: symbolic paths run to the end; transitions: symbolic branch decisions taken plus claims decided',
            'states': paths, 'transitions': branches + proved, 'traces_validated_against_impl': reps,
            'claims_decided': proved, 'claims_undecided': nopen, 'smt_queries': queries, 'solver_seconds': round(sols, 2),
            'samples': [s for s in [r.get('sample') for r in ok] if s][:8] or ['none'],
            'trusted_base': ['z3 5.3', 'vlib/ symbolic interpreter (validated by replaying solver models on the real code)'],
            'functions_encoded': funcs,
            'cases': [{'case': r['case'], 'bounds': r.get('bounds', ''), 'paths': r['paths'], 'claims_proved': r['proved'], 'queries': r['queries'],
                       'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall'], 2)} for r in ok],
            'inconclusive': inconcl[:60],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(viol),
        'violation_details': [{'case': c, 'claim': v['label'], 'input': v['exact'], 'detail': v['detail']} for c, v in viol],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for k, t in kn:
        print(f'KNOWN-FINDING: property={pid} {t}')
    print(f'{pid} {tier}: {len(ok)} cases, {paths} paths, {proved} claims proved, {nopen} undecided, {queries} queries, {sols:.1f}s solver, {wall:.1f}s wall')
    for x in inconcl[:20]:
        print(f'INCONCLUSIVE: {x}')
    if viol:
        rep = os.path.join(HERE, 'evidence', f'{pid}.replay.json')
        with open(rep, 'w') as fh:
            json.dump([{'property': pid, 'case': c, **v} for c, v in viol], fh, indent=1, default=str)
        for c, v in viol[:5]:
            print(f"  {c}: {v['label']}: {v['detail'][:300]}")
            print(f"    input: {json.dumps(v['input'], default=str)[:600]}")
        print(f'VIOLATION property={pid} replay={rep}')
        return 1
    return 0
