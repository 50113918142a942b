"""Runner: python -m lib.run <property> [quick|thorough] [--replay FILE] [--family NAME] [--n N] [-v]"""
import argparse
import concurrent.futures as cf
import importlib
import io
import contextlib
import json
import multiprocessing as mp
import os
import resource
import random
import sys
import time

REPO = os.environ.setdefault('TORCHDYN_REPO', '/repo')
sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from lib import core  # noqa: E402


def load(pid):
    import torch
    torch.set_num_threads(1)
    with contextlib.redirect_stdout(io.StringIO()):
        import torchdyn
        import torchdyn.numerics, torchdyn.core, torchdyn.models, torchdyn.nn, torchdyn.datasets  # noqa
    got = os.path.abspath(torchdyn.__file__)
    if not got.startswith(os.path.abspath(REPO) + '/'):
        print(f"ERROR torchdyn imported from {got}, not from {REPO}")
        sys.exit(2)
    return importlib.import_module(f"checks.{pid}")


def work(job):
    pid, fi, index, seed, tier = job
    with contextlib.redirect_stdout(io.StringIO()):
        return core.run_case(pid, core.FAMILIES[fi], index, seed, tier)


def limit_memory():
    "a case that needs gigabytes fails by itself instead of taking the machine down (cases need less than one)"
    resource.setrlimit(resource.RLIMIT_DATA, (7 << 29, resource.getrlimit(resource.RLIMIT_DATA)[1]))


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return {}
    return {e['mechanism']: e['what'] for e in json.load(open(p))['findings'] if e['property'] == pid}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--n', type=int)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    budget = float(os.environ.get('VERIF_BUDGET') or (240 if tier == 'quick' else 700))
    t0 = time.time()
    mod = load(a.pid)
    names = [f['name'] for f in core.FAMILIES]
    if a.replay:
        r = json.load(open(a.replay))
        res = work((a.pid, names.index(r['family']), r['index'], r['seed'], r['tier']))
        print(json.dumps(res, indent=1, default=str))
        for m, msg in res['violations']: print(f"VIOLATION property={a.pid} replay={a.replay}")
        sys.exit(1 if res['violations'] else 0)

    # interleave families proportionally, so that a budget stop leaves every family covered
    jobs = []
    for fi, f in enumerate(core.FAMILIES):
        if a.family and f['name'] != a.family: continue
        n = a.n or f[tier]
        jobs += [((i + 0.5) / n, fi, i) for i in range(n)]
    jobs.sort()
    jobs = [(a.pid, fi, i, seed, tier) for _, fi, i in jobs]
    results, known, stopped = [], known_findings(a.pid), None
    nviol = 0
    ctxm = mp.get_context('fork')
    pool = lambda n: cf.ProcessPoolExecutor(n, mp_context=ctxm, initializer=limit_memory)
    broken, died = None, []

    def add(r):
        nonlocal nviol
        results.append(r)
        nviol += bool([1 for m, _ in r['violations'] if m not in known])

    def alone(job):
        "a case that was running when a worker died, in a process of its own"
        try:
            with pool(1) as one: return one.submit(work, job).result()
        except cf.process.BrokenProcessPool: return None

    todo, done_feeding = iter(jobs), False
    while not done_feeding:
        ex, pending = pool(a.jobs), {}
        try:
            while True:
                while not done_feeding and len(pending) < 3 * a.jobs:
                    j = next(todo, None)
                    if j is None or time.time() - t0 > budget or nviol >= 8 or len(died) >= 4:
                        done_feeding = True
                        if j is not None: stopped = 'violations' if nviol >= 8 else 'budget' if time.time() - t0 > budget else 'deaths'
                        break
                    pending[ex.submit(work, j)] = j
                if not pending: break
                for d in cf.wait(pending, return_when=cf.FIRST_COMPLETED)[0]:
                    add(d.result())
                    del pending[d]
        except cf.process.BrokenProcessPool as e:
            ex.shutdown(wait=False, cancel_futures=True)
            fatal = 0
            for f, job in pending.items():
                r = f.result() if f.done() and f.exception() is None else alone(job)
                if r is None and fatal < 3 and alone(job) is None:
                    # dies by itself, twice: not an accident of the machine
                    fatal += 1
                    r = dict(family=core.FAMILIES[job[1]]['name'], index=job[2], status='ok', events={}, descr={}, key=None, secs=0.,
                             violations=[('crash', 'the process running this case alone ends abnormally (killed, out of memory or crashed), twice')])
                if r is not None: add(r)
                if nviol >= 8 or fatal >= 3: break
            died.append(str(e))
            if not fatal: broken = str(e) if len(died) >= 4 else None
        finally:
            ex.shutdown(wait=not died, cancel_futures=True)

    # ---- verdict ----------------------------------------------------------------------------------------------
    os.makedirs(os.path.join(os.environ.get('VERIF_OUT') or os.path.join(HERE, 'evidence'), 'replay'), exist_ok=True)
    events, worst, keys, per_family, per_nontriv = {}, {}, set(), {}, {}
    out, known_seen, errors = [], {}, []
    results.sort(key=lambda r: (names.index(r['family']), r['index']))
    for r in results:
        per_family[r['family']] = per_family.get(r['family'], 0) + 1
        for k, v in r['events'].items():
            if k == '_worst':
                for kk, vv in v.items(): worst[kk] = max(worst.get(kk, 0.), vv)
            else: events[k] = events.get(k, 0) + v
        if r['key'] and r['events'].get('assertions', 0) > 0:
            keys.add((r['family'], r['key']))
            per_nontriv[r['family']] = per_nontriv.get(r['family'], 0) + 1
        if r['status'] == 'timeout': errors.append(f"case {r['family']}/{r['index']} timed out")
        elif r['status'] != 'ok': errors.append(f"case {r['family']}/{r['index']}: {r['status']}")
        for m, msg in r['violations']:
            if m in known: known_seen.setdefault(m, msg)
            else: out.append((r, m, msg))
    if broken: errors.append(f"worker died: {broken}")
    for fi, f in enumerate(core.FAMILIES):
        if a.family and f['name'] != a.family: continue
        if not per_nontriv.get(f['name']): errors.append(f"family {f['name']}: its monitor was never reached")

    seen = set()
    for r, m, msg in out:
        path = os.path.join(os.environ.get('VERIF_OUT') or os.path.join(HERE, 'evidence'), 'replay', f"{a.pid}-{r['family']}-{r['index']}-{seed}-{tier}.json")
        if path not in seen:
            with open(path, 'w') as fh:
                json.dump(dict(property=a.pid, family=r['family'], index=r['index'], seed=seed, tier=tier,
                               descr=r['descr'], violations=r['violations']), fh, indent=1)
        if (path, m) not in seen and len(seen) < 16:
            print(f"VIOLATION property={a.pid} replay={path}")
            print(f"  {r['family']}/{r['index']} [{m}] {r['descr']}\n  {msg if a.v else msg[:120] + ' ... ' + msg[-330:] if len(msg) > 460 else msg}")
        seen |= {path, (path, m)}
    for m in sorted(known_seen):
        print(f"KNOWN-FINDING: property={a.pid} {known[m]}")
    samples, taken = [], {}
    for r in results:
        if r['key'] and taken.get(r['family'], 0) < 2:
            taken[r['family']] = taken.get(r['family'], 0) + 1
            samples.append(dict(family=r['family'], index=r['index'], case=r['descr'],
                                observed={k: v for k, v in r['events'].items() if k != '_worst'}))
    wall = time.time() - t0
    ev = dict(property=a.pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
                            cases_per_family=per_family, observed_events=events,
                            worst_deviation_over_allowance={k: round(v, 6) for k, v in sorted(worst.items())},
                            stopped_early=stopped, inconclusive=errors[:20]),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2),
              violations=len({(r['family'], r['index']) for r, _, _ in out}))
    with open(os.path.join(os.environ.get('VERIF_OUT') or os.path.join(HERE, 'evidence'), f"{a.pid}.json"), 'w') as fh:
        json.dump(ev, fh, indent=1)
    slow = max(((r.get("secs") or 0, f"{r['family']}/{r['index']}") for r in results), default=(0, "-")); slow = f"{slow[1]} {slow[0]:.1f}s"
    print(f"{a.pid} {tier} seed={seed}: {len(results)} cases, {len(keys)} distinct non-trivial, "
          f"{events.get('assertions', 0)} oracle comparisons, {len(out)} violations, {len(errors)} inconclusive, {wall:.1f}s, slowest case {slow}")
    if a.v:
        print(per_family, events)
        for k, v in sorted(worst.items(), key=lambda kv: -kv[1]): print(f"   worst {k}: {v:.3g}")
        slow = sorted(results, key=lambda r: -r['secs'])[:5]
        print('   slowest', [(r['family'], r['index'], round(r['secs'], 2)) for r in slow],
              'cpu', round(sum(r['secs'] for r in results), 1))
    if out: sys.exit(1)
    if errors:
        for e in errors[:10]: print("INCONCLUSIVE", e)
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
