"""Plants bugs: `plant.py SPECS.py [ids...]`. SPECS.py defines B = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
For each: scratch copy of /repo, edit, patch, stable tests, demonstration with and without, original lines only, then the property's quick check.
Kept under seeded/<id>/ when valid (whether or not the check catches it)."""
import json, os, shutil, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='4', MKL_NUM_THREADS='4', CUDA_VISIBLE_DEVICES='')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None
DEMO = '#!/bin/bash\n# exit 0: behaviour as stated; nonzero: broken\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=ENV, t=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e: return 124, 'timeout'


def one(b):
    S = f"/tmp/pl/{b['id']}"
    subprocess.run(['rm', '-rf', S]); os.makedirs('/tmp/pl', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', S], check=True)
    try:
        base = {}
        for f, old, new in b['edits']:
            p = f'{S}/{f}'
            s = open(p).read()
            if s.count(old) != 1: return b['id'], f'edit matches {s.count(old)} times: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.run(['git', 'diff'], cwd=S, stdout=subprocess.PIPE, text=True).stdout
        orig = {l.strip() for f, _, _ in b['edits'] for l in sh(['git', 'show', f'0de9f31:{f}'], S)[1].splitlines()}
        gone = [l[1:] for l in patch.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
        if not any(l.strip() in orig for l in gone): return b['id'], f'changes no original line: {gone}'
        d = f"{H}/seeded/{b['id']}"
        demo = f'/tmp/pl/{b["id"]}.demo'
        os.makedirs(demo, exist_ok=True)
        open(demo + '/demo.py', 'w').write(b['demo'].lstrip() if 'sys.path' in b['demo'] else "import sys, os; sys.path.insert(0, os.getcwd())\n" + b['demo'].lstrip('\n'))
        open(demo + '/demo.sh', 'w').write(DEMO)
        r0, o0 = sh(['bash', demo + '/demo.sh'], '/repo', t=300)
        r1, o1 = sh(['bash', demo + '/demo.sh'], S, t=300)
        if r0: return b['id'], f'demo fails on the unchanged tree:\n{o0[-1500:]}'
        if not r1: return b['id'], 'demo passes with the change'
        if os.environ.get('DEMO_ONLY'): return b['id'], 'demo ok'
        rc, out = sh(f'{PY} -m pytest test -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors 2>&1 | tail -15', S)
        tail = out.strip().splitlines()[-1] if out.strip() else ''
        if ' failed' in tail or '53 passed' not in tail: return b['id'], f'tests: {out[-600:]}'
        os.makedirs(d, exist_ok=True)
        for n in ('demo.py', 'demo.sh'): shutil.copy(f'{demo}/{n}', d)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        return b['id'], detect(b['id'], b['prop'], S)
    finally:
        subprocess.run(['rm', '-rf', S, f'/tmp/pl/{b["id"]}.demo'])


def detect(i, prop, S):
    rc, out = sh([f'{H}/run.sh', prop, 'quick'], H, dict(ENV, TORCHDYN_REPO=S, VERIF_SEED='1', VERIF_OUT=f'/tmp/pl/ev/{i}'))
    lines = [l for l in out.splitlines() if l.startswith('  ') or l.startswith(prop)]
    return f"rc={rc} {'CAUGHT' if rc == 1 and f'VIOLATION property={prop}' in out else 'MISSED'} | " + ' '.join(lines[:1])[:150] + ' | ' + (lines[-1] if lines else out[-300:])[-120:]


if __name__ == '__main__':
    B = runpy.run_path(sys.argv[1])['B']
    B = [b for b in B if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("PAR", 3))) as ex:
        for i, r in ex.map(one, B): print(i, '->', r, flush=True)
