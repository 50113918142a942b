"""Writes known_findings.json: the findings are listed here, the fixed entries are resolved against /repo's log by subject"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
M = [  # (substring of the commit subject, properties)
 ('rk4 stage times', 'C02 C05'), ('odeint on reversed spans', 'C06 C01'), ('save_at was compared', 'C08'),
 ('adaptive odeint dropped the final row', 'C01'), ('odeint_hybrid skipped', 'C19'), ('odeint_hybrid bisection', 'C19'),
 ('odeint_hybrid did not count', 'C19'), ('adjoint methods crashed on unused', 'C10 C11'), ('adjoint t_span gradient', 'C14'),
 ('interpolated adjoint returned rows', 'C11'), ('MultipleShootingProblem adjoints', 'C18 C10'), ('multiple shooting solvers indexed', 'C18'),
 ('MSBackward indexed', 'C18'), ('integral losses on higher-order', 'C13 C16'), ('vector fields with the documented signature', 'C15'),
 ('ConservativeLinearSNF', 'C22'), ('RBF bases ignored', 'C23'), ('Galerkin layers with bias=False', 'C23'),
 ('concentric spheres', 'C26'), ('gaussian datasets', 'C26'), ('NeuralSDE.trajectory', 'C20'), ('Milstein solvers accepted', 'C20'),
 ('NeuralSDE without an explicit', 'C20'), ('problems and Neural ODEs could not be deepcopied', 'C29'),
 ('adjoint problems passed save_at', 'C08'), ('odeint_symplectic on reversed', 'C28'), ('odeint_mshooting with user-given B0', 'C18'),
 ('implicit Euler evaluated', 'C02'), ('step size controller turned', 'C03')]
try:
    extra = json.load(open(H + '/tools/fixes_extra.json'))
except FileNotFoundError:
    extra = []
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()]
fixed = []
for h, s in log:
    if not s.startswith('fix:'): continue
    m = [p for k, p in M + [tuple(e) for e in extra] if k in s]
    assert len(m) == 1, (h, s, m)
    for p in m[0].split(): fixed.append(f"fixed: property={p} {h} {s[5:]}")
FINDINGS += json.load(open(H + '/tools/findings.json')) if os.path.exists(H + '/tools/findings.json') else []
json.dump(dict(findings=FINDINGS, fixed=fixed), open(H + '/known_findings.json', 'w'), indent=1)
print(len(FINDINGS), 'findings', len(fixed), 'fixed')
