"""Monitor of the step interface: an instance's `step` is wrapped, every call and its result is logged."""
import inspect
import torch
from lib.core import Budget


class StepLog:
    def __init__(self, solver, budget=4000):
        self.solver, self.ev, self.budget = solver, [], budget
        orig = solver.step
        sig = inspect.signature(orig)

        def step(*a, **k):
            if len(self.ev) >= self.budget: raise Budget(f"more than {self.budget} steps")
            b = sig.bind(*a, **k).arguments
            out = orig(*a, **k)
            e = dict(f=b['f'], x=b['x'], t=b['t'], dt=b['dt'], k1=b.get('k1'), args=b.get('args'), x_new=out[1])
            e['f_new'] = out[0]
            e['err'] = out[2]
            e['stages'] = out[3] if len(out) > 3 else None
            for n in ('x', 't', 'dt', 'x_new', 'err', 'f_new'):
                if isinstance(e[n], torch.Tensor): e[n] = e[n].detach().clone()
            self.ev.append(e)
            return out
        solver.step = step


def ratio(e, atol, rtol, seminorm=None):
    "root-mean-square of the scaled error estimate of a logged step"
    x, y, err = e['x'], e['x_new'], e['err']
    if seminorm is not None: x, y, err = x[:seminorm], y[:seminorm], err[:seminorm]
    s = err / (atol + rtol * torch.maximum(x.abs(), y.abs()))
    return (s.abs() ** 2).mean().sqrt().item()
