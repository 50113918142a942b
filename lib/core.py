"""Runtime-monitoring harness: cases, monitors' verdicts, evidence.

A check module (checks/<id>.py) defines PROPERTY, RULE, ASSUMPTIONS and registers families of cases with @family.
A family function gets a `Ctx`: it draws a configuration from ctx.rng/ctx.gen, runs the real code under observation and
reports what its monitors saw (`ctx.ev`), and any deviation from the oracle (`ctx.fail`, `ctx.check`, `ctx.close`).
"""
import hashlib
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

FAMILIES = []


def family(quick, thorough, name=None):
    def deco(fn):
        FAMILIES.append(dict(name=name or fn.__name__, fn=fn, quick=quick, thorough=thorough))
        return fn
    return deco


class CaseTimeout(BaseException):
    pass


class Budget(BaseException):
    "Raised by probes: the code under test made far more field evaluations than bounded progress allows"


class Stop(Exception):
    "Ends a case after a violation that makes the rest meaningless"


class Interrupt(Exception):
    "Raised on purpose by a probe (fault injection)"


class Ctx:
    def __init__(self, pid, fam, index, seed, tier):
        import torch
        h = int(hashlib.sha256(f"{pid}/{fam}/{index}/{seed}".encode()).hexdigest()[:12], 16)
        self.pid, self.fam, self.index, self.seed, self.tier = pid, fam, index, seed, tier
        self.rng = random.Random(h)
        self.gen = torch.Generator().manual_seed(h % (2 ** 31))
        torch.manual_seed(h % (2 ** 31) + 1)
        import numpy as np
        np.random.seed(h % (2 ** 32 - 1))
        self.thorough = tier == 'thorough'
        self.events, self.violations, self.descr, self.skips = {}, [], {}, []
        self.keyparts = []
        self.evaluation = random.Random(h + 1).random() < .25
        if self.evaluation: self.desc(models='evaluation mode')

    # --- description ------------------------------------------------------------------------------------------
    def desc(self, **kw):
        for k, v in kw.items():
            self.descr[k] = v if isinstance(v, (int, float, str, bool, type(None))) else str(v)
        return self

    def key(self, *parts):
        self.keyparts.append(tuple(str(p) for p in parts))

    # --- observations -----------------------------------------------------------------------------------------
    def ev(self, name, n=1):
        if n: self.events[name] = self.events.get(name, 0) + int(n)

    def fail(self, mech, msg, stop=False):
        if len(self.violations) < 5:
            msg = str(msg)
            self.violations.append((mech, msg if len(msg) <= 2500 else msg[:500] + ' ... ' + msg[-2000:]))
        if stop: raise Stop(mech)
        return False

    def check(self, cond, mech, msg='', stop=False):
        self.ev('assertions')
        if not bool(cond):
            return self.fail(mech, msg() if callable(msg) else msg, stop)
        return True

    def close(self, a, b, tol, mech, msg='', stop=False, scale=None):
        "max |a - b| <= tol * (1 + scale), with scale = max |b| unless given; shapes must agree and `a` be finite"
        import torch
        self.ev('assertions')
        a, b = torch.as_tensor(a), torch.as_tensor(b)
        if tuple(a.shape) != tuple(b.shape):
            return self.fail(mech, f"{msg}: shape {tuple(a.shape)}, expected {tuple(b.shape)}", stop)
        if a.numel() == 0: return True
        a, b = a.detach(), b.detach()
        dt = torch.complex128 if (a.is_complex() or b.is_complex()) else torch.float64
        a, b = a.to(dt), b.to(dt)
        err = (a - b).abs().max().item()
        s = b.abs().max().item() if scale is None else float(scale)
        self.worst(mech, err / max(tol * (1 + s), 1e-300))
        if not err <= tol * (1 + s):
            return self.fail(mech, f"{msg}: deviates by {err:.3e} (allowed {tol * (1 + s):.3e}, scale {s:.3e})", stop)
        return True

    def worst(self, name, ratio):
        "largest observed deviation / allowance, to see how close a monitor is to its threshold"
        w = self.events.setdefault('_worst', {})
        if ratio != ratio: return
        w[name] = max(w.get(name, 0.), float(ratio))


def under_test(tb, root):
    "whether the exception left the code under test (a frame of the repository is on its stack)"
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(root): return True
        tb = tb.tb_next
    return False


AMBIENT = dict(eval=False, patched=False)


def evaluation_mode(on):
    "models of the library built from now on are put in evaluation mode (by their users, as it were): nothing specified depends on it"
    AMBIENT['eval'] = on
    if AMBIENT['patched']: return
    AMBIENT['patched'] = True
    import functools
    import torch.nn as nn
    import torchdyn.core, torchdyn.models, torchdyn.nn, torchdyn.numerics
    classes = {c for n, m in list(sys.modules.items()) if n.split('.')[0] == 'torchdyn' and m is not None
               for c in vars(m).values() if isinstance(c, type) and issubclass(c, nn.Module) and c.__module__.split('.')[0] == 'torchdyn' and '__init__' in vars(c)}

    def wrap(init):
        @functools.wraps(init)
        def __init__(self, *a, **k):
            init(self, *a, **k)
            if AMBIENT['eval']: self.eval()
        return __init__
    for c in classes: c.__init__ = wrap(c.__init__)


def run_case(pid, fam, index, seed, tier, limit=120):
    import torch
    root = os.environ['TORCHDYN_REPO'].rstrip('/') + '/torchdyn/'
    ctx = Ctx(pid, fam['name'], index, seed, tier)
    torch.set_grad_enabled(True)
    torch.set_default_dtype(torch.float32)
    evaluation_mode(ctx.evaluation)
    status, t0, c0 = 'ok', time.time(), time.process_time()

    def on_alarm(*_): raise CaseTimeout()
    limits = resource.getrlimit(resource.RLIMIT_DATA)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fam['fn'](ctx)
    except Stop:
        pass
    except CaseTimeout:
        # a case takes a few seconds at most: minutes of computing are a solve that makes no progress; without them the machine stalled
        if time.process_time() - c0 > limit / 2: ctx.fail('no_progress', f"the case did not finish in {limit} s")
        else: status = 'timeout'
    except Budget as e:
        ctx.fail('no_progress', f"the solve did not finish within its evaluation budget: {e}")
    except Exception as e:
        resource.setrlimit(resource.RLIMIT_DATA, (resource.getrlimit(resource.RLIMIT_DATA)[1],) * 2)  # the case may have reached its limit
        txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
        if under_test(e.__traceback__, root):
            ctx.fail('exception', f"{type(e).__name__} on a valid call: {txt}")
        elif isinstance(e, (OSError, MemoryError, ImportError)):
            status = 'harness: ' + txt
        else:
            # the monitors cope with everything a solve is documented to return: what they cannot even read is a deviation
            ctx.fail('unreadable', f"{type(e).__name__} while reading the result: {txt}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        resource.setrlimit(resource.RLIMIT_DATA, limits)
    torch.set_grad_enabled(True)
    return dict(family=fam['name'], index=index, status=status, events=ctx.events, violations=ctx.violations,
                descr=ctx.descr, key=repr(ctx.keyparts) if ctx.keyparts else None, secs=time.time() - t0)
