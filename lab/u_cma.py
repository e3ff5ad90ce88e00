"""P27: the bundled CMA-ES optimizer under stops, pauses, injections, checkpoints, restarts and failures at any moment."""
import math
import random

import coop

TAG = 'P27'
FORK = False
coop.install()
SPEC = {900000: float('inf')}
QUIET = dict(tolflatfitness=10 ** 6, tolfun=-1, tolfunhist=-1, tolfunrel=-1, tolx=0, tolfacupx=1e300, tolstagnation=10 ** 6,
             tolconditioncov=1e300)


def gen(seed):
    r = random.Random(f'cma{seed}')
    dims = r.randint(2, 4)   # the cma package does not support one dimension
    # bounds within which the coordinate transformation of the cma package is the identity around the centre
    bounds = [r.choice([[-5, 5], [0, 10], [-900, 900], [0, 800], [1, 3]]) for _ in range(dims)]
    gens = r.choice([1, 2, 2, 3, 4, 5])
    workers = r.choice([1, 1, 1, 1, 2, 4])
    pop = r.choice([0, 0, 3, 4, 6])
    npop = pop or (workers if workers > 1 else 4 + int(3 * math.log(dims)))
    if npop < 3:
        pop = npop = 3
    evals = gens * npop
    style = r.choice(['quiet', 'busy', 'busy', 'ckpt', 'ckpt', 'ckpt'])
    solo = int(r.random() < .12)
    freq = r.choice([-1, 0, 1, 1, 2])
    script = {}
    for k in range(1, evals + 1):
        acts = []
        if style != 'quiet' and r.random() < 1.5 / npop:
            for _ in range(r.randint(1, 2)):
                z = r.random()
                if style == 'ckpt' and z < .5:
                    if r.random() < .5:
                        acts += [['save']]
                    else:
                        acts += [['prep']] + [r.choice([['junk'], ['inject']])] * r.randint(0, 1) + \
                            ([['stop']] if r.random() < .1 else []) + [r.choice([['save'], ['save'], ['pass']])]
                elif z < .75:
                    acts.append(['inject'])
                elif z < .8:
                    acts.append(['junk'])
                elif z < .93:
                    acts.append(['pause'])
                elif z < .98:
                    acts.append(['stop'])
        if acts and not solo:
            script[str(k)] = acts
    ends = sorted(r.randint(1, evals + 1) for _ in range(r.randint(0, 3))) if style == 'ckpt' else []
    bad = r.random()
    vals = [900000 if bad < .12 or r.random() < .08 else r.randint(-6, 60) for _ in range(90)]
    return dict(bounds=bounds, x0=[r.uniform(lo + .2 * (hi - lo), hi - .2 * (hi - lo)) for lo, hi in bounds], gens=gens, workers=workers,
                pop=pop, npop=npop, script=script, ends=ends, vals=vals, solo=solo, freq=freq, force=int(r.random() < .8),
                conv=int(r.random() < .1), verbose=int(r.random() < .3), twice=int(r.random() < .3), cb=r.choice([0, 0, 0, 0, 1, 2]),
                fail=r.choice([0] * 8 + [1, 2, 4]), seed=1 + seed % 1000)


class Lost(BaseException):
    """ The session ends without the optimizer's doing. """


def run(case, scratch, ev):
    import contextlib
    import io
    import logging
    import os
    import threading
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    from glompo.core._backends import ChunkingQueue
    from glompo.optimizers.cmawrapper import CMAOptimizer
    np.random.seed(case['seed'])
    bounds = [tuple(map(float, b)) for b in case['bounds']]
    seen, saved, injected = [], [], []
    ends = list(case['ends'])
    st = dict(k=0, calls=0)
    lock = threading.RLock()

    class Pipe:
        def __init__(self):
            self.q = []

        def poll(self, timeout=0.0):
            if not self.q and timeout is None:
                ev('starve')
                raise Lost
            return bool(self.q)

        def recv(self):
            with lock:
                tag, msg = self.q.pop(0)
                ev('recv', m=tag, n=injected.index(tuple(msg[1])) + 1 if tag == 'inject' else 0, v=int(msg[2]) if tag == 'inject' else 0)
            return msg

        def send(self, m):
            with lock:
                ev('sent', key=m[0])

    class Flag:
        up = True

        def clear(self):
            self.up = False

        def set(self):
            self.up = True

        def is_set(self):
            return self.up

        def wait(self, timeout=None):
            with lock:
                if not self.up:
                    ev('held')
                    self.up = True
            return True

    class Queue(ChunkingQueue):
        def put(self, item, block=True, timeout=None):
            if isinstance(item, int):
                with lock:
                    ev('bye')
            super().put(item, block, timeout)

    def same(a, b):
        return len(a) == len(b) and all(abs(float(p) - float(q)) <= 1e-6 * (hi - lo) for p, q, (lo, hi) in zip(a, b, bounds))

    def task(x):
        with lock:
            st['k'] += 1
            k = st['k']
            if case['fail'] == k and not ends:
                raise ValueError('the task fails')
            if ends and ends[0] == k and not case['solo']:
                ends.pop(0)
                raise Lost
            seen.append(np.array(x, copy=True))
            if case['conv']:
                v = int(1000 * sum(((float(c) - lo) / (hi - lo) - .4) ** 2 for c, (lo, hi) in zip(x, bounds)))
            else:
                v = case['vals'][len(seen) % len(case['vals'])]
            inb = int(len(x) == len(bounds) and all(lo <= float(c) <= hi for c, (lo, hi) in zip(x, bounds)))
            inj = [j + 1 for j, y in enumerate(injected) if same(x, y)] + ([1000] if same(x, case['x0']) else [])
            ev('eval', n=len(seen), v=v, inb=inb, inj=inj)
            for a in case['script'].get(str(k), []):
                if a[0] == 'pause':
                    ev('pause')
                    st['flag'].clear()
                elif a[0] == 'save':
                    p = f'{scratch}/opt{len(seen)}_{len(st["pipe"].q)}'
                    st['pipe'].q.append(('save', (0, p)))
                    saved.append(p)
                elif a[0] == 'inject':
                    y = tuple(lo + (hi - lo) * (.31 + .017 * len(injected)) for lo, hi in bounds)
                    injected.append(y)
                    st['pipe'].q.append(('inject', (4, list(y), -10.0 if len(injected) % 3 else 30.0)))
                else:
                    st['pipe'].q.append((a[0], {'stop': 1, 'prep': 2, 'pass': 3, 'junk': 'junk'}[a[0]]))
            return float(SPEC.get(v, v))

    def callback():
        st['calls'] += 1
        hit = case['cb'] == st['calls']
        with lock:
            ev('gen')
        if hit:
            ev('cb')
        return hit

    opts = dict(workers=case['workers'], backend='threads')
    sets = dict(seed=case['seed'], **(dict(tolfun=1.0) if case['conv'] else QUIET))
    if case['pop']:
        sets['popsize'] = case['pop']
    if not case['conv'] or case['seed'] % 2:
        sets['maxiter'] = case['gens']
    opt = None
    for session in range(5):
        st['pipe'], st['flag'], queue = Pipe(), Flag(), Queue()
        kw = dict(_opt_id=7, _signal_pipe=st['pipe'], _results_queue=queue, _pause_flag=st['flag'], **opts)
        if case['solo']:
            kw = opts
        again = session and case['twice'] and case['solo']
        if again:
            ev('new', n=0)
            st['calls'] = 0
        elif session == 0:
            ev('new', n=0)
            opt = CMAOptimizer(verbose=bool(case['verbose']), force_injects=bool(case['force']),
                               injection_frequency=None if case['freq'] < 0 else case['freq'], **sets, **kw)
        else:
            done = [p for p in saved if os.path.exists(p)]
            if not done:
                return
            p = done[-1]
            ev('new', n=1 + saved.index(p))
            opt = CMAOptimizer.checkpoint_load(p, **kw)
            st['k'] = 1000 * session   # the script belongs to the first session
            ends = []
        out = io.StringIO()
        x0 = list(case['x0'])
        try:
            with contextlib.redirect_stdout(out):
                r = (opt.minimize if case['solo'] else opt._minimize)(task, x0, bounds, callback,
                                                                      sigma0=.15 * min(hi - lo for lo, hi in bounds))
            res = 'ok'
        except Lost:
            ev('lost')
            continue
        except ValueError as e:
            if str(e) != 'the task fails':
                raise
            r, res = None, 'task'
        xk = []
        if r is not None and r.x is not None:
            xk = [j + 1 for j, z in enumerate(seen) if same(z, r.x)]
        fx = 900000 if r is None else r.fx
        ev('ret', out=res, succ=int(bool(r.success)) if r is not None else 0, xk=xk, said=len(out.getvalue()),
           fx=900000 if fx == float('inf') else int(fx), x=int(r is not None and r.x is not None))
        if session == 0 and (case['twice'] and case['solo'] or saved and case['seed'] % 3 == 0):
            continue
        return
