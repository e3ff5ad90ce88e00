"""P23: the bundled random optimizer under stops, pauses, checkpoints, restarts and failures at any moment."""
import random

import coop

TAG = 'P23'
FORK = False
coop.install()
SPEC = {900000: float('inf'), 900001: float('nan'), -900000: float('-inf')}


def gen(seed):
    r = random.Random(f'random{seed}')
    dims = r.randint(1, 3)
    bounds = []
    for _ in range(dims):
        lo = r.choice([-900, -5, 0, 1, 30])
        bounds.append([lo, lo + r.choice([1, 2, 10, 800])])
    iters = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])
    script = {}
    style = r.choice(['quiet', 'busy', 'busy', 'ckpt', 'ckpt', 'ckpt'])
    for k in range(1, iters + 1):
        acts = []
        for _ in range(r.randint(0, 2) if style != 'quiet' else 0):
            z = r.random()
            if style == 'ckpt' and z < .5:
                if r.random() < .5:
                    acts += [['save']]
                else:
                    acts += [['prep']] + [r.choice([['junk'], ['inject']])] * r.randint(0, 1) + ([['stop']] if r.random() < .1 else []) + \
                        [r.choice([['save'], ['save'], ['pass']])]
            elif z < .6:
                acts.append(['inject'])
            elif z < .75:
                acts.append(['junk'])
            elif z < .85:
                acts.append(['pause'])
            elif z < .92:
                acts.append(['stop'])
        if acts:
            script[str(k)] = acts
    ends = sorted(r.randint(1, iters + 1) for _ in range(r.randint(0, 3))) if style == 'ckpt' else []
    return dict(bounds=bounds, iters=iters, script=script, ends=ends, vals=[r.choice([900000, 900001, -900000]) if r.random() < .15 else r.randint(-6, 12) for _ in range(60)],
                solo=int(r.random() < .1), cb=r.choice([0, 0, 0, 0, 3, 1]), fail=r.choice([0] * 8 + [1, 2, 4]), seed=seed % 1000)


class Lost(BaseException):
    """ The session ends without the optimizer's doing. """


def run(case, scratch, ev):
    import logging
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    from glompo.core._backends import ChunkingQueue
    from glompo.optimizers.random import RandomOptimizer
    np.random.seed(case['seed'])
    bounds = [tuple(map(float, b)) for b in case['bounds']]
    seen = []   # points of all evaluations ever made, in order
    saved = []
    ends = list(case['ends'])
    st = dict(k=0)

    class Pipe:
        def __init__(self):
            self.q = []

        def poll(self, timeout=0.0):
            if not self.q and timeout is None:
                ev('starve')
                raise Lost
            return bool(self.q)

        def recv(self):
            tag, msg = self.q.pop(0)
            ev('recv', m=tag)
            return msg

        def send(self, m):
            ev('sent', key=m[0], txt=str(m[1])[:40].replace('\n', ' ').replace('"', "'") if len(m) > 1 and m[0] == 0 else '')

    class Flag:
        up = True

        def clear(self):
            self.up = False

        def set(self):
            self.up = True

        def is_set(self):
            return self.up

        def wait(self, timeout=None):
            if not self.up:
                ev('held')
                self.up = True
            return True

    class Queue(ChunkingQueue):
        def put(self, item, block=True, timeout=None):
            if isinstance(item, int):
                ev('bye')
            super().put(item, block, timeout)

    def task(x):
        st['k'] += 1
        k = st['k']
        if case['fail'] == k:
            raise ValueError('the task fails')
        if ends and ends[0] == k and not case['solo']:
            ends.pop(0)
            raise Lost
        seen.append(np.array(x, copy=True))
        v = case['vals'][len(seen) % len(case['vals'])]
        inb = int(len(x) == len(bounds) and all(lo <= float(c) <= hi for c, (lo, hi) in zip(x, bounds)))
        ev('eval', n=len(seen), v=v, inb=inb)
        for a in case['script'].get(str(k), []):
            if a[0] == 'pause':
                st['flag'].clear()
            elif a[0] == 'save':
                p = f'{scratch}/opt{len(seen)}_{len(st["pipe"].q)}'
                st['pipe'].q.append(('save', (0, p)))
                saved.append(p)
            else:
                st['pipe'].q.append((a[0], {'stop': 1, 'prep': 2, 'pass': 3, 'inject': (4, [float(b[0]) for b in bounds], -99.0), 'junk': 'junk'}[a[0]]))
        return float(SPEC.get(v, v))

    def stop():
        hit = case['cb'] == st['k']
        if hit:
            ev('recv', m='stop')
        return hit

    opt = None
    for session in range(5):
        st['pipe'], st['flag'], queue = Pipe(), Flag(), Queue()
        kw = dict(_opt_id=7, _signal_pipe=st['pipe'], _results_queue=queue, _pause_flag=st['flag'], workers=1, backend='threads')
        if case['solo']:
            kw = {}
        if session == 0:
            ev('new', n=0)
            opt = RandomOptimizer(iters=case['iters'], **kw)
        else:
            import os
            done = [p for p in saved if os.path.exists(p)]
            if not done:
                return
            p = done[-1]
            ev('new', n=1 + saved.index(p))
            opt = RandomOptimizer.checkpoint_load(p, **kw)
            st['k'] = 100 * session   # the script belongs to the first session
            ends = []
        try:
            if case['solo']:
                r = opt.minimize(task, [b[0] for b in bounds], bounds, stop if case['cb'] else None)
            else:
                r = opt._minimize(task, [b[0] for b in bounds], bounds, stop if case['cb'] else None)
            out = 'ok'
        except Lost:
            ev('lost')
            continue
        except ValueError as e:
            r, out = None, 'task'
        xk = 0
        if r is not None and r.x is not None:
            xk = max([j + 1 for j, z in enumerate(seen) if len(z) == len(r.x) and all(a == b for a, b in zip(z, r.x))], default=-1)
        fx = 900000 if r is None else r.fx
        ev('ret', out=out, succ=int(bool(r.success)) if r is not None else 0, xk=xk,
           fx=900001 if fx != fx else 900000 if fx == float('inf') else -900000 if fx == -float('inf') else int(fx))
        if session == 0 and saved and case['seed'] % 3 == 0:
            continue  # a finished optimizer can be restarted from an earlier checkpoint as well
        return
