"""P13: the supplied killing conditions on logs of several optimizers (in memory or with a file)."""
import random

import coop

TAG = 'P13'
FORK = False
coop.install()
N = 1500
SPEC = {900000: float('inf'), 900001: float('nan'), -900000: float('-inf')}
STEPS = [(3, 4), (-3, 4), (6, -8), (5, 12), (-8, -6), (1, 0), (0, 2), (-7, 0), (0, -9), (0, 0), (0, 0), (1, 0)]
KINDS = ['min', 'best', 'best', 'evals', 'evals', 'step', 'step', 'dist', 'dist', 'invalid', 'type', 'time', 'value']


def gen(seed):
    r = random.Random(f'hunt{seed}')
    dims = r.choice([1, 1, 2])
    nopt = r.randint(2, 4)
    weird = r.random() < .35
    flat = r.random() < .4
    opts = []
    for o in range(nopt):
        n = r.randint(0, r.choice([3, 12]))
        v = r.randint(-20, 40)
        x = [r.randint(0, 20) for _ in range(dims)]
        fx, xs = [], []
        for _ in range(n):
            if r.random() < (.3 if flat else .8):
                v = v + r.randint(-6, 5)
            w = v
            if weird and r.random() < .4:
                w = r.choice([900000, 900000, 900001])
            fx.append(w)
            if r.random() < .7:
                s = r.choice(STEPS)
                x = [x[0] + s[0], x[1] + s[1]] if dims == 2 else [x[0] + r.choice([0, 1, -2, 5])]
            xs.append(list(x))
        opts.append(dict(type=r.choice(['A', 'B']), fx=fx, x=xs))
    hs = []
    for _ in range(r.randint(1, 4)):
        k = r.choice(KINDS)
        if k in ('time', 'value') and r.random() < .8:
            k = r.choice(KINDS)
        h = dict(k=k, a=r.randint(1, 6), num=r.choice([0, 1, 1, 2, 3, 5]), den=r.choice([1, 2, 4, 8, 16, 32]), all=int(r.random() < .4),
                 t=r.choice(['A', 'B']))
        if k in ('dist', 'time'):
            h['num'] = max(h['num'], 1)
        if k == 'value':
            h['num'], h['den'] = r.choice([(1, 2), (1, 4), (3, 4)])
        hs.append(h)
    bounds = [[0, r.choice([8, 16, 30])] for _ in range(dims)]
    hunter, victim = r.choice([(1, r.randint(2, nopt)), tuple(r.sample(range(1, nopt + 1), 2))])
    for z in (hunter, victim):
        if not opts[z - 1]['fx']:
            opts[z - 1].update(fx=[r.randint(-5, 20)], x=[[r.randint(0, 20) for _ in range(dims)]])
    return dict(dims=dims, opts=opts, hs=hs, bounds=bounds, file=int(r.random() < .15), hunter=hunter, victim=victim,
                cleared=[o for o in range(1, nopt + 1) if o not in (hunter, victim) and r.random() < .3])


def run(case, scratch, ev):
    import datetime
    import numpy as np
    import os
    import warnings
    warnings.simplefilter('ignore')
    from glompo.common.namedtuples import IterationResult
    from glompo.core import optimizerlogger as ol
    from glompo.hunters import (BestUnmoving, EvaluationsUnmoving, LastPointsInvalid, MinFuncCalls, ParameterDistance, StepSize,
                                TimeAnnealing, TypeHunter, ValueAnnealing)
    from glompo.optimizers.baseoptimizer import BaseOptimizer
    ol.deepsizeof = lambda o: 100
    A = type('A', (BaseOptimizer,), {})
    B = type('B', (BaseOptimizer,), {})
    random.seed(7)
    np.random.seed(7)
    if case['file']:
        log = ol.FileLogger(case['dims'], 100, False)
        log.open(os.path.join(scratch, 'log.h5'), 'w', 'chk')
    else:
        log = ol.BaseLogger(False)
    left = []
    for o, d in enumerate(case['opts'], 1):
        log.add_optimizer(o, d['type'], datetime.datetime.now())
        left.append([o] * len(d['fx']))
        if d['fx']:
            log.add_iter_history(o)
    pos = [0] * len(left)
    rr = random.Random(5)
    while any(p < len(q) for p, q in zip(pos, left)):
        o = rr.choice([z for z, (p, q) in enumerate(zip(pos, left)) if p < len(q)])
        d = case['opts'][o]
        log.put_iteration(IterationResult(o + 1, [float(v) for v in d['x'][pos[o]]], float(SPEC.get(d['fx'][pos[o]], d['fx'][pos[o]])), []))
        pos[o] += 1
    for o in case['cleared']:
        log.clear_cache(o)
    bounds = case['bounds']
    for j, h in enumerate(case['hs'], 1):
        k, a, tol = h['k'], h['a'], h['num'] / h['den']
        obj = (MinFuncCalls(a) if k == 'min' else BestUnmoving(a, tol) if k == 'best' else EvaluationsUnmoving(a, tol) if k == 'evals' else
               StepSize(bounds, a, tol) if k == 'step' else ParameterDistance(bounds, tol, bool(h['all'])) if k == 'dist' else
               LastPointsInvalid(a) if k == 'invalid' else TypeHunter({'A': A, 'B': B}[h['t']]) if k == 'type' else
               TimeAnnealing(tol) if k == 'time' else ValueAnnealing(tol))
        n = kills = odd = 0
        for _ in range(N if k in ('time', 'value') else 2):
            v = obj(log, case['hunter'], case['victim'])
            if not isinstance(v, (bool, np.bool_)) or obj.last_result is None or bool(obj.last_result) != bool(v):
                odd += 1
            n += 1
            kills += bool(v)
        ev('hunt', j=j, n=n, kills=kills, odd=odd)
    if case['file']:
        log.close()
