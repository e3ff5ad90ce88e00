"""P21: the supplied starting point generators in every state of a run."""
import math
import random

import coop

TAG = 'P21'
FORK = False
coop.install()
SPEC = {900000: float('inf'), 900001: float('nan'), -900000: float('-inf')}


def gen(seed):
    r = random.Random(f'gen{seed}')
    dims = r.randint(1, 4)
    bounds = []
    for _ in range(dims):
        lo = r.choice([-900, -5, 0, 0, 1, 30])
        bounds.append([lo, lo + r.choice([1, 1, 2, 10, 800])])
    kind = r.choice(['random', 'single', 'single', 'best', 'best', 'basin', 'basin', 'basin', 'expl', 'expl', 'expl'])
    style = r.choice(['some', 'some', 'invalid', 'equal', 'none', 'neg'])
    steps = []
    n = 0
    pool = []
    for _ in range(r.randint(1, 8)):
        if style != 'none' and r.random() < .8:
            if n == 0 or r.random() < .4:
                n += 1
                steps.append(['add'])
            for _ in range(r.randint(0, 3)):
                fx = (r.choice([900000, 900001]) if style == 'invalid' or r.random() < .25 else 7 if style == 'equal' else
                      -900000 if style == 'neg' and r.random() < .3 else r.randint(-20, 40))
                x = [r.choice([lo, hi, lo + (hi - lo) / 4, lo + (hi - lo) / 2]) for lo, hi in bounds]
                steps.append(['put', r.randint(1, n), fx, x])
        else:
            if r.random() < .3:
                n += 1
                steps.append(['add'])
        for _ in range(r.choice([1, 1, 4])):
            steps.append(['gen'])
    x0 = [r.choice([lo, hi]) for lo, hi in bounds]
    return dict(kind=kind, dims=dims, bounds=bounds, steps=steps, x0=x0, given=int(r.random() < .5), lists=int(r.random() < .5),
                maxf=r.choice([2, 5, 10, 100]), focus=r.choice(['0.5', '1', '2']), stepsize=r.choice([1, 2, 4]), interval=r.choice([1, 2, 5]),
                temp=r.choice([0, 1, 100]), seed=seed % 1000)


def run(case, scratch, ev):
    import datetime
    import logging
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    from glompo.common.namedtuples import Bound, IterationResult, Result
    from glompo.core.manager import GloMPOManager
    from glompo.core.optimizerlogger import BaseLogger
    from glompo.generators.basinhopping import BasinHoppingGenerator
    from glompo.generators.best import IncumbentGenerator
    from glompo.generators.exploit_explore import ExploitExploreGenerator
    from glompo.generators.random import RandomGenerator
    from glompo.generators.single import SinglePointGenerator
    np.random.seed(case['seed'])
    random.seed(case['seed'])
    b = [tuple(float(v) for v in z) for z in case['bounds']]
    k = case['kind']
    evals = []
    g = (RandomGenerator(b) if k == 'random' else SinglePointGenerator(b, case['x0'] if case['given'] else None) if k == 'single' else
         IncumbentGenerator(b) if k == 'best' else
         BasinHoppingGenerator(temperature=case['temp'], max_step_size=case['stepsize'] / 8, interval=case['interval']) if k == 'basin' else
         ExploitExploreGenerator(b, case['maxf'], float(case['focus'])))
    man = GloMPOManager()
    man.bounds = [Bound(*z) for z in b]
    man.n_parms = case['dims']
    log = man.opt_log = BaseLogger(True)
    man.max_jobs = 4
    f0 = 0
    for s in case['steps']:
        if s[0] == 'add':
            man.o_counter += 1
            log.add_optimizer(man.o_counter, 'A', datetime.datetime.now())
            log.add_iter_history(man.o_counter)
            ev('add')
        elif s[0] == 'put':
            x = [float(v) for v in s[3]]
            log.put_iteration(IterationResult(s[1], x if case['lists'] else np.array(x), float(SPEC.get(s[2], s[2])), ()))
            man.f_counter += 1
            best = log.get_best_iter()
            man.result = Result(list(best['x']), best['fx'], {}, {'opt_id': best['opt_id']})
            ev('put', o=s[1], fx=s[2], x=[int(v * 8000) for v in x])
        else:
            del evals[:]
            f0, l0 = man.f_counter, len(log)
            ss = getattr(g, 'step_size', None)
            p = g.generate(man)
            p = [float(v) for v in p]
            ev('gen', lo=[math.floor(v * 8000) if v == v else 9999999 for v in p], hi=[math.ceil(v * 8000) if v == v else -9999999 for v in p],
               f=f0, ss=[int(round(z * 10 ** 6)) if z is not None else -1 for z in (ss, getattr(g, 'step_size', None))],
               df=man.f_counter - f0, dl=len(log) - l0, evals=len(evals))
