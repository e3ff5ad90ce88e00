"""P20: selectors and spawn controls over a growing run."""
import random

import coop

TAG = 'P20'
FORK = False
coop.install()


def gen(seed):
    r = random.Random(f'select{seed}')
    n = r.randint(1, 4)
    opts = []
    for j in range(n):
        opts.append(dict(c=r.choice('ABC'), form=r.choice(['class', 'tuple', 'tuple', 'none']), w=r.choice([0, 1, 1, 2, 3]), a=r.randint(1, 99),
                         b=r.randint(1, 99)))
    kind = r.choice(['cycle', 'cycle', 'chain', 'chain', 'random'])
    th = []
    if kind == 'chain':
        th = sorted(r.randint(0, 60) for _ in range(r.choice([n - 1, n])))
        if r.random() < .7:
            th = sorted(set(th))
            th += [th[-1] + 5 * (z + 1) if th else 5 * (z + 1) for z in range(max(0, n - 1 - len(th)))]
    ctl = r.choice(['no', 'no', 'iter', 'nopt'])
    steps = []
    f = o = 0
    for _ in range(r.randint(3, 25)):
        f += r.choice([0, 0, 1, 2, 7])
        o += r.choice([0, 0, 1])
        if r.random() < .2 and th:
            f = max(f, r.choice(th) - r.choice([0, 1]))
        steps.append([f, o, r.randint(1, 4)])
    return dict(kind=kind, opts=opts, th=th, ctl=ctl, lim=r.choice([0, 1, 3, 10, 30]) if ctl == 'iter' else r.randint(0, 8), steps=steps,
                rep=60 if kind == 'random' and r.random() < .3 else 1)


def run(case, scratch, ev):
    from glompo.core.manager import GloMPOManager
    from glompo.core.optimizerlogger import BaseLogger
    from glompo.optimizers.baseoptimizer import BaseOptimizer
    from glompo.opt_selectors import ChainSelector, CycleSelector, RandomSelector
    from glompo.opt_selectors.spawncontrol import IterSpawnStop, NOptimizersSpawnStop
    random.seed(3)
    cls = {c: type(c, (BaseOptimizer,), {}) for c in 'ABC'}
    avail = []
    for d in case['opts']:
        c = cls[d['c']]
        if d['form'] == 'class':
            avail.append(c)
        elif d['form'] == 'none':
            avail.append((c, None, None))
        else:
            init = dict(a=d['a'])
            if d['w']:
                init['workers'] = d['w']
            avail.append((c, init, dict(b=d['b'])))
    ctl = {'no': None, 'iter': IterSpawnStop(case['lim']), 'nopt': NOptimizersSpawnStop(case['lim'])}[case['ctl']]
    sel = (ChainSelector(*avail, fcall_thresholds=list(case['th']), allow_spawn=ctl) if case['kind'] == 'chain' else
           (CycleSelector if case['kind'] == 'cycle' else RandomSelector)(*avail, allow_spawn=ctl))
    man = GloMPOManager()
    log = BaseLogger(False)
    for f, o, slots in case['steps']:
        man.f_counter, man.o_counter = f, o
        outs = []
        for _ in range(case['rep']):
            ret = sel.select_optimizer(man, log, slots)
            if ret is None:
                outs.append(dict(k='none', c='', a=0, b=0, w=0, more=0))
            elif ret is False:
                outs.append(dict(k='stop', c='', a=0, b=0, w=0, more=0))
            else:
                c, i, d = ret
                outs.append(dict(k='opt', c=c.__name__, a=i.get('a', 0), b=d.get('b', 0), w=i.get('workers', -1),
                                 more=len(set(i) - {'a', 'workers'}) + len(set(d) - {'b'})))
        ev('select', f=f, o=o, slots=slots, outs=outs, has=[int(cls[c] in sel) for c in 'ABC'])
