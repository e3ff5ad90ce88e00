"""P28: what setup and load_checkpoint make of their arguments."""
import os
import random

import coop
import drive

TAG = 'P28'
FORK = True

# values of the arguments: 0 omitted, positive ones valid, negative ones not
ARGS = dict(task=[1, 2, -1], bounds=[1, 2, 3, -1, -2, -3, -4], opt_selector=[1, 2, -1], working_dir=[1, 2, 3, -1], overwrite_existing=[1],
            max_jobs=[1, 2, 5, -1, -2, -3], backend=[1, 2, 3, -1], convergence_checker=[1, 2, -1], x0_generator=[1, 2, -1],
            killing_conditions=[1, 2, -1], share_best_solutions=[1], hunt_frequency=[1, 7], status_frequency=[1, 9],
            checkpoint_control=[1, 2, -1], summary_files=[1, 2, 3], is_log_detailed=[1], visualisation=[1],
            force_terminations_after=[1, 60, -1, -2], aggressive_kill=[1], end_timeout=[1, 30], split_printstreams=[1])
NEED = ('task', 'bounds', 'opt_selector')
LOADS = [k for k in ARGS if k not in ('task', 'bounds')]
BACK = {1: 'processes', 2: 'threads', 3: 'processes_forced', -1: 'process'}


def setup_args(r, fault):
    a = {k: r.choice([v for v in ARGS[k] if v > 0]) if k in NEED or r.random() < .4 else 0 for k in ARGS}
    if r.random() < .8:
        a['checkpoint_control'] = r.choice([1, 2])
    if r.random() < .85:
        a['visualisation'] = 0
    if fault:
        for k in r.sample(sorted(ARGS), r.choice([1, 1, 2])):
            a[k] = r.choice(ARGS[k])
    return a


def gen(seed):
    r = random.Random(f'conf{seed}')
    ops = []
    for _ in range(r.randint(2, 6)):
        z = r.random()
        if z < .35:
            ops.append(['setup', setup_args(r, r.random() < .5)])
        elif z < .5:
            ops.append(['new'])
        elif z < .6:
            ops.append(['start'])
        elif z < .75:
            ops.append(['ckpt'])
        else:
            over = {k: r.choice([v for v in ARGS[k] if v > 0]) if r.random() < .25 else 0 for k in LOADS}
            if r.random() < .8:
                over['visualisation'] = 0
            ops.append(['load', over, r.choice([0, 0, 0, 0, 0, 1, 2, 3]), r.choice([0, 0, 1, -1]), r.choice([0, 0, 1, -1, -2]),
                        int(r.random() < .2), int(r.random() < .7)])
    if r.random() < .7:
        first = setup_args(r, False)
        first['checkpoint_control'] = first['checkpoint_control'] or 1
        ops = [['setup', first], ['ckpt']] + ops
    return dict(seed=seed, ops=ops, shy=r.choice([0, 0, 0, 1, 2]), zero={k: r.randint(0, 1) for k in ('share_best_solutions', 'overwrite_existing')})


class Task:
    """ Can be pickled (shy 0), can be saved (shy 2), or neither (shy 1). """
    shy = 0

    def __init__(self, no):
        self.no = no

    def __call__(self, x):
        return 1.

    def __reduce_ex__(self, proto):
        if Task.shy:
            raise ValueError('not me')
        return Task, (self.no,)


class SavingTask(Task):
    def checkpoint_save(self, path):
        with open(os.path.join(path, 'mytask'), 'w') as f:
            f.write(str(self.no))


def run(case, scratch, ev):
    import logging
    import multiprocessing as mp
    import warnings
    from pathlib import Path
    from glompo.convergence.basechecker import BaseChecker
    from glompo.core.checkpointing import CheckpointingControl
    from glompo.generators.basegenerator import BaseGenerator
    from glompo.hunters.basehunter import BaseHunter
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    scratch = Path(scratch).resolve()
    os.chdir(str(scratch))
    import numpy as np
    from glompo.opt_selectors.cycle import CycleSelector
    from glompo.optimizers.random import RandomOptimizer
    ckdir = scratch / 'ck'
    Task.shy = case['shy']
    drive.Ctx.counts, drive.Ctx.ckpts, drive.Ctx.want_ckdir = {}, [], ckdir
    L = coop.Lab(case['seed'], 'weights', 40000)
    coop.activate(L)
    cls = SavingTask if case['shy'] == 2 else Task

    class Chk(BaseChecker):
        def __call__(self, manager):
            return False

    class Gen(BaseGenerator):
        def generate(self, manager):
            return [0.5]

    class Hun(BaseHunter):
        def __call__(self, log, a, b):
            return False

    def tagged(c, no):
        o = c()
        o.no = no
        return o

    def sel(no):
        o = CycleSelector(RandomOptimizer)
        o.no = no
        return o
    count = [0]

    def ck(no):
        count[0] += 1
        return CheckpointingControl(checkpoint_at_init=False, keep_past=-1, checkpoint_iter_frequency=no, naming_format=f'c{count[0]}_%(count)',
                                    checkpointing_dir=ckdir)
    bounds = {1: [(0., 1.)], 2: [(-3, 4), (0, 10)], 3: np.array([[0., 2.], [1., 5.], [2., 3.]]), -1: [(0., 1.), (2., 2.)], -2: [(1., 0.)],
              -3: [(0., float('inf'))], -4: [(0., 1.), (float('nan'), 1.)]}
    dirs = {1: str(scratch / 'd1'), 2: scratch / 'd2', 3: 'd3', -1: 17}
    conv = dict(task=lambda v: cls(v) if v > 0 else 'task', bounds=bounds.get, opt_selector=lambda v: sel(v) if v > 0 else [RandomOptimizer],
                working_dir=dirs.get, overwrite_existing=bool, max_jobs=lambda v: {-1: 2.5, -2: '3', -3: -4}.get(v, v), backend=BACK.get,
                convergence_checker=lambda v: tagged(Chk, v) if v > 0 else max, x0_generator=lambda v: tagged(Gen, v) if v > 0 else max,
                killing_conditions=lambda v: tagged(Hun, v) if v > 0 else max, share_best_solutions=bool, hunt_frequency=int,
                status_frequency=lambda v: v, checkpoint_control=lambda v: ck(v) if v > 0 else 'ck', summary_files=int, is_log_detailed=bool,
                visualisation=bool, force_terminations_after=lambda v: {-1: 0, -2: -5}.get(v, v), aggressive_kill=bool, end_timeout=int,
                split_printstreams=lambda v: False)

    def kwargs(a):
        kw = {k: conv[k](v) for k, v in a.items() if v != 0}
        for k, z in case['zero'].items():   # spelling out the default changes nothing
            if z and k in a and a[k] == 0 and 'task' in a:
                kw[k] = False
        return kw

    def no(o, default=()):
        return -1 if o is None else 0 if type(o).__name__ in default else getattr(o, 'no', -2)

    def obs(m):
        if not m.is_initialised:
            return {'init': 0}
        b = [tuple(float(z) for z in (q.min, q.max)) for q in m.bounds]
        bn = [k for k in (1, 2, 3) if b == [tuple(float(z) for z in q) for q in bounds[k]]]
        wd = [k for k in (1, 2, 3) if m.working_dir == (scratch / f'd{k}')] or ([0] if m.working_dir == scratch else [-2])
        return dict(init=1, task=no(m.task), bounds=bn[0] if bn and m.n_parms == len(b) else -2, opt_selector=no(m.opt_selector),
                    working_dir=wd[0], overwrite_existing=int(m.overwrite_existing), max_jobs=m.max_jobs if m.max_jobs != mp.cpu_count() - 1 else 0,
                    proc=int(m.proc_backend), daemon=int(m.opts_daemonic), convergence_checker=no(m.convergence_checker, ('KillsAfterConvergence',)),
                    x0_generator=no(m.x0_generator, ('RandomGenerator',)), killing_conditions=no(m.killing_conditions),
                    share_best_solutions=int(bool(m.incumbent_sharing)), hunt_frequency=m.hunt_frequency, status_frequency=m.status_frequency,
                    checkpoint_control=-1 if m.checkpoint_control is None else int(m.checkpoint_control.checkpoint_iter_frequency),
                    summary_files=m.summary_files, is_log_detailed=int(bool(m.is_log_detailed)), visualisation=int(bool(m.visualisation)), scope=int(m.scope is not None),
                    forced=int(m.allow_forced_terminations), aggressive_kill=int(bool(m.aggressive_kill)),
                    end_timeout=0 if m.end_timeout is None else int(m.end_timeout), split_printstreams=1 - int(m.split_printstreams),
                    used=[m.f_counter, m.o_counter, m.hunt_counter])

    m = drive.GloMPOManager()
    (scratch / 'junk.tar.gz').write_text('nothing of the kind')
    import tarfile
    with tarfile.open(scratch / 'empty.tar.gz', 'x:gz') as t:
        t.add(str(scratch / 'junk.tar.gz'), arcname='junk')
    paths, archives = {1: scratch / 'absent.tar.gz', 2: scratch / 'junk.tar.gz', 3: scratch / 'empty.tar.gz'}, 0
    saved = None
    for op in case['ops']:
        if op[0] == 'new':
            m = drive.GloMPOManager()
            ev('new')
            continue
        if op[0] == 'ckpt':
            if m.is_initialised and m.checkpoint_control is not None:
                m.f_counter, m.o_counter, m.hunt_counter = 17, 3, 2   # as if it had been running
                have = set(ckdir.glob('*.tar.gz')) if ckdir.exists() else set()
                m.checkpoint()
                got = set(ckdir.glob('*.tar.gz')) - have
                ev('ckpt', made=len(got))
                saved = got.pop() if got else saved
            continue
        if op[0] == 'load' and saved is None and not op[2]:
            continue
        err, res = '', -1
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                if op[0] == 'setup':
                    m.setup(**kwargs(op[1]))
                elif op[0] == 'start':
                    if m.is_initialised:
                        continue
                    q = m.start_manager()
                    res = int(q.fx == float('inf') and len(q.x) == 0)
                else:
                    kw = kwargs(op[1])
                    if op[3]:
                        kw['task'] = conv['task'](8 if op[3] > 0 else -1)

                    def loader(path):
                        if op[4] == -1:
                            raise OSError('cannot')
                        if op[4] == -2:
                            return 'task'
                        f = Path(path) / 'mytask'
                        return cls(int(f.read_text()) if f.exists() else 9)
                    if op[4]:
                        kw['task_loader'] = loader
                    if op[5]:
                        kw['visualisation_args'] = {'record_movie': True}
                        kw['no_such_setting'] = 3
                    if op[6]:
                        m = drive.GloMPOManager()
                        ev('new')
                    m.load_checkpoint(paths[op[2]] if op[2] else saved, **kw)
            except Exception as e:
                err = type(e).__name__
        ev(op[0], a=op[1] if len(op) > 1 else {'none': 0}, err=err, res=res, warn=len(ws), o=obs(m), path=op[2] if op[0] == 'load' else 0,
           task=op[3] if op[0] == 'load' else 0, loader=op[4] if op[0] == 'load' else 0)
