"""P16: files of earlier runs in the working directory when a run is started or resumed."""
import os
import random
import re

import drive
import coop

TAG = 'P16'
FORK = True
RES = ['glompo_manager_log.yml', 'trajectories.png', 'trajectories_log.png', 'trajectories_log_best.png', 'opt1_parms.png',
       'opt12_parms.png', 'glompo_log.h5', 'glompo_optimizer_printstreams/printstream_0007.out',
       'glompo_optimizer_printstreams/printstream_0001.err']
OTHER = ['notes.txt', 'trajectories.txt', 'trajectories.png.bak', 'old_trajectories.png', 'opt_parms.txt', 'params.png', 'opt1.png',
         'parms_opt1.png', 'opt1_parms.jpg', 'glompo_log.h5.old', 'my_glompo_log.h5', 'glompo_log.csv', 'glompo_manager_log.yml~',
         'glompo_manager_log.yaml', 'glompo_manager_log.yml.bak', 'data/glompo_log.h5', 'data/trajectories.png', 'run1/glompo_manager_log.yml',
         'printstream_0001.out', 'checkpoints/old_chkpt.tar.gz', 'checkpoints/notes.txt', 'glompo_log_1.h5', 'figure.png', 'log.yml',
         'results.h5', 'printstreams/printstream_0001.out', 'glompo.yml', 'movie.mp4']


def classify(name):
    """ What a file is to the documentation (results as listed under `Outputs`). """
    if name == 'glompo_manager_log.yml':
        return 'yml'
    if name == 'glompo_log.h5':
        return 'h5'
    if re.fullmatch(r'trajectories[^/]*\.png', name) or re.fullmatch(r'opt\d+_parms\.png', name):
        return 'img'
    if name.startswith('glompo_optimizer_printstreams/'):
        return 'str'
    return 'other'


def gen(seed):
    r = random.Random(f'dir{seed}')
    res = r.sample(RES, r.choice([0, 0, 1, 1, 2, 3, 6]))
    backend = r.choice(['threads', 'threads', 'processes'])
    return dict(seed=seed, pre=sorted(set(res + r.sample(OTHER, r.randint(0, 9)))), ow=r.choice([0, 0, 1]), summary=r.choice([0, 1, 1, 3]),
                split=backend == 'threads' and r.random() < .5, resume=r.random() < .45, same=r.random() < .6, ow1=1, emptyd=r.random() < .2,
                backend=backend,
                opts=[dict(w=1, fx=[r.randint(0, 9) for _ in range(30)], ce=3) for _ in range(r.randint(1, 3))],
                keep=r.random() < .7, stopf=r.randint(8, 16))


def listing(wd):
    out = {}
    for d, _, fs in os.walk(wd):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, wd)] = fh.read()
    return out


def ids_in(path):
    import tables as tb
    try:
        with tb.open_file(str(path), 'r') as f:
            return sorted(int(c) for t in f.walk_nodes('/', 'Table') for c in t.col('call_id'))
    except Exception:
        return []


def run(case, scratch, ev):
    import logging
    import warnings
    from pathlib import Path
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    wd = Path(scratch) / 'wd'
    ckdir = Path(scratch) / 'ck'
    wd.mkdir(parents=True)
    os.chdir(scratch)
    resume = case['resume']
    sc = dict(seed=case['seed'], opts=case['opts'], jobs=2, check={'f': case['stopf']}, backend=case['backend'], summary=case['summary'],
              split=case['split'], ow=bool(case['ow']), fam='dir', ce=1)
    if resume:
        sc['ckpt'] = dict(checkpoint_iter_frequency=3, naming_format='c_%(count)')
    drive.Ctx.sc, drive.Ctx.counts, drive.Ctx.ckpts, drive.Ctx.want_ckdir = sc, {}, [], ckdir
    L = coop.Lab(case['seed'], 'weights', 40000)
    coop.activate(L)
    drive.hooks(L)

    def stuck(kind):
        ev('stuck', kind=kind)
        raise RuntimeError('stuck')
    L.on_stuck = stuck
    L.meta['stuck'] = stuck
    man = drive.LabManager()

    def build(wdir, ow):
        man.setup(**dict(drive.build_kwargs(sc, wdir, ckdir), overwrite_existing=bool(ow)))

    def begin(m):
        if sc['summary'] >= 2:
            m.opt_log.plot_trajectory = lambda *a, **k: None
        drive.Ctx.mgr = m
        drive.Ctx.cc = None
        try:
            m.start_manager()
            return ''
        except Exception as e:
            return type(e).__name__
    target = wd
    if resume:
        build(wd, 1)
        err = begin(man)
        if err:
            raise RuntimeError('first session failed ' + err)
        if not drive.Ctx.ckpts:
            ev('none')
            return
        if not drive.inspect_ckpt(drive.Ctx.ckpts[0])['opts']:
            ev('none')  # nothing to resume
            return
        for th in L.threads[1:]:
            if th.state not in ('done', 'parked'):
                th.state = 'parked'
        if not case['keep']:
            for n in ('glompo_manager_log.yml',):
                if (wd / n).exists():
                    (wd / n).unlink()
        if not case['same']:
            target = Path(scratch) / 'wd2'
            target.mkdir()
        pre = [n for n in case['pre'] if n != 'glompo_log.h5']  # only its own log file can be continued
    else:
        pre = case['pre']
    for n in pre:
        p = target / n
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(f'earlier {n}')
    if case['emptyd']:
        (target / 'empty').mkdir(exist_ok=True)
    if resume:
        man = drive.LabManager()
        n0 = 0
        man.load_checkpoint(drive.Ctx.ckpts[0], working_dir=target, overwrite_existing=bool(case['ow']),
                            convergence_checker=drive.LabChecker({'f': 10 ** 6}))
        n0 = man.f_counter
    else:
        build(target, case['ow'])
        n0 = 0
    before = listing(target)
    kept0 = [z for z in ids_in(target / 'glompo_log.h5') if z <= n0] if resume else []
    ev('before', ow=case['ow'], resume=1 if resume else 0, files=[{'n': n, 'c': classify(n)} for n in sorted(before)])
    err = begin(man)
    after = listing(target)
    kept1 = [z for z in ids_in(target / 'glompo_log.h5') if z <= n0] if resume else []
    ev('after', err=err, summary=case['summary'],
       files=[{'n': n, 'c': classify(n), 'st': 'gone' if n not in after else 'same' if after[n] == before[n] else 'changed'}
              for n in sorted(before)],
       new=[{'n': n, 'c': classify(n)} for n in sorted(after) if n not in before], kept=1 if kept0 == kept1 else 0,
       emptyd=1 if not case['emptyd'] or (target / 'empty').is_dir() else 0)
