"""P07: what making a checkpoint does to the checkpoint directory, also when it fails on the way."""
import builtins
import os
import random
import re
import tarfile

import drive
import coop

TAG = 'P07'
FORK = True

# naming format, pattern of its names written down independently, names which look similar and do not match
FORMATS = [('c_%(count)', r'c_(\d{3,})', ['c_01', 'xc_001', 'c_0x1', 'c_001_b', 'c-001', 'C_001', 'c_']),
           ('fixed', r'fixed()', ['fixed1', 'afixed', 'Fixed', 'fixed_001']),
           ('run.%(count)', r'run\.(\d{3,})', ['run_001', 'run001', 'run.01', 'run.001.1']),
           ('a(b)%(count)', r'a\(b\)(\d{3,})', ['ab001', 'a(b)01', 'b001']),
           ('%(count)', r'(\d{3,})', ['01', 'x001', '001a', 'c_004']),
           ('x+%(year)_%(count)', r'x\+\d{4}_(\d{3,})', ['xx2020_001', 'x2020_001', 'x+20_001']),
           ('v1|%(count)', r'v1\|(\d{3,})', ['v1', '001', 'v1001']),
           ('s[0]^%(count)$', r's\[0\]\^(\d{3,})\$', ['s0001', 's[0]001', 's001']),
           ('k%(count)_%(count)', None, []),
           ('glompo_checkpoint_%(date)_%(time)', r'glompo_checkpoint_\d{8}_\d{6}()', ['glompo_checkpoint_2020_1', 'glompo_checkpoint']),
           ('%(yr)%(month)%(day)-%(hour)%(min)%(sec)', r'\d{6}-\d{6}()', ['200101-1', '20010101-101010']),
           ('*w?%(count)', r'\*w\?(\d{3,})', ['w001', 'ww001', '*w001'])]
FORMATS = [f for f in FORMATS if f[1]]
SAMPLE = {1: ['fixed'], 8: ['glompo_checkpoint_20200101_101112', 'glompo_checkpoint_20210101_101112'],
          9: ['200101-101112', '210101-101112']}


def gen(seed):
    r = random.Random(f'chk{seed}')
    fi = r.choice([0, 0, 1, 1, 1] + list(range(len(FORMATS))))
    fmt, pat, look = FORMATS[fi]
    pre = []
    for n in r.sample(look, r.randint(0, min(3, len(look)))):
        pre.append([n + r.choice(['.tar.gz', '.tar.gz', '']), 'f'])
    for i in r.sample([0, 1, 2, 3, 7, 41, 998, 999, 1000], r.randint(0, 4)):
        if '%(count)' in fmt:
            n = fmt.replace('%(count)', f'{i:03}').replace('%(year)', '2020')
            pre.append([n, 'd'] if r.random() < .2 else [n + '.tar.gz', 'f'])
        else:
            pre.append([SAMPLE[fi][i % len(SAMPLE[fi])] + '.tar.gz', 'f'])
    for n in ['notes.txt', 'c_001.zip', 'c_002.tar.gz.bak', 'sub/c_001.tar.gz', 'fixed.zip', '_chkpt.tar.gz']:
        if r.random() < .25:
            pre.append([n, 'f'])
    pre = [list(z) for z in dict((n, k) for n, k in pre).items()]
    r.shuffle(pre)
    acts = []
    for _ in range(r.randint(1, 6)):
        f = r.choice(['', '', '', 'mgr', 'arch', 'arch', 'close', 'kbd', 'dill', 'task', 'tree', 'open', 'kbdopen'])
        acts.append([f, r.randint(1, 3), r.random() < .15])
    return dict(seed=seed, fi=fi, pre=pre, kp=r.choice([-1, 0, 0, 1, 1, 2, 3]), rcf=r.random() < .35, acts=acts,
                nodir=not pre and r.random() < .7, force=r.random() < .15)


class Shy:
    """ Part of a user component which at times refuses to be pickled. """
    armed = False

    def __reduce_ex__(self, proto):
        if Shy.armed:
            raise ValueError('not now')
        return Shy, ()


class ShyTask(drive.LabTask):
    def __reduce_ex__(self, proto):
        if Shy.task:
            raise ValueError('not now')
        return object.__reduce_ex__(self, proto)

    def checkpoint_save(self, path):
        raise OSError('no space')


def listing(d, ids):
    out = []
    if not os.path.isdir(d):
        return out
    for dp, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(dp, f)
            with open(p, 'rb') as fh:
                c = fh.read()
            out.append([os.path.relpath(p, d), ids.setdefault(c, len(ids) + 1), os.stat(p).st_mtime_ns])
        if not fs and not ds and dp != str(d):
            out.append([os.path.relpath(dp, d) + '/', 0, 0])
    return sorted(out)


def run(case, scratch, ev):
    import logging
    import warnings
    from pathlib import Path
    import dill
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    fmt, pat, _ = FORMATS[case['fi']]
    wd, ckdir = Path(scratch) / 'wd', Path(scratch) / 'ck'
    wd.mkdir(parents=True)
    os.chdir(scratch)
    Shy.armed = Shy.task = False
    sc = dict(seed=case['seed'], opts=[dict(w=1, fx=[3, 2, 1])], jobs=1, check={'f': 5}, backend='threads', summary=1, fam='chk',
              ckpt=dict(naming_format=fmt, keep_past=case['kp'], raise_checkpoint_fail=case['rcf'], force_task_save=case['force']))
    drive.Ctx.sc, drive.Ctx.counts, drive.Ctx.ckpts, drive.Ctx.want_ckdir = sc, {}, [], ckdir
    L = coop.Lab(case['seed'], 'weights', 40000)
    coop.activate(L)
    base = 1500000000 * 10 ** 9
    clock = [0]

    def stamp(p):
        clock[0] += 1
        os.utime(p, ns=(base + clock[0] * 10 ** 9,) * 2)
    if not case['nodir']:
        ckdir.mkdir()
    for n, k in case['pre']:
        p = ckdir / n
        p.parent.mkdir(parents=True, exist_ok=True)
        if k == 'd':
            p.mkdir()
            (p / 'x').write_text(n)
        else:
            p.write_text('earlier ' + n)
            stamp(p)
    gm = drive.GloMPOManager

    def build():
        m = gm()
        kw = drive.build_kwargs(sc, wd, ckdir)
        kw['task'] = ShyTask()
        m.setup(**kw)
        m.x0_generator.shy = Shy()
        return m
    m = build()
    ids = {}
    rx = re.compile(r'(?:' + pat + r')\.tar\.gz')
    rd = re.compile(pat)

    def classify(rows):
        out = []
        ranks = {t: j for j, t in enumerate(sorted({z[2] for z in rows}))}
        for n, c, t in rows:
            a, b = rx.fullmatch(n), rd.fullmatch(n.split('/')[0]) if '/' in n else None
            g = a or b
            out.append({'n': n, 'id': c, 'm': ranks[t], 'ck': 1 if a else 0,
                        'ix': int(g.group(1)) if g and g.group(1) else -1})
        return out
    bopen = builtins.open
    addfile, close, dump, add = tarfile.TarFile.addfile, tarfile.TarFile.close, dill.dump, tarfile.TarFile.add
    for kind, nth, fresh in case['acts']:
        if fresh:
            m = build()
        cnt = [0]

        def tick(exc):
            cnt[0] += 1
            if cnt[0] == nth:
                raise exc

        def f_addfile(self, *a, **k):
            tick(KeyboardInterrupt() if kind == 'kbd' else OSError(28, 'No space left on device'))
            return addfile(self, *a, **k)

        def f_close(self):
            done = self.closed
            close(self)
            if not done:
                raise OSError(28, 'No space left on device')

        def f_dump(*a, **k):
            tick(OSError(28, 'No space left on device'))
            return dump(*a, **k)
        def f_bopen(name, mode='r', *a, **k):
            if 'r' not in mode and str(name).endswith('.tar.gz'):
                raise KeyboardInterrupt() if kind == 'kbdopen' else OSError(24, 'Too many open files')
            return bopen(name, mode, *a, **k)
        before = listing(ckdir, ids)
        shadow = None
        if kind in ('open', 'kbdopen'):  # the archive cannot even be created
            builtins.open = tarfile.bltn_open = f_bopen
        if kind in ('arch', 'kbd'):
            tarfile.TarFile.addfile = f_addfile
        if kind == 'close':
            tarfile.TarFile.close = f_close
        if kind == 'dill':
            dill.dump = f_dump
        if kind == 'tree':  # a user component writes something unusual into the directory being archived
            shadow = m.opt_log.checkpoint_save
            m.opt_log.checkpoint_save = lambda path='': (_ for _ in ()).throw(OSError(28, 'No space left on device'))
        Shy.armed, Shy.task = kind == 'mgr', kind == 'task'
        err = ''
        try:
            m.checkpoint()
        except BaseException as e:
            err = type(e).__name__
        tarfile.TarFile.addfile, tarfile.TarFile.close, dill.dump, tarfile.TarFile.add = addfile, close, dump, add
        builtins.open = tarfile.bltn_open = bopen
        if shadow is not None:
            del m.opt_log.checkpoint_save
        Shy.armed = Shy.task = False
        known = {c for c in ids}
        after = listing(ckdir, ids)
        old = {(n, c) for n, c, _ in before}
        fresh_ck = [n for n, c, _ in after if (n, c) not in old]
        good = 1
        for n in fresh_ck:
            stamp(ckdir / n) if not n.endswith('/') else None
            try:
                with tarfile.open(ckdir / n, 'r:gz') as t:
                    good = good and ('manager' in t.getnames())
                if rx.fullmatch(n):
                    m2 = gm()
                    m2.load_checkpoint(ckdir / n, working_dir=Path(scratch) / 'wd2', overwrite_existing=True, task=drive.LabTask())
                    good = good and m2.is_initialised
            except Exception:
                good = 0
        ev('ck', kp=case['kp'], rcf=1 if case['rcf'] else 0, must=1 if kind in ('mgr', 'arch', 'close', 'kbd', 'tree', 'open', 'kbdopen') else 0,
           ok=1 if kind in ('', 'task') else 0, kbd=1 if kind.startswith('kbd') else 0, err=err, kind=kind, cnt=1 if '%(count)' in fmt else 0,
           before=classify(before), after=classify(after), good=1 if good else 0)
