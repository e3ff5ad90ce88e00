"""Scenario families. A scenario is plain data; everything random is drawn from the seed."""
import random

INF, NAN, NINF = 900000, 900001, -900000
STRATS = ['weights', 'weights', 'uniform', 'sticky', 'mgr', 'opts']


def fxlist(r, n, style=None):
    style = style or r.choice(['desc', 'rand', 'rand', 'zero', 'ties', 'weird', 'asc'])
    if style == 'desc':
        s = r.randint(-5, 30)
        return [s - i for i in range(n)]
    if style == 'asc':
        s = r.randint(-5, 10)
        return [s + i for i in range(n)]
    if style == 'zero':
        return [r.choice([0, 0, 1, 2, 3]) for _ in range(n)]
    if style == 'ties':
        return [r.choice([3, 4]) for _ in range(n)]
    if style == 'weird':
        return [r.choice([INF, NAN, 5, 0, -3, 7, INF, NINF if r.random() < .1 else 8]) for _ in range(n)]
    return [r.randint(-50, 50) for _ in range(n)]


def opt(r, lo=1, hi=14, wmax=1, **kw):
    n = r.randint(lo, hi)
    d = dict(w=r.randint(1, wmax), fx=fxlist(r, n), ce=r.choice([1, 1, 1, 2, 3, 7]))
    if r.random() < .4:
        d['dur'] = {str(k): r.choice([0.01, 0.3, 1.0, 1.2, 2.5]) for k in range(1, n + 1) if r.random() < .3}
    if r.random() < .3:
        d['fin_check'] = False
    if r.random() < .3:
        d['call'] = 1
    if r.random() < .3:
        d['cls'] = 'B'
    d.update(kw)
    return d


def base(seed, fam):
    r = random.Random(f'{fam}/{seed}')
    sc = dict(seed=seed, fam=fam, strat=r.choice(STRATS), backend=r.choice(['threads', 'processes']),
              jobs=r.randint(1, 4), summary=r.choice([0, 2, 2, 2]), hf=r.choice([1, 2, 3, 5, 8, 20]),
              ll=r.choice(['w', 'w', 'i', 'd']), check={'f': r.choice([5, 12, 25, 40, 10 ** 6])},
              sel_end=r.choice(['stop', 'stop', 'stop']), endto=None)
    return r, sc


def core(seed):
    """ Plain runs: optimizers evaluate and converge; no hunting. """
    r, sc = base(seed, 'core')
    sc['opts'] = [opt(r, wmax=min(3, sc['jobs'])) for _ in range(r.randint(1, 6))]
    return sc


def hunt(seed):
    r, sc = base(seed, 'hunt')
    sc['jobs'] = r.randint(2, 5)
    sc['hf'] = r.choice([1, 1, 2, 3, 5, 8])
    sc['opts'] = [opt(r, 4, 25, wmax=r.choice([1, 1, 2])) for _ in range(r.randint(2, 6))]
    sc['hunter'] = r.choice([{'kind': 'rand', 'p': .15}, {'kind': 'rand', 'p': .5}, {'kind': 'always'},
                             {'kind': 'worse'}, {'kind': 'min', 'n': 3}, {'kind': 'never'}])
    sc['aggr'] = r.random() < .3
    for o in sc['opts']:
        if r.random() < .2:
            o['deaf'] = True
        if r.random() < .3:
            o['quiet_stop'] = True
    if r.random() < .3:
        sc['check']['k'] = r.choice([1, 2, 3])
    return sc


def fast(seed):
    """ Queue saturation: many quick evaluations, few messages checks. """
    r, sc = base(seed, 'fast')
    sc['strat'] = r.choice(['opts', 'opts', 'sticky', 'weights'])
    sc['jobs'] = r.randint(1, 4)
    sc['opts'] = [opt(r, 20, 60, ce=r.choice([1, 5, 30, 100]), dur={}) for _ in range(r.randint(1, 4))]
    sc['check'] = {'f': r.choice([15, 60, 10 ** 6])}
    if r.random() < .4:
        sc['hunter'] = {'kind': 'rand', 'p': .2}
    if r.random() < .4:  # processes which are lost, while the last of what they reported still is in the cache of the queue
        sc['backend'] = 'processes'
        sc['check'] = {'f': 10 ** 6}
        for o in sc['opts']:
            if r.random() < .7:
                o['at'] = r.randint(10, len(o['fx']))
                o['act'] = 'die'
    return sc


def ends(seed):
    """ All the ways in which optimizers end, racing. """
    r, sc = base(seed, 'ends')
    sc['jobs'] = r.randint(1, 4)
    sc['opts'] = []
    for _ in range(r.randint(2, 7)):
        o = opt(r, 1, 10)
        o['end'] = r.choice(['conv', 'conv', 'silent', 'raise', 'exit', 'kbd', 'broken'])
        if r.random() < .3:
            o['at'] = r.randint(1, len(o['fx']))
            o['act'] = r.choice(['raise', 'exit', 'kbd', 'sleep', 'die'])
            o['nap'] = r.choice([1.5, 6])
        if r.random() < .4:
            o['msgs'] = {str(k): f'note {k}' for k in range(1, len(o['fx']) + 1) if r.random() < .4}
        if r.random() < .2:
            o['why'] = r.choice(['tolerance reached', 'maxiter', 'Optimizer convergence'])
        if r.random() < .15:
            o['linger'] = r.choice([0.5, 3, 8])
        sc['opts'].append(o)
    if r.random() < .5:
        sc['hunter'] = {'kind': 'rand', 'p': .3}
    if r.random() < .3:
        sc['task_raise'] = [[r.randint(1, 4), r.randint(1, 5)]]
    if sc['backend'] == 'processes' and r.random() < .4:
        sc['kills'] = [[round(r.uniform(0.01, 4), 3), r.randint(1, 4)] for _ in range(r.randint(1, 3))]
    return sc


def force(seed):
    """ Forced terminations: silent, slow, hung and disobedient processes. """
    r, sc = base(seed, 'force')
    sc['backend'] = r.choice(['processes', 'processes', 'processes', 'threads'])
    sc['force'] = r.choice([-1, 3, 5, 5])
    sc['jobs'] = r.randint(1, 3)
    sc['opts'] = []
    for _ in range(r.randint(1, 5)):
        o = opt(r, 1, 8)
        o['dur'] = {str(k): r.choice([0.5, 2.0, 2.9, 4.0, 4.9, 5.6, 7.0, 9.0]) for k in range(1, len(o['fx']) + 1)
                    if r.random() < .4}
        if r.random() < .25:
            o['at'], o['act'], o['nap'] = r.randint(1, len(o['fx'])), 'sleep', r.choice([4, 6, 15])
        if r.random() < .3 and sc['backend'] == 'processes' and sc['force'] > 0:
            o['at'], o['act'] = r.randint(1, len(o['fx'])), 'hang'
        if r.random() < .3:
            o['deaf'] = True
            o['ce'] = 1000
        if seed % 4 == 3 and len(sc['opts']) % 2 == 0 and 'at' not in o:  # announces its end long before it ends
            o['end'], o['linger'] = 'conv', [4, 6, 12][seed // 4 % 3]
        sc['opts'].append(o)
    if r.random() < .6:
        sc['hunter'] = r.choice([{'kind': 'rand', 'p': .4}, {'kind': 'always'}])
    sc['aggr'] = r.random() < .15
    sc['hf'] = r.choice([1, 2, 4])
    sc['check'] = {'f': r.choice([8, 30, 10 ** 6]), 'maxn': 60}
    if r.random() < .35:
        sc['ckpt'] = dict(checkpoint_iter_frequency=r.choice([1, 2, 4]), naming_format='c_%(count)')
        for o in sc['opts']:
            if r.random() < .15:
                o['save'] = 'slow' if sc['backend'] == 'threads' or sc['force'] <= 0 else r.choice(['slow', 'hang'])
            if sc['force'] <= 0 and o.get('act') == 'hang':  # nothing would ever end it
                del o['act']
        sc['resume'] = dict(which=r.choice([-1, 0, 1]), same=False, check={'f': r.choice([30, 10 ** 6]), 'maxn': 60},
                            gap=r.choice([0, 1, 20, 4000]))
    return sc


def share(seed):
    r, sc = base(seed, 'share')
    sc['share'] = r.random() < .85
    sc['jobs'] = r.randint(2, 4)
    sc['opts'] = [opt(r, 3, 14) for _ in range(r.randint(2, 5))]
    if r.random() < .4:
        sc['hunter'] = {'kind': 'rand', 'p': .25}
    if seed % 6 == 3:  # some are lost, with what was shared unread
        for o in sc['opts'][::2]:
            o['at'], o['act'], o['ce'] = r.randint(2, len(o['fx'])), r.choice(['die', 'raise', 'exit']), r.choice([1, 3, 50])
            if r.random() < .5:
                o['fin_check'] = False
    return sc


def faults(seed):
    """ A user component fails at some call, or the user interrupts. """
    r, sc = base(seed, 'faults')
    sc['jobs'] = r.randint(1, 4)
    sc['opts'] = [opt(r, 2, 14) for _ in range(r.randint(2, 6))]
    for o in sc['opts']:
        if r.random() < .2:
            o['deaf'], o['ce'] = True, r.choice([1, 50])
        if r.random() < .2:
            o['end'] = r.choice(['silent', 'raise'])
    sc['hunter'] = {'kind': 'rand', 'p': .2} if r.random() < .7 else None
    comp = r.choice(['sel', 'gen', 'hunt', 'conv', 'conv'])
    sc['faults'] = [[comp, r.randint(1, 6), r.choice(['value', 'key', 'run', 'type', 'kbd', 'idx'])]]
    sc['check'] = {'f': 60}
    return sc


def stop(seed):
    """ Ending while the queue is busy and optimizers are slow to listen. """
    r, sc = base(seed, 'stop')
    sc['jobs'] = r.choice([1, 3, 6, 12])
    sc['strat'] = r.choice(['opts', 'weights', 'sticky'])
    sc['opts'] = [opt(r, 20, 50, dur={}, ce=r.choice([1, 10, 25, 60])) for _ in range(r.randint(1, 12))]
    for o in sc['opts']:
        if r.random() < .15:
            o['dur'] = {'3': 15.0}
    sc['check'] = {'f': r.choice([1, 10, 30])}
    return sc


def manual(seed):
    r, sc = base(seed, 'manual')
    sc['jobs'] = r.randint(1, 3)
    sc['opts'] = [opt(r, 6, 20) for _ in range(r.randint(2, 5))]
    for o in sc['opts']:
        o['dur'] = {str(k): 0.6 for k in range(1, len(o['fx']) + 1) if r.random() < .6}
    for o in sc['opts']:
        if r.random() < .2:
            o['linger'] = r.choice([1, 4, 9])
            o['fx'] = o['fx'][:r.randint(2, 6)]
    names = ['STOP_1', 'STOP_2', 'STOP_3', 'STOP_99', 'STOP_', 'STOP_x', 'STOP_1_2', 'STOP_0', 'STOPPED', 'STOP_-1',
             'STOP_1.5', 'STOP_1', 'STOP_2']
    sc['files'] = [[round(r.uniform(0.001, 8), 3), r.choice(names)] for _ in range(r.randint(1, 5))]
    if r.random() < .5:
        sc['files'].append([round(r.uniform(0.001, 6), 3), 'CHKPT'])
    if r.random() < .5:
        sc['ckpt'] = dict(naming_format='c_%(count)')
    if r.random() < .4:
        sc['hunter'] = {'kind': 'rand', 'p': .2}
    sc['check'] = {'f': r.choice([25, 10 ** 6])}
    return sc


def ckpt(seed):
    """ Checkpoints at all sorts of moments, then a restart. """
    r, sc = base(seed, 'ckpt')
    sc['jobs'] = r.randint(1, 4)
    quick = r.random() < .4
    sc['opts'] = [opt(r, 5, 60 if quick else 25, **({'dur': {}} if quick else {})) for _ in range(r.randint(1, 5))]
    if quick:
        sc['strat'] = r.choice(['opts', 'sticky', 'weights'])
        for o in sc['opts']:
            o['ce'] = r.choice([1, 4, 15, 40])
    sc['ckpt'] = dict(checkpoint_iter_frequency=r.choice([1, 3, 7, 15]), naming_format='c_%(count)',
                      keep_past=r.choice([-1, -1, 0, 1, 2]))
    if r.random() < .2:
        sc['ckpt']['checkpoint_time_frequency'] = r.choice([0.5, 2])
    if r.random() < .3:
        sc['ckpt']['checkpoint_at_conv'] = True
    if r.random() < .2:
        sc['ckpt']['checkpoint_at_init'] = True
    if r.random() < .5:
        sc['hunter'] = {'kind': 'rand', 'p': r.choice([.1, .4])}
        sc['aggr'] = r.random() < .2
    for o in sc['opts']:
        if r.random() < .3:
            o['end'] = r.choice(['silent', 'conv', 'raise', 'exit'])
        if r.random() < .2:
            o['msgs'] = {str(k): f'note {k}' for k in range(1, len(o['fx']) + 1) if r.random() < .3}
        if r.random() < .1:
            o['quiet_stop'] = True
    if sc['backend'] == 'processes' and r.random() < .2:
        sc['kills'] = [[round(r.uniform(0.01, 2), 3), r.randint(1, 4)]]
    sc['check'] = {'f': r.choice([20, 45, 10 ** 6])}
    sc['summary'] = r.choice([0, 2, 2])
    if r.random() < .8:
        sc['resume'] = dict(which=r.choice([-1, -1, 0, 1]), same=False, check={'f': r.choice([60, 10 ** 6])})
        if r.random() < .35:
            sc['resume']['over'] = dict([r.choice([('hf', 1), ('hf', 7), ('share', True), ('aggr', True),
                                                   ('jobs', sc['jobs'] + 1), ('jobs', max(1, sc['jobs'] - 1)), ('jobs', max(1, sc['jobs'] // 2))])])
        sc['resume']['gap'] = r.choice([0, 0, 3, 5000])
        if r.random() < .45:
            sc['resume'] = [sc['resume'], dict(which=r.choice([-1, -1, 0]), same=False, check={'f': 10 ** 6}, gap=r.choice([0, 70]))]
    return sc


def sched(seed):
    """ Two schedules of checkpoints, by evaluations and by time, which get in each other's way. """
    sc = ckpt(7000 + seed)
    r = random.Random(f'sched/{seed}')
    sc['fam'] = 'sched'
    sc['ckpt'].update(checkpoint_iter_frequency=r.choice([3, 7, 15, 30]), checkpoint_time_frequency=r.choice([.05, .2, .5, 1, 2]))
    return sc


def ckfail(seed):
    """ Checkpoints which fail. """
    r, sc = base(seed, 'ckfail')
    sc['jobs'] = r.randint(1, 4)
    sc['opts'] = [opt(r, 8, 25) for _ in range(r.randint(2, 5))]
    sc['ckpt'] = dict(checkpoint_iter_frequency=r.choice([3, 7]), naming_format='c_%(count)',
                      raise_checkpoint_fail=r.random() < .3, keep_past=r.choice([-1, 0, 1]))
    for o in sc['opts']:
        if r.random() < .5:
            o['save'] = r.choice(['raise', 'nofile', 'slow', 'die'])
            if r.random() < .6:
                o['save_n'] = r.randint(1, 3)
    if r.random() < .3:
        sc['task'] = r.choice(['gen', 'lock', 'pickle', 'value'])
        if r.random() < .3:
            sc['task_save'] = 'raise'
    if r.random() < .3:
        sc['hunter'] = {'kind': 'rand', 'p': .2}
    sc['check'] = {'f': r.choice([20, 45])}
    return sc


def flog(seed):
    """ Runs with a log file, with and without checkpoints and restarts. """
    r = random.Random(f'flog/{seed}')
    sc = r.choice([core, hunt, ends, ckpt, ckpt, ckpt])(seed)
    sc['fam'] = 'flog'
    sc["summary"] = 3
    (sc.get("ckpt") or {}).pop("checkpoint_at_init", None)
    if r.random() < .15 and sc['backend'] == 'threads':
        sc['det'] = True
    if sc.get('resume'):
        rs = sc['resume'] if isinstance(sc['resume'], list) else [sc['resume']]
        rs[0]['same'] = r.random() < .75
        rs[0]['nofile'] = not rs[0]['same']
        sc['resume'] = rs[:1]
    return sc


def det(seed):
    """ Detailed evaluations: by configuration or by choice of the optimizer; columns announced or inferred. """
    r = random.Random(f'det/{seed}')
    sc = r.choice([core, hunt, ends, ckpt, ckpt, ckpt, fast])(seed)
    sc['fam'] = 'det'
    sc['summary'] = r.choice([2, 3, 3])
    (sc.get('ckpt') or {}).pop('checkpoint_at_init', None)
    sc['det'] = r.random() < .6
    how = r.choice(['none', 'bare', 'plain', 'plain', 'pos', 'fx', 'fx', 'fxpos'])
    n = r.randint(1, 4)
    kinds = [r.choice(['float', 'float', 'int', 'bool', 'str', 'arr', 'arr', 'nest', 'none', 'cplx']) for _ in range(n)]
    names = r.sample(['zeta', 'alpha', 'residuals', 'm_1', 'Beta', 'errors', 'x2', 'ab', 'validation_fx'], n)
    if how in ('none', 'bare'):
        names = [f'result_{j}' for j in range(n)]
    sc['dx'] = dict(how=how, cols=[list(z) for z in zip(names, kinds)], buf=r.random() < .3, peek=r.random() < .5)
    share = r.choice([0, 0, .5, 1])
    for o in sc['opts']:
        if r.random() < share:
            o['detcall'] = 1
    if sc.get('resume'):
        rs = sc['resume'] if isinstance(sc['resume'], list) else [sc['resume']]
        if sc['summary'] == 3:
            rs[0]['same'] = r.random() < .75
            rs[0]['nofile'] = not rs[0]['same']
        elif r.random() < .4:
            rs[0]['over'] = dict(rs[0].get('over', {}), summary=3)
        sc['resume'] = rs[:1]
    return sc


def relog(seed):
    """ Other products are asked for when resuming. """
    sc = ckpt(seed)
    r = random.Random(f'relog/{seed}')
    sc['fam'] = 'relog'
    (sc.get('ckpt') or {}).pop('checkpoint_at_init', None)
    a, b = r.choice([(0, 3), (1, 3), (1, 3), (2, 3), (3, 0), (3, 1), (3, 2), (0, 2), (1, 2), (2, 1)])
    sc['summary'] = a
    rs = sc.get('resume') or dict(which=r.choice([-1, -1, 0, 1]), check={'f': r.choice([60, 10 ** 6])})
    rs = rs[0] if isinstance(rs, list) else rs
    rs['over'] = dict(rs.get('over', {}), summary=b)
    rs['same'] = a < 3 and r.random() < .5
    sc['resume'] = [rs]
    return sc


def timed(seed):
    """ Slow evaluations and an exit condition which is a matter of time; obstinate optimizers at the end. """
    r, sc = base(seed, 'timed')
    sc['jobs'] = r.randint(1, 4)
    sc['opts'] = [opt(r, 3, 10) for _ in range(r.randint(1, 5))]
    for o in sc['opts']:
        o['dur'] = {str(k): r.choice([0.2, 1.0, 2.5, 4, 9]) for k in range(1, len(o['fx']) + 1) if r.random() < .7}
        if r.random() < .4:
            o['deaf'], o['ce'] = True, r.choice([1, 100])
        if r.random() < .2:
            o['linger'] = r.choice([1, 5])
    if r.random() < .6:
        sc['hunter'] = r.choice([{'kind': 'rand', 'p': .4}, {'kind': 'always'}])
        sc['hf'] = r.choice([1, 2, 3])
    sc['endto'] = r.choice([None, 0.5, 3])
    sc['check'] = {'t': r.choice([0.5, 2, 5, 9, 14])}
    return sc


def vis(seed):
    """ Runs with the scope. """
    r = random.Random(f'vis/{seed}')
    sc = r.choice([core, hunt, ends, ckpt, ckpt, manual, faults, share])(seed)
    sc['fam'] = 'vis'
    sc['vis'] = dict(win=r.choice([0, 0, 4, 25, 300]), epf=r.choice([1, 3, 10]), elite=r.choice([0, 0, 1]))
    return sc


def shrink(seed):
    """ Resuming with fewer slots than the optimizers of the checkpoint had. """
    r = random.Random(f'shrink/{seed}')
    sc = ckpt(seed)
    sc['jobs'] = r.randint(2, 6)
    sc['fam'] = 'shrink'
    sc['opts'] += [opt(r, 10, 30) for _ in range(r.randint(0, 3))]
    for o in sc['opts']:
        o['w'] = r.randint(1, max(1, sc['jobs'] // 2))
        o.pop('at', None)
    if r.random() < .6:
        sc.pop('kills', None)
        sc.pop('hunter', None)
        sc['check'] = {'f': r.choice([8, 15, 25])}
    rs = sc['resume'] if isinstance(sc.get('resume'), list) else [sc['resume']] if sc.get('resume') else [
        dict(which=-1, same=False, check={'f': 60}, gap=0)]
    for q in rs:
        q['over'] = {'jobs': r.randint(1, sc['jobs'])}
        q['which'] = r.choice([0, 1, 2, -1])
    sc['resume'] = rs
    return sc


def prints(seed):
    """ Everyone prints, whatever happens. """
    r = random.Random(f'prints/{seed}')
    sc = FAMILIES[r.choice(['core', 'hunt', 'ends', 'ends', 'force', 'faults', 'ckpt', 'ckpt', 'stop'])](seed)
    sc.update(split=True, fam='prints')
    return sc


FAMILIES = dict(sched=sched, det=det, shrink=shrink, prints=prints, vis=vis, relog=relog, timed=timed, flog=flog, core=core, hunt=hunt, fast=fast, ends=ends, force=force, share=share, faults=faults, stop=stop,
                manual=manual, ckpt=ckpt, ckfail=ckfail)


def make(fam, seed):
    sc = FAMILIES[fam](seed)
    sc['id'] = seed
    if sc['backend'] == 'threads':  # system exits are only defined for processes
        for o in sc['opts']:
            for z in ('end', 'act'):
                if o.get(z) in ('exit', 'die'):
                    o[z] = 'raise'
    sc['faults'] = [f for f in sc.get('faults', []) if not (f[0] == 'conv' and f[1] == 1 and f[2] == 'kbd')]
    if sc.get('summary') == 2 and seed % 5 == 2 and fam != 'relog':
        sc['summary'] = 1
    for n, rs in enumerate(sc['resume'] if isinstance(sc.get('resume'), list) else [sc['resume']] if sc.get('resume') else []):
        rs['report'] = (seed + n) % 3 == 0
    if seed % 4 == 1:  # optimizers which keep only one vector in memory
        for o in sc['opts'][seed // 4 % 2:]:
            o['inplace'] = True
    if sc['backend'] == 'processes' and seed % 3 == 0:
        sc['eof'] = True
    return sc
