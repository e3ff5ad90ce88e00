"""P26: the scope shows what it was given. Drawing itself (the canvas) is replaced by a counter."""
import os
import random

TAG = 'P26'
FORK = False
os.environ.setdefault('MPLBACKEND', 'agg')
INF, NAN = 900000, 900001


def gen(seed):
    r = random.Random(f'scope{seed}')
    log = r.random() < .25
    n = r.randint(1, 4)
    vals = [0, 1, 2, 3, 4] if log else r.choice([[5, 4, 3, 2, 1, 0, -1], list(range(-9, 9)), [3, 2, 2, INF, 1], [3, 2, NAN, 1, 5]])
    ops = []
    x = 0
    known = []
    for _ in range(r.randint(4, 60)):
        z = r.random()
        if not known or (len(known) < n and z < .15):
            known.append(len(known) + 1)
            ops.append(['add', known[-1], 0, 0])
        elif z < .75:
            x += 1 if r.random() < .9 else r.randint(2, 30)
            ops.append(['upd', r.choice(known), x, r.choice(vals)])
        elif z < .95:
            ops.append([r.choice(['kill', 'norm', 'crash', 'pause', 'chk', 'far', 'far']), r.choice(known), 0, 0])
        elif z < .98:
            ops.append(['reload', 0, 0, 0])
        else:
            ops.append(['interrupt', r.choice(known), x, r.choice(vals)])
    return dict(log=int(log), elite=int(r.random() < .4), epf=r.choice([1, 3, 10]), win=r.choice([0, 0, -1, 2, 5, 12, 300]), ops=ops)


def enc(v):
    v = float(v)
    if v != v:
        return NAN
    if v in (float('inf'), -float('inf')):
        return INF if v > 0 else -INF
    return int(round(v)) if abs(v - round(v)) < 1e-6 else 777777


def run(case, scratch, ev):
    import warnings
    warnings.simplefilter('ignore')
    from pathlib import Path
    from glompo.core.scope import GloMPOScope
    os.makedirs(scratch, exist_ok=True)
    kw = dict(x_range=None if case['win'] == 0 else (0, 500) if case['win'] < 0 else case['win'], log_scale=bool(case['log']),
              elitism=bool(case['elite']), events_per_flush=case['epf'])
    sc = GloMPOScope(**kw)
    box = {'n': 0, 'kbd': False}

    def arm(s):
        def draw(*a, **k):
            box['n'] += 1
            if box['kbd']:
                box['kbd'] = False
                raise KeyboardInterrupt
        s.fig.canvas.draw = draw

    arm(sc)

    def look():
        return dict(lines=[[[int(x), enc(y)] for x, y in zip(*sc.opt_streams[o].get_data())] for o in sorted(sc.opt_streams)],
                    ids=sorted(sc.opt_streams), n=sc.n_streams, draws=box['n'],
                    marks=[[[int(x), enc(y)] for x, y in zip(*sc.gen_streams[t].get_data())]
                           for t in ('opt_kill', 'opt_norm', 'opt_crash', 'pause', 'chkpt')])
    try:
        for op, o, x, y in case['ops']:
            far = []
            lost = 0
            v = {INF: float('inf'), NAN: float('nan')}.get(y, float(y))
            if op == 'add':
                sc.add_stream(o, 'Some')
            elif op in ('upd', 'interrupt'):
                box['kbd'] = op == 'interrupt'
                n = box['n']
                try:
                    sc.update_optimizer(o, (x, 10 ** v if case['log'] else v))
                    lost = 1 if op == 'interrupt' and box['n'] > n else 0
                except KeyboardInterrupt:
                    pass
                box['kbd'] = False
            elif op == 'kill':
                sc.update_kill(o)
            elif op == 'norm':
                sc.update_norm_terminate(o)
            elif op == 'crash':
                sc.update_crash_terminate(o)
            elif op == 'pause':
                sc.update_pause(o)
            elif op == 'chk':
                sc.update_checkpoint(o)
            elif op == 'far':
                p = sc.get_farthest_pt(o)
                far = [] if p is None else [[int(p[0]), enc(p[1])]]
            else:
                del sc.fig.canvas.draw
                sc.checkpoint_save(scratch)
                old = sc
                sc = GloMPOScope()
                fresh = sc
                sc.load_state(scratch)
                arm(sc)
                import matplotlib.pyplot as plt
                plt.close('all')
            ev('op', op=op, o=o, x=x, y=y, far=far, lost=lost, **look())
    finally:
        import matplotlib.pyplot as plt
        plt.close('all')
