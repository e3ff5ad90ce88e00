"""P15: the optimizer log in memory and with a file under any sequence of operations."""
import random

import coop

TAG = 'P15'
FORK = False
coop.install()
SPEC = {900000: float('inf'), 900001: float('nan'), -900000: float('-inf')}


def gen(seed):
    r = random.Random(f'log{seed}')
    file = r.random() < .5
    weird = r.random() < .4
    ops = []
    st = {}  # o -> 'new', 'hist', 'gone'
    ex = {}
    for _ in range(r.randint(4, 40)):
        z = r.random()
        live = [o for o in st if st[o] != 'gone']
        hist = [o for o in st if st[o] == 'hist']
        if not st or z < .08:
            o = len(st) + 1
            st[o] = 'new'
            ops.append(['add', o, r.choice(['A', 'B'])])
        elif z < .6 and live:
            o = r.choice(live)
            if st[o] == 'new':
                ex[o] = r.random() < .3
                ops.append(['hist', o, int(ex[o])])
                st[o] = 'hist'
            for _ in range(r.choice([1, 1, 1, 4])):
                fx = r.randint(-9, 9)
                if weird and r.random() < .4:
                    fx = r.choice([900000, 900001, 900001, -900000 if r.random() < .3 else 900000])
                ops.append(['put', o, fx, [r.randint(-9, 9), r.randint(-9, 9)], r.randint(1, 50) if ex[o] else 0])
        elif z < .66 and live:
            ops.append(['msg', r.choice(live), r.choice(['hello', 'a b', 'x' * 30, 'é✓'])])
        elif z < .74 and st:
            o = r.choice([*st] if file else live or [0])
            if o:
                ops.append(['meta', o, r.choice(['end_cond', 'settings']), r.choice(['p', 'q', 'long text'])])
        elif z < .8 and live:
            o = r.choice(live)
            st[o] = 'gone'
            ops.append(['clear', o])
        elif z < .84:
            ops.append(['flush', r.choice([0] + [*st])])
        elif z < .9:
            ops.append(['saveload'])
        else:
            ops.append(['ask'])
    ops.append(['ask'])
    return dict(file=int(file), traj=int(r.random() < .2), size=r.choice([100, 4 * 10 ** 7, 2 * 10 ** 8]), ops=ops)


def code(v):
    v = float(v)
    return 900001 if v != v else 900000 if v == float('inf') else -900000 if v == float('-inf') else int(v) if v == int(v) else 888888


def number(c, kind):
    import numpy as np
    if abs(c) > 99:
        return [float, np.float64, np.float32, float, np.float64][kind](SPEC[c])
    return [float, np.float64, np.float32, int, np.int64][kind](c)


def run(case, scratch, ev):
    import datetime
    import os
    import warnings
    import tables as tb
    warnings.simplefilter('ignore')
    from glompo.common.namedtuples import IterationResult
    from glompo.core import optimizerlogger as ol
    ol.deepsizeof = lambda o: case['size']
    path = os.path.join(scratch, 'log.h5')
    if case['file']:
        log = ol.FileLogger(2, 100, bool(case['traj']))
        log.open(path, 'w', 'chk')
    else:
        log = ol.BaseLogger(bool(case['traj']))
        log.open(path, 'w', 'chk')
    heads = {}

    def best(b):
        return dict(o=int(b['opt_id']), fx=code(b['fx']), c=int(b['call_id']), x=[code(v) for v in b['x']], t=b['type'])

    def ask(what):
        opts = []
        for o in range(1, log.n_optimizers + 1):
            cols = [list(log.get_history(o, k)) for k in ('call_id', 'x', 'fx')]
            rows = [[int(c), [code(v) for v in x], code(f)] for c, x, f in zip(*cols)]
            same = int(len({len(c) for c in cols}) == 1)
            extra = []
            if heads.get(o) and rows:
                extra = [[int(a), int(b)] for a, b in zip(log.get_history(o, 'a'), log.get_history(o, 'b'))]
            meta = {}
            for k in ('opt_type', 'opt_id', 'end_cond', 'settings'):
                try:
                    meta[k] = str(log.get_metadata(o, k))
                except KeyError:
                    meta[k] = '?'
            opts.append(dict(inn=int(o in log), len=int(log.len(o)), rows=rows, same=same, extra=extra, meta=meta, best=best(log.get_best_iter(o)),
                             has=int(log.has_iter_history(o))))
        ev('ask', opts=opts, total=len(log), n=int(log.n_optimizers), max=code(log.largest_eval), best=best(log.get_best_iter()), how=what)

    for op in case['ops']:
        k = op[0]
        if k == 'add':
            log.add_optimizer(op[1], op[2], datetime.datetime(2020, 1, 1))
        elif k == 'hist':
            heads[op[1]] = op[2]
            log.add_iter_history(op[1], {'a': tb.Float64Col(pos=0), 'b': tb.Int64Col(pos=1)} if op[2] else None)
        elif k == 'put':
            log.put_iteration(IterationResult(op[1], [float(v) for v in op[3]], number(op[2], case.get('num', 0)),
                                              (2.0 * op[4], op[4]) if op[4] else ()))
        elif k == 'msg':
            log.put_message(op[1], op[2])
        elif k == 'meta':
            log.put_metadata(op[1], op[2], op[3])
        elif k == 'clear':
            log.clear_cache(op[1])
        elif k == 'flush':
            log.flush(op[1] or None)
        elif k == 'saveload':
            log.flush()
            log.checkpoint_save(scratch)
            new = type(log).checkpoint_load(os.path.join(scratch, 'opt_log'))
            log.close()
            log = new
            log.open(path, 'a', 'chk2')
        elif k in ('plot', 'trials'):
            import u_plot
            u_plot.draw(log, op, scratch, ev)
            continue
        ev('op', op=[str(z) for z in op[:2]], o=op[1] if len(op) > 1 else 0, fx=op[2] if k == 'put' else 0, x=op[3] if k == 'put' else [],
           ex=op[4] if k == 'put' else op[2] if k == 'hist' else 0, a=op[2] if k in ('add', 'msg', 'meta') else '', b=op[3] if k == 'meta' else '')
        if k in ('ask', 'saveload'):
            ask(k)
    if case['file']:
        n = int(log.n_optimizers)
        log.close()
        with tb.open_file(path, 'r') as fh:
            opts = []
            for o in range(1, n + 1):
                g = fh.get_node(f'/optimizer_{o}')
                rows, extra, bst = [], [], []
                if 'iter_hist' in g:
                    t = g['iter_hist']
                    rows = [[int(c), [code(v) for v in x], code(f)] for c, x, f in zip(t.col('call_id'), t.col('x'), t.col('fx'))]
                    if heads.get(o):
                        extra = [[int(a), int(b)] for a, b in zip(t.col('a'), t.col('b'))]
                if 'best_iter' in g._v_attrs:
                    bst = [best(g._v_attrs['best_iter'])]
                opts.append(dict(rows=rows, extra=extra, msgs=[str(m) for m in g['messages']], best=bst,
                                 meta={k: str(g._v_attrs[k]) if k in g._v_attrs else '?' for k in ('opt_type', 'opt_id', 'end_cond', 'settings')}))
            ra = fh.root._v_attrs
            ev('file', opts=opts, total=int(ra['f_counter']), n=int(ra['opts_started']), max=code(ra['max_eval']), best=best(ra['best_iter']),
               groups=sum(1 for _ in fh.iter_nodes('/', 'Group')))
