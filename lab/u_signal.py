"""P14/P01: what an optimizer does with the signals of the manager, and what it reports."""
import random

import coop

TAG = 'P14'
FORK = False
coop.install()

VALID = [['stop'], ['stopmsg', 'reason'], ['inject', [1.5, 2.0], 7.0], ['stop'], ['inject', [0.0, 1.0], -3.0], ['pass'], ['save', 'p1']]
JUNK = [['int', 17], ['int', -1], ['str', 'hello'], ['none'], ['tup', 9, 'x'], ['float', 2.5], ['list'], ['tup', 'a', 'b'], ['str', '']]


def gen(seed):
    r = random.Random(f'signal{seed}')
    batches = []
    for _ in range(r.randint(1, 4)):
        b = []
        for _ in range(r.randint(0, 7)):
            z = r.random()
            b.append(r.choice(JUNK) if z < .3 else r.choice(VALID))
        if r.random() < .4:
            b.insert(r.randint(0, len(b)), ['prepare'])
            b.append(r.choice([['pass'], ['save', 'p2']]))
            b += [r.choice(VALID + JUNK) for _ in range(r.randint(0, 3))]
        batches.append(b)
    calls = [[r.choice(['call', 'call', 'det']), r.randint(-5, 5), r.randint(-20, 20)] for _ in range(r.randint(0, 6))]
    return dict(batches=batches, calls=calls, isdet=int(r.random() < .3), hasdet=int(r.random() < .6), end=r.choice(['ok', 'ok', 'raise', 'kbd', 'broken']),
                oid=r.randint(1, 30), nextra=r.randint(0, 3))


def run(case, scratch, ev):
    import logging
    import threading
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import multiprocessing.connection as mc
    import _multiprocessing  # noqa
    import socket
    from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult
    done = []
    a, b = socket.socketpair()
    man, opt = mc.Connection(a.detach()), mc.Connection(b.detach())

    class Flag:
        def __init__(self):
            self.up = True

        def clear(self):
            self.up = False

        def set(self):
            self.up = True

        def is_set(self):
            return self.up

        def wait(self, timeout=None):
            done.append(['wait' if not self.up else 'nowait'])
            self.up = True  # the manager releases it
            return True

    class Queue:
        items = []

        def put(self, item, block=True, timeout=None):
            self.items.append(item)

        def put_nowait(self, item):
            self.items.append(item)

    Queue.items = []

    class Func:
        def __call__(self, x):
            return vals[int(x[0])]

    if case['hasdet']:
        def detailed_call(self, x):
            return (vals[int(x[0])], *[100 + k for k in range(case['nextra'])])
        Func.detailed_call = detailed_call
    vals = {}

    class Opt(BaseOptimizer):
        def minimize(self, function, x0, bounds, callbacks=None, **kw):
            for n, (kind, _, v) in enumerate(case['calls']):
                vals[n] = float(v)
                got = function([float(n)]) if kind == 'call' else function.detailed_call([float(n)])
                rets.append([kind, list(got) if isinstance(got, tuple) else got])
            if case['end'] == 'raise':
                raise ValueError('failed on purpose')
            if case['end'] == 'kbd':
                raise KeyboardInterrupt
            if case['end'] == 'broken':
                raise BrokenPipeError
            return MinimizeResult()

        def callstop(self, *args):
            done.append(['stop', *args])

        def checkpoint_save(self, path='', force=None):
            done.append(['save', path])

        def inject(self, x, fx):
            super().inject(x, fx)
            done.append(['inject', list(x), fx])

        def _checkpoint_pass(self):
            done.append(['pass'])

    o = Opt(_opt_id=case['oid'], _signal_pipe=opt, _results_queue=Queue(), _pause_flag=Flag(), is_log_detailed=bool(case['isdet']))
    for batch in case['batches']:
        done.clear()
        sent = []
        for m in batch:
            k = m[0]
            man.send({'stop': 1, 'pass': 3, 'prepare': 2}[k] if k in ('stop', 'pass', 'prepare') else (1, m[1]) if k == 'stopmsg' else
                     (4, m[1], m[2]) if k == 'inject' else (0, m[1]) if k == 'save' else m[1] if k in ('int', 'str', 'float') else
                     None if k == 'none' else [0, 1] if k == 'list' else tuple(m[1:]))
            sent.append(k)
        ret = o.check_messages()
        replies = []
        while man.poll():
            k, v = man.recv()
            replies.append(k)
        ev('signals', sent=[[str(z) for z in m] for m in batch], done=[[str(z) for z in m] for m in done], ret=[int(z) for z in ret],
           replies=replies, left=int(opt.poll()), inc=[str(o.incumbent['x']), str(o.incumbent['fx'])])
    rets = []
    err = ''
    import contextlib
    import io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            o._minimize(Func(), [0.0], [(-1, 1)], None)
    except BaseException as e:
        err = type(e).__name__
    msgs = []
    while man.poll():
        k, v = man.recv()
        msgs.append([k, int('failed on purpose' in str(v)), int('Traceback' in str(v))])
    q = []
    for it in Queue.items:
        if isinstance(it, int):
            q.append(dict(k='end', o=it, n=0, fx=0, ex=[]))
        else:
            q.append(dict(k='res', o=it.opt_id, n=int(it.x[0]), fx=int(it.fx), ex=[int(z) for z in it.extras]))
    ev('run', q=q, msgs=msgs, err=err, rets=[[k, [int(z) for z in v] if isinstance(v, list) else [int(v)], int(isinstance(v, list))] for k, v in rets])
    man.close()
    opt.close()
