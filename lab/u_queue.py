"""P02: the results queue under cooperative threads and in sequential use."""
import random
import time as _t

import coop

TAG = 'P02'
FORK = True


class REAL:
    monotonic, sleep = _t.monotonic, _t.sleep


coop.install()


def gen(seed):
    r = random.Random(f'q{seed}')
    size, chunk = r.choice([1, 2, 3, 5, 10]), r.choice([1, 2, 3, 4, 10])
    if r.random() < .35:
        ops = [r.choice(['nowait', 'nowait', 'nowait', 'put', 'get', 'get', 'state', 'incache', 'flush', 'putnb'] if r.random() < .9 else ['state'])
               for _ in range(r.randint(5, 40))]
        if r.random() < .5:
            ops = [o for o in ops if o not in ('incache', 'putnb')]
        return dict(mode='seq', size=size, chunk=chunk, ops=ops)
    odd = r.random() < .35
    prods = []
    for p in range(r.randint(1, 4)):
        ops = []
        for _ in range(r.randint(1, 14)):
            ops.append(r.choice(['nowait'] * 8 + (['put', 'putto', 'putnb', 'incache'] if odd else [])))
        ops.append('put')
        prods.append(ops)
    return dict(mode='par', size=size, chunk=chunk, prods=prods, seed=seed, strat=r.choice(['weights', 'uniform', 'sticky', 'mgr', 'opts']),
                lazy=r.choice([0, 0, .3, 1.5]), cget=r.choice(['block', 'nowait', 'to']), odd=1 if odd else 0)


def run(case, scratch, ev):
    import os
    import json
    import queue
    import threading
    lab = coop.Lab(case.get('seed', 0), case.get('strat', 'sticky'), 20000)
    coop.activate(lab)
    from glompo.core._backends import ChunkingQueue
    q = coop.cooperate(ChunkingQueue(case['size'], case['chunk']))

    evs = ev.__closure__

    def stuck(kind):
        ev('stuck')
        out = [c.cell_contents for c in evs if isinstance(c.cell_contents, list)][0]
        with open(f'{scratch}/out.json', 'w') as fh:
            json.dump(out, fh)
        os._exit(0)
    lab.on_stuck = stuck

    def put(p, k, op):
        item = [p, k]
        ev('beg', p=p, k=k, op=op, sz=q.qsize())
        ok = 1
        try:
            if op == 'nowait':
                q.put_nowait(item)
            elif op == 'put':
                q.put(item)
            elif op == 'putnb':
                q.put(item, False)
            elif op == 'putto':
                q.put(item, True, 0.2)
            else:
                q.put_incache(item)
        except queue.Full:
            ok = 0
        ev('end', p=p, k=k, op=op, ok=ok, sz=q.qsize())

    def got(chunk):
        ev('get', it=[list(i) for i in chunk], sz=q.qsize())

    if case['mode'] == 'seq':
        n = 0
        nq = nc = fast = 0  # what a sequential user knows about the queue: used to avoid operations that would block
        for op in case['ops']:
            if op in ('nowait', 'put', 'putnb', 'incache'):
                if op == 'put' and nq >= case['size']:
                    continue
                if op == 'nowait' and fast and nc + 1 >= case['chunk'] and nq >= case['size']:
                    continue
                n += 1
                put(1, n, op)
            elif op == 'get':
                try:
                    got(q.get_nowait())
                except queue.Empty:
                    ev('empty')
            elif op == 'flush':
                try:
                    q.flush(False)
                    ev('flush', ok=1, sz=q.qsize())
                except queue.Full:
                    ev('flush', ok=0, sz=q.qsize())
            nq = q.qsize()
            held = q.has_cache()
            if op == 'incache' or (op in ('nowait', 'putnb') and held):
                fast = 1
            nc = nc + 1 if op in ('nowait', 'incache', 'putnb') and held else (nc if held else 0)
            ev('state', cache=1 if held else 0, sz=nq, em=1 if q.empty() else 0)
    else:
        done = []

        def producer(p):
            for k, op in enumerate(case['prods'][p - 1], 1):
                put(p, k, op)
            done.append(p)
        ths = [threading.Thread(target=producer, args=(p,), name=f'P{p}') for p in range(1, len(case['prods']) + 1)]
        for t in ths:
            t.start()
        r = random.Random(case['seed'])
        while len(done) < len(ths):
            if r.random() < case['lazy'] / 3:
                coop.LAB.sleep(case['lazy'])
            try:
                if case['cget'] == 'block' and False:
                    got(q.get())
                elif case['cget'] == 'to':
                    got(q.get(True, 0.05))
                else:
                    got(q.get_nowait())
            except queue.Empty:
                coop.LAB.sleep(0.01)
    while True:
        try:
            got(q.get_nowait())
        except queue.Empty:
            if not q.has_cache():
                break
            q.flush(False)
    ev('over', cache=1 if q.has_cache() else 0, sz=q.qsize(), em=1 if q.empty() else 0)
