"""P22: split print streams of threads and processes (real threads and processes, taking turns)."""
import os
import random
import re

TAG = 'P22'
FORK = True
WORDS = [' ', '\n', ' a b\n', '\n\n', ', "x"\n', ' \t']


def gen(seed):
    r = random.Random(f'print{seed}')
    kind = 'proc' if r.random() < .12 else 'thread'
    n = r.randint(1, 5 if kind == 'thread' else 3)
    ids = r.sample([*range(1, 13)], n)
    ts = []
    for o in ids:
        ops = [r.choice(['out', 'out', 'err', 'print', 'print', 'perr', 'multi', 'sub']) if kind == 'thread' else r.choice(['out', 'err', 'print', 'perr', 'multi'])
               for _ in range(r.randint(0, 6))]
        if kind == 'thread' and r.random() < .3:
            ops.insert(r.randint(0, len(ops)), 'flush')
        z = r.random()
        ops.append('raise' if z < .2 else 'exit' if z < .25 and kind == 'proc' else 'end')
        ts.append(dict(o=o, redir=int(kind == 'proc' or r.random() < .85), ops=ops))
    # who acts: a number is the next operation of that thread (started when first named), 0 is the manager
    left = [len(t['ops']) + 1 for t in ts]
    order = []
    alive = set()
    width = r.choice([1, 2, 5])
    while any(left):
        if r.random() < .2:
            order.append(0)
        cand = [j for j in range(n) if left[j] and (j in alive or len(alive) < width)]
        j = r.choice(cand)
        alive.add(j)
        left[j] -= 1
        if not left[j]:
            alive.discard(j)
        order.append(j + 1)
    order += [0] * r.randint(0, 2)
    return dict(kind=kind, ts=ts, order=order, w=[r.choice(WORDS) for _ in range(7)], setup=int(r.random() < .93),
                old=int(r.random() < .25))


def tokens(text):
    return [int(z) for z in re.findall(r'<(\d+)>', text)]


def run(case, scratch, ev):
    import io
    import sys
    import threading
    import warnings
    import logging
    from pathlib import Path
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, os.environ['PYTHONPATH'])
    from glompo.core._backends import CustomThread, ThreadPrintRedirect
    from glompo.common.wrappers import process_print_redirect
    wd = Path(scratch)
    (wd / 'glompo_optimizer_printstreams').mkdir()
    for t in case['ts']:  # what an earlier run in the same directory left
        if case['old'] and t['redir'] and (case['setup'] or case['kind'] == 'proc'):
            for s in ('out', 'err'):
                (wd / 'glompo_optimizer_printstreams' / f'printstream_{t["o"]:04}.{s}').write_text('<9999>old\n' * 5)
    tok = [0]
    pieces = {}  # what has to be in every stream, to the letter

    def do(op, o, dest):
        """ One operation; dest: the stream it belongs to (0: the original one). """
        tok[0] += 1
        t = f'<{tok[0]}>' + case['w'][tok[0] % len(case['w'])]
        s = 'err' if op in ('err', 'perr') else 'out'
        if op in ('out', 'err'):
            getattr(sys, 'std' + s).write(t)
        elif op in ('print', 'perr'):
            print(t, file=getattr(sys, 'std' + s))
            t += '\n'
        elif op == 'multi':
            tok[0] += 1
            print(t, f'<{tok[0]}>', sep='|', end='.')
            t += f'|<{tok[0]}>.'
        elif op == 'sub':  # a thread the optimizer started itself
            dest = 0
            z = threading.Thread(target=lambda: sys.stdout.write(t))
            z.start()
            z.join()
        elif op == 'flush':
            sys.stdout.flush()
            sys.stderr.flush()
            return
        ev('op', d=dest, s=s, n=tokens(t), o=o)
        pieces[dest, s] = pieces.get((dest, s), '') + t

    def boom():
        tok[0] += 1
        return f'<{tok[0]}>'

    def files():
        fs = sorted(p.name for p in (wd / 'glompo_optimizer_printstreams').glob('*'))
        return [[int(f[12:16]), f[17:]] for f in fs if re.fullmatch(r'printstream_\d{4}\.(out|err)', f)], \
            [f for f in fs if not re.fullmatch(r'printstream_\d{4}\.(out|err)', f)]

    def report(out, err, thrown):
        known, odd = files()
        for t in case['ts']:
            for s in ('out', 'err'):
                p = wd / 'glompo_optimizer_printstreams' / f'printstream_{t["o"]:04}.{s}'
                text = p.read_text() if p.exists() else ''
                exact = int(text == pieces.get((t['o'], s), '') or (s == 'err' and (t['o'] in thrown or t['ops'][-1] == 'exit')))
                ev('file', o=t['o'], s=s, n=tokens(text), there=int(p.exists()), exact=exact, tb=int('Traceback' in text))
        if out is not None:
            ev('orig', s='out', n=tokens(out), exact=int(out == pieces.get((0, 'out'), '')))
            ev('orig', s='err', n=tokens(err), exact=1)
        ev('fin', odd=len(odd), known=known)

    if case['kind'] == 'proc':
        import multiprocessing as mp
        thrown = set()
        for t in case['ts']:
            def work(t=t):
                for op in t['ops']:
                    if op == 'raise':
                        raise ValueError(boom())
                    if op == 'exit':
                        sys.exit(0)
                    if op != 'end':
                        do(op, t['o'], t['o'])
            evs0 = tok[0]
            p = mp.Process(target=process_print_redirect(t['o'], wd, work))
            p.start()
            p.join()
            # what the process did, repeated here without its output
            keep = sys.stdout, sys.stderr
            sys.stdout = sys.stderr = io.StringIO()
            try:
                for op in t['ops']:
                    if op == 'raise':
                        ev('op', d=t['o'], s='err', n=tokens(boom()), o=t['o'])
                        thrown.add(t['o'])
                    elif op not in ('exit', 'end'):
                        do(op, t['o'], t['o'])
            finally:
                sys.stdout, sys.stderr = keep
        report(None, None, thrown)
        return

    o0, e0 = io.StringIO(), io.StringIO()
    keep = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = (ThreadPrintRedirect(o0), ThreadPrintRedirect(e0)) if case['setup'] else (o0, e0)
    thrown = set()
    lock = {j: (threading.Semaphore(0), threading.Semaphore(0)) for j in range(len(case['ts']))}
    threads, pos = {}, {}
    try:
        def work(j):
            t = case['ts'][j]
            dest = t['o'] if t['redir'] and case['setup'] else 0
            for op in t['ops']:
                lock[j][0].acquire()
                if op == 'end':
                    return
                if op == 'raise':
                    thrown.add(t['o'])
                    b = boom()
                    ev('op', d=dest, s='err', n=tokens(b), o=t['o'])
                    ev('op', d=0, s='err', n=tokens(b), o=t['o'])  # reported once more by the interpreter after the thread has ended
                    raise ValueError(b)
                do(op, t['o'], dest)
                lock[j][1].release()
        for who in case['order']:
            if who == 0:
                do('print', 0, 0)
                continue
            j = who - 1
            t = case['ts'][j]
            if j not in threads:
                threads[j] = CustomThread(wd, redirect_print=bool(t['redir']), target=work, args=(j,), name=f'Opt{t["o"]}')
                pos[j] = 0
                threads[j].start()
                continue
            op = t['ops'][pos[j]]
            pos[j] += 1
            lock[j][0].release()
            if op in ('end', 'raise'):
                threads[j].join()
                ev('ended', o=t['o'], code=threads[j].exitcode, want=-1 if op == 'raise' else 0)
            else:
                lock[j][1].acquire()
    finally:
        sys.stdout, sys.stderr = keep
    report(o0.getvalue(), e0.getvalue(), thrown)
