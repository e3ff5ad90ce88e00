"""Runs cases of a unit recorder against the real code.

usage: unitrun.py UNIT JOBS.json OUTDIR NWORKERS   (JOBS: list of seeds or case objects)
A recorder module u_<unit>.py has FORK (one process per case), TAG (properties it serves), gen(seed) -> case and
run(case, scratch, ev) which records events.
"""
import importlib
import json
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
unit, jobs, out, nw = sys.argv[1], json.load(open(sys.argv[2])), sys.argv[3], int(sys.argv[4])
mod = importlib.import_module('u_' + unit)


def record(case, scratch):
    evs = []

    def ev(_k, **kw):
        kw['ev'] = _k
        evs.append(kw)
    os.makedirs(scratch, exist_ok=True)
    try:
        mod.run(case, scratch, ev)
    except Exception as e:
        evs.append({'ev': 'failed', 'tag': mod.TAG, 'err': f'{type(e).__name__} {str(e)[:80]}'.replace('"', "'").replace('\\', '/'),
                    'tb': traceback.format_exc()[-1500:]})
    if not evs:
        evs.append({'ev': 'nothing'})
    return evs


def one(job, scratch):
    case = job if isinstance(job, dict) else mod.gen(job)
    if not mod.FORK:
        evs = record(case, scratch)
    else:
        pid = os.fork()
        if pid == 0:
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                evs = record(case, scratch)
                with open(f'{scratch}/out.json', 'w') as fh:
                    json.dump(evs, fh)
            finally:
                os._exit(0)
        import signal
        import time
        rt = getattr(mod, 'REAL', time)
        t0 = rt.monotonic()
        while not os.waitpid(pid, os.WNOHANG)[0]:
            if rt.monotonic() - t0 > 60:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                break
            rt.sleep(0.001)
        if os.path.exists(f'{scratch}/out.json'):
            evs = json.load(open(f'{scratch}/out.json'))
        else:
            evs = [{'ev': 'failed', 'tag': mod.TAG, 'err': 'the case did not end', 'tb': ''}]
    shutil.rmtree(scratch, ignore_errors=True)
    return {'sc': case, 'ev': evs}


if __name__ == '__main__':
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    pids = []
    for w in range(nw):
        p = os.fork()
        if p == 0:
            try:
                lost = 0
                with open(f'{out}/traces.{w}', 'w') as fh:
                    for n, j in enumerate(jobs[w::nw]):
                        tr = one(j, f'{out}/sc{w}_{n}')
                        tr['job'] = w + n * nw
                        fh.write(json.dumps(tr) + '\n')
                        fh.flush()
                        lost += tr['ev'][-1].get('err') == 'the case did not end'
                        if lost > 1:
                            os._exit(3)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(1)
        pids.append(p)
    bad = {0}
    for p in pids:
        st = os.waitpid(p, 0)[1]
        bad.add(0 if not st else 3 if st == 3 << 8 else 1)
    sys.exit(1 if 1 in bad else max(bad))
