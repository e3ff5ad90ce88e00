"""Runs scenarios against the real code and writes their traces.

usage: worker.py JOBS.json OUTDIR NWORKERS    (JOBS: list of [family, seed] or scenario objects)
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drive  # noqa
import scen  # noqa

jobs = json.load(open(sys.argv[1]))
out = sys.argv[2]
nw = int(sys.argv[3])
os.environ['MPLBACKEND'] = 'agg'
if any(isinstance(j, list) and j[0] == 'vis' or not isinstance(j, list) and j.get('vis') for j in jobs):
    import glompo.core.scope  # noqa  (imported once for all scenarios)
pids = []
for w in range(nw):
    p = os.fork()
    if p == 0:
        try:
            lost = 0
            with open(f'{out}/traces.{w}', 'w') as fh:
                for n, j in enumerate(jobs[w::nw]):
                    sc = scen.make(*j) if isinstance(j, list) else j
                    tr = drive.fork_run(sc, f'{out}/sc{w}_{n}')
                    tr['job'] = w + n * nw
                    fh.write(json.dumps(tr) + '\n')
                    fh.flush()
                    lost += 'dead' in tr or bool(tr['ev']) and tr['ev'][-1].get('kind') == 'spin'
                    if lost > 1:  # the others would take as long
                        os._exit(3)
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(1)
    pids.append(p)
bad = {0}
for p in pids:
    _, st = os.waitpid(p, 0)
    bad.add(0 if not st else 3 if st == 3 << 8 else 1)
sys.exit(1 if 1 in bad else max(bad))
