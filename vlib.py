"""Shared machinery of the checks: run scenarios on the real code, let TLC decide the recorded traces."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv-pypy/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
NCPU = min(8, os.cpu_count() or 1)
REPO = os.environ.get('GLVERIF_REPO', '/repo')  # another copy while the machinery itself is developed
EVID = f'{HERE}/evidence' if REPO == '/repo' else REPO + '.evidence'
SEED = int(os.environ.get('VERIF_SEED', '1'))


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='glverif')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def env(**kw):
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONPATH'] = REPO
    e['MPLBACKEND'] = 'Agg'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        e[k] = '1'
    e.update(kw)
    return e


class _Done:
    pass


def bounded(cmd, d, timeout=700):
    """ Runs a recorder in its own process group, which is ended with it. """
    import signal
    r = _Done()
    with open(f'{d}/stderr', 'w+') as err:
        p = subprocess.Popen(cmd, env=env(), cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                             start_new_session=True)
        try:
            r.returncode = p.wait(timeout)
        except subprocess.TimeoutExpired:
            r.returncode = 124
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        err.seek(0)
        r.stderr = err.read() + f' (exit code {r.returncode})'
    return r


INCOMPLETE = []


def collect(p, jobs, d, who):
    """ What was recorded; also if not everything could be: that is judged, and only if nothing is wrong with it the check fails. """
    out = []
    for w in range(NCPU):
        f = f'{d}/traces.{w}'
        if os.path.exists(f):
            with open(f) as fh:
                for line in fh:
                    if line.endswith('\n'):
                        out.append(json.loads(line))
    out.sort(key=lambda t: t['job'])
    if p.returncode == 124 and len(out) > len(jobs) // 4:
        pass  # a slow machine
    elif p.returncode or len(out) != len(jobs):
        if not out:
            raise RuntimeError(f'{who} failed: ' + p.stderr[-3000:])
        INCOMPLETE.append(f'{who} recorded {len(out)} of {len(jobs)}: ' + p.stderr[-1000:])
    return out


def run_jobs(jobs, d, script='worker.py'):
    os.makedirs(d, exist_ok=True)
    with open(f'{d}/jobs.json', 'w') as fh:
        json.dump(jobs, fh)
    p = bounded([PY, f'{HERE}/lab/{script}', f'{d}/jobs.json', d, str(NCPU)], d)
    return collect(p, jobs, d, 'laboratory')


def run_unit(u, n, seed, d, cases=None):
    os.makedirs(d, exist_ok=True)
    jobs = cases if cases is not None else [1000003 * seed + j for j in range(n)]
    with open(f'{d}/jobs.json', 'w') as fh:
        json.dump(jobs, fh)
    p = bounded([PY, f'{HERE}/lab/unitrun.py', u['rec'], f'{d}/jobs.json', d, str(NCPU)], d)
    return collect(p, jobs, d, 'recorder')


def model_check(name, m, tier, d):
    """ Exhaustive check of a design model. """
    t0 = time.time()
    cfg = m.get(tier, m['quick'])
    rc, out = tlc(m['module'] + '.tla', cfg, d, workers=NCPU, args=m.get('args', ('-deadlock',)), timeout=240 if tier == 'quick' else 3600,
                  heap='12g')
    import re
    gs = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out)
    gen, dis = (int(gs[-1][0].replace(',', '')), int(gs[-1][1].replace(',', ''))) if gs else (0, 0)
    dp = re.search(r'depth of the complete state graph search is (\d+)', out)
    complete = rc == 0 and 'No error has been found' in out
    # a slow machine: what was explored within the time limit held
    if not complete and rc != 124 and 'violated' not in out:
        raise RuntimeError('TLC failed: ' + out[-3000:])
    return dict(name=name, ok=complete or 'violated' not in out, complete=complete, generated=gen, distinct=dis,
                depth=int(dp.group(1)) if dp else 0, wall_s=round(time.time() - t0, 1), out=out[-20000:])


def tlc(module, cfg, d, workers=1, extra_env=None, args=(), timeout=800, heap='3g'):
    """ Returns (returncode, output). """
    md = tempfile.mkdtemp(dir=d)
    cp = ':'.join([JAR] + [os.path.join(os.path.dirname(JAR), x) for x in sorted(os.listdir(os.path.dirname(JAR)))
                           if x.endswith('.jar') and x != os.path.basename(JAR)])
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss16m', f'-Djava.io.tmpdir={md}', '-Dtlc2.tool.queue.IStateQueue=StateDeque',
           '-cp', cp, 'tlc2.TLC', '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE', '-config', cfg,
           *args, module]
    if not args or '-dfs' not in args:
        cmd.remove('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    try:
        p = subprocess.run(cmd, cwd=f'{HERE}/spec', env=env(**(extra_env or {})), capture_output=True, text=True,
                           timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = str(e.stdout or ''), 124
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


DROP = {'fail', 'oskill', 'tasksave'}


def prep(trace, ident):
    """ Purely mechanical: drop events the specification does not mention, find the number of optimizers. """
    evs = [e for e in trace['ev'] if e['ev'] not in DROP]
    n = 0
    for e in evs:
        if e['ev'] in ('selret', 'create'):
            n = max(n, e.get('o', 0))
    n = max(n, sum(1 for e in evs if e['ev'] == 'selret' and e['ret'] == 'opt'), 1)
    return {'id': ident, 'n': n, 'ev': evs}


def unit_prep(t, j):
    return {'id': j, 'sc': t['sc'], 'ev': [{k: v for k, v in e.items() if k != 'tb'} for e in t['ev']]}


def parse_verdicts(out):
    res = {}
    for line in out.splitlines():
        if line.startswith('"VERDICT '):
            v = json.loads(json.loads(line)[8:])
            res[v['id']] = v
    return res


def monitor(module, traces, d, split=NCPU):
    """ TLC decides the traces. Returns {index: verdict}. """
    groups = [list(range(w, len(traces), split)) for w in range(split)]
    procs = []
    res = {}

    def launch(idx, tag):
        f = f'{d}/{module}.{tag}.json'
        with open(f, 'w') as fh:
            json.dump([prep(traces[j], j) if module == 'GlompoTrace' else unit_prep(traces[j], j) for j in idx], fh)
        return f
    import concurrent.futures as cf

    def go(g, tag):
        f = launch(g, tag)
        rc, out = tlc(f'{module}.tla', f'{module}.cfg', d, extra_env={'TRACES': f})
        os.unlink(f)
        v = parse_verdicts(out)
        if (rc != 0 or len(v) != len(g)):
            if 'Parsing or semantic analysis failed' in out:
                raise RuntimeError(out[-3000:])
            if len(g) == 1:
                return {g[0]: {'id': g[0], 'bad': [['SPEC', 'not a behaviour the specification can read: '
                                                    + out[out.find('Error'):][:700], 0]], 'fin': 0}}
            r = {}
            h = (len(g) + 1) // 2
            r.update(go(g[:h], tag + 'a'))
            r.update(go(g[h:], tag + 'b'))
            return r
        return v
    with cf.ThreadPoolExecutor(split) as ex:
        for r in ex.map(lambda w: go(groups[w], str(w)) if groups[w] else {}, range(split)):
            res.update(r)
    return res
