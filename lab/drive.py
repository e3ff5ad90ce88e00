"""Drives the real GloMPOManager through one scenario under the cooperative laboratory and records a trace.

Everything used here is the documented extension interface of glompo: user supplied task, optimizers, selector,
checker, hunter, generator and the public methods/attributes of the manager, its log and its checkpoints.
"""
import json
import logging
import os
import pickle
import random
import sys
import tarfile
import tempfile
import warnings
from pathlib import Path

import coop

coop.install()

_gso = sys.getsizeof


def _getsizeof(o, d=None):
    try:
        return _gso(o)
    except TypeError:
        return 64


sys.getsizeof = _getsizeof  # not available on PyPy, needed by the file logger

import numpy as np  # noqa

from glompo.core.manager import GloMPOManager  # noqa
from glompo.core.checkpointing import CheckpointingControl  # noqa
from glompo.core.function import BaseFunction  # noqa
from glompo.common.helpers import CheckpointingError  # noqa
from glompo.common.namedtuples import IterationResult  # noqa
from glompo.convergence import BaseChecker  # noqa
from glompo.hunters import BaseHunter  # noqa
from glompo.generators import BaseGenerator, RandomGenerator  # noqa
from glompo.opt_selectors.baseselector import BaseSelector  # noqa
from glompo.optimizers.baseoptimizer import BaseOptimizer  # noqa

INF, NAN, NINF = 900000, 900001, -900000
BOUNDS = [(0, 1000), (0, 100000), (-1000000, 1000000)]


def dec(c):
    return {INF: float('inf'), NAN: float('nan'), NINF: -float('inf')}.get(c, float(c))


def enc(v):
    if v is None:
        return 999999
    v = float(v)
    if v != v:
        return NAN
    if v == float('inf'):
        return INF
    if v == -float('inf'):
        return NINF
    return int(v) if v == int(v) else int(round(v * 1000)) + 5000000


def lab():
    return coop.LAB


def ev(_k, /, **kw):
    coop.LAB.ev(_k, **kw)


class Fault(Exception):
    pass


def fault_raise(sc, name, n):
    """ Scenario faults: list of [component, nth call, kind] """
    for comp, nth, kind in sc.get('faults', []):
        if comp == name and nth == n:
            ev('fault', comp=comp, kind=kind)
            if kind == 'kbd':
                raise KeyboardInterrupt
            raise {'value': ValueError, 'key': KeyError, 'run': RuntimeError, 'type': TypeError,
                   'idx': IndexError, 'os': OSError, 'attr': AttributeError}.get(kind, Fault)(f'injected {comp}')


class Ctx:
    sc = None
    mgr = None
    counts = {}

    @classmethod
    def nth(cls, name):
        cls.counts[name] = cls.counts.get(name, 0) + 1
        return cls.counts[name]


def xinfo(x):
    if x is None or len(x) == 0:
        return 0, 0
    return int(x[0]), int(x[1])


def snap(m):
    r = m.result
    org = r.origin or {}
    bo, bk = xinfo(r.x)
    return {'f': m.f_counter, 'n': m.o_counter, 'c': m.conv_counter, 'h': m.hunt_counter,
            'vic': sorted(int(v) for v in m.hunt_victims), 'bo': org.get('opt_id', -1), 'xo': bo, 'xk': bk,
            'bv': enc(r.fx), 'sp': 1 if m.spawning_opts else 0, 'cr': 1 if m.opt_crashed else 0,
            'lf': len(m.opt_log) if m.opt_log is not None else 0}


class LabTask:
    """ Picklable objective: value is determined by the point. """

    def __init__(self, tag=0):
        self.tag = tag

    def __call__(self, x):
        return self._value(x, 0)

    @staticmethod
    def _value(x, det):
        o, k, c = int(x[0]), int(x[1]), int(x[2])
        ev('eval', o=o, k=k, v=c, det=det)
        if Ctx.sc.get('split'):
            print(f'<{o}.{k}>', file=sys.stdout if k % 2 else sys.stderr)
        for fo, fk in Ctx.sc.get('task_raise', []):
            if fo == o and fk == k:
                raise Fault('task failure')
        return dec(c)


KINDS = {'float': (lambda c: c + 0.25, lambda v: float(v) - 0.25),
         'int': (lambda c: c, lambda v: int(v) if int(v) == v else -7),
         'bool': (lambda c: c % 2 == 1, lambda v: 1 if v is True or v is np.True_ or v == 1 else 0 if v == 0 else -7),
         'str': (lambda c: f's{c}', lambda v: int((v.decode() if isinstance(v, bytes) else str(v))[1:])),
         'arr': (lambda c: np.array([c, c + 1.5]), lambda v: int(v[0]) if len(v) == 2 and v[1] == v[0] + 1.5 else -7),
         'nest': (lambda c: [[c, 1], [2, c]], lambda v: int(v[0][0]) if [list(z) for z in v] == [[v[0][0], 1], [2, v[0][0]]] else -7),
         'none': (lambda c: None, lambda v: 0 if v is None or v != v else -7),
         'cplx': (lambda c: complex(c, -c), lambda v: int(complex(v).real) if complex(v).imag == -complex(v).real else -7)}
COLS = [['result_0', 'float'], ['result_1', 'int']]


def names_of(sc):
    """ Columns of what the task of a scenario returns besides its value: name, kind. """
    return (sc.get('dx') or {}).get('cols', COLS if sc.get('det') else [])


def codes(kind, vals):
    out = []
    for v in vals:
        try:
            n = KINDS[kind][1](v)
            out.append(int(n) if n == int(n) else -8)
        except Exception:
            out.append(-9)
    return out


class DetTask(LabTask):
    """ Returns more than a value; what it returns is determined by the point and the column. """

    def __init__(self, cols, buf=False):
        super().__init__()
        self.cols = cols
        self.buf = np.zeros((99, 9, 2)) if buf else None

    def _extras(self, x):
        out = []
        for j, (_, kind) in enumerate(self.cols):
            v = KINDS[kind][0](10000 * (j + 1) + 100 * int(x[0]) + int(x[1]))
            if kind == 'arr' and self.buf is not None:  # one array for all evaluations of an optimizer
                self.buf[int(x[0]), j] = v
                v = self.buf[int(x[0]), j]
            out.append(v)
        return out

    def detailed_call(self, x):
        return (self._value(x, 1), *self._extras(x))


class BareDetTask(DetTask, BaseFunction):
    """ Derived from the documented base class, headers not implemented. """


class HeadTask(DetTask):
    """ Announces its columns. """

    def __init__(self, cols, how, buf=False):
        super().__init__(cols, buf)
        self.how = how

    def headers(self):
        import tables as tb
        make = {'float': tb.Float64Col, 'int': tb.Int64Col, 'bool': tb.BoolCol, 'str': lambda **k: tb.StringCol(40, **k),
                'arr': lambda **k: tb.Float64Col(shape=(2,), **k), 'nest': lambda **k: tb.Int64Col(shape=(2, 2), **k),
                'none': tb.Float64Col, 'cplx': lambda **k: tb.ComplexCol(itemsize=16, **k)}
        cols = ([['fx', 'float']] if 'fx' in self.how else []) + self.cols
        return {name: make[kind](**({'pos': j} if 'pos' in self.how else {})) for j, (name, kind) in enumerate(cols)}


class NoPickleTask(LabTask):
    """ A task which cannot be pickled (kind of failure selectable). """

    def __init__(self, kind):
        super().__init__()
        self.kind = kind
        if kind == 'gen':
            self.g = (i for i in range(3))
        elif kind == 'lock':
            import _thread
            self.g = _thread.allocate_lock()

    def __reduce_ex__(self, proto):
        if self.kind == 'pickle':
            raise pickle.PicklingError('no')
        if self.kind == 'value':
            raise ValueError('no')
        return object.__reduce_ex__(self, proto)

    def checkpoint_save(self, path):
        if Ctx.sc.get('task_save') == 'raise':
            raise Fault('task cannot be saved')
        (Path(path) / 'mytask').write_text('hello')
        ev('tasksave')


class ScriptOpt(BaseOptimizer):
    """ Optimizer which follows a script. All public attributes are plain data, i.e. survive checkpoint_save. """

    def __init__(self, _opt_id=None, _signal_pipe=None, _results_queue=None, _pause_flag=None, workers=1,
                 backend='threads', is_log_detailed=False, script=None, idx=0, **kw):
        super().__init__(_opt_id, _signal_pipe, _results_queue, _pause_flag, workers, backend, is_log_detailed, **kw)
        self.script = script
        self.idx = idx
        self.k = 0
        self.stop = False
        self._own(_opt_id, _signal_pipe, _pause_flag)
        ev('create', o=_opt_id, w=workers, idx=idx, be=backend, det=1 if is_log_detailed else 0, re=0, k=0,
           cls=type(self).__name__)

    @staticmethod
    def _own(o, pipe, flag):
        if isinstance(pipe, coop.FakeConn):
            pipe.opt = pipe.peer.opt = o
            coop.LAB.meta['conns'].append(pipe)
        if isinstance(flag, coop.CoopEvent):
            flag.opt = o

    @classmethod
    def checkpoint_load(cls, path, **kwargs):
        opt = super().checkpoint_load(path, **kwargs)
        cls._own(kwargs['_opt_id'], kwargs['_signal_pipe'], kwargs['_pause_flag'])
        if opt.script.get('load') == 'raise':
            raise Fault('cannot load')
        ev('create', o=opt.opt_id, w=opt.workers, idx=opt.idx, be=kwargs.get('backend', ''), det=0, re=1, k=opt.k,
           cls=type(opt).__name__)
        return opt

    def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
        L = coop.LAB
        s = self.script
        ev('run', o=self.opt_id, w=self.workers, re=1 if self.is_restart else 0, k=self.k, call=1 if kwargs.get('ck') == self.idx else 0,
           x0=[int(v) if v == int(v) else -1 for v in list(x0)][:3],
           bok=1 if [tuple(b) for b in np.array(bounds)] == [tuple(map(float, b)) for b in BOUNDS] else 0)
        fx = s['fx']
        buf = None
        while self.k < len(fx):
            if self.stop and not s.get('deaf'):
                break
            nk = self.k + 1
            d = s.get('dur', {}).get(str(nk), 0)
            if d:
                L.sleep(d)
            if s.get('inplace'):  # one buffer for all points
                if buf is None:
                    buf = np.zeros(3)
                buf[:] = (self.opt_id, nk, fx[nk - 1])
                self._use(function, buf)
                buf[:] = -7
            else:
                self._use(function, [self.opt_id, nk, fx[nk - 1]])
            self.k = nk
            m = s.get('msgs', {}).get(str(nk))
            if m is not None:
                self.message_manager(9, m)
            if s.get('at') == nk:
                self._fail(s['act'])
            if nk % s.get('ce', 1) == 0 and not s.get('mute'):
                self.check_messages()
                self._pause_signal.wait()
        end = s.get('end', 'conv')
        if self.stop and s.get('quiet_stop'):
            return
        if end == 'conv':
            self.message_manager(0, s.get('why', 'Optimizer convergence'))
            if s.get('linger'):
                L.sleep(s['linger'])
            if s.get('fin_check', True):
                self.check_messages()
        elif end == 'silent':
            pass
        else:
            self._fail(end)

    def _use(self, function, x):
        o, k, c = int(x[0]), int(x[1]), int(x[2])
        if self.script.get('detcall'):
            got = function.detailed_call(x)
            want = [[10000 * (j + 1) + 100 * o + k, z[1]] for j, z in enumerate(names_of(Ctx.sc))]
            good = len(got) == 1 + len(want) and all(codes(z, [v]) == codes(z, [KINDS[z][0](n)]) for v, (n, z) in zip(got[1:], want))
            got = got[0]
        else:
            got, good = function(x), True
        if not good or isinstance(got, (tuple, list)) or enc(got) != c:
            ev('badret', o=o, k=k)

    def _fail(self, kind):
        ev('fail', o=self.opt_id, kind=kind)
        if kind == 'raise':
            raise Fault('optimizer failure')
        if kind == 'exit':
            raise SystemExit(3)
        if kind == 'kbd':
            raise KeyboardInterrupt
        if kind == 'broken':
            raise BrokenPipeError
        if kind == 'hang':
            coop.LAB.block(lambda: False, None)
        if kind == 'sleep':
            coop.LAB.sleep(self.script.get('nap', 20))
        if kind == 'die':  # as if killed by the operating system
            t = coop.LAB.cur
            if isinstance(t.owner, coop.FakeProcess):
                t.kill = -9
                coop.LAB.yield_()

    def callstop(self, reason=''):
        ev('callstop', o=self.opt_id, why=str(reason)[:40])
        self.stop = True

    def inject(self, x, fx):
        o, k = xinfo(x)
        ev('inject', o=self.opt_id, xo=o, xk=k, v=enc(fx))
        super().inject(x, fx)
        if enc(self.incumbent['fx']) != enc(fx):
            ev('badinject', o=self.opt_id)

    def checkpoint_save(self, path, force=None):
        how = self.script.get('save', 'ok')
        once = self.script.get('save_n')
        n = Ctx.nth(f'save{self.opt_id}')
        if once and n != once:
            how = 'ok'
        ev('save', o=self.opt_id, k=self.k, how=how)
        coop.LAB.yield_()
        if how == 'raise':
            raise Fault('cannot save')
        if how == 'nofile':
            return
        if how == 'slow':
            coop.LAB.sleep(7)
        if how in ('die', 'hang'):
            self._fail(how)
        super().checkpoint_save(path, force)


class OptB(ScriptOpt):
    pass


class LabSelector(BaseSelector):
    """ Offers the scripted optimizers in turn. """

    def __init__(self, scripts, nowait=False):
        super().__init__(ScriptOpt)
        self.scripts = scripts
        self.i = 0

    def select_optimizer(self, manager, log, slots_available):
        ev('sel', s=snap(manager), slots=slots_available, done=0)
        if Ctx.sc.get('split'):
            print('<0.0>')
        fault_raise(Ctx.sc, 'sel', Ctx.nth('sel'))
        ret, w = 'opt', 0
        out = None
        if self.i >= len(self.scripts):
            ret, out = ('none', None) if Ctx.sc.get('sel_end') == 'none' else ('stop', False)
        else:
            s = self.scripts[self.i]
            w = s.get('w', 1)
            if s.get('gate') and manager.f_counter < s['gate']:
                ret, out = 'none', None
            elif w > manager.max_jobs:
                ret, out = 'stop', False
            elif w > slots_available:
                ret, out = 'none', None
            else:
                self.i += 1
                init = {'workers': w, 'script': s, 'idx': self.i}
                if s.get('backend'):
                    init['backend'] = s['backend']
                out = ((OptB if s.get('cls') == 'B' else ScriptOpt), init, {'ck': self.i} if s.get('call') else {})
        init = out[1] if ret == 'opt' else {}
        ev('selret', ret=ret, w=w, idx=self.i if ret == 'opt' else 0, cls=out[0].__name__ if ret == 'opt' else '',
           dc=init['script'].get('detcall', 0) if ret == 'opt' else 0,
           be=init.get('backend', 'processes' if Ctx.sc['backend'] == 'processes_forced' else 'threads'),
           call=1 if ret == 'opt' and out[2] else 0)
        return out


class LabGenerator(BaseGenerator):
    def generate(self, manager):
        n = Ctx.nth('gen')
        ev('gen', s=snap(manager), n=n)
        fault_raise(Ctx.sc, 'gen', n)
        return np.array([500, n, 7])


class LabHunter(BaseHunter):
    """ Killing condition with scripted answers. """

    def __init__(self, spec):
        super().__init__()
        self.spec = spec

    def __call__(self, log, hunter_opt_id, victim_opt_id):
        m = Ctx.mgr
        n = Ctx.nth('hunt')
        sp = self.spec
        kind = sp['kind']
        if kind == 'rand':
            r = random.Random(f"{Ctx.sc['seed']}/{n}").random() < sp['p']
        elif kind == 'never':
            r = False
        elif kind == 'always':
            r = True
        elif kind == 'min':
            r = log.len(victim_opt_id) >= sp['n']
        else:  # 'worse': kill if the victim's best is worse
            r = log.get_best_iter(victim_opt_id)['fx'] > log.get_best_iter(hunter_opt_id)['fx']
        ev('hunt', s=snap(m), hu=hunter_opt_id, vi=victim_opt_id, ret=1 if r else 0,
           ln=log.len(victim_opt_id), hl=log.len(hunter_opt_id))
        fault_raise(Ctx.sc, 'hunt', n)
        self.last_result = r
        return r


class LabChecker(BaseChecker):
    def __init__(self, spec):
        super().__init__()
        self.spec = spec
        self.n = 0

    def __call__(self, manager):
        sp = self.spec
        run = coop.LAB.meta.get('running', 0)
        if run:
            self.n += 1
        r = False
        if 'f' in sp:
            r = r or manager.f_counter >= sp['f']
        if 'n' in sp:
            r = r or self.n >= sp['n']
        if 'c' in sp:
            r = r or manager.conv_counter >= sp['c']
        if 'k' in sp:
            r = r or len(manager.hunt_victims) >= sp['k']
        if 't' in sp and run and manager.t_start is not None:
            r = r or coop.LAB.now - manager.t_start >= sp['t']
        ctl = manager.checkpoint_control
        ev('conv', s=snap(manager), ret=1 if r else 0, run=run,
           sf=sorted({target_of(p.name) for p in Path(manager.working_dir).glob('*') if p.name[:4] in ('STOP', 'CHKP')})
           if run else [], cc=0 if ctl is None else 1 if Ctx.cc is not None and vars(ctl).keys() == Ctx.cc.keys() and
           all(ctl.__dict__[z] == Ctx.cc[z] for z in Ctx.cc if z != 'count') else 2,
           en=ends_of(manager) if run else [])
        if run:
            fault_raise(Ctx.sc, 'conv', Ctx.nth('conv'))
            if self.n > sp.get('maxn', 400):
                r = True
                coop.LAB.events[-1]['ret'] = 1
        self.last_result = r
        return r


def endcat(s):
    """ Category of a recorded end condition. """
    if s is None:
        return 'none'
    s = str(s)
    if s.startswith('GloMPO Termination'):
        if 'User STOP file' in s:
            return 'user'
        return 'killed'
    if s == 'GloMPO Convergence':
        return 'gconv'
    if s == 'Forced GloMPO Termination':
        return 'forced'
    if s.startswith('Error termination'):
        return 'error'
    if s.startswith('Normal termination (Reason unknown)'):
        return 'silent'
    if s in ('GloMPO Crash', 'User Interrupt'):
        return 'crash'
    return 'own:' + s


def ends_of(m):
    out = []
    for o in range(1, m.o_counter + 1):
        try:
            out.append(endcat(m.opt_log.get_metadata(o, 'end_cond')))
        except KeyError:
            out.append('none' if o in m.opt_log else 'cleared')
        except Exception:
            out.append('?')
    return out


def dump_log(m, upto):
    """ Everything the log says about every optimizer (public interface only). """
    out = []
    log = m.opt_log
    for o in range(1, upto + 1):
        r = {'o': o}
        try:
            r['end'] = endcat(log.get_metadata(o, 'end_cond'))
            full = str(log.get_metadata(o, 'end_cond'))
            r['hunter'] = 0
            if r['end'] == 'killed':
                ln = full.split('\n')
                r['hunter'] = int(ln[1].split(':')[1]) if len(ln) > 1 and 'Hunter' in ln[1] else -1
        except KeyError:
            r['end'] = 'none'
            r['hunter'] = 0
        try:
            log.get_metadata(o, 't_stop')
            r['t'] = 1
        except KeyError:
            r['t'] = 0
        try:
            log.get_metadata(o, 'opt_id')
            r['cl'] = 0
        except Exception:
            r['cl'] = 1
        try:
            r['len'] = log.len(o)
            r['hist'] = [enc(v) for v in log.get_history(o, 'fx')]
            r['ids'] = [int(v) for v in log.get_history(o, 'call_id')]
            r['ks'] = [int(x[1]) for x in log.get_history(o, 'x')]
            r['xos'] = [int(x[0]) for x in log.get_history(o, 'x')]
            b = log.get_best_iter(o)
            r['best'] = [b['opt_id'], xinfo(b['x'])[1], enc(b['fx']), int(b['call_id'])]
            r['cols'] = -1
            if Ctx.sc.get('dx', {}).get('peek') and m.opt_log.has_iter_history(o):
                r['cols'] = 1
                r['xs'] = []
                for name, kind in names_of(Ctx.sc):
                    try:
                        r['xs'].append([name, codes(kind, log.get_history(o, name))])
                    except KeyError:
                        r['cols'] = 0
        except Exception as e:
            r['len'] = -1
            r['hist'], r['ids'], r['ks'], r['xos'], r['best'] = [], [], [], [], [0, 0, 0, 0]
        out.append(r)
    return out


OWN_MSG = ('Terminated normally without', 'Terminated in error with code', 'Force terminated due')


def messages_of(m, upto):
    out = {}
    # messages have no public reader; they are read from the log file or, in memory, from the stored record
    st = getattr(m.opt_log, '_storage', None)
    for o in range(1, upto + 1):
        try:
            out[o] = [[str(z)[:60], 1 if str(z).startswith(OWN_MSG) else 0] for z in st[o]['messages']]
        except Exception:
            out[o] = None
    return out


class LabManager(GloMPOManager):
    """ The public checkpoint method is wrapped to mark its start and end in the trace. """

    def checkpoint(self):
        ctl = self.checkpoint_control
        d = ctl.checkpointing_dir if ctl else None
        before = sorted(os.listdir(d)) if d and d.exists() else []
        ev('ckbeg', s=snap(self), kp=ctl.keep_past if ctl else -1, cfg=0 if Ctx.sc.get('ckpt') is None else 1,
           dirok=1 if d == Ctx.want_ckdir else 0)
        err = ''
        try:
            return super().checkpoint()
        except BaseException as e:
            err = type(e).__name__
            raise
        finally:
            after = sorted(os.listdir(d)) if d and d.exists() else []
            new = [a for a in after if a not in before]
            tars = [a for a in new if a.endswith('.tar.gz')]
            ev('ckend', s=snap(self), err=err, new=len(tars), extra=len(new) - len(tars),
               lost=[i + 1 for i, b in enumerate(before) if b not in after], nb=len(before))
            for t in tars:
                Ctx.ckpts.append(str(d / t))
                Ctx.ckover.append(dict(Ctx.over))
                try:
                    ev('ckfile', id=len(Ctx.ckpts), **inspect_ckpt(d / t))
                except Exception as e:
                    ev('ckbad', err=type(e).__name__)


def inspect_ckpt(path):
    """ What a checkpoint file contains: optimizer files and the log inside. """
    import dill
    out = {'opts': [], 'task': 0}
    with tarfile.open(path, 'r:gz') as t:
        names = t.getnames()
        for n in names:
            if n.startswith('optimizers/'):
                o = int(n.split('/')[-1])
                st = dill.load(t.extractfile(n))
                out['opts'].append([o, st.get('k', -1)])
        out['task'] = 1 if any(n == 'task' for n in names) else 0
        out['mytask'] = 1 if any(n == 'mytask' for n in names) else 0
    out['opts'].sort()
    return out


Ctx.want_ckdir = Ctx.cc = None
Ctx.ckpts = []
Ctx.ckover, Ctx.over = [], {}  # settings changed at load time which are part of a checkpoint


def hooks(L):
    def pipehook(kind, conn, obj, ok=1):
        key, extra = obj, []
        if isinstance(obj, tuple):
            key, extra = obj[0], obj[1:]
        if isinstance(key, bool) or not isinstance(key, int):
            key = -1
        kw = {}
        if key == 4 and len(extra) >= 2:
            o, k = xinfo(extra[0])
            kw = {'xo': o, 'xk': k, 'v': enc(extra[1])}
        if key in (0, 9) and conn.side == ('opt' if kind == 'send' else 'mgr'):
            kw['m'] = str(extra[0])[:60] if extra else ''
            kw['tb'] = 1 if extra and 'Traceback' in str(extra[0]) else 0
        if key == 1 and conn.side == ('mgr' if kind == 'send' else 'opt'):
            kw['crash'] = 1 if extra else 0
        side = 'm' if conn.side == 'mgr' else 'o'
        if not ok:
            kw['lost'] = 1
        ev(side + kind, o=conn.opt, key=key, **kw)

    def items(chunk):
        out = []
        for it in chunk:
            if isinstance(it, IterationResult):
                o, k = xinfo(it.x)
                out.append([int(it.opt_id), k, enc(it.fx), o])
            elif isinstance(it, int):
                out.append([it, 0, 0, it])
            else:
                out.append([-1, 0, 0, 0])
        return out

    def qhook(m, a, r, exc):
        if m in ('get', 'get_nowait') and exc is None:
            ev('qget', it=items(r))
        elif m in ('put', 'put_nowait', 'put_incache') and a:
            it = items([a[0]])[0]
            ev('qput', o=it[0], k=it[1], ok=1 if exc is None else 0)

    def starthook(owner, t):
        tgt = getattr(owner, '_t', None) or getattr(owner, '_target', None)
        while hasattr(tgt, '__wrapped__'):
            tgt = tgt.__wrapped__
        o = getattr(getattr(tgt, '__self__', None), 'opt_id', None)
        if o is None:
            o = int(''.join(c for c in str(owner.name) if c.isdigit()) or 0)
        t.opt = o
        dm = owner.daemon
        L.ev('pstart', o=o, proc=1 if isinstance(owner, coop.FakeProcess) else 0, dm=1 if dm else 0)

    def exithook(proc):
        # the operating system closes the pipe of a process which has ended
        if L.meta.get('eof') and proc.thread is not None:
            for c in L.meta['conns']:
                if c.opt == proc.thread.opt and c.side == 'opt':
                    c.peer.eof, c.peer.reset = True, bool(c.buf)

    L.meta['conns'] = []
    L.meta['eof'] = bool(Ctx.sc.get('eof'))
    L.meta.update(exithook=exithook, pipehook=pipehook, qhook=qhook, starthook=starthook)


def build_kwargs(sc, wd, ckdir):
    kw = dict(task=make_task(sc), bounds=BOUNDS, opt_selector=LabSelector(sc['opts']), working_dir=wd,
              overwrite_existing=sc.get('ow', True), max_jobs=sc['jobs'], backend=sc['backend'],
              convergence_checker=LabChecker(sc['check']), x0_generator=LabGenerator(),
              killing_conditions=LabHunter(sc['hunter']) if sc.get('hunter') else None,
              share_best_solutions=sc.get('share', False), hunt_frequency=sc.get('hf', 5),
              status_frequency=sc.get('status', 600), summary_files=sc.get('summary', 2),
              is_log_detailed=sc.get('det', False), force_terminations_after=sc.get('force', -1),
              aggressive_kill=sc.get('aggr', False), end_timeout=sc.get('endto'),
              split_printstreams=sc.get('split', False))
    if sc.get('vis'):
        v = sc['vis']
        kw['visualisation'] = True
        kw['visualisation_args'] = dict(x_range=v['win'] or None, elitism=bool(v['elite']), events_per_flush=v['epf'])
    if sc.get('ckpt') is not None:
        c = dict(sc['ckpt'])
        kw['checkpoint_control'] = CheckpointingControl(checkpointing_dir=ckdir, **c)
    return kw


def make_task(sc):
    k = sc.get('task', 'plain')
    if k == 'plain' and names_of(sc):
        dx = sc.get('dx') or {}
        how, buf = dx.get('how', 'none'), dx.get('buf', False)
        return DetTask(names_of(sc), buf) if how == 'none' else BareDetTask(names_of(sc), buf) if how == 'bare' else \
            HeadTask(names_of(sc), how, buf)
    if k == 'plain':
        return LabTask()
    if k == 'tag':
        return LabTask(7)
    return NoPickleTask(k)


def arm(m, sc, L):
    """ Observation points that need the constructed manager. """
    Ctx.mgr = m
    Ctx.cc = None if m.checkpoint_control is None else dict(vars(m.checkpoint_control))
    log = m.opt_log
    if sc.get('vis'):
        shut = m.scope.close_fig
        m.scope.close_fig = lambda: (scope_of(m, 1), shut())
    if sc.get('summary', 2) >= 2:
        log.plot_trajectory = lambda path, *a, **k: ev('plot', here=1 if Path(path).parent == Path(m.working_dir) else 0,
                                                       ok=1 if Path(path).name in ('trajectories.png', 'trajectories_log.png') else 0)
    fin = {}
    close = log.close

    def closing():
        fin['log'] = dump_log(m, m.o_counter)
        fin['msgs'] = messages_of(m, m.o_counter)
        fin['best'] = best_of(log)
        fin['n'] = len(log)
        close()

    log.close = closing
    return fin


def scope_of(m, end):
    """ What the scope shows. """
    def pts(line):
        return [[int(x), enc(y)] for x, y in zip(*line.get_data())]
    s = m.scope
    ev('scope', end=end, ids=sorted(s.opt_streams), n=s.n_streams, lines=[pts(s.opt_streams[o]) for o in sorted(s.opt_streams)],
       marks=[pts(s.gen_streams[t]) for t in ('opt_kill', 'opt_norm', 'pause', 'chkpt')])


def dump_h5(path):
    """ What the log file on disk says (read independently of the logger). """
    import tables as tb
    out = {'opts': [], 'f': -1, 'n': -1, 'best': [0, 0, 0, 0]}
    with tb.open_file(str(path), 'r') as f:
        at = f.root._v_attrs
        out['f'] = int(at.f_counter) if 'f_counter' in at else -1
        out['n'] = int(at.opts_started) if 'opts_started' in at else -1
        out['md'] = [int(at[z]) if z in at else -1 for z in ('n_evals', 'n_hunts', 'n_opts_started', 'n_opts_killed', 'n_opts_conv')]
        c = str(at.exit_reason) if 'exit_reason' in at else ''
        out['cond'] = 'kbd' if 'User Interrupt' in c else 'crash' if c.startswith(('GloMPO Crash', 'Process Crash')) else \
            'dead' if c.startswith('No optimizers alive') else 'check' if 'LabChecker' in c and '= True' in c else 'other'
        if 'best_iter' in at:
            b = at.best_iter
            out['best'] = [int(b['opt_id']), xinfo(b['x'])[1], enc(b['fx']), int(b['call_id'])]
        for g in f.iter_nodes('/', 'Group'):
            o = int(g._v_name.split('_')[1])
            ga = g._v_attrs
            r = {'o': o, 'end': endcat(ga.end_cond if 'end_cond' in ga else None), 't': 1 if 't_stop' in ga else 0,
                 'hist': [], 'ids': [], 'ks': [], 'xos': [], 'ms': [], 'xs': []}
            if 'iter_hist' in g:
                tab = g.iter_hist[:]
                r['ids'] = [int(v) for v in tab['call_id']]
                r['hist'] = [enc(v) for v in tab['fx']]
                r['xos'] = [int(v[0]) for v in tab['x']]
                r['ks'] = [int(v[1]) for v in tab['x']]
                kinds = dict(names_of(Ctx.sc))
                r['xs'] = [[z, codes(kinds.get(z, 'int'), tab[z])] for z in g.iter_hist.colnames if z not in ('call_id', 'x', 'fx')]
            r['ms'] = [[str(m)[:60], 1 if str(m).startswith(OWN_MSG) else 0] for m in g.messages[:]]
            out['opts'].append(r)
    out['opts'].sort(key=lambda r: r['o'])
    return out


def read_yaml(path):
    """ Counters and solution of the summary file. """
    import re
    txt = Path(path).read_text()

    def num(key, d=-1):
        z = re.search(rf'^\s*{key}: (\S+)', txt, re.M)
        return d if z is None else z.group(1)
    sol = txt[txt.index('\nSolution:'):]
    fx = re.search(r'^  fx: (\S+)', sol, re.M).group(1)
    fx = fx.replace('.inf', 'inf').replace('.nan', 'nan')
    og = re.search(r'opt_id: (\d+)', sol)
    return {'f': int(num('Function Evaluations')), 'h': int(num('Hunts Started')), 'n': int(num('Started')),
            'kl': int(num('Killed')), 'c': int(num('Converged')), 'bv': 999999 if fx == 'null' else enc(float(fx)),
            'bo': int(og.group(1)) if og else -1, **report(txt, sol)}


def report(txt, sol):
    """ What the summary file says besides counters and solution (times in ms). """
    import datetime as dt
    import re
    import yaml

    class Any(yaml.SafeLoader):
        pass

    def build(ld, suffix, node):
        if isinstance(node, yaml.MappingNode):
            return ld.construct_mapping(node, deep=True)
        if isinstance(node, yaml.SequenceNode):
            return ld.construct_sequence(node, deep=True)
        return ld.construct_scalar(node)
    Any.add_multi_constructor('', build)
    d = yaml.load(txt, Any)
    tm = d['Assignment']['Time']

    def ms(z):
        if z in (None, 'null'):
            return -1
        if not isinstance(z, str):
            return int(1000 * z) if not hasattr(z, 'total_seconds') else int(1000 * z.total_seconds())
        days, _, rest = z.rpartition(' day')
        rest = rest.split(', ')[-1]
        h, mi, se = rest.split(':')
        return int(1000 * ((int(days) if days else 0) * 86400 + int(h) * 3600 + int(mi) * 60 + float(se)))

    def when(z):
        return dt.datetime.fromisoformat(str(z))
    spans = [int(1000 * (when(p['End']) - when(p['Start'])).total_seconds()) for p in tm['Optimization Periods'] or []]
    c = str(d['Solution']['exit cond.'])
    cat = 'kbd' if c.startswith('Process Crash: User Interrupt') else 'crash' if c.startswith('Process Crash') else \
        'dead' if c.startswith('No optimizers alive') else 'manual' if c.startswith('Manual Save') else \
        'check' if 'LabChecker' in c and '= True' in c else 'other'
    x = d['Solution']['x']
    ck = d.get('Checkpointing')
    return {'cond': cat, 'spans': spans, 'total': ms(tm['Total']), 'sess': ms(tm['Session']), 'jobs': int(d['Settings']['Max Jobs']),
            'xk': int(x[1]) if x else 0, 'xo': int(x[0]) if x else 0, 'ncl': -1 if ck is None else len(set(ck['Checkpoints'] or [])),
            'hc': 1 if d['Settings']['Hunt Conditions'] else 0}


def best_of(log):
    b = log.get_best_iter()
    return [b['opt_id'], xinfo(b['x'])[1], enc(b['fx']), int(b['call_id'])]


def target_of(name):
    """ Optimizer a stop file is for (0: malformed, -1: checkpoint request). """
    if name == 'CHKPT':
        return -1
    num = name[5:]
    return int(num) if name.startswith('STOP_') and num.isdigit() else 0


def run_phase(m, sc, L, phase):
    fin = arm(m, sc, L)
    for t, name in sc.get('files', []):
        L.at(L.now - coop.T0 + t, lambda p=Path(m.working_dir) / name, nm=name: (p.write_text(''), L.ev('file', name=nm, fo=target_of(nm))))
    for t, o in sc.get('kills', []):
        def kill(o=o):
            for th in L.threads:
                if th.opt == o and isinstance(th.owner, coop.FakeProcess) and th.state not in ('done', 'parked'):
                    L.ev('oskill', o=o)
                    th.owner._signal(-9)
        L.at(L.now - coop.T0 + t, kill)
    L.meta['running'] = 1
    ev('start', phase=phase, s=snap(m), tu=int(1000 * (m.t_used or 0)))
    exc = ''
    res = None
    if sc.get('split'):
        import io
        own, streams = io.StringIO(), (sys.stdout, sys.stderr)
        sys.stdout = sys.stderr = own
    try:
        res = m.start_manager()
    except BaseException as e:
        exc = type(e).__name__
    if sc.get('split'):
        sys.stdout, sys.stderr = streams
    L.meta['running'] = 0
    s = snap(m)
    ev('ret', s=s, exc=exc, none=1 if res is None else 0)
    r = {'bo': -1, 'xo': 0, 'xk': 0, 'bv': 999999, 'cond': 'none', 'ev': -1}
    if res is not None:
        xo, xk = xinfo(res.x)
        org = res.origin or {}
        st = res.stats or {}
        c = str(st.get('end_cond', 'none'))
        cat = 'crash' if c == 'GloMPO Crash' else 'kbd' if c == 'User Interrupt' else \
            'dead' if c.startswith('No optimizers alive') else 'check' if 'LabChecker' in c and '= True' in c else 'other'
        r = {'bo': org.get('opt_id', -1), 'xo': xo, 'xk': xk, 'bv': enc(res.fx), 'cond': cat,
             'ev': st.get('f_evals', -1)}
    live = []
    for th in L.threads[1:]:
        if th.opt and th.state not in ('done', 'parked') and th.kill is None:
            live.append(th.opt)
    out = dict(r=r, live=sorted(live), closed=1 if 'log' in fin else 0, full=1 if sc.get('summary', 2) == 2 else 0,
               log=fin.get('log', []), best=fin.get('best', [0, 0, 0, 0]), nlog=fin.get('n', -1))
    ev('fin', **out)
    msgs = fin.get('msgs', {})
    for o in sorted(msgs):
        if msgs[o] is not None:
            ev('msgs', o=o, ms=msgs[o])
    yml, h5 = Path(m.working_dir) / 'glompo_manager_log.yml', Path(m.working_dir) / 'glompo_log.h5'
    if sc.get('split'):
        ev('prints', mgr=tokens(own.getvalue()), fs=[[int(p.stem[-4:]), p.suffix[1:], tokens(p.read_text())] for p in
                                                     sorted((Path(m.working_dir) / 'glompo_optimizer_printstreams').glob('printstream_*.*'))])
    ev('files', yml=1 if yml.exists() else 0, h5=1 if h5.exists() else 0, run=1 if 'log' in fin else 0)
    if yml.exists() and 'log' in fin:
        ev('yml', req=0, **read_yaml(yml))
    if h5.exists() and 'log' in fin:
        ev('h5', **dump_h5(h5))
    return res


def tokens(text):
    import re
    return [[int(a), int(b)] for a, b in re.findall(r'<(\d+)\.(\d+)>', text)]


class Diag(logging.Handler):
    """ Keeps the traceback of a crash for the replay file (not used for any verdict). """

    def emit(self, record):
        if record.levelno >= logging.CRITICAL and record.exc_info and coop.LAB.cur is coop.LAB.main:
            import traceback
            Ctx.diag = ''.join(traceback.format_exception(*record.exc_info))[-1200:]


def run_scenario(sc, scratch):
    """ Execute in the current (forked) process; returns the trace. """
    warnings.simplefilter('ignore')
    logging.raiseExceptions = False
    root = logging.getLogger('glompo')
    root.handlers[:] = [Diag()]
    root.propagate = False
    root.setLevel({'d': logging.DEBUG, 'i': logging.INFO}.get(sc.get('ll', 'w'), logging.WARNING))
    random.seed(sc['seed'])
    np.random.seed(sc['seed'] % 2 ** 31)
    wd = Path(scratch) / 'wd'
    wd.mkdir(parents=True, exist_ok=True)
    os.chdir(wd)
    ckdir = Path(scratch) / 'ck'
    Ctx.sc, Ctx.counts, Ctx.ckpts = sc, {}, []
    if sc.get('vis'):
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        FigureCanvasAgg.draw = lambda *a, **k: None  # nobody looks at the picture itself
    Ctx.want_ckdir = ckdir
    L = coop.Lab(sc['seed'], sc.get('strat', 'weights'), sc.get('steps', 60000))
    coop.activate(L)
    hooks(L)

    def stuck(kind):
        waiting = [[t.opt, t.state] for t in L.threads if t.state not in ('done', 'parked')]
        import traceback
        fr = sys._current_frames()
        tb = traceback.format_stack(L.cur and sys._getframe())
        L.ev('stuck', kind=kind, th=sorted({w[0] for w in waiting}))
        finish_trace(sc, L, scratch)
        os._exit(0)

    L.on_stuck = stuck
    L.meta['stuck'] = stuck
    import signal
    signal.signal(signal.SIGXCPU, lambda *_: stuck('spin'))
    emit_cfg(sc, 'cfg')
    exc = None
    m = None
    try:
        m = LabManager()
        m.setup(**build_kwargs(sc, wd, ckdir))
        run_phase(m, sc, L, 1)
        rs = sc.get('resume') or []
        for i, r in enumerate(rs if isinstance(rs, list) else [rs]):
            if Ctx.ckpts:
                resume(dict(sc, resume=r), L, scratch, wd, i + 2)
    except Exception as e:
        import traceback
        ev('harness', err=traceback.format_exc()[-1500:])
    finish_trace(sc, L, scratch)


def emit_cfg(sc, kind):
    ck = sc.get('ckpt') or {}
    ev(kind, jobs=sc['jobs'], proc=1 if 'processes' in sc['backend'] else 0, hf=sc.get('hf', 5),
       hunter=1 if sc.get('hunter') else 0, share=1 if sc.get('share') else 0, aggr=1 if sc.get('aggr') else 0,
       force=int(1000 * sc.get('force', -1)) if sc.get('force', -1) > 0 else 0, summary=sc.get('summary', 2),
       ck=0 if sc.get('ckpt') is None else 1, rcf=1 if ck.get('raise_checkpoint_fail') else 0, kp=ck.get('keep_past', -1),
       itf=ck.get('checkpoint_iter_frequency', 10 ** 8), tf=int(1000 * ck.get('checkpoint_time_frequency', 10 ** 5)),
       atc=1 if ck.get('checkpoint_at_conv') else 0, ati=1 if ck.get('checkpoint_at_init') else 0,
       vis=1 if sc.get('vis') else 0, win=(sc.get('vis') or {}).get('win', 0), elite=(sc.get('vis') or {}).get('elite', 0),
       split=1 if sc.get('split') else 0, det=1 if sc.get('det') else 0, names=names_of(sc), endto=0 if sc.get('endto') is None else 1, nf=1 if kind == 'cfg2' and sc['resume'].get('nofile') else 0, fam=sc.get('fam', ''))


def resume(sc, L, scratch, wd, phase):
    rs = sc['resume']
    pool = [(i + 1, c) for i, c in enumerate(Ctx.ckpts) if os.path.exists(c)]
    if not pool:
        return
    pos, path = pool[rs.get('which', -1) % len(pool)]
    Ctx.over = dict(Ctx.ckover[pos - 1], **rs.get('over', {}))
    sc = dict(sc, **Ctx.over)
    # stop whatever is left of the first session
    for th in L.threads[1:]:
        if th.state not in ('done', 'parked'):
            th.state = 'parked'
    L.now += rs.get('gap', 0)
    ev('newsession', id=pos)
    emit_cfg(sc, 'cfg2')
    wd2 = wd if rs.get('same') else Path(scratch) / f'wd{phase}'
    Path(wd2).mkdir(exist_ok=True)
    m = LabManager()
    kw = dict(working_dir=wd2, convergence_checker=LabChecker(rs.get('check', {'f': 10 ** 6, 'maxn': 200})),
              overwrite_existing=True)
    kw.update(rs.get('kw', {}))
    keys = {'hf': 'hunt_frequency', 'aggr': 'aggressive_kill', 'share': 'share_best_solutions', 'jobs': 'max_jobs',
            'force': 'force_terminations_after', 'summary': 'summary_files'}
    kw.update({keys[z]: v for z, v in rs.get('over', {}).items()})
    if sc.get('task', 'plain') not in ('plain', 'tag'):
        kw['task'] = make_task(dict(sc, task='plain'))
    err = ''
    try:
        m.load_checkpoint(path, **kw)
    except Exception as e:
        err = type(e).__name__
    ev('loaded', err=err, s=snap(m) if m.is_initialised else {}, n=1)
    if err or not m.is_initialised:
        return

    if sc.get('vis'):
        scope_of(m, 0)
    if rs.get('report'):  # summary of the checkpoint, outside of the working directory
        before = sorted(p.name for p in Path(wd2).iterdir())
        m.write_summary_file(Path(scratch) / f'rep{phase}')
        ev('yml', req=1, **read_yaml(Path(scratch) / f'rep{phase}' / 'glompo_manager_log.yml'))
        ev('reported', same=1 if before == sorted(p.name for p in Path(wd2).iterdir()) else 0,
           n=len(list((Path(scratch) / f'rep{phase}').iterdir())))

    def loadlog():
        ev('loadlog', log=dump_log(m, m.o_counter), best=best_of(m.opt_log))
    if sc.get('summary', 2) < 3:
        loadlog()
    else:  # a log with a file can be read once the file has been opened
        opn = m.opt_log.open

        def opening(*a, **k):
            opn(*a, **k)
            loadlog()
        m.opt_log.open = opening
    run_phase(m, dict(sc, files=[], kills=[]), L, phase)


def finish_trace(sc, L, scratch):
    out = {'id': sc.get('id', 0), 'sc': sc, 'ev': L.events, 'steps': L.steps, 'diag': getattr(Ctx, 'diag', '')}
    p = Path(scratch) / 'trace.json'
    p.write_text(json.dumps(out))


def limits(cpu=40, memory=4 << 30):
    """ A run which spins or fills the memory must not take the machine with it. """
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 10))
    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))


def fork_run(sc, scratch, debug=False, wall=150):
    """ Run one scenario in a forked child; returns the trace dict. """
    import shutil
    import signal
    os.makedirs(scratch, exist_ok=True)
    pid = os.fork()
    if pid == 0:
        try:
            if not debug:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                limits()
            run_scenario(sc, scratch)
            os._exit(0)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(98)
    t0 = coop._real_mono()
    st = None
    while True:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            st = s
            break
        if coop._real_mono() - t0 > wall:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            st = -1
            break
        coop._real_sleep(0.002)
    tp = Path(scratch) / 'trace.json'
    if tp.exists():
        tr = json.loads(tp.read_text())
    else:
        tr = {'id': sc.get('id', 0), 'sc': sc, 'ev': [], 'steps': 0, 'dead': st}
    shutil.rmtree(scratch, ignore_errors=True)
    return tr
