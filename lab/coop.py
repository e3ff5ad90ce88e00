"""Deterministic cooperative execution of the real GloMPO manager and its optimizers.

`install()` must run before glompo is imported. It replaces, in the standard library only, the sources of
nondeterminism (clock, process/thread start, pipes, manager server) by cooperative stand-ins. Exactly one "lab thread"
runs at a time; every operation on a shared primitive is a scheduling point; the schedule is a pure function of the
seed; time is virtual and only advances with the schedule. No private name of glompo is used.
"""
import _thread
import collections
import os
import pickle
import queue
import random
import sys
import threading
import time

_real_alloc = _thread.allocate_lock
_real_time, _real_mono, _real_sleep = time.time, time.monotonic, time.sleep
_real_start, _real_join, _real_alive = threading.Thread.start, threading.Thread.join, threading.Thread.is_alive
_LOCK_T = type(_real_alloc())
T0 = 1_600_000_000.0

LAB = None  # the active laboratory (one per forked scenario process)


class Killed(BaseException):
    pass


class LabThread:
    def __init__(self, name, tid):
        self.name, self.tid = name, tid
        self.baton = _real_alloc()
        self.baton.acquire()
        self.state = 'ready'  # ready, blocked, done, parked
        self.cond = self.deadline = None
        self.timed_out = False
        self.kill = None  # exit code if a kill is pending
        self.noint = 0  # >0: inside an operation which a kill does not interrupt
        self.weight = 1.0
        self.owner = None  # FakeProcess/Thread
        self.streams = None  # a process has its own
        self.opt = 0
        self.spin = 0


class Lab:
    EPS = 1e-4

    def __init__(self, seed=0, strategy='weights', max_steps=60000):
        self.rng = random.Random(seed)
        self.strategy = strategy
        self.now = T0
        self.events = []
        self.threads = []
        self.steps = 0
        self.max_steps = max_steps
        self.cur = LabThread('main', 0)
        self.threads.append(self.cur)
        self.main = self.cur
        self.off = False
        self.on_stuck = None  # callback(kind)
        self.stick = {'weights': 0.3, 'uniform': 0.0, 'sticky': 0.9, 'mgr': 0.3, 'opts': 0.3}.get(strategy, 0.3)
        self.byident = {_thread.get_ident(): self.cur}
        self.meta = {}
        self.timers = []  # (time, fn)
        self.streams = None

    # ---- events
    def ev(self, _k, /, **kw):
        kw['ev'] = _k
        kw['t'] = int((self.now - T0) * 1000)
        self.events.append(kw)

    # ---- scheduling
    def new_thread(self, name):
        t = LabThread(name, len(self.threads))
        self._weigh(t)
        self.threads.append(t)
        return t

    def _weigh(self, t):
        if self.strategy == 'uniform':
            t.weight = 1.0
        elif self.strategy == 'mgr':
            t.weight = 20.0 if t is self.main else 10 ** self.rng.uniform(-1, 0.5)
        elif self.strategy == 'opts':
            t.weight = 0.03 if t is self.main else 10 ** self.rng.uniform(-0.5, 1)
        else:
            t.weight = 10 ** self.rng.uniform(-2, 1)

    def is_mine(self):
        return not self.off and self.byident.get(_thread.get_ident()) is self.cur

    def yield_(self):
        if not self.is_mine():
            return
        me = self.cur
        if me.kill is not None and not me.noint:
            self.die(me)
        me.state = 'ready'
        self._switch(me)

    def block(self, cond, timeout=None):
        """ Block the current thread until cond() holds or the timeout expires. Returns the value of cond(). """
        if not self.is_mine():
            return cond()
        me = self.cur
        if me.kill is not None and not me.noint:
            self.die(me)
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        me.cond = cond
        me.state = 'blocked'
        self._switch(me)
        return bool(cond())

    def sleep(self, dt):
        self.block(lambda: False, dt)

    def _eligible(self):
        out = []
        for t in self.threads:
            if t.state == 'ready':
                out.append(t)
            elif t.state == 'blocked':
                if (t.deadline is not None and t.deadline <= self.now) or t.cond() or \
                        (t.kill is not None and not t.noint):
                    out.append(t)
        return out

    def _fire_timers(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = self.timers.pop(0)
            fn()

    def at(self, t, fn):
        self.timers.append((T0 + t, len(self.timers), fn))
        self.timers.sort(key=lambda z: z[:2])

    def _switch(self, me):
        self.steps += 1
        self.now += self.EPS
        if self.steps > self.max_steps:
            self._stuck('nohalt')
        self._fire_timers()
        while True:
            el = self._eligible()
            if el:
                break
            dls = [t.deadline for t in self.threads if t.state == 'blocked' and t.deadline is not None]
            if self.timers:
                dls.append(self.timers[0][0])
            if not dls:
                self._stuck('deadlock')
            self.now = max(self.now, min(dls))
            self._fire_timers()
        if len(el) == 1 and el[0] is me:
            me.spin += 1
            if me.spin > 60:  # a lone busy-waiting thread: let virtual time pass
                dls = [t.deadline for t in self.threads if t.state == 'blocked' and t.deadline is not None]
                if self.timers:
                    dls.append(self.timers[0][0])
                self.now = max(self.now + 0.05, min(dls)) if dls else self.now + 0.05
        else:
            me.spin = 0
        if self.rng.random() < 0.02:
            for t in el:
                self._weigh(t)
        if me in el and self.rng.random() < self.stick:
            nxt = me
        elif len(el) == 1:
            nxt = el[0]
        else:
            nxt = self.rng.choices(el, [t.weight for t in el])[0]
        nxt.state = 'ready'
        nxt.cond = None
        if nxt is not me:
            self.cur = nxt
            if isinstance(me.owner, FakeProcess):
                me.streams = sys.stdout, sys.stderr
            else:
                self.streams = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = isinstance(nxt.owner, FakeProcess) and nxt.streams or self.streams
            nxt.baton.release()
            if me.state in ('done', 'parked'):
                return
            me.baton.acquire()
        if me.kill is not None and not me.noint:
            self.die(me)

    def die(self, me):
        """ The current thread stands for a process that was killed: it never runs again. """
        me.state = 'parked'
        me.owner._finished(me.kill)
        self._switch(me)
        me.baton.acquire()  # forever (the scenario process is ended with _exit)
        me.baton.acquire()

    def finish(self, me):
        me.state = 'done'
        self._switch(me)

    def _stuck(self, kind):
        if self.on_stuck:
            self.on_stuck(kind)
        os._exit(97)


# ---------------------------------------------------------------- cooperative primitives
class CoopLock:
    def __init__(self):
        self.held = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        lab = LAB
        if lab is None or not lab.is_mine():
            self.held = 'x'
            return True
        lab.yield_()
        if self.held is not None:
            if not blocking:
                return False
            if not lab.block(lambda: self.held is None, None if timeout is None or timeout < 0 else timeout):
                return False
        self.held = lab.cur
        return True

    def release(self):
        self.held = None
        if LAB is not None:
            LAB.yield_()

    def locked(self):
        return self.held is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    def acquire(self, blocking=True, timeout=-1):
        if LAB is not None and self.held is LAB.cur:
            self.count += 1
            return True
        if super().acquire(blocking, timeout):
            self.count = 1
            return True
        return False

    def release(self):
        self.count -= 1
        if self.count == 0:
            super().release()


class CoopCondition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else CoopRLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]  # compared by identity only
        self.waiters.append(tok)
        self.lock.held = None
        ok = LAB.block(lambda: tok[0], timeout)
        if not ok:
            self.waiters[:] = [w for w in self.waiters if w is not tok]
        LAB.block(lambda: self.lock.held is None)
        self.lock.held = LAB.cur
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else LAB.now + timeout
        while not predicate():
            rem = None if end is None else end - LAB.now
            if rem is not None and rem <= 0:
                break
            self.wait(rem)
        return predicate()

    def notify(self, n=1):
        for tok in self.waiters[:n]:
            tok[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class CoopEvent:
    def __init__(self):
        self.flag = False
        self.opt = 0

    def _log(self, kind):
        lab = LAB
        lab.ev(kind, o=self.opt, by=lab.cur.opt)

    def is_set(self):
        LAB.yield_()
        return self.flag

    isSet = is_set

    def set(self):
        LAB.yield_()
        if self.opt:
            self._log('eset')
        self.flag = True

    def clear(self):
        LAB.yield_()
        if self.opt:
            self._log('eclr')
        self.flag = False

    def wait(self, timeout=None):
        LAB.yield_()
        return LAB.block(lambda: self.flag, timeout)

    def __reduce__(self):
        raise TypeError('cannot pickle a synchronisation primitive')


def cooperate(obj, seen=None):
    """ Replace lock/condition/event attributes of a freshly created object by cooperative versions. """
    m = {}

    def conv(v):
        if id(v) in m:
            return m[id(v)]
        n = v
        if isinstance(v, _LOCK_T):
            n = CoopLock()
        elif isinstance(v, type(threading.RLock())):
            n = CoopRLock()
        elif isinstance(v, threading.Condition):
            n = CoopCondition(conv(v._lock))
        elif isinstance(v, threading.Event):
            n = CoopEvent()
        m[id(v)] = n
        return n

    for k, v in list(vars(obj).items()):
        n = conv(v)
        if n is not v:
            setattr(obj, k, n)
    return obj


def _cp(v):
    return pickle.loads(pickle.dumps(v))


class Proxy:
    """ Stand-in for the auto proxy of a SyncManager: exposes public methods only; arguments and results are copied.
    """

    def __init__(self, obj, name):
        d = self.__dict__
        d['_lab_obj'] = obj
        d['_lab_name'] = name
        for m in dir(obj):
            if not m.startswith('_') and callable(getattr(obj, m)):
                d[m] = self._mk(m)

    def _mk(self, m):
        fn = getattr(self._lab_obj, m)

        def call(*a, **k):
            lab = LAB
            lab.yield_()
            me = lab.cur
            me.noint += 1
            try:
                a, k = _cp((a, k))
                hook = lab.meta.get('qhook')
                try:
                    r = fn(*a, **k)
                except BaseException as e:
                    if hook:
                        hook(m, a, None, e)
                    raise
                if hook:
                    hook(m, a, r, None)
                r = _cp(r)
            finally:
                me.noint -= 1
            lab.yield_()
            return r

        return call

    def __reduce__(self):
        raise TypeError('proxy objects cannot be pickled')


class FakeSyncManager:
    def __init__(self, *a, **k):
        self.address = None

    def start(self, *a, **k):
        pass

    def shutdown(self):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        from multiprocessing.managers import SyncManager

        def make(*a, **k):
            if name == 'Event':
                return CoopEvent()
            reg = SyncManager._registry[name]
            obj = cooperate(reg[0](*a, **k))
            return Proxy(obj, name)

        return make

    def __reduce__(self):
        raise TypeError('manager objects cannot be pickled')


class FakeConn:
    def __init__(self):
        self.buf = collections.deque()
        self.peer = None
        self.opt = 0
        self.side = '?'
        self.eof = False  # the other end is closed
        self.reset = False  # ... with messages in it which nobody will read

    def send(self, obj):
        lab = LAB
        lab.yield_()
        data = pickle.dumps(obj)
        if self.eof:
            h = lab.meta.get('pipehook')
            if h:
                h('send', self, obj, 0)
            raise BrokenPipeError(32, 'Broken pipe')
        lab.cur.noint += 1
        self.peer.buf.append(data)
        h = lab.meta.get('pipehook')
        if h:
            h('send', self, obj)
        lab.cur.noint -= 1

    def recv(self):
        lab = LAB
        lab.yield_()
        lab.block(lambda: bool(self.buf) or self.eof)
        if not self.buf:
            if self.reset:
                self.reset = False
                raise ConnectionResetError(104, 'Connection reset by peer')
            raise EOFError
        obj = pickle.loads(self.buf.popleft())
        h = lab.meta.get('pipehook')
        if h:
            h('recv', self, obj)
        return obj

    def poll(self, timeout=0.0):
        lab = LAB
        lab.yield_()
        if self.buf or self.eof:
            return True
        if timeout is None or timeout > 0:
            return lab.block(lambda: bool(self.buf) or self.eof, timeout)
        return False

    def close(self):
        pass

    def fileno(self):
        return -1

    def __reduce__(self):
        raise TypeError('connections cannot be pickled here')


def FakePipe(duplex=True):
    a, b = FakeConn(), FakeConn()
    a.peer, b.peer = b, a
    a.side, b.side = 'mgr', 'opt'
    return a, b


class _Runner:
    """ Shared by processes and threads: run a callable as a lab thread. """


def _spawn(owner, name, fn):
    lab = LAB
    t = lab.new_thread(name)
    t.owner = owner

    def body():
        lab.byident[_thread.get_ident()] = t
        t.baton.acquire()
        try:
            fn(t)
        finally:
            lab.finish(t)

    _thread.start_new_thread(body, ())
    return t


_pids = [1000]


class FakeProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._t, self._a, self._k = target, tuple(args), dict(kwargs)
        self.name, self.daemon = name, daemon
        self.exitcode_ = None
        self.thread = None
        self.pid = None
        self.started = False

    @property
    def exitcode(self):
        if LAB:
            LAB.yield_()
        return self.exitcode_

    def _finished(self, code):
        if self.exitcode_ is None:
            self.exitcode_ = code
            LAB.ev('pexit', o=self.thread.opt if self.thread else 0, code=code)
            h = LAB.meta.get('exithook')
            if h:
                h(self)

    def start(self):
        _pids[0] += 1
        self.pid = _pids[0]
        self.started = True

        def fn(t):
            code = 0
            try:
                if t.kill is not None:
                    LAB.die(t)
                self._t(*self._a, **self._k)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Killed:
                code = -9
            except BaseException:
                code = 1
            for f in (sys.stdout, sys.stderr):
                try:
                    f.flush()
                except Exception:
                    pass
            self._finished(code)

        LAB.yield_()
        self.thread = _spawn(self, self.name, fn)
        h = LAB.meta.get('starthook')
        if h:
            h(self, self.thread)
        LAB.yield_()

    def run(self):
        self._t(*self._a, **self._k)

    def is_alive(self):
        LAB.yield_()
        return self.started and self.exitcode_ is None

    def join(self, timeout=None):
        LAB.yield_()
        LAB.block(lambda: self.exitcode_ is not None, timeout)

    def _signal(self, code):
        t = self.thread
        if self.exitcode_ is None and t is not None and t.kill is None:
            t.kill = code
            if t.noint:  # the process dies now, the operation it requested from the server still completes
                self._finished(code)

    def terminate(self):
        LAB.yield_()
        LAB.ev('term', o=self.thread.opt if self.thread else 0, by=LAB.cur.opt)
        self._signal(-15)

    def kill(self):
        LAB.yield_()
        LAB.ev('term', o=self.thread.opt if self.thread else 0, by=LAB.cur.opt)
        self._signal(-9)

    def close(self):
        pass

    @property
    def sentinel(self):
        return -1


class _ThreadOwner:
    def __init__(self, th):
        self.th = th

    def _finished(self, code):
        LAB.ev('pexit', o=self.th._labt.opt, code=code)


def _t_start(self):
    lab = LAB
    if lab is None or not lab.is_mine():
        return _real_start(self)
    lab.yield_()
    own = _ThreadOwner(self)
    t = lab.new_thread(self.name)
    t.owner = own
    self._labt = t
    orig = self.run
    self._lab_done = False

    def run():
        lab.byident[_thread.get_ident()] = t
        t.baton.acquire()
        code = 0
        try:
            orig()
        except BaseException:
            code = 1
        finally:
            self._lab_done = True
            own._finished(code)
            lab.finish(t)

    self.run = run
    self.daemon = True
    _real_start(self)
    h = lab.meta.get('starthook')
    if h:
        h(self, t)
    lab.yield_()


def _t_alive(self):
    if LAB is not None and hasattr(self, '_labt'):
        LAB.yield_()
        return not self._lab_done
    return _real_alive(self)


def _t_join(self, timeout=None):
    if LAB is not None and hasattr(self, '_labt'):
        LAB.yield_()
        LAB.block(lambda: self._lab_done, timeout)
        return
    return _real_join(self, timeout)


def install():
    import multiprocessing
    import multiprocessing.context

    def vtime():
        return LAB.now if LAB is not None and not LAB.off else _real_time()

    def vmono():
        return LAB.now - T0 + 1000 if LAB is not None and not LAB.off else _real_mono()

    def vsleep(dt):
        if LAB is not None and LAB.is_mine():
            LAB.sleep(dt)
        else:
            _real_sleep(dt)

    time.time, time.monotonic, time.sleep = vtime, vmono, vsleep
    time.perf_counter = vmono
    queue.time = vmono
    threading.Thread.start, threading.Thread.join, threading.Thread.is_alive = _t_start, _t_join, _t_alive
    multiprocessing.Manager = FakeSyncManager
    multiprocessing.Pipe = FakePipe
    multiprocessing.Process = FakeProcess


def activate(lab):
    global LAB
    LAB = lab
    if lab is not None:
        lab.byident[_thread.get_ident()] = lab.cur
