"""Controlled scheduler: runs code that uses threading / ThreadPoolExecutor one thread at a time, with the interleaving
chosen by a random generator (switch points: every synchronisation operation and, optionally, every executed line of
chosen files).  A state in which no thread can run is reported as a deadlock."""
import _thread, collections, sys, threading


class Abort(BaseException):
    pass


class Foreign(Exception):
    """a thread that is not under control used a controlled primitive"""


class T:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.pred = None
        self.done = False
        self.exc = None
        self.prio = 0


class Sched:
    def __init__(self, rng, mode="walk", p=0.3, files=(), maxsteps=60000, changes=3, horizon=400):
        self.rng, self.mode, self.p, self.files, self.maxsteps = rng, mode, p, tuple(files), maxsteps
        self.threads, self.byid = [], {}
        self.cur = None
        self.abort = False
        self.reason = None
        self.steps = 0
        self.foreign = False
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.points = set(rng.sample(range(1, horizon), changes)) if mode == "pct" else set()

    # -- running
    def run(self, fn):
        self.spawn(fn, "main")
        t = self.threads[0]
        self.cur = t
        t.gate.release()
        self.back.acquire()  # all threads have ended
        return self.reason

    def spawn(self, fn, name):
        t = T(fn, name)
        t.prio = self.rng.random()
        self.threads.append(t)
        _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        self.byid[_thread.get_ident()] = t
        t.gate.acquire()
        if self.files:
            sys.settrace(self._trace)
        try:
            if not self.abort:
                t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.exc = e
        sys.settrace(None)
        t.done = True
        self._next(t)

    def me(self):
        t = self.byid.get(_thread.get_ident())
        if t is None:
            self.foreign = True
            raise Foreign()
        return t

    def _trace(self, frame, event, arg):
        if any(f in frame.f_code.co_filename for f in self.files):
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line" and not self.abort:
            self.point()
        return self._line

    def _ready(self):
        out = []
        for t in self.threads:
            if not t.done and (t.pred is None or t.pred()):
                out.append(t)
        return out

    def _next(self, t):
        """hand over to another thread; t is blocked, done or still ready"""
        alive = [x for x in self.threads if not x.done]
        if not alive:
            self.back.release()
            return
        if self.abort:
            n = alive[0]
        else:
            ready = self._ready()
            if not ready:
                self.reason = "deadlock: " + ",".join(sorted(x.name for x in alive))
                self.abort = True
                n = alive[0]
            else:
                n = max(ready, key=lambda x: x.prio) if self.mode == "pct" else self.rng.choice(ready)
        if n is t:
            return
        self.cur = n
        n.gate.release()
        if not t.done:
            t.gate.acquire()

    def point(self):
        """a point at which another thread may go on"""
        t = self.me()
        if self.abort:
            raise Abort()
        self.steps += 1
        if self.steps > self.maxsteps:
            self.reason = "no end after %d steps" % self.maxsteps
            self.abort = True
            raise Abort()
        if self.mode == "pct":
            if self.steps in self.points:
                t.prio = -self.steps
            self._next(t)
        elif self.rng.random() < self.p:
            self._next(t)
        if self.abort:
            raise Abort()

    def block(self, pred):
        t = self.me()
        if self.abort:
            raise Abort()
        if not pred():
            t.pred = pred
            self._next(t)
            t.pred = None
        if self.abort:
            raise Abort()

    # -- stand-ins
    def namespace(self):
        s = self

        class Lock:
            def __init__(self):
                self.owner = None

            def acquire(self, blocking=True, timeout=-1):
                s.point()
                if self.owner is not None and (not blocking or timeout == 0):
                    return False
                if timeout is not None and timeout > 0:
                    hurry = s.rng.random() < .3
                    s.block(lambda: self.owner is None or hurry)
                    if self.owner is not None:
                        return False
                else:
                    s.block(lambda: self.owner is None)
                self.owner = s.me()
                return True

            def release(self):
                if s.abort:
                    self.owner = None
                    return
                if self.owner is None:
                    raise RuntimeError("release unlocked lock")
                self.owner = None
                s.point()

            def locked(self):
                return self.owner is not None

            def __enter__(self):
                self.acquire()
                return True

            def __exit__(self, *a):
                self.release()

            def _drop(self):
                self.owner = None
                return 1

            def _take(self, n):
                s.block(lambda: self.owner is None)
                self.owner = s.me()

            def _mine(self):
                return self.owner is not None

        class RLock(Lock):
            def __init__(self):
                self.owner = None
                self.n = 0

            def acquire(self, blocking=True, timeout=-1):
                if self.owner is s.me():
                    self.n += 1
                    return True
                r = Lock.acquire(self, blocking, timeout)
                if r:
                    self.n = 1
                return r

            def release(self):
                if s.abort:
                    self.owner = None
                    return
                if self.owner is not s.me():
                    raise RuntimeError("cannot release un-acquired lock")
                self.n -= 1
                if self.n == 0:
                    Lock.release(self)

            def _drop(self):
                n = self.n
                self.owner = None
                self.n = 0
                return n

            def _take(self, n):
                Lock._take(self, n)
                self.n = n

            def _mine(self):
                return self.owner is s.me()

        class Condition:
            def __init__(self, lock=None):
                self._lock = RLock() if lock is None else lock
                self.acquire, self.release = self._lock.acquire, self._lock.release
                self.waiters = []

            def __enter__(self):
                return self._lock.__enter__()

            def __exit__(self, *a):
                return self._lock.__exit__(*a)

            def wait(self, timeout=None):
                if s.abort:
                    raise Abort()
                if not self._lock._mine():
                    raise RuntimeError("cannot wait on un-acquired lock")
                tok = [False]
                self.waiters.append(tok)
                n = self._lock._drop()
                hurry = timeout is not None and s.rng.random() < .5
                if timeout is not None and not hurry:
                    # a time-out can always be waited for
                    for _ in range(3):
                        s.point()
                    s.block(lambda: True)
                else:
                    s.block(lambda: tok[0] or hurry)
                if tok in self.waiters:
                    self.waiters.remove(tok)
                self._lock._take(n)
                return tok[0]

            def wait_for(self, pred, timeout=None):
                r = pred()
                k = 0
                while not r:
                    self.wait(timeout)
                    r = pred()
                    k += 1
                    if timeout is not None and k > 3:
                        break
                return r

            def notify(self, n=1):
                if s.abort:
                    raise Abort()
                if not self._lock._mine():
                    raise RuntimeError("cannot notify on un-acquired lock")
                for tok in self.waiters[:n]:
                    tok[0] = True
                del self.waiters[:n]

            def notify_all(self):
                self.notify(len(self.waiters))

            notifyAll = notify_all

        class Event:
            def __init__(self):
                self.flag = False

            def is_set(self):
                s.point()
                return self.flag

            isSet = is_set

            def set(self):
                self.flag = True
                s.point()

            def clear(self):
                self.flag = False
                s.point()

            def wait(self, timeout=None):
                s.point()
                if timeout is None:
                    s.block(lambda: self.flag)
                return self.flag

        class Semaphore:
            def __init__(self, value=1):
                self.v = value

            def acquire(self, blocking=True, timeout=None):
                s.point()
                if self.v <= 0 and (not blocking or timeout is not None):
                    return False
                s.block(lambda: self.v > 0)
                self.v -= 1
                return True

            def release(self, n=1):
                self.v += n
                if not s.abort:
                    s.point()

            def __enter__(self):
                return self.acquire()

            def __exit__(self, *a):
                self.release()

        class Thread:
            n = 0

            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                Thread.n += 1
                self.name = name or "Thread-%d" % Thread.n
                self.target, self.args, self.kwargs, self.daemon = target, args, kwargs or {}, daemon
                self.t = None

            def run(self):
                if self.target:
                    self.target(*self.args, **self.kwargs)

            def start(self):
                if self.t is not None:
                    raise RuntimeError("threads can only be started once")
                self.t = s.spawn(self.run, self.name)
                s.point()

            def join(self, timeout=None):
                s.point()
                if timeout is None:
                    s.block(lambda: self.t.done)

            def is_alive(self):
                return self.t is not None and not self.t.done

            def setDaemon(self, d):
                self.daemon = d

        class Future:
            def __init__(self):
                self._done, self._r, self._e, self._cb = False, None, None, []

            def result(self, timeout=None):
                s.block(lambda: self._done)
                if self._e is not None:
                    raise self._e
                return self._r

            def exception(self, timeout=None):
                s.block(lambda: self._done)
                return self._e

            def done(self):
                return self._done

            def cancel(self):
                return False

            def add_done_callback(self, f):
                if self._done:
                    f(self)
                else:
                    self._cb.append(f)

            def _run(self, fn, a, k):
                try:
                    self._r = fn(*a, **k)
                except Exception as e:
                    self._e = e
                self._done = True
                for f in self._cb:
                    f(self)

        class ThreadPoolExecutor:
            def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
                if max_workers is not None and max_workers <= 0:
                    raise ValueError("max_workers must be greater than 0")
                self.max, self.q, self.ws, self.idle, self.off = max_workers or 5, collections.deque(), [], 0, False

            def submit(self, fn, *a, **k):
                s.point()
                if self.off:
                    raise RuntimeError("cannot schedule new futures after shutdown")
                f = Future()
                self.q.append((f, fn, a, k))
                if len(self.ws) < self.max and self.idle < len(self.q):
                    self.ws.append(s.spawn(self._work, "worker%d" % len(self.ws)))
                s.point()
                return f

            def _work(self):
                while True:
                    self.idle += 1
                    s.block(lambda: self.q or self.off)
                    self.idle -= 1
                    if not self.q:
                        return
                    f, fn, a, k = self.q.popleft()
                    s.point()
                    f._run(fn, a, k)

            def map(self, fn, *its, timeout=None, chunksize=1):
                fs = [self.submit(fn, *a) for a in zip(*its)]
                return (f.result() for f in fs)

            def shutdown(self, wait=True, cancel_futures=False):
                s.point()
                self.off = True
                if cancel_futures:
                    self.q.clear()
                if wait:
                    s.block(lambda: all(w.done for w in self.ws))

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.shutdown()

        import queue as rq

        class Queue:
            def __init__(self, maxsize=0):
                self.maxsize, self.q, self.open = maxsize, collections.deque(), 0

            def put(self, x, block=True, timeout=None):
                s.point()
                if self.maxsize > 0 and len(self.q) >= self.maxsize:
                    if not block or timeout is not None:
                        raise rq.Full()
                    s.block(lambda: len(self.q) < self.maxsize)
                self.q.append(x)
                self.open += 1
                s.point()

            def put_nowait(self, x):
                self.put(x, False)

            def get(self, block=True, timeout=None):
                s.point()
                if not self.q:
                    if not block or timeout is not None:
                        raise rq.Empty()
                    s.block(lambda: self.q)
                return self.q.popleft()

            def get_nowait(self):
                return self.get(False)

            def empty(self):
                return not self.q

            def qsize(self):
                return len(self.q)

            def task_done(self):
                self.open -= 1

            def join(self):
                s.block(lambda: self.open <= 0)

        return dict(Lock=Lock, RLock=RLock, Condition=Condition, Event=Event, Semaphore=Semaphore, BoundedSemaphore=Semaphore,
                    Thread=Thread, ThreadPoolExecutor=ThreadPoolExecutor, Future=Future, Queue=Queue, SimpleQueue=Queue, sleep=lambda *_: s.point())


class _Mod:
    """a module whose blocking primitives are replaced"""

    def __init__(self, real, ns):
        self.__dict__["_real"], self.__dict__["_ns"] = real, ns

    def __getattr__(self, k):
        if k in self._ns:
            return self._ns[k]
        v = getattr(self._real, k)
        if getattr(v, "__name__", "") == "concurrent.futures":
            return _Mod(v, self._ns)
        return v


def patched(sched, prefix):
    """context manager: the modules below prefix use the stand-ins of the scheduler"""
    import concurrent, concurrent.futures, contextlib, queue, time
    ns = sched.namespace()
    mods = {id(m): m for m in (threading, queue, time, concurrent, concurrent.futures)}
    real = {}
    for m in (threading, queue, time, concurrent.futures):
        for k in ns:
            if hasattr(m, k):
                real[id(getattr(m, k))] = k

    @contextlib.contextmanager
    def cm():
        old = []
        for name, m in list(sys.modules.items()):
            if m is None or not name.startswith(prefix):
                continue
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                if id(v) in mods:
                    new = _Mod(v, ns)
                elif id(v) in real:
                    new = ns[real[id(v)]]
                else:
                    continue
                old.append((m, k, v))
                setattr(m, k, new)
        try:
            yield ns
        finally:
            for m, k, v in old:
                setattr(m, k, v)
    return cm()
