"""
Deterministic scheduler: worker threads run one at a time and may be switched at
every source line (or byte code) of chosen files, driven by a seeded generator.

A thread blocked in an instrumented Event yields to the others; one blocked in
anything else is noticed by its lack of progress, and the others go on.
"""
import sys
import threading
import time
import types


class Trouble(BaseException):
    """ The scheduler itself failed: no verdict. """


class Stall(Exception):
    """ A wait that no other thread can end. """


class Sched:
    patience = 2.

    def __init__(self, rng, files, stay=.5, opcodes=False, limit=200000):
        self.rng, self.files, self.stay, self.opcodes = rng, tuple(files), stay, opcodes
        self.cond = threading.Condition()
        self.turn = None
        self.live = []          # in order of creation
        self.stuck = set()
        self.steps = 0
        self.switches = 0
        self.limit = limit
        self.trace = []         # (worker, line) - the interleaving
        self.errors = []
        self.stalls = []
        self.progress = 0
        self.me = threading.local()

    # -- worker side
    def _pick(self, me, others_only=False):
        run = [w for w in self.live if w not in self.stuck and not (others_only and w == me)]
        if not run:
            return me if me in self.live else None
        if me in run and not others_only and self.rng.random() < self.stay:
            return me
        return self.rng.choice(run)

    def point(self, me, what=None, others_only=False):
        """ A place where another thread may go on. """
        self.steps += 1
        self.progress += 1
        if len(self.trace) < 4000:
            self.trace.append((me, what))
        if self.steps > self.limit and not others_only:
            return
        with self.cond:
            if me in self.stuck:
                self.stuck.discard(me)      # it was only blocked
                if self.turn not in self.live:
                    self.turn = me
                self._await(me)
                return
            nxt = self._pick(me, others_only)
            if nxt != me and nxt is not None:
                self.switches += 1
                self.turn = nxt
                self.cond.notify_all()
                self._await(me)

    def _await(self, me):
        while self.turn != me:
            if not self.cond.wait(100):
                raise Trouble('scheduler: no turn in 100 s')

    def worker(self):
        return getattr(self.me, 'n', None)

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        self.point(self.me.n, frame.f_lineno)
        return self._local

    def _local(self, frame, event, arg):
        if event in ('line', 'opcode'):
            self.point(self.me.n, frame.f_lineno)
        return self._local

    def _run(self, n, fn):
        self.me.n = n
        with self.cond:
            self._await(n)
        sys.settrace(self._tracer)
        try:
            fn()
        except BaseException as ex:
            self.errors.append((n, ex))
        finally:
            sys.settrace(None)
            with self.cond:
                self.progress += 1
                self.live.remove(n)
                self.stuck.discard(n)
                if self.turn == n:
                    self.turn = self._pick(n)
                self.cond.notify_all()

    # -- control
    def run(self, fns):
        """ Run the functions to completion under this scheduler. """
        threads = []
        name = self.rng.choice([None, 'reader'])    # names need not be unique
        for n, fn in enumerate(fns):
            self.live.append(n)
            threads.append(threading.Thread(target=self._run, args=(n, fn), daemon=True, name=name))
        for t in threads:
            t.start()
        with self.cond:
            self.turn = self.rng.choice(self.live)
            self.cond.notify_all()
        last, since = -1, time.monotonic()
        moved = time.monotonic()
        while any(t.is_alive() for t in threads):
            next(t for t in threads if t.is_alive() or t is threads[-1]).join(min(.05, Sched.patience / 2))
            if self.progress != last:
                last, since = self.progress, time.monotonic()
                moved = since
            elif time.monotonic() - since > Sched.patience:
                with self.cond:
                    if self.turn is not None and self.turn in self.live:
                        self.stuck.add(self.turn)
                        Sched.patience = .02    # real locks are in use
                        self.turn = self._pick(None)
                    elif self.live:
                        self.turn = self._pick(None) or self.live[0]
                    self.cond.notify_all()
                since = time.monotonic()
            if time.monotonic() - moved > 90:
                raise Stall('no thread makes progress: deadlock')


class Event:
    """ Stands in for threading.Event inside the code under test. """
    sched = None        # the active scheduler

    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        s = Event.sched
        me = s.worker() if s is not None else None
        for _ in range(20000):
            if self.flag:
                return True
            if me is None or [w for w in s.live if w not in s.stuck] == [me]:
                break
            s.point(me, 'wait', others_only=True)
        if self.flag:
            return True
        if s is not None:
            s.stalls.append(me)
        raise Stall('waiting for an event that no thread is going to set')


class Lock:
    """ Stands in for threading.Lock inside the code under test. """
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = Event.sched
        me = (s.worker() if s is not None else None, threading.get_ident())
        for _ in range(20000):
            if self.owner is None or self.reentrant and self.owner == me:
                self.owner = me
                self.count += 1
                return True
            if not blocking or timeout is not None and timeout == 0:
                return False
            if me[0] is None or [w for w in s.live if w not in s.stuck] == [me[0]]:
                break
            s.point(me[0], 'lock', others_only=True)
        if timeout is not None and timeout > 0:
            return False
        if s is not None:
            s.stalls.append(me[0])
        raise Stall('waiting for a lock that no thread is going to release')

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class RLock(Lock):
    reentrant = True


STANDINS = {'Event': Event, 'Lock': Lock, 'RLock': RLock}


def install(module):
    """ Put the stand-ins where the module has imported the real ones; returns what to restore. """
    old = {n: getattr(module, n) for n in STANDINS if hasattr(module, n)}
    for n in old:
        setattr(module, n, STANDINS[n])
    if getattr(module, 'threading', None) is threading:
        old['threading'] = threading
        proxy = types.ModuleType('threading')
        proxy.__dict__.update(threading.__dict__, **STANDINS)
        module.threading = proxy
    return old


def restore(module, old):
    for n, v in old.items():
        setattr(module, n, v)
