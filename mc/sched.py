"""A controlled scheduler for Python threads: it decides at every traced line which thread runs next.

Real threads run real code, one at a time; a trace function hands control back to the scheduler at every
line event of the files of interest, and before it takes a lock.  Which thread continues is a choice of the explorer: continuing the running
thread is free, switching away from it costs one preemption, choosing among the others at the end of a thread is
free.  The locks of the code under test are replaced by ones that tell the scheduler when a thread has to wait
(`install`, before that code is imported); a thread that does not come back for another reason is set aside until it does.
"""
import _thread
import gc
import queue
import sys
import threading
import time
import types

ACTIVE = {}  # thread identifier -> (scheduler, thread), of the threads under control


class Lock:
    """threading.Lock whose waiting is visible to the scheduler."""

    def __init__(self):
        self._raw = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = ACTIVE.get(_thread.get_ident())
        if me is not None and not me[0].free_run:
            me[0].pause(me[1])  # another thread may be first
        if self._raw.acquire(False):
            return True
        if not blocking:
            return False
        if me is None or timeout >= 0:
            return self._raw.acquire(True, timeout)
        s, t = me
        while True:
            t.waits = self
            s.pause(t)
            t.waits = None
            if self._raw.acquire(False):
                return True

    def release(self):
        self._raw.release()

    def locked(self):
        return self._raw.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()

    def _at_fork_reinit(self):
        self._raw._at_fork_reinit()


class RLock:
    """threading.RLock, likewise."""

    def __init__(self):
        self._lock = Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if not self._lock.acquire(blocking, timeout):
            return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _release_save(self):
        state = self._count
        self._count, self._owner = 0, None
        self._lock.release()
        return state

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._owner, self._count = _thread.get_ident(), state

    def _at_fork_reinit(self):
        self.__init__()


def install():
    threading.Lock = Lock
    threading.RLock = RLock


class Deadlock(Exception):
    pass


class Thread:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.go = queue.SimpleQueue()
        self.waits = None  # the lock it waits for
        self.done = False
        self.stuck = False
        self.arrived = False
        self.error = None
        self.value = None
        self.steps = 0


class Scheduler:
    PATIENCE = 3.0
    GIVE_UP = 20.0

    def __init__(self, chooser, fns, wanted, bytecodes=False, limit=30000):
        """wanted(filename): whether the lines of a file are scheduling points.  After `limit` points the threads
        run without further ones, one after the other."""
        self.c = chooser
        self.threads = [Thread(i, f) for i, f in enumerate(fns)]
        self.wanted, self.bytecodes = wanted, bytecodes
        self.back = queue.SimpleQueue()
        self.free_run = False
        self.cache = {}
        self.limit = limit
        self.points = 0
        self.preemptions = 0
        self.where = []

    def pause(self, t):
        """Called by a thread under control: gives the control back until it is this thread's turn again."""
        t.steps += 1
        t.arrived = True
        self.back.put(None)
        t.go.get()

    def _tracer(self, t):
        cache, wanted = self.cache, self.wanted

        def local(frame, event, arg):
            if self.free_run:
                sys.settrace(None)
                return None
            if event == "line":
                self.pause(t)
            return local

        def glob(frame, event, arg):
            if self.free_run:
                sys.settrace(None)
                return None
            fn = frame.f_code.co_filename
            w = cache.get(fn)
            if w is None:
                w = cache[fn] = wanted(fn)
            return local if w else None
        return glob

    def _instrument(self):
        """Every bytecode of the wanted files becomes a scheduling point.  (Opcode events of sys.settrace crash
        CPython 3.12 when several threads use them, so this is done before the threads start.)"""
        mon = sys.monitoring
        mon.use_tool_id(mon.DEBUGGER_ID, "schedule")

        def step(code, offset):
            me = ACTIVE.get(_thread.get_ident())
            if me is not None and not self.free_run:
                self.pause(me[1])

        mon.register_callback(mon.DEBUGGER_ID, mon.events.INSTRUCTION, step)
        seen = set()

        def walk(code):
            if code in seen or not self.wanted(code.co_filename):
                return
            seen.add(code)
            mon.set_local_events(mon.DEBUGGER_ID, code, mon.events.INSTRUCTION)
            for k in code.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)

        for o in gc.get_objects():
            if isinstance(o, types.FunctionType):
                walk(o.__code__)

    def _body(self, t):
        t.go.get()
        ACTIVE[_thread.get_ident()] = self, t
        if not self.bytecodes:
            sys.settrace(self._tracer(t))
        try:
            t.value = t.fn()
        except BaseException as e:  # noqa: BLE001
            t.error = e
        finally:
            sys.settrace(None)
            ACTIVE.pop(_thread.get_ident(), None)
            t.done = True
            t.arrived = True
            self.back.put(None)

    def run(self):
        if self.bytecodes:
            self._instrument()
        for t in self.threads:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.arrived = True  # waits for its first turn
            th.start()
        current = None
        waiting_since = None
        while True:
            ready = [t for t in self.threads if not t.done and t.arrived and not (t.waits and t.waits.locked())]
            if not ready:
                alive = [t for t in self.threads if not t.done]
                if not alive:
                    return
                if all(t.arrived for t in alive):
                    raise Deadlock(f"threads {[t.i for t in alive]} wait for locks of each other after {self.points} steps")
                # every live thread waits for something: give it time, then report
                waiting_since = waiting_since or time.time()
                if not self._wait(1.0) and time.time() - waiting_since > self.GIVE_UP:
                    raise Deadlock(f"threads {[t.i for t in alive]} wait for each other after {self.points} steps")
                continue
            waiting_since = None
            if current in ready:
                order = [current, *[t for t in ready if t is not current]]
                k = self.c.dev(len(order)) if len(order) > 1 else 0
                if k:
                    self.preemptions += 1
            else:
                order = ready
                k = self.c.free(len(order)) if len(order) > 1 else 0
            current = order[k]
            self.points += 1
            if self.points > self.limit:
                self.free_run = True
            self._step(current)

    def _step(self, t):
        t.arrived = False
        t.go.put(None)
        deadline = time.time() + (self.GIVE_UP if self.free_run else self.PATIENCE)
        while not t.arrived:
            if not self._wait(0.2) and time.time() > deadline:
                return  # it waits for another thread

    def _wait(self, seconds):
        try:
            self.back.get(timeout=seconds)
        except queue.Empty:
            return False
        return True
