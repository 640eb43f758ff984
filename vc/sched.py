"""Deterministic interleaving of real threads over the real code (bounded complement to the lock contracts).

One thread runs at a time; `switches` gives how many bytecode steps of the package's code each turn lasts; -k: the turn
lasts until the thread has let go of its last lock for the k-th time.
"""
import sys, threading
from . import world as world_mod


class Deadlock(Exception):
    pass


class Sched(object):
    active = None

    def __init__(self, fns, switches, limit=200000):
        self.fns = fns
        self.n = len(fns)
        self.switches = list(switches)
        self.cv = threading.Condition()
        self.turn = 0
        self.left = self.switches.pop(0) if self.switches else limit
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.results = [None] * self.n
        self.steps = 0
        self.limit = limit
        self.dead = False
        self.ids = {}
        self.own = [0] * self.n
        self.prefix = world_mod.REPO

    # ---- called from the threads
    def me(self):
        return self.ids.get(threading.get_ident())

    def _next(self, t):
        """pick who runs after thread t"""
        for d in range(1, self.n + 1):
            u = (t + d) % self.n
            if not self.done[u] and not (self.blocked[u] is not None and self.blocked[u].owner not in (None, u)):
                return u
        return None

    def _switch(self, t):
        u = self._next(t)
        if u is None:
            if not all(self.done):
                self.dead = True
            self.cv.notify_all()
            return
        self.turn = u
        self.left = self.switches.pop(0) if self.switches else self.limit
        self.cv.notify_all()

    def _wait(self, t):
        while self.turn != t and not self.dead:
            if not self.cv.wait(20):
                self.dead = True
                self.cv.notify_all()
        if self.dead:
            raise Deadlock()

    def step(self):
        t = self.me()
        if t is None or self.dead:
            return
        self.steps += 1
        if self.steps > self.limit:
            self.dead = True
        if self.left < 0:
            return
        self.left -= 1
        if self.left < 0:
            with self.cv:
                self._switch(t)
                self._wait(t)

    def acquired(self):
        t = self.me()
        if t is not None:
            self.own[t] += 1

    def released(self):
        t = self.me()
        if t is None:
            return
        self.own[t] -= 1
        if self.own[t] == 0 and self.left < 0 and not self.dead:
            self.left += 1
            if self.left == 0:
                with self.cv:
                    self._switch(t)
                    self._wait(t)

    def block(self, lock):
        """the lock is owned by another thread"""
        t = self.me()
        with self.cv:
            while lock.owner not in (None, t):
                self.blocked[t] = lock
                self._switch(t)
                self._wait(t)
            self.blocked[t] = None

    # ---- tracing
    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        frame.f_trace_opcodes = True
        self.step()
        return self._local

    def _local(self, frame, event, arg):
        if event == 'opcode':
            self.step()
        return self._local

    def _body(self, t):
        self.ids[threading.get_ident()] = t
        try:
            with self.cv:
                self._wait(t)
            sys.settrace(self._trace)
            try:
                self.results[t] = ('ok', self.fns[t]())
            finally:
                sys.settrace(None)
        except Deadlock:
            self.results[t] = ('deadlock', None)
        except BaseException as e:
            self.results[t] = ('exc', e)
        with self.cv:
            self.done[t] = True
            if not self.dead:
                self._switch(t)
            else:
                self.cv.notify_all()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(k,), daemon=True) for k in range(self.n)]
        Sched.active = self
        try:
            for th in ths:
                th.start()
            for th in ths:
                th.join(60)
        finally:
            Sched.active = None
        return self.results


def interleave(fns, switches):
    """[('ok', value) | ('exc', exception) | ('deadlock', None)] per function"""
    return Sched(fns, switches).run()
