"""Deterministic interleaving of the worker threads of the package, line by line."""

import threading

import lib

SRC = str(lib.REPO / "src")


class InjectedError(RuntimeError):
    pass


class Scheduler:
    """Decides after every few lines which thread continues, may fail a line."""

    def __init__(self, threads, turns, quantum, rng, fault=None, exc=InjectedError):
        self.cond = threading.Condition()
        self.expected, self.turns, self.quantum = threads, list(turns), quantum
        self.rng, self.fault, self.exc = rng, fault, exc
        self.depth, self.running = {}, []
        self.ids = {}
        self.turn, self.left, self.pos = None, 0, 0
        self.lines = self.switches = 0
        self.started = self.stalled = self.fired = False
        self.where = ""

    def __enter__(self):
        threading.settrace(self.trace)
        return self

    def __exit__(self, *_):
        threading.settrace(None)

    def trace(self, frame, event, _arg):
        if event != "call" or not frame.f_code.co_filename.startswith(SRC):
            return None
        me = threading.get_ident()
        with self.cond:
            self.depth[me] = self.depth.get(me, 0) + 1
            if self.depth[me] == 1:
                self.ids.setdefault(me, len(self.ids))
                self.running.append(me)
                if self.started and self.turn is None:
                    self.choose()
                if not self.started:
                    if len(self.running) >= self.expected:
                        self.begin()
                    elif not self.cond.wait_for(lambda: self.started, timeout=1):
                        self.begin()
        return self.local

    def begin(self):
        self.started = True
        self.choose()
        self.cond.notify_all()

    def choose(self):
        old = self.turn
        self.running.sort(key=self.ids.get)
        if not self.running:
            # the next pool of threads starts together again
            self.turn, self.started = None, False
            return
        if self.pos < len(self.turns):
            k = self.turns[self.pos]
            self.pos += 1
        else:
            k = self.rng.randrange(len(self.running))
        self.turn = self.running[k % len(self.running)]
        self.left = self.rng.randint(1, 2 * self.quantum)
        self.switches += old != self.turn

    def local(self, frame, event, _arg):
        me = threading.get_ident()
        if event == "line":
            with self.cond:
                self.lines += 1
                if self.fault is not None and self.lines == self.fault:
                    self.fired = True
                    self.where = f"{frame.f_code.co_name}:{frame.f_lineno}"
                    self.leave(me)
                    raise self.exc("injected")
                self.step(me)
        elif event == "return":
            with self.cond:
                self.depth[me] -= 1
                if self.depth[me] == 0:
                    self.leave(me)
        return self.local

    def leave(self, me):
        if me in self.running:
            self.running.remove(me)
        if self.turn == me:
            self.choose()
        self.cond.notify_all()

    def step(self, me):
        if self.stalled:
            return
        if self.turn == me:
            self.left -= 1
            if self.left > 0:
                return
            self.choose()
            if self.turn == me:
                return
            self.cond.notify_all()
        if not self.cond.wait_for(
            lambda: self.turn == me or self.stalled, timeout=3
        ):
            self.stalled = True
            self.cond.notify_all()
