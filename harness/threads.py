"""Threads under a drawn schedule.

Only one thread runs at a time; which one, and for how many lines (or instructions) of the code under test, is drawn from the Gen, so that a
schedule is recorded, replayed and shrunk like everything else.  If the thread whose turn it is waits for another one (the code
under test may use locks), all are let run freely.
"""
import sys
import threading

from . import sut

RUNS = ((1, 3, 10, 2, 30, 5, 100, 400), (1, 2, 3, 1, 2, 4), (1, 2, 5, 10, 20), (50, 1, 150, 10, 600, 2))
PATIENCE = 3.0


class Schedule:
    def __init__(self, g, jobs, fine=False):
        self.fine = fine            # switch between instructions, not lines
        self.g = g
        self.jobs = jobs
        self.runs = g.pick(RUNS)
        self.results = [None] * len(jobs)
        self.alive = set(range(len(jobs)))
        self.turn = None
        self.left = 0
        self.free = False
        self.switches = 0
        self.steps = 0
        self.cond = [threading.Event() for _ in jobs]
        self.codes = {}

    def next(self):
        """Whose turn is next, and for how long"""
        if not self.alive:
            self.turn = None
            return
        order = sorted(self.alive)
        self.turn = order[self.g.below(len(order))]
        self.left = self.g.pick(self.runs)

    def line(self, i):
        if self.free:
            return
        self.steps += 1
        self.left -= 1
        if self.left > 0 or len(self.alive) < 2:
            return
        self.next()
        if self.turn != i:
            self.switches += 1
            self.cond[i].clear()
            self.cond[self.turn].set()
            self.wait(i)

    def wait(self, i):
        while not self.free and not self.cond[i].wait(PATIENCE):
            if self.turn == i:
                return
            seen = self.steps
            if not self.cond[i].wait(PATIENCE) and self.steps == seen:
                self.let_go()

    def let_go(self):
        self.free = True
        for c in self.cond:
            c.set()

    def tracer(self, i):
        codes = self.codes
        fine = self.fine

        def local(frame, event, arg):
            if event == ('opcode' if fine else 'line'):
                self.line(i)
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            ours = codes.get(code)
            if ours is None:
                ours = codes[code] = sut.inside(code.co_filename)
            if not ours:
                return None
            if fine:
                frame.f_trace_opcodes = True
            return local
        return glob

    def body(self, i):
        self.cond[i].wait()
        try:
            sys.settrace(self.tracer(i))
            try:
                r = ('ok', self.jobs[i]())
            except Exception as e:
                r = ('raised', e)
            finally:
                sys.settrace(None)
        except BaseException as e:          # the machinery itself
            r = ('raised', e)
        self.results[i] = r
        self.alive.discard(i)
        if not self.free:
            self.next()
            if self.turn is not None:
                self.cond[self.turn].set()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in ts:
            t.start()
        self.next()
        self.cond[self.turn].set()
        for t in ts:
            t.join(90)
            if t.is_alive():
                self.let_go()
                t.join(20)
        return self.results
