"""Real threads under a simulated scheduler: exactly one of them runs at a time and
it may be preempted before every line of the code under test."""
import os
import sys
import threading

from .core import HarnessError, Violation
from .main import REPO
from .seams import HUB

PREFIX = os.path.realpath(REPO) + os.sep + "PyDynamic" + os.sep
_known = {}


def traced(code):
    f = code.co_filename
    r = _known.get(f)
    if r is None:
        r = _known[f] = os.path.realpath(f).startswith(PREFIX)
    return r


class Scheduler:
    def __init__(self, n, ch, ctx, style, switches, known):
        self.ch, self.ctx, self.style = ch, ctx, style
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.alive = list(range(n))
        self.left = switches        # preemptions that are still to come
        self.events = [0] * n
        self.places = [{} for _ in range(n)]
        self.trace = []
        self.error = None
        self.quantum = 0
        self.first = ch.int(0, n - 1)
        self.place = None           # of the rendezvous: where another thread waits
        if style == "meet":
            # one thread stops somewhere, another one runs until it gets there, too
            if known and known[self.first]:
                self.quantum = ch.pick(list(known[self.first].values()))
            else:
                self.quantum = ch.int(1, ch.pick([10, 30, 100, 300]))
            self.left = ch.pick([0, 0, 1, 8])
        else:
            self.next_quantum()

    def next_quantum(self):
        """lines until the next preemption"""
        if self.left <= 0:
            self.quantum = 1 << 60
            return
        self.left -= 1
        if self.style == "dense":
            self.quantum = self.ch.geom(1, 12, 0.4)
        elif self.style == "sparse":
            self.quantum = self.ch.int(1, 60)
        else:
            self.quantum = self.ch.pick([1, 3, 9, 27, 81, 243])

    def choose(self, i):
        """who continues; called by the running thread i"""
        others = [j for j in self.alive if j != i]
        return self.ch.pick(others)

    def point(self, i, where):
        self.events[i] += 1
        self.places[i].setdefault(where, self.events[i])
        if self.style == "meet" and where == self.place:
            self.style = "sparse"
            self.quantum = 1
        self.quantum -= 1
        if self.quantum > 0 or len(self.alive) < 2:
            return
        try:
            if self.style == "meet":
                self.place = where
                self.quantum = 1 << 60
            else:
                self.next_quantum()
            j = self.choose(i)
        except BaseException as e:
            self.error = self.error or e
            self.left = 0
            self.quantum = 1 << 60
            return
        self.trace.append((i, where, j))
        self.ctx.event("preempt", i, where, "->", j)
        self.sem[j].release()
        self.sem[i].acquire()

    def finish(self, i):
        self.alive.remove(i)
        if self.alive:
            try:
                j = self.ch.pick(self.alive)
            except BaseException as e:
                self.error = self.error or e
                j = self.alive[0]
            self.ctx.event("end", i, "->", j)
            self.sem[j].release()
        else:
            self.main.release()


def interleave(calls, states, ch, ctx, style, switches, known=None):
    """run the callables in threads with a random state each; returns results.
    known: for each of them, the places in the code and when they are reached first"""
    n = len(calls)
    s = Scheduler(n, ch, ctx, style, switches, known)
    out = [None] * n

    def body(i):
        def tr(frame, event, arg):
            code = frame.f_code
            if not traced(code):
                return None
            if event == "line":
                s.point(i, "%s:%d" % (os.path.basename(code.co_filename), frame.f_lineno))
            return tr

        s.sem[i].acquire()
        HUB.push(states[i])
        sys.settrace(tr)
        try:
            out[i] = calls[i]()
        except BaseException as e:
            out[i] = (("raised", type(e).__name__), None)
        finally:
            sys.settrace(None)
            HUB.pop()
            s.finish(i)

    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
    for t in threads:
        t.start()
    s.sem[s.first].release()
    s.main.acquire()
    for t in threads:
        t.join()
    if s.error:
        raise s.error
    return out, s
