"""Real threads under a seeded scheduler.

Exactly one thread runs at a time.  At every line of the library (and at
explicit yield points of the simulated clients) the scheduler may pass the
turn to another thread, as the choices say.  Unless a run asks for it (deep),
the turn is not passed while JAX is on the stack, tree traversals excepted: JAX
holds locks there.  In deep runs a thread that runs into a lock held by a
waiting one is recognised by the process standing still; the turn then goes to
another thread, and the blocked one waits for its turn at its next line.
"""
import dis
import functools
import os
import sys
import threading
import time

from .inject import PKG

JAX = os.sep + "jax" + os.sep
TREE = ("tree.py", "tree_util.py")
_MONO = time.monotonic
_CPU = time.process_time


def jax_on_stack(frame):
    n = 0
    while frame is not None and n < 80:
        f = frame.f_code.co_filename
        if JAX in f and "site-packages" in f and not f.endswith(TREE):
            return True
        frame = frame.f_back
        n += 1
    return False


class Lines:
    """Collects the different lines of the library that are run, with how many
    calls of the library deep they are at least, and those that are run right
    after something was stored in an object: seen maps each to (depth, after)."""

    def __init__(self, deep, seen):
        self.deep, self.seen = deep, seen

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)

    def _call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if not self.deep and jax_on_stack(frame.f_back):
            return None
        stores = stored(frame.f_code)
        last = None

        def line(frame, event, arg):
            nonlocal last
            if event == "line":
                k = place(frame)
                d, after = self.seen.get(k, (99, False))
                self.seen[k] = min(d, depth(frame)), after or last in stores
                last = frame.f_lineno
            return line

        return line


@functools.cache
def stored(code):
    """The lines of a function that store something in an object."""
    out, at = set(), None
    for i in dis.get_instructions(code):
        at = (i.positions.lineno if i.positions else None) or at
        if i.opname in ("STORE_ATTR", "STORE_SUBSCR"):
            out.add(at)
    return out


def depth(frame):
    n = 0
    while frame is not None:
        n += frame.f_code.co_filename.startswith(PKG)
        frame = frame.f_back
    return n


def place(frame):
    return frame.f_code.co_filename[len(PKG):], frame.f_lineno


class Killed(BaseException):
    """The thread was made to die here."""


class Thread:
    def __init__(self, sched, i, fn):
        self.sched, self.i, self.fn = sched, i, fn
        self.turn = threading.Semaphore(0)
        self.done = False
        self.error = None
        self.result = None
        self.lines = 0
        self.die_at = None
        self.stops = {}  # place -> arrival at which the turn is passed on
        self.t = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.turn.acquire()
        try:
            sys.settrace(self._call)
            self.result = self.fn(self)
        except BaseException as e:  # noqa
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.sched.finished(self)

    def _call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if not self.sched.deep and jax_on_stack(frame.f_back):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.die_at is not None and self.lines >= self.die_at:
                self.die_at = None
                raise Killed()
            self.sched.point(self, frame)
        return self._line


class Sched:
    """draw(n) -> int gives the choices."""

    def __init__(self, ctx, rate, deep=False):
        self.ctx = ctx
        self.deep = deep
        self.current = None
        self.blocked = 0
        # a switch at one in `rate` lines; None: at the threads' stops only
        self.rate = rate
        self.left = None
        self.threads = []
        self.main = threading.Semaphore(0)
        self.switches = 0
        self.free = False
        self.places = set()
        self.step = 0

    def gap(self):
        """Lines until the next switch; 0 stands for never."""
        v = self.ctx.draw(192 * self.rate, "stay")
        if not v:
            return 1 << 60
        # mostly short, now and then long
        return (1 + v % (2 * self.rate)) * (10 if v // (2 * self.rate) % 6 == 5 else 1)

    def spent(self):
        return len(self.ctx.choices) > 3000

    def pick(self, o):
        return o[0] if self.spent() else o[self.ctx.draw(len(o), "next")]

    def add(self, fn):
        t = Thread(self, len(self.threads), fn)
        self.threads.append(t)
        return t

    def others(self, t):
        return [x for x in self.threads if not x.done and x is not t]

    def point(self, t, frame):
        self.step += 1
        if self.free:
            return
        if self.current is not t:
            # a lock became free: wait for the turn
            t.turn.acquire()
            if self.free:
                return
        o = self.others(t)
        if not o:
            return
        if self.rate is None:
            if frame is None or not t.stops:
                return
            k = place(frame)
            n = t.stops.get(k)
            if n is None:
                return
            t.stops[k] = n - 1
            if n > 0:
                return
            del t.stops[k]
            self.switch(t, frame, o)
            return
        if self.left is None:
            self.left = self.gap()
        self.left -= 1
        if self.left > 0 or self.blocked >= 8 or self.spent():
            return
        self.left = self.gap()
        self.switch(t, frame, o)

    def switch(self, t, frame, o):
        nxt = self.pick(o)
        self.switches += 1
        if frame is not None:
            self.places.add(frame.f_code.co_name)
        self.give(nxt)
        t.turn.acquire()

    def give(self, t):
        self.current = t
        t.turn.release()

    def finished(self, t):
        self.step += 1
        o = self.others(t)
        if self.free:
            if not o:
                self.main.release()
            return
        if not o:
            self.main.release()
            return
        if self.current is t:
            self.give(self.pick(o))

    def run(self, stall=40.0):
        for t in self.threads:
            t.t.start()
        self.give(self.threads[0 if self.rate is None else self.ctx.draw(len(self.threads), "first")])
        last, seen, cpu, idle = _MONO(), -1, 0.0, 0
        while not self.main.acquire(timeout=0.2):
            now = _CPU()
            if self.step != seen:
                last, seen, idle = _MONO(), self.step, 0
            elif now - cpu < 0.02:
                idle += 1
            else:
                idle = 0
            cpu = now
            if idle >= 3 and self.deep and not self.free:
                idle = 0
                self.unblock()
            elif _MONO() - last > stall and not self.free:
                # let all of them run (repeatable no longer, but sound)
                self.free = True
                for t in self.threads:
                    t.turn.release()
                last = _MONO()
            elif _MONO() - last > 3 * stall:
                return False
        return True

    def unblock(self):
        """The running thread waits for a lock of a waiting one."""
        t = self.current
        o = self.others(t)
        if t.done or not o:
            return
        self.blocked += 1
        t.turn.acquire(blocking=False)
        self.give(o[self.blocked % len(o)])
