"""Deterministic scheduler for the threads of a simulation.

Simulated threads are real threads of which exactly one runs at any time. At
every scheduling point (lines of klang code and operations on message queues)
the schedule of the scenario decides whether to switch to another thread. The
schedule is a list of [step, target] pairs (few preemptions, as in PCT).
"""
import os
import sys
import threading
import weakref

from klangsim import boot, core

KLANG = os.path.join(boot.REPO, 'klang') + os.sep


class _Abort(BaseException):
    """Unwinds simulated threads when the run is over."""


class SimThread:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.gate = core.REAL_LOCK()
        self.gate.acquire()
        self.done = False
        self.waiting = None     # SimLock this thread waits for
        self.thread = None


MAIN = 'main'
"""Owner of a lock taken outside of simulated threads."""


class SimLock:

    """threading.Lock / RLock under control of the scheduler. Locks outlive
    simulations (those of modules and classes do), whoever held one in another
    simulation is gone."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0
        self.world = None

    def enter(self):
        """Scheduler and simulated thread of the caller."""
        world = core.CURRENT
        if (self.world and self.world()) is not world:
            self.owner, self.count = None, 0
            self.world = world and weakref.ref(world)
        sched = world.sched if world is not None else None
        me = sched.current if sched is not None else None
        if me is None or threading.get_ident() != me.thread.ident:
            return None, None
        return sched, me

    def acquire(self, blocking=True, timeout=-1):
        sched, me = self.enter()
        if me is not None:
            sched.yield_point('lock')
        while self.owner is not None and not (self.reentrant and self.owner is (me or MAIN)):
            if not blocking or timeout >= 0:
                return False
            if me is None:
                raise core.Violation('deadlock', 'a lock which is held is waited for')
            me.waiting = self
            sched.switch_away()
        if me is not None:
            me.waiting = None
        self.owner = me or MAIN
        self.count += 1
        return True

    def release(self):
        sched, me = self.enter()
        if self.owner is None or self.reentrant and self.owner is not (me or MAIN):
            if sched is not None and sched.aborted:
                return
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None
        if me is not None:
            sched.yield_point('unlock')

    def locked(self):
        self.enter()
        return self.count > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class Scheduler:
    def __init__(self, ctx, switches, lines=True, maxSteps=200000):
        self.ctx = ctx
        self.switches = {int(step): int(target) for step, target in switches}
        self.lines = lines
        self.tracing = True     # May be turned off for stretches of no interest
        self.maxSteps = maxSteps
        self.step = 0
        self.threads = []
        self.current = None
        self.main = core.REAL_LOCK()
        self.main.acquire()
        self.error = None
        self.aborted = False
        self.trail = []
        self.taken = 0

    def spawn(self, name, fn):
        self.threads.append(SimThread(name, fn))

    def runnable(self):
        return [t for t in self.threads if not t.done and
                (t.waiting is None or t.waiting.owner is None)]

    def yield_point(self, label):
        me = self.current
        if me is None or threading.get_ident() != me.thread.ident:
            return
        if self.aborted:
            raise _Abort()
        self.step += 1
        if self.step > self.maxSteps:
            raise core.Violation('no-progress', 'threads made no progress within %d steps' % self.maxSteps)
        if self.step in self.switches:
            others = [t for t in self.runnable() if t is not me]
            if others:
                self.taken += 1
                self.ctx.fault('preemption')
                self.transfer(others[self.switches[self.step] % len(others)], label)

    def hand_over(self, name):
        """Let another thread run. False if there is no such thread any more."""
        if self.aborted:
            raise _Abort()
        for t in self.runnable():
            if t.name == name and t is not self.current:
                self.transfer(t, 'handed over')
                return True
        return False

    def switch_away(self):
        """Current thread can not go on."""
        others = [t for t in self.runnable() if t is not self.current]
        if not others:
            raise core.Violation('deadlock', 'all threads wait for each other')
        self.transfer(others[0], 'blocked')

    def transfer(self, target, label):
        me = self.current
        self.trail.append('%s>%s@%s' % (me.name, target.name, label))
        self.current = target
        target.gate.release()
        me.gate.acquire()
        if self.aborted:
            raise _Abort()

    def tracer(self, frame, event, arg):
        if not self.tracing or not frame.f_code.co_filename.startswith(KLANG):
            return None
        last = None

        def line_tracer(frame, event, arg):
            nonlocal last
            # Now and then the interpreter reports the same line twice
            if event == 'line' and frame.f_lineno != last:
                last = frame.f_lineno
                self.yield_point('line')
            return line_tracer

        return line_tracer

    def body(self, thread):
        thread.gate.acquire()
        try:
            if not self.aborted:
                if self.lines:
                    sys.settrace(self.tracer)
                thread.fn()
        except _Abort:
            pass
        except BaseException as err:  # pylint: disable=broad-except
            if self.error is None:
                self.error = err
            self.aborted = True
        finally:
            sys.settrace(None)
            thread.done = True
            rest = [t for t in self.threads if not t.done] if self.aborted else self.runnable()
            if rest:
                self.current = rest[0]
                rest[0].gate.release()
            else:
                if not self.aborted and any(not t.done for t in self.threads):
                    self.error = core.Violation('deadlock', 'all threads wait for each other')
                    self.aborted = True
                    for t in self.threads:
                        if not t.done:
                            t.gate.release()
                self.main.release()

    def run(self, first=0):
        for t in self.threads:
            t.thread = threading.Thread(target=self.body, args=(t,), daemon=True)
            t.thread.start()
        self.current = self.threads[first % len(self.threads)]
        self.current.gate.release()
        while not self.main.acquire(timeout=1.):
            pass
        self.current = None
        for t in self.threads:
            t.thread.join(5.)
        self.ctx.log('schedule', self.step, *self.trail)
        self.ctx.state('schedule', *self.trail)
        if self.error is not None:
            raise self.error
