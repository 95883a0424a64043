"""Simulated threads: one runs at a time, and the schedule says which

Real threads pass a baton at the lines of the code under test.  Locks which
the code under test makes are simulated too, so that a thread which waits for
one lets others run instead of stopping the simulation.
"""

import _thread
import os
import sys
import threading

from vsim import core

CURRENT = None
_real_lock = _thread.allocate_lock
_ORIGINAL = {'Lock': threading.Lock, 'RLock': threading.RLock}


class Deadlock(Exception):
    """All threads wait for one another"""


class Locked(object):
    """A lock, reentrant or not"""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.count:
            if self.reentrant and self.owner == me:
                break
            if not blocking or timeout is not None and timeout >= 0:
                return False
            if CURRENT is None:
                raise Deadlock('a lock is acquired twice')
            CURRENT.wait(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return bool(self.count)

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()


def install_locks():
    """Before importing the code under test"""
    prefix = core.REPO + os.sep

    def factory(name, reentrant):
        original = _ORIGINAL[name]

        def make():
            if sys._getframe(1).f_code.co_filename.startswith(prefix):
                return Locked(reentrant)
            return original()

        return make

    threading.Lock = factory('Lock', False)
    threading.RLock = factory('RLock', True)


class Thread(object):
    def __init__(self, number, action):
        self.number, self.action = number, action
        self.baton = _real_lock()
        self.baton.acquire()
        self.done = False
        self.waits = None
        self.error = None
        self.result = None
        self.lines = 0


class Simulation(object):
    """Runs actions in threads, interleaved as the schedule says

    schedule -- [which of those which can run, for how many lines]
    points -- {(thread, line): called there, in the thread}
    """

    def __init__(self, ctx, actions, schedule, points=None):
        self.ctx = ctx
        self.threads = [Thread(n, a) for n, a in enumerate(actions)]
        self.schedule = list(schedule)
        self.points = points or {}
        self.position = 0
        self.left = 0
        self.current = None
        self.switches = 0
        self.finished = _real_lock()
        self.finished.acquire()
        self.deadlock = False

    def run(self):
        global CURRENT
        CURRENT = self
        try:
            for thread in self.threads:
                _thread.start_new_thread(self.main, (thread,))
            with core.POINTS.run(self.line):
                self.next().baton.release()
                self.finished.acquire()
        finally:
            CURRENT = None
        if self.deadlock:
            raise Deadlock('all threads wait')
        return self.threads

    def main(self, thread):
        thread.baton.acquire()
        try:
            thread.result = thread.action()
        except BaseException as err:
            thread.error = err
        thread.done = True
        following = self.next()
        if following is None:
            self.finished.release()
        else:
            following.baton.release()

    def next(self):
        """Whose turn it is"""
        able = [t for t in self.threads if not t.done and (t.waits is None or not t.waits.count)]
        if not able:
            self.deadlock = any(not t.done for t in self.threads)
            return None
        if self.position < len(self.schedule):
            which, self.left = self.schedule[self.position][:2]
            self.position += 1
        else:
            which, self.left = 0, 1 << 60
        thread = able[which % len(able)]
        thread.waits = None
        if thread is not self.current:
            self.switches += 1
        self.current = thread
        return thread

    def switch(self, me):
        following = self.next()
        if following is None:
            self.finished.release()
            me.baton.acquire()
        elif following is not me:
            following.baton.release()
            me.baton.acquire()

    def wait(self, lock):
        me = self.current
        me.waits = lock
        self.switch(me)

    def line(self, n, code, line):
        me = self.current
        me.lines += 1
        action = self.points.get((me.number, me.lines))
        self.left -= 1
        if self.left <= 0:
            self.ctx.log('at', me.number, me.lines)
            self.switch(me)
        if action is not None:
            action()
