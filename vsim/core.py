"""Core of the simulator: contexts, violations and the seams every run shares.

A *case* is a JSON document which says everything about one simulated run: the
operations of the simulated clients, the schedule and the faults.  It is made
from one seed by a property's gen(), and run() executes it against the real
code, judging it against a reference model.  Nothing in run() may draw on any
randomness but what is written in the case.
"""

import binascii
import collections
import gc
import hashlib
import json
import os
import random
import sys
import weakref


class Violation(Exception):
    """The code under test broke the property (cls: what shrinking preserves)"""

    def __init__(self, cls, msg):
        super().__init__('%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The harness itself is wrong"""


class SimFault(Exception):
    """An injected failure, which is nobody's but the simulator's"""


class Ctx(object):
    """What a run reports back"""

    def __init__(self, keep_log=False):
        self.counts = collections.Counter()
        self.states = set()
        self.digest = hashlib.sha1()
        self.keep_log = keep_log
        self.lines = []
        self.steps = 0
        self.nontrivial = 0

    # the event log: one line per thing which happened, in order
    def log(self, *items):
        line = ' '.join(str(i) for i in items)
        self.digest.update(line.encode('utf8', 'replace'))
        self.digest.update(b'\n')
        if self.keep_log:
            self.lines.append(line)

    def fault(self, kind, n=1):
        """An injected fault really took effect"""
        self.counts['fault:' + kind] += n

    def probe(self, name, n=1):
        """A rare condition was reached"""
        self.counts['probe:' + name] += n

    def state(self, *abstract):
        """Reached an abstract state (of the model, so stable across runs)"""
        self.states.add(binascii.crc32(repr(abstract).encode('utf8', 'replace')))

    def step(self):
        self.steps += 1

    def check(self, condition, cls, msg='', *args):
        if not condition:
            raise Violation(cls, (msg % args) if args else str(msg))

    def fail(self, cls, msg='', *args):
        self.check(False, cls, msg, *args)


def rng_for(seed, prop, config, index):
    """The one generator from which everything about a run is drawn"""
    return random.Random('%s/%s/%s/%s' % (seed, prop, config, index))


def collect(ctx=None):
    """The simulated garbage collector runs (the real one is switched off)"""
    gc.collect()
    if ctx is not None:
        ctx.fault('gc')


# -- simulated addresses ----------------------------------------------------
class AddressSpace(object):
    """Decides what id() answers, so address reuse is the simulator's choice

    Objects which can be weakly referenced get a small simulated address.
    When they die the address becomes free at the next release() (the end of
    the operation, as memory can't be reused within the callbacks of the
    death), and the next object asked about gets a free one as the policy
    says.  Other objects have the real address, far away from the simulated.
    """

    def __init__(self, real_id):
        self.real_id = real_id
        self.active = False
        self.reset()

    def reset(self):
        self.by_real = {}
        self.free = []
        self.pending = []
        self.next = 1
        self.policy = 'lifo'
        self.reused = 0

    def __call__(self, obj):
        real = self.real_id(obj)
        if not self.active:
            return real
        entry = self.by_real.get(real)
        if entry is not None:
            ref, address = entry
            if ref() is obj:
                return address
        try:
            ref = weakref.ref(obj, self._died(real))
        except TypeError:
            return real + (1 << 60)
        if self.free and self.policy != 'never':
            address = self.free.pop(-1 if self.policy == 'lifo' else 0)
            self.reused += 1
        else:
            address = self.next
            self.next += 1
        self.by_real[real] = (ref, address)
        return address

    def _died(self, real):
        def callback(ref):
            entry = self.by_real.get(real)
            if entry is not None and entry[0] is ref:
                del self.by_real[real]
                self.pending.append(entry[1])

        return callback

    def release(self):
        """Memory of what died since the last time becomes available again"""
        if self.pending:
            self.free.extend(self.pending)
            self.pending = []


import builtins

if isinstance(builtins.id, AddressSpace):
    ADDRESSES = builtins.id
else:
    ADDRESSES = AddressSpace(builtins.id)


def install_addresses():
    """Before importing the code under test, as Cython keeps its own id"""
    builtins.id = ADDRESSES


# -- execution points within the code under test ----------------------------
class LinePoints(object):
    """Calls back at every line executed in the code under test

    The callback may run the collector, raise, or switch to another simulated
    thread; that is how preemption, allocation failures and collections get
    placed at arbitrary points within an operation.
    """

    TOOL = 4

    def __init__(self, prefix):
        self.prefix = prefix
        self.callback = None
        self.n = 0
        self.busy = False
        self.off = False
        self.installed = False

    def install(self):
        if self.installed:
            return
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'vsim')
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.installed = True

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        callback = self.callback
        if callback is None or self.busy or self.off:
            return None
        self.n += 1
        callback(self.n, code, line)
        return None

    def run(self, callback):
        """Context in which callback(n, code, line) is called"""
        return _Points(self, callback)


class _Points(object):
    def __init__(self, points, callback):
        self.points, self.callback = points, callback

    def __enter__(self):
        self.points.install()
        self.points.n = 0
        self.points.callback = self.callback
        return self.points

    def __exit__(self, *args):
        self.points.callback = None


REPO = os.environ.get('VSIM_REPO', '/repo')
POINTS = LinePoints(REPO + os.sep)


# -- small helpers -----------------------------------------------------------
def jsonable(case):
    return json.loads(json.dumps(case))


def short(value, n=200):
    text = repr(value)
    return text if len(text) <= n else text[: n - 3] + '...'
