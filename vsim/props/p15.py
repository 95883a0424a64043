"""P15: invalidating a path breaks it and what extends it; it enumerates what is alive

Paths of all kinds get made, extended, asked for matrices, dropped and
invalidated while enumerations are under way; the collector runs, allocations
fail and other paths are dropped, made and enumerated at any line of the
operations, and within the invalidation of paths of a class of its own.  The
model is a tree of which path was made by extending which.
"""

import weakref

from vsim import core
from vsim.kit import *

INJECTED = ('gc', 'gc', 'drop', 'drop', 'extend', 'children', 'descendants', 'memory')


def gen(rng, config, tier):
    x = rng.random()
    # long chains, or many which extend one
    deep, wide = x < 0.2, 0.2 < x < 0.35
    kinds = ['extend'] * (14 if deep or wide else 8) + ['new', 'drop', 'drop', 'invalidate', 'invalidate', 'open', 'open', 'next', 'next', 'next', 'close', 'list', 'list', 'matrix', 'die', 'gc', 'keep']
    kinds = [k for k in kinds if rng.random() < 0.85] + ['extend', 'list']

    def injected():
        if rng.random() < 0.35:
            return [rng.randrange(1, 45), rng.choice(INJECTED), rng.randrange(64), rng.randrange(64)]
        return None

    ops = [['new', [rng.randrange(6) for _ in range(rng.randrange(3))], rng.choice(('strong', 'weak', 'mine'))] for _ in range(rng.randrange(1, 3))]
    for _ in range(rng.randrange(5, 45)):
        k = rng.choice(kinds)
        n = rng.randrange(64)
        if k == 'new':
            ops.append([k, [rng.randrange(6) for _ in range(rng.randrange(4))], rng.choice(('strong', 'strong', 'weak', 'mine', 'mine'))])
        elif k == 'extend':
            ops.append([k, -1 if deep and rng.random() < 0.9 else 0 if wide and rng.random() < 0.9 else n, [rng.randrange(6) for _ in range(rng.choice((1, 1, 1, 2, 0)))], rng.choice(('node', 'list', 'path')), injected()])
        elif k == 'drop':
            ops.append([k, n, rng.choice(('at-once', 'at-once', 'in-cycle')), rng.random() < 0.3])
        elif k == 'invalidate':
            hooks = []
            if rng.random() < 0.5:
                hooks = [[rng.choice(('gc', 'drop', 'drop', 'extend', 'children', 'descendants')), rng.randrange(64), rng.randrange(64)] for _ in range(rng.randrange(1, 4))]
            ops.append([k, n, injected(), hooks])
        elif k in ('open', 'list'):
            ops.append([k, n, rng.choice(('children', 'descendants')), injected()])
        elif k == 'next':
            ops.append([k, n, rng.randrange(1, 4), injected()])
        elif k == 'matrix':
            ops.append([k, n, rng.random() < 0.5])
        elif k == 'gc':
            ops.append([k])
        else:
            ops.append([k, n])
    return {'ops': ops, 'policy': rng.choice(('lifo', 'lifo', 'fifo', 'never'))}


def simplify(op):
    if op[0] == 'invalidate':
        if op[3]:
            yield op[:3] + [op[3][:-1]]
        if op[2]:
            yield op[:2] + [None] + op[3:]
    elif op[0] in ('extend', 'open', 'list', 'next') and op[-1]:
        yield op[:-1] + [None]


class Known(object):
    """What is known of a path, which is not kept alive by that"""

    def __init__(self, path, parent):
        self.ref, self.parent = weakref.ref(path), parent
        self.children = []
        self.broken = False
        self.maybe = False
        # when it began to be made, and when it was
        self.start = self.end = 0

    def members(self):
        return len(list(self.ref()))

    def within(self, other):
        while self is not None:
            if self is other:
                return True
            self = self.parent
        return False

    def tree(self):
        found = []
        for c in self.children:
            found.append(c)
            found += c.tree()
        return found


class Enumeration(object):
    def __init__(self, run, known, what):
        path = known.ref()
        self.run, self.known, self.what = run, known, what
        self.items = path.iterchildren() if what == 'children' else path.iterdescendents()
        self.started = False
        self.given = []

    def next(self):
        """What comes next, as known; None at its end"""
        run, ctx = self.run, self.run.ctx
        if not self.started:
            self.started = True
            if self.what == 'children':
                due = self.known.children
            else:
                due = [k for c in self.known.children for k in [c] + c.children]
            self.due = [k for k in due if k.ref() is not None]
        try:
            got = next(self.items)
        except StopIteration:
            for k in self.due:
                ctx.check(k.ref() is None or k in self.given, 'not-given', '%s of path %d: %d', self.what, run.number(self.known), run.number(k))
            return None
        found = [k for k in run.known if k.ref() is got]
        if not found and run.extending:
            # the one which is being made
            return self.next()
        ctx.check(found, 'gives-another', '%s: %s', self.what, type(got).__name__)
        k = found[0]
        if self.what == 'children':
            ctx.check(k.parent is self.known, 'not-a-child', '%d of %d', run.number(k), run.number(self.known))
            for i in self.given:
                # made one within the other, either may be first
                ctx.check(i.start < k.end, 'order', '%d after %d', run.number(k), run.number(i))
        ctx.check(k is not self.known and k.within(self.known), 'not-a-descendant', '%d of %d', run.number(k), run.number(self.known))
        ctx.check(k not in self.given, 'given-twice', '%d', run.number(k))
        self.given.append(k)
        return k


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.nodes = [self.node(n) for n in range(6)]
        self.held, self.known, self.open = [], [], []
        self.hooks = []
        self.kept = []
        self.time = 0
        # an exception keeps frames, and with them what is in those
        self.failed = False
        self.busy = self.extending = False

        def invalidate(path, run=self):
            run.hooked()
            super(run.mine, path).invalidate()

        self.mine = type('Mine', (nodepath97.NodePath,), {'invalidate': invalidate})
        self.classes = {'strong': nodepath97.NodePath, 'weak': nodepath97.WeakNodePath, 'mine': self.mine}

    def node(self, n):
        return basenodes.Transform(translation=(n, 0, 1)) if n % 2 else basenodes.Group()

    def number(self, known):
        return self.known.index(known)

    def tick(self):
        self.time += 1
        return self.time

    def add(self, made, parent, start=0):
        known = Known(made, parent)
        known.start, known.end = start, self.tick()
        self.known.append(known)
        if parent is not None:
            parent.children.append(known)
        if len(self.held) < 40:
            self.held.append(made)
        self.ctx.probe(type(made).__name__)
        return known

    def of(self, path):
        return [k for k in self.known if k.ref() is path][0]

    def pick(self, n):
        """One which is held, as known"""
        return self.of(self.held[n % len(self.held)]) if self.held else None

    # -- judging
    def judge(self):
        ctx = self.ctx
        for n, k in enumerate(self.known):
            path = k.ref()
            if path is not None:
                if k.maybe:
                    k.broken = bool(path.broken)
                    k.maybe = False
                ctx.check(bool(path.broken) == k.broken, 'broken' if path.broken else 'not-broken', 'path %d', n)
        if not self.failed:
            needed = set()
            for path in self.held + self.kept:
                k = self.of(path)
                while k is not None and k not in needed:
                    needed.add(k)
                    k = k.parent
            for n, k in enumerate(self.known):
                if k not in needed and not any(k.within(e.known) or e.known.within(k) for e in self.open):
                    ctx.check(k.ref() is None, 'kept-alive', 'path %d', n)
        ctx.state([(k.ref() is not None, k.broken, k.parent and self.number(k.parent)) for k in self.known], len(self.open))

    # -- what may happen in the middle
    def happen(self, what, n, m):
        ctx = self.ctx
        if what == 'gc':
            core.collect(ctx)
            return
        if what == 'drop':
            if self.held:
                self.held.pop(n % len(self.held))
                ctx.fault('dropped-within')
            return
        known = self.pick(n)
        if known is None:
            return
        if what == 'extend':
            if self.extending:
                # paths are not made by two at once
                return
            path = known.ref()
            start = self.tick()
            self.extending = True
            made = path + self.nodes[m % 6]
            self.extending = False
            self.add(made, known, start).maybe = True
            ctx.fault('extended-within')
        else:
            ctx.fault('enumerated-within')
            self.enumerate(known, what)

    def hooked(self):
        """A path of a class of its own is being invalidated"""
        if self.hooks and not self.busy:
            what, n, m = self.hooks.pop()
            self.busy = True
            try:
                self.happen(what, n, m)
            finally:
                self.busy = False

    def within(self, spec, action):
        if spec is None:
            return action()
        ctx, points = self.ctx, core.POINTS
        raised = []

        def at_line(n, code, line):
            if n != spec[0]:
                return
            if spec[1] == 'memory':
                # assignments, which need no memory, may be on a line
                raised.append(1)
                self.failed = True
                ctx.fault('allocation-failed')
                raise MemoryError('injected')
            points.busy = self.busy = True
            try:
                self.happen(*spec[1:])
            finally:
                points.busy = self.busy = False

        try:
            with points.run(at_line):
                return action()
        except MemoryError:
            if not raised:
                raise
        return None

    def enumerate(self, known, what):
        e = Enumeration(self, known, what)
        while e.next() is not None:
            pass
        return e.given

    # -- operations
    def op_new(self, members, kind):
        self.add(self.classes[kind]([self.nodes[m] for m in members]), None)

    def op_extend(self, n, members, how, injected):
        parent = self.pick(n) if n >= 0 else self.of(self.held[-1]) if self.held else None
        if parent is None or len(self.known) > 80:
            return
        path = parent.ref()
        nodes_ = [self.nodes[m] for m in members]
        if how == 'node' and len(nodes_) == 1:
            other = nodes_[0]
        elif how == 'path':
            other = nodepath97.NodePath(nodes_)
        else:
            other = nodes_
        self.extending = True
        start = self.tick()
        made = self.within(injected, lambda: path + other)
        self.extending = False
        if made is not None:
            known = self.add(made, parent, start)
            self.ctx.check(type(made) is type(path), 'kind', '%s', type(made).__name__)
            got = list(made)
            self.ctx.check(len(got) == parent.members() + len(nodes_), 'members', '%d', len(got))
            self.ctx.check(all(a is b for a, b in zip(got[len(got) - len(nodes_) :], nodes_)), 'members', 'others')
            return known
        del path

    def op_drop(self, n, how, collect):
        if not self.held:
            return
        path = self.held.pop(n % len(self.held))
        self.ctx.fault('dropped')
        if how == 'in-cycle':
            # whoever had it is found by the collector only
            self.kept_until_gc(path)
        del path
        if collect:
            self.op_gc()

    def kept_until_gc(self, path):
        cycle = [path]
        cycle.append(cycle)
        self.kept.append(path)

    def op_keep(self, n):
        """Held twice"""
        if self.held and len(self.held) < 40:
            self.held.append(self.held[n % len(self.held)])

    def op_gc(self):
        self.kept = []
        core.collect(self.ctx)

    def op_die(self, n):
        """A node is gone, from weak paths"""
        self.nodes[n % 6] = self.node(n % 6)
        self.ctx.fault('node-dropped')

    def op_matrix(self, n, inverse):
        known = self.pick(n)
        if known is not None:
            known.ref().transformMatrix(inverse=inverse)

    def op_invalidate(self, n, injected, hooks):
        known = self.pick(n)
        if known is None:
            return
        self.hooks = list(hooks)
        path = known.ref()
        done = self.within(injected, lambda: path.invalidate() or True)
        if done is None:
            for k in [known] + known.tree():
                self.ctx.check(k.ref() is None or k.ref().broken or not k.broken, 'repaired', '%d', self.number(k))
            path.invalidate()
        self.hooks = []
        for k in [known] + known.tree():
            if not k.maybe:
                k.broken = True
        self.ctx.nontrivial += bool(known.children)
        if known.children and known.children[0].children:
            self.ctx.probe('invalidated-deep')

    def op_open(self, n, what, injected):
        known = self.pick(n)
        if known is not None and len(self.open) < 4:
            self.open.append(Enumeration(self, known, what))

    def op_next(self, n, count, injected):
        if not self.open:
            return
        e = self.open[n % len(self.open)]

        def action():
            for _ in range(count):
                if e.next() is None:
                    return False
            return True

        if not self.within(injected, action):
            # at its end, or failed
            self.open.remove(e)

    def op_close(self, n):
        if self.open:
            self.open.pop(n % len(self.open))

    def op_list(self, n, what, injected):
        known = self.pick(n)
        if known is not None:
            got = self.within(injected, lambda: self.enumerate(known, what))
            if got is None:
                got = self.enumerate(known, what)
            self.ctx.log('list', self.number(known), what, [self.number(k) for k in got])
            self.ctx.nontrivial += len(got) > 1


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    sim = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        getattr(sim, 'op_' + op[0])(*op[1:])
        core.ADDRESSES.release()
        sim.judge()
    # once nobody enumerates any more, everything is found
    sim.open = []
    for n in range(len(sim.held)):
        known = sim.pick(n)
        sim.enumerate(known, 'children')
        sim.enumerate(known, 'descendants')
    sim.held = []
    sim.op_gc()
    sim.judge()
