"""P04: whoever watches a child-list field always knows the current children

Nodes with child lists, changed through the lists in every way and by
assignment; mirrors are rebuilt when notified and must never be behind; lists
outlive their nodes and addresses are reused at once.
"""

from vsim import core
from vsim.kit import *
from vsim.props import p03

KINDS = ['Group', 'Switch', 'LOD', 'Transform', 'sceneGraph', 'Two', 'Given', 'Collision', 'Narrow']


# changes of a single child
SINGLE = ('append', 'insert', 'pop', 'popi', 'remove', 'del')


def assignment(rng, n):
    return [rng.choice(('list', 'tuple', 'olist', 'map', 'single', 'none', 'other', 'same', 'wrong', 'failing', 'nulls')), p03.items(rng, n, True), rng.randrange(6), rng.randrange(2)]


def gen(rng, config, tier):
    n = rng.randrange(2, 10)
    distinct = rng.random() < 0.6
    kinds = [rng.choice(KINDS) for _ in range(rng.randrange(1, 5))]
    ops = []
    noisy = rng.random() < 0.4
    for _ in range(rng.randrange(4, 36)):
        r = rng.random()
        node_, f = rng.randrange(6), rng.randrange(2)
        if r < 0.42:
            op = p03.one(rng, n, distinct)
            if op[0] in ('reverse', 'sort', 'look', 'failing'):
                op = ['append', rng.randrange(n)]
            ops.append(['list', node_, f, op, rng.choice(('attr', 'attr', 'held'))])
        elif r < 0.55:
            ops.append(['assign', node_, f, assignment(rng, n), rng.choice(('attr', 'fset', 'quiet'))])
        elif r < 0.60:
            ops.append(['delete', node_, f])
        elif r < 0.75:
            kind = 'mirror'
            if noisy:
                kind = rng.choice(('mirror', 'mirror', 'raise', 'change', 'collect'))
            ops.append(['watch', node_, f, kind, p03.one(rng, n, distinct, nested=True), rng.randrange(1, 4)])
        elif r < 0.80:
            ops.append(['unwatch', rng.randrange(8)])
        elif r < 0.84:
            ops.append(['hold', node_, f])
        elif r < 0.90:
            ops.append(['kill', node_, rng.choice(KINDS)])
        elif r < 0.94:
            ops.append(['orphan', rng.randrange(4), p03.one(rng, n, distinct, nested=True)])
        elif r < 0.97:
            ops.append(['other', node_])
        else:
            ops.append(['gc'])
    return {
        'n': n, 'kinds': kinds, 'ops': ops,
        'policy': rng.choice(('lifo', 'lifo', 'fifo', 'never')),
    }  # fmt: skip


class ShapeList(node.MFNode):
    """Takes nothing but shapes"""

    fieldType = 'MFShape'

    class Shapes(node.SFNode):
        requiredTypes = (basenodes.Shape,)

    baseSFNode = Shapes('GeneralSFShape')


class Mirror(object):
    """Rebuilt from the field whenever it is told of a change"""

    def __init__(self, run, key, kind, op, limit):
        self.run, self.key, self.kind, self.op, self.limit = run, key, kind, op, limit
        self.left = False
        self.rebuild()

    def target(self):
        return self.run.nodes[self.key[0]]

    def rebuild(self):
        fld = self.run.fields[self.key[0]][self.key[1]]
        self.contents = list(fld.fget(self.target()))

    def __call__(self, signal, sender, value=None):
        self.run.notified(self, signal, sender, value)


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.elements = [basenodes.Shape(DEF='e%d' % i) for i in range(case['n'])]
        self.lists = p03.Run.__new__(p03.Run)
        self.lists.elements = self.elements
        self.lists.names = {}
        self.lists.ctx = ctx
        self.two = node.prototype('Two', [node.MFNode('first', 1), node.MFNode('second', 1), field.newField('extra', 'SFFloat', 1, 0.0)])
        self.given = node.prototype('Given', [node.MFNode('first', 1, [self.elements[0]])])
        self.narrow = node.prototype('Narrow', [ShapeList('first', 1), node.MFNode('second', 1)])
        self.other = basenodes.Material()
        self.nodes, self.fields = [], []
        for kind in case['kinds']:
            self.create(kind)
        self.observers = []
        self.orphans = []
        self.held = {}
        self.changing = None
        self.count = 0
        self.depth = 0
        self.raised = False

    def create(self, kind, index=None):
        if kind == 'Two':
            cls = self.two
        elif kind == 'Given':
            cls = self.given
        elif kind == 'Narrow':
            cls = self.narrow
        else:
            cls = standard()[kind]
        fields = sorted(
            (
                f for f in protofunctions.getFields(cls)
                if isinstance(f, node.MFNode) and f.name != 'routes'
            ),
            key=lambda f: f.name,
        )  # fmt: skip
        created = cls()
        if index is None:
            self.nodes.append(created)
            self.fields.append(fields)
        else:
            self.nodes[index] = created
            self.fields[index] = fields

    def key(self, n, f):
        n %= len(self.nodes)
        return n, f % len(self.fields[n])

    def label(self, values):
        return [
            next((i for i, e in enumerate(self.elements) if e is v), '?') for v in values
        ]

    def current(self, key):
        return self.fields[key[0]][key[1]].fget(self.nodes[key[0]])

    def notified(self, mirror, signal, sender, value):
        ctx = self.ctx
        ctx.log('notified', mirror.key, signal[0], self.label(self.current(mirror.key)))
        ctx.check(not mirror.left or self.depth, 'notified-after-leaving', '%s', mirror.key)
        fld = self.fields[mirror.key[0]][mirror.key[1]]
        ctx.check(sender is mirror.target() and signal[1] is fld, 'notified-for-another', '%s of %s', signal[0], mirror.key)
        ctx.check(self.changing is not None and mirror.key in self.changing, 'spurious-notification', '%s, while %s changes', mirror.key, self.changing)
        if signal[0] == 'set':
            ctx.check(
                len(value) == len(self.current(mirror.key)) and all(a is b for a, b in zip(value, self.current(mirror.key))),
                'wrong-notified-value', '%s: %s', mirror.key, self.label(value),
            )
        mirror.rebuild()
        self.count += 1
        if mirror.kind == 'mirror' or mirror.limit <= 0 or self.depth > 2:
            return
        mirror.limit -= 1
        if mirror.kind == 'raise':
            ctx.fault('observer-raises')
            self.raised = True
            raise core.SimFault('observer')
        elif mirror.kind == 'collect':
            core.collect(ctx)
        elif mirror.kind == 'change':
            ctx.fault('changed-within-notification')
            self.depth += 1
            try:
                self.on_list(mirror.key, self.current(mirror.key), mirror.op)
            finally:
                self.depth -= 1

    def peek(self, key):
        """The children, without giving the node a list by asking for it"""
        stored = self.nodes[key[0]].__dict__.get(self.fields[key[0]][key[1]].name)
        if stored is None:
            return [self.elements[0]] if type(self.nodes[key[0]]) is self.given else []
        return list(stored)

    def on_list(self, key, target, op):
        self.lists.names = {id(e): i for i, e in enumerate(self.elements)}
        self.ctx.log('list', key, op)
        try:
            self.lists.apply(target, op, target)
        except (IndexError, ValueError):
            pass

    def verify(self, loose):
        for mirror in self.observers:
            if mirror.left:
                continue
            current = self.current(mirror.key)
            if loose:
                # moving items about in a slice, or repeating items there, may
                # go without announcement, so only who is there is known
                known = {id(v) for v in current} == {id(v) for v in mirror.contents}
            else:
                known = len(current) == len(mirror.contents) and all(a is b for a, b in zip(current, mirror.contents))
            self.ctx.check(
                known, 'watcher-left-behind', '%s: %s, knows of %s', mirror.key, self.label(current), self.label(mirror.contents),
            )

    def resync(self):
        for mirror in self.observers:
            if not mirror.left:
                mirror.rebuild()

    def change(self, keys, function):
        """Something which may change the lists of the keys, and no others"""
        ctx = self.ctx
        before = {}
        for n, fields in enumerate(self.fields):
            for f in range(len(fields)):
                before[n, f] = self.peek((n, f))
        self.changing = keys
        self.raised = False
        self.count = 0
        try:
            function()
        except core.SimFault as err:
            if str(err) != 'observer':
                raise
        finally:
            self.changing = None
        for key, previous in before.items():
            if key not in keys:
                now = self.peek(key)
                ctx.check(len(now) == len(previous) and all(a is b for a, b in zip(now, previous)), 'other-list-changed', '%s, by a change of %s', key, keys)
        if self.raised:
            self.resync()

    def op(self, op):
        ctx = self.ctx
        kind = op[0]
        if kind == 'list':
            key = self.key(op[1], op[2])
            target = self.current(key)
            if op[4] == 'held' and self.held.get(key) is not None:
                held = self.held[key]
                if held is not target:
                    ctx.probe('held-list-replaced')
                    return
            def do():
                self.on_list(key, target, op[3])
            before = len(target)
            self.change([key], do)
            if op[3][0] in SINGLE and abs(len(target) - before) == 1:
                told = [m for m in self.observers if m.key == key and not m.left]
                if all(m.kind in ('mirror', 'collect') for m in told):
                    ctx.check(self.count == len(told), 'told-otherwise-than-once', '%s: %d of %d', op, self.count, len(told))
        elif kind == 'assign':
            self.assign(self.key(op[1], op[2]), op[3], op[4])
        elif kind == 'delete':
            key = self.key(op[1], op[2])
            fld = self.fields[key[0]][key[1]]
            held = self.current(key)
            def do():
                fld.__delete__(self.nodes[key[0]])
                self.held.pop(key, None)
            self.change([key], do)
            if len(self.orphans) < 4:
                self.orphans.append(held)
        elif kind == 'watch':
            key = self.key(op[1], op[2])
            mirror = Mirror(self, key, op[3], op[4], op[5])
            self.observers.append(mirror)
            fld = self.fields[key[0]][key[1]]
            for what in ('set', 'del'):
                fld.watch(self.nodes[key[0]], mirror, (what, fld))
        elif kind == 'unwatch':
            if self.observers:
                self.leave(self.observers[op[1] % len(self.observers)])
        elif kind == 'hold':
            key = self.key(op[1], op[2])
            self.held[key] = self.current(key)
        elif kind == 'kill':
            self.kill(op[1] % len(self.nodes), op[2])
        elif kind == 'orphan':
            # lists of nodes which are gone are nobody's
            if self.orphans:
                target = self.orphans[op[1] % len(self.orphans)]
                ctx.fault('list-outlives-its-node')
                self.change([], lambda: self.on_list('orphan', target, op[2]))
        elif kind == 'other':
            n = op[1] % len(self.nodes)
            def do():
                if isinstance(self.nodes[n], self.two):
                    self.nodes[n].extra = 2.0
                elif isinstance(self.nodes[n], scenegraph.SceneGraph):
                    self.no_routes(self.nodes[n])
                else:
                    self.nodes[n].DEF = 'name'
            self.change([], do)
        elif kind == 'gc':
            core.collect(ctx)

    def no_routes(self, scene):
        """What is no route does not become one"""
        before = list(scene.routes)
        for values in ([self.elements[0]], self.other):
            try:
                scene.routes = values
            except (ValueError, TypeError):
                self.ctx.fault('assignment-rejected')
            else:
                self.ctx.fail('invalid-value-accepted', 'routes %s', list(scene.routes))
        self.ctx.check(list(scene.routes) == before, 'wrong-contents', 'routes %s', list(scene.routes))

    def leave(self, mirror):
        if mirror.left:
            return
        mirror.left = True
        fld = self.fields[mirror.key[0]][mirror.key[1]]
        for what in ('set', 'del'):
            dispatcher.disconnect(mirror, (what, fld), self.nodes[mirror.key[0]])

    def kill(self, n, kind):
        """The node dies, another soon has its address"""
        ctx = self.ctx
        for mirror in self.observers:
            if mirror.key[0] == n:
                # it forgets to leave
                mirror.left = True
        for key in list(self.held):
            if key[0] == n:
                del self.held[key]
        if len(self.orphans) < 4:
            self.orphans.extend(list(f.fget(self.nodes[n]) for f in self.fields[n])[: 4 - len(self.orphans)])
        self.nodes[n] = None
        core.collect(ctx)
        ctx.fault('node-collected')
        core.ADDRESSES.release()
        self.create(kind, n)

    def assign(self, key, what, how):
        ctx = self.ctx
        fld = self.fields[key[0]][key[1]]
        target = self.nodes[key[0]]
        values = [self.elements[i % len(self.elements)] for i in what[1]]
        kind = what[0]
        wanted = list(values)
        rejected = False
        if kind == 'tuple':
            values = tuple(values)
        elif kind == 'olist':
            values = olist.OList(values)
        elif kind == 'map':
            values = map(lambda v: v, values)
        elif kind == 'single':
            values = self.elements[what[2] % len(self.elements)]
            wanted = [values]
        elif kind == 'nulls':
            # no nodes, but acceptable as such
            for i in range(1 + what[2] % 2):
                at = what[2] % (len(values) + 1)
                values.insert(at, [None, NULL][what[3]])
                wanted.insert(at, NULL)
        elif kind == 'none':
            values, wanted = None, []
        elif kind == 'other':
            values = self.current(self.key(what[2], what[3]))
            wanted = list(values)
        elif kind == 'same':
            values = self.current(key)
            wanted = list(values)
        elif kind == 'wrong':
            values, rejected = [values + ['no node'], 'name', 5][what[2] % 3], True
            if isinstance(fld, ShapeList) and what[3]:
                # a node, but none of those it takes
                values = [self.other, [self.other] + list(wanted), list(wanted) + [[self.other]]][what[2] % 3]
        elif kind == 'failing':
            rejected = True
            def fail(i):
                if i == len(what[1]) - 1:
                    ctx.fault('iterator-fails')
                    raise ValueError('injected')
                return values_[i]
            values_ = values
            if not values_:
                return
            values = map(fail, range(len(values_)))
        before = self.peek(key)
        ctx.log('assign', key, kind, self.label(wanted), how)
        result = []

        def do():
            try:
                if how == 'attr':
                    setattr(target, fld.name, values)
                elif how == 'fset':
                    fld.fset(target, values)
                else:
                    fld.fset(target, values, notify=0)
            except (ValueError, TypeError) as err:
                result.append(err)

        self.change([key], do)
        now = self.peek(key)
        if rejected:
            ctx.fault('assignment-rejected')
            ctx.check(result, 'invalid-value-accepted', '%s', what)
            ctx.check(not self.count, 'notified-of-rejected', '%s', key)
            wanted = before
        else:
            ctx.check(not result, 'valid-value-rejected', '%s: %s', what, result)
            if how == 'quiet':
                self.resync()
        if not self.raised and not self.depth and not self.nested_possible(key):
            ctx.check(len(now) == len(wanted) and all(a is b for a, b in zip(now, wanted)), 'wrong-contents', '%s: %s, not %s', what, self.label(now), self.label(wanted))
            if not rejected and how != 'quiet' and any(not m.left and m.key == key for m in self.observers):
                ctx.check(self.count, 'assignment-not-announced', '%s', key)

    def nested_possible(self, key):
        return any(m.key == key and m.kind == 'change' for m in self.observers)


def sliced(op):
    return op[0] == 'list' and op[3][0] in ('setslice', 'assignall', 'imul')


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    sim = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        sim.op(op)
        loose = sliced(op) or any(m.kind == 'change' and sliced(['list', 0, 0, m.op]) for m in sim.observers)
        sim.verify(loose)
        if loose:
            sim.resync()
        core.ADDRESSES.release()
        ctx.state([sim.label(sim.peek((n, f))) for n, fs in enumerate(sim.fields) for f in range(len(fs))])
    if core.ADDRESSES.reused:
        ctx.fault('address-reused', core.ADDRESSES.reused)
    ctx.nontrivial = len(ctx.states) > 2 and bool(sim.observers)
