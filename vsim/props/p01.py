"""P01: assigning, deleting and reading field values

Several simulated clients assign, delete and read the fields of a few nodes,
while observers come and go, assign further fields from within notifications,
fail, and the values themselves fail in the middle of being converted.
"""

import weakref

from vsim import core, kit
from vsim.kit import *

STANDARD = [
    'Transform', 'Material', 'Viewpoint', 'Text', 'IndexedFaceSet', 'PointLight',
    'TimeSensor', 'FontStyle', 'Coordinate', 'Color', 'Fog', 'NavigationInfo',
    'PixelTexture', 'ColorInterpolator', 'OrientationInterpolator', 'Sphere',
]  # fmt: skip
NODE_TYPES = ['SFNode', 'WeakSFNode', 'SFGroup']
CHILDREN = 3
OBSERVERS = ['record', 'record', 'assign', 'assign', 'raise', 'leave', 'collect', 'delete']


def any_value(rng, t, bad=0.0):
    """A value specification, nodes included"""
    if t not in NODE_TYPES:
        return value(rng, t, bad)
    spec = {'t': t, 'v': rng.choice(list(range(CHILDREN)) + [None])}
    if rng.random() < bad:
        spec.update(bad='wrong', error='ValueError', n=rng.randrange(4))
    else:
        spec['form'] = rng.choice(('plain', 'plain', 'other'))
    return spec


def gen(rng, config, tier):
    nodal = rng.choice((0.0, 0.15, 0.5))
    classes = []
    for i in range(rng.randrange(1, 4)):
        if rng.random() < 0.3:
            classes.append(rng.choice(STANDARD))
        else:
            fields = []
            for j in range(rng.randrange(1, 5)):
                t = rng.choice(ALL) if rng.random() >= nodal else rng.choice(NODE_TYPES)
                default = value(rng, t) if t not in NODE_TYPES and rng.random() < 0.5 else None
                fields.append(['f%d' % j, t, default])
            classes.append(fields)
    types = {}
    for i, c in enumerate(classes):
        if isinstance(c, str):
            types[i] = [f.typeName() for f in value_fields(standard()[c])]
        else:
            types[i] = [f[1] for f in c]
    bad = rng.choice((0.0, 0.15, 0.4))
    noisy = rng.choice((0.0, 0.2, 0.5))
    nodes = [rng.randrange(len(classes)) for _ in range(rng.randrange(1, 5))]
    ops = []

    def pick():
        n = rng.randrange(len(nodes))
        f = rng.randrange(len(types[nodes[n]]))
        return n, f, types[nodes[n]][f]

    for _ in range(rng.randrange(4, 40)):
        r = rng.random()
        n, f, t = pick()
        if r < 0.45:
            ops.append(['set', n, f, any_value(rng, t, bad), rng.choice(('attr', 'attr', 'fset', 'quiet'))])
        elif r < 0.55:
            ops.append(['del', n, f, rng.choice(('attr', 'fdel', 'quiet'))])
        elif r < 0.63:
            ops.append(['get', n, f])
        elif r < 0.63 + 0.25 * (0.3 + noisy):
            n2, f2, t2 = pick() if rng.random() < 0.7 else (n, f, t)
            ops.append(['watch', n, f, rng.choice(OBSERVERS) if noisy else 'record', n2, f2, any_value(rng, t2, bad / 2), rng.randrange(1, 4)])
        elif r < 0.86:
            ops.append(['drop', rng.randrange(8)])
        elif r < 0.92:
            ops.append(['new', nodes[n], [[f, any_value(rng, t, bad)]], n])
        elif r < 0.96 and nodal:
            ops.append(['forget', rng.randrange(CHILDREN)])
        else:
            ops.append(['gc'])
    return {'classes': classes, 'nodes': nodes, 'ops': ops}


def simplify(op):
    if op[0] == 'set':
        if op[4] != 'attr':
            yield op[:4] + ['attr']
        if 'bad' not in op[3] and op[3].get('form') != 'plain':
            yield op[:3] + [dict(op[3], form='plain')] + op[4:]
    if op[0] == 'watch' and op[3] != 'record':
        yield op[:3] + ['record'] + op[4:]


class Child(object):
    """The node a field is to have, which it may not keep alive"""

    def __init__(self, child, name, weak):
        self.ref = weakref.ref(child) if child is not None else None
        self.strong = None if weak else child
        self.name, self.weak = name, weak

    def gone(self):
        return self.weak and self.ref is not None and self.ref() is None

    def is_value(self, actual):
        if isinstance(actual, weakref.ReferenceType) and self.weak:
            # its notifications have the reference
            actual = actual()
        if self.ref is None or self.gone():
            return isinstance(actual, node.NullNode) or actual is None and self.weak
        return actual is self.ref()


def same(actual, wanted):
    if isinstance(wanted, Child):
        return wanted.is_value(actual)
    return kit.same(actual, wanted)


def plain(v):
    if isinstance(v, Child):
        return ['child', v.name]
    if isinstance(v, weakref.ReferenceType):
        return ['weakly', kit.plain(v())]
    return kit.plain(v)


class Frame(object):
    """An assignment or deletion which is under way"""

    def __init__(self, kind, key, wanted, notify):
        self.kind, self.key, self.wanted, self.notify = kind, key, wanted, notify
        self.stored = False
        self.raised = None
        self.counts = {}
        self.overwritten = False
        self.disturbed = False


class Observer(object):
    """Registered for one field of one node"""

    def __init__(self, run, index, key, kind, then, spec, limit):
        self.run, self.index, self.key, self.kind = run, index, key, kind
        self.then, self.spec, self.limit = then, spec, limit
        self.alive = True

    def __call__(self, signal, sender, value=None):
        self.run.notified(self, signal, sender, value)

    def connect(self, connect):
        n, f = self.key
        for what in ('set', 'del'):
            connect(self, (what, self.run.field(n, f)), self.run.nodes[n])


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.classes = []
        self.fields = []
        for i, c in enumerate(case['classes']):
            if isinstance(c, str):
                cls = standard()[c]
                self.fields.append(value_fields(cls))
                self.defaults_of(cls, self.fields[-1])
            else:
                cls = make_class('Sim%d' % i, c)
                by_name = {f.name: f for f in protofunctions.getFields(cls)}
                self.fields.append([by_name[f[0]] for f in c])
                self.fields[-1][0].simdefaults = None
            self.classes.append(cls)
        self.case = case
        self.defaults = {}
        for i, c in enumerate(case['classes']):
            for j, f in enumerate(self.fields[i]):
                if isinstance(c, str):
                    # the coerced value is what a first reading gives
                    self.defaults[i, j] = keep(f.coerce(f.getDefault()))
                else:
                    spec = c[j][2]
                    self.defaults[i, j] = Child(None, None, 'Weak' in c[j][1]) if c[j][1] in NODE_TYPES else zero(c[j][1]) if spec is None else expected(spec)
        self.children = [basenodes.Group(DEF='child%d' % i) for i in range(CHILDREN)]
        self.of = list(case['nodes'])
        self.nodes = [self.classes[c]() for c in self.of]
        self.model = {}  # (n, f): value, for those which have been assigned
        self.read = set()  # (n, f) which may have got their default by reading
        self.frames = []
        self.observers = []
        self.depth = 0

    def defaults_of(self, cls, fields):
        pass

    def field(self, n, f):
        fields = self.fields[self.of[n]]
        return fields[f % len(fields)]

    def key(self, n, f):
        n %= len(self.nodes)
        return n, f % len(self.fields[self.of[n]])

    def typed(self, key, spec):
        """Whether the value was made for a field of this type"""
        return self.field(*key).typeName() == spec['t']

    def given(self, spec, fired):
        """What to assign"""
        if spec['t'] not in NODE_TYPES:
            return given(spec, fired)
        weak, other = spec['t'] == 'WeakSFNode', spec.get('form') == 'other'
        if 'bad' in spec:
            wrong = ['child', 5, [self.children[0]] * 2, object()]
            if spec['t'] == 'SFGroup':
                # other nodes than it is for
                wrong[2:] = [basenodes.Material(), [basenodes.Shape()]]
            return wrong[spec['n']]
        if spec['v'] is None:
            return None if other else node.NULL
        child = self.children[spec['v']]
        if other:
            return weakref.ref(child) if weak else [child]
        return child

    def expected(self, spec):
        if spec['t'] not in NODE_TYPES:
            return expected(spec)
        child = None if spec['v'] is None else self.children[spec['v']]
        return Child(child, protofunctions.defName(child) if child is not None else None, spec['t'] == 'WeakSFNode')

    # -- notifications
    def notified(self, observer, signal, sender, value):
        ctx = self.ctx
        ctx.log('notified', observer.index, signal[0], signal[1].name, plain(value))
        ctx.check(observer.alive, 'notified-after-leaving', 'observer %d', observer.index)
        ctx.check(self.frames, 'spurious-notification', '%s with nothing under way', signal[0])
        frame = self.frames[-1]
        n, f = observer.key
        ctx.check(
            sender is self.nodes[n] and signal[1] is self.field(n, f) and observer.key == frame.key,
            'spurious-notification',
            'for %s, while %s is changed', observer.key, frame.key,
        )
        ctx.check(frame.notify, 'notified-though-quiet', '%s', frame.key)
        ctx.check(signal[0] == frame.kind, 'wrong-signal', '%s during %s', signal[0], frame.kind)
        ctx.check(not isinstance(frame.wanted, core.HarnessError), 'notified-of-rejected', '%s', frame.key)
        frame.counts[observer.index] = frame.counts.get(observer.index, 0) + 1
        ctx.check(frame.counts[observer.index] == 1, 'notified-twice', '%s', frame.key)
        self.stored(frame)
        if frame.kind == 'set':
            ctx.check(same(value, frame.wanted), 'wrong-notified-value', '%s, not %s', short(value), short(frame.wanted))
            if not frame.overwritten:
                current = self.field(n, f).fget(sender)
                ctx.check(
                    same(current, frame.wanted),
                    'notified-before-visible', '%s, not %s', short(current), short(frame.wanted),
                )
        elif not frame.overwritten:
            ctx.check(not self.field(n, f).fhas(sender), 'notified-before-deleted', '%s', frame.key)
        self.act(observer, frame)

    def act(self, observer, frame):
        kind = observer.kind
        ctx = self.ctx
        if kind == 'record':
            return
        if observer.limit <= 0 or self.depth >= 4:
            return
        observer.limit -= 1
        if kind == 'raise':
            ctx.fault('observer-raises')
            frame.raised = core.SimFault('observer %d' % observer.index)
            raise frame.raised
        if kind == 'leave':
            ctx.fault('observer-leaves-while-notified')
            self.drop(observer)
            # the dispatcher iterates over the live list of receivers, so that
            # those after one which leaves get skipped: not this code's doing
            for active in self.frames:
                active.disturbed = True
        elif kind == 'collect':
            core.collect(ctx)
        elif kind == 'assign':
            key = self.key(*observer.then)
            if self.typed(key, observer.spec):
                ctx.fault('assigned-within-notification')
                self.depth += 1
                try:
                    self.assign(key, observer.spec, 'attr')
                finally:
                    self.depth -= 1
        elif kind == 'delete':
            key = self.key(*observer.then)
            ctx.fault('deleted-within-notification')
            self.depth += 1
            try:
                self.delete(key, 'attr')
            finally:
                self.depth -= 1

    def drop(self, observer):
        if observer.alive:
            # while notified, the dispatcher may legitimately still call it
            observer.alive = bool(self.frames)
            try:
                observer.connect(dispatcher.disconnect)
            except dispatcher.errors.DispatcherKeyError:
                pass
            observer.kind = 'record'
            observer.left = True

    def stored(self, frame):
        """The frame's effect is now to be seen"""
        if frame.stored:
            return
        frame.stored = True
        for other in self.frames:
            if other is not frame and other.key == frame.key:
                other.overwritten = True
        if frame.kind == 'set':
            self.model[frame.key] = keep(frame.wanted)
        else:
            self.model.pop(frame.key, None)
        self.read.discard(frame.key)

    # -- operations
    def watchers(self, key):
        return [o for o in self.observers if o.key == key and o.alive and not getattr(o, 'left', False)]

    def settle(self, frame, before):
        """The notifications of an effect which is complete"""
        if not frame.notify or frame.raised is not None:
            return
        for observer in before:
            if getattr(observer, 'left', False):
                continue
            if frame.disturbed and not frame.counts.get(observer.index):
                continue
            count = frame.counts.get(observer.index, 0)
            self.ctx.check(count == 1, 'not-notified' if not count else 'notified-twice',
                           'of %s %s, observer %d got %d', frame.kind, frame.key, observer.index, count)

    def nested_raise(self, frame, err):
        """An observer's injected failure comes out of the assignment"""
        if isinstance(err, core.SimFault) and str(err).startswith('observer'):
            frame.raised = err
            return True
        return False

    def assign(self, key, spec, how):
        ctx = self.ctx
        ctx.step()
        n, f = key
        target, fld = self.nodes[n], self.field(n, f)
        fired = [0]
        obj = self.given(spec, fired)
        wanted = self.expected(spec)
        if 'bad' not in spec and isinstance(wanted, Child) and wanted.weak and wanted.ref is None:
            # weak fields store nothing for it
            return self.delete(key, how, obj, True)
        hopeless = spec.get('bad') in ('wrong', 'bomb')
        frame = Frame('set', key, core.HarnessError() if hopeless else wanted, how != 'quiet')
        before = self.watchers(key)
        ctx.log('set', key, spec.get('form', spec.get('bad')), plain(wanted), how)
        self.frames.append(frame)
        try:
            if how == 'attr':
                setattr(target, fld.name, obj)
            elif how == 'fset':
                fld.fset(target, obj)
            else:
                fld.fset(target, obj, notify=0)
        except core.Violation:
            raise
        except Exception as err:
            if self.nested_raise(frame, err):
                # it did get stored, only the telling of it went wrong
                ctx.check(frame.stored, 'observer-failure-undoes', '%s', key)
                ctx.log('raised by observer')
                raise
            ctx.log('rejected')
            ctx.check('bad' in spec, 'valid-value-rejected', '%s %s: %r', fld.typeName(), short(spec), err)
            ctx.check(not frame.stored, 'rejected-after-notification', '%s', key)
            if fired[0]:
                ctx.fault('conversion-%s' % spec['error'])
            else:
                ctx.fault('invalid-value')
        else:
            ctx.check(not hopeless, 'invalid-value-accepted', '%s %s', fld.typeName(), short(spec))
            self.stored(frame)
            self.settle(frame, before)
            if fired[0]:
                ctx.probe('conversion-recovered')
        finally:
            self.frames.pop()

    def delete(self, key, how, null=None, clear=False):
        """Delete the value, or clear a weak field by assigning it NULL"""
        ctx = self.ctx
        ctx.step()
        n, f = key
        target, fld = self.nodes[n], self.field(n, f)
        had = key in self.model
        gone = had and isinstance(self.model[key], Child) and self.model[key].gone()
        frame = Frame('del', key, None, how != 'quiet')
        before = self.watchers(key)
        ctx.log('clear' if clear else 'del', key, how, had)
        self.frames.append(frame)
        try:
            if clear and how == 'attr':
                setattr(target, fld.name, null)
            elif clear:
                fld.fset(target, null, *(() if how == 'fset' else (0,)))
            elif how == 'attr':
                delattr(target, fld.name)
            elif how == 'fdel':
                fld.fdel(target)
            else:
                fld.fdel(target, 0)
        except core.Violation:
            raise
        except Exception as err:
            if self.nested_raise(frame, err):
                ctx.check(frame.stored, 'observer-failure-undoes', '%s', key)
                raise
            ctx.check(isinstance(err, AttributeError) and not clear and (not had or gone), 'deletion-refused', '%s: %r', key, err)
        else:
            if had and not gone:
                self.stored(frame)
                self.settle(frame, before)
            else:
                # only the default was there, announcing that is optional
                self.read.discard(key)
                if gone and not frame.overwritten:
                    self.model.pop(key, None)
        finally:
            self.frames.pop()

    def get(self, key):
        n, f = key
        actual = getattr(self.nodes[n], self.field(n, f).name)
        wanted = self.model.get(key)
        if key not in self.model:
            wanted = self.defaults[self.of[n], f]
            self.read.add(key)
        self.ctx.check(same(actual, wanted), 'wrong-value', '%s is %s, not %s', key, short(actual), short(wanted))

    def verify(self, everything=False):
        for n, target in enumerate(self.nodes):
            for f, fld in enumerate(self.fields[self.of[n]]):
                key = n, f
                if key in self.model and isinstance(self.model[key], Child) and self.model[key].gone():
                    # what it had is gone, and its default may be there when read
                    self.ctx.probe('weak-value-gone')
                    actual = fld.fget(target)
                    self.ctx.check(actual is None or isinstance(actual, node.NullNode), 'wrong-value', '%s is %s', key, short(actual))
                    del self.model[key]
                    self.read.add(key)
                elif key in self.model:
                    self.ctx.check(fld.fhas(target), 'lost-value', '%s', key)
                    actual = fld.fget(target)
                    self.ctx.check(
                        same(actual, self.model[key]),
                        'wrong-value', '%s (%s) is %s, not %s', key, fld.typeName(), short(actual), short(self.model[key]),
                    )
                elif everything:
                    self.get(key)
                elif key not in self.read:
                    self.ctx.check(not fld.fhas(target), 'value-from-nowhere', '%s', key)

    def new(self, c, values, n):
        """Construct a node with the values, which succeeds whole or not at all"""
        ctx = self.ctx
        c %= len(self.classes)
        named, want, hopeless, fired = {}, {}, False, [0]
        for f, spec in values:
            fld = self.fields[c][f % len(self.fields[c])]
            if fld.typeName() != spec['t']:
                continue
            named[fld.name] = self.given(spec, fired)
            wanted = self.expected(spec)
            if not (isinstance(wanted, Child) and wanted.weak and wanted.ref is None):
                want[f % len(self.fields[c])] = wanted
            hopeless = hopeless or spec.get('bad') in ('wrong', 'bomb')
        ctx.log('new', c, sorted(named))
        try:
            created = self.classes[c](**named)
        except Exception as err:
            ctx.check(hopeless or fired[0], 'valid-value-rejected', '%s: %r', short(values), err)
            return
        ctx.check(not hopeless, 'invalid-value-accepted', '%s', short(values))
        if len(self.nodes) < 8:
            index = len(self.nodes)
            self.nodes.append(created)
            self.of.append(c)
            for f, wanted in want.items():
                self.model[index, f] = keep(wanted)

    def op(self, op):
        kind = op[0]
        if kind == 'set':
            key = self.key(op[1], op[2])
            if self.typed(key, op[3]):
                self.assign(key, op[3], op[4])
        elif kind == 'del':
            self.delete(self.key(op[1], op[2]), op[3])
        elif kind == 'get':
            self.get(self.key(op[1], op[2]))
        elif kind == 'watch':
            key = self.key(op[1], op[2])
            observer = Observer(self, len(self.observers), key, op[3], (op[4], op[5]), op[6], op[7])
            self.observers.append(observer)
            n, f = key
            fld = self.field(n, f)
            for what in ('set', 'del'):
                fld.watch(self.nodes[n], observer, (what, fld))
        elif kind == 'drop':
            if self.observers:
                observer = self.observers[op[1] % len(self.observers)]
                if not getattr(observer, 'left', False):
                    self.drop(observer)
                    observer.alive = False
        elif kind == 'new':
            self.new(op[1], op[2], op[3])
        elif kind == 'forget':
            i = op[1] % CHILDREN
            self.children[i] = basenodes.Group(DEF='child%d' % i)
            core.collect(self.ctx)
        elif kind == 'gc':
            core.collect(self.ctx)


short = core.short


def run(case, ctx):
    sim = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        try:
            sim.op(op)
        except core.SimFault as err:
            if not str(err).startswith('observer'):
                raise
        sim.verify()
        ctx.state(sorted((k, plain(v)) for k, v in sim.model.items()))
    sim.verify(everything=True)
    ctx.nontrivial = any(k.startswith('fault:') for k in ctx.counts) and len(sim.model) > 0
