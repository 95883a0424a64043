"""P13: a copy equals its original and shares nothing with it

Several worlds of nodes are edited, each in its own way, and copied: whole
scenes, single nodes, several nodes with one copier, with collections and
failing allocations in the middle.  The oracle is a description of the objects
of a world made by looking at them, implementations of instances included: that
of a copy must equal that of its original, and no operation on one world may
change another one's or send a notification as one of its nodes.  Copy and
original which get the same edits must stay equal and send equal notifications.
"""

import copy

from vsim import core
from vsim.kit import *
from vsim.scenes import *
from vsim.props import p10

EDITS = ['add', 'add', 'set', 'set', 'set', 'del', 'use', 'remove', 'name', 'route', 'unroute', 'order', 'assign', 'inplace', 'inlist', 'cycle', 'event', 'null']
OPS = EDITS + ['proto', 'text', 'copy', 'copy', 'copy', 'part', 'part', 'parts', 'twin', 'twin', 'twin', 'drop', 'gc']


def gen(rng, config, tier):
    chosen = [o for o in OPS if rng.random() < 0.8] + ['add', 'copy', 'twin', 'part']
    ops = []
    for n in range(rng.randrange(3, 18)):
        name = rng.choice(chosen) if n > 2 or rng.random() < 0.2 else rng.choice(('add', 'proto', 'route', 'assign'))
        op = [name, rng.randrange(1 << 30)]
        if name in ('copy', 'part', 'parts', 'twin') and rng.random() < 0.3:
            op.append({'at': rng.randrange(1, 500), 'what': rng.choice(('memory', 'memory', 'gc'))})
        ops.append(op)
    if rng.random() < 0.7:
        ops.append(['twin', rng.randrange(1 << 30)])
    return {'ops': ops, 'loose': rng.random() < 0.3, 'plain': rng.random() < 0.4, 'policy': rng.choice(('lifo', 'fifo', 'never'))}


reduce = p10.reduce


class CopyBuilder(Builder):
    """Makes nodes with fields of all types; defaults are no nodes"""

    def __init__(self, plain, cyclic):
        Builder.__init__(self, plain)
        self.cyclic = cyclic
        # whether what is made is written as text
        self.textual = False
        self.every = make_class('Every', [['v%d' % n, t, None] for n, t in enumerate(ALL)])

    def cls(self, r):
        if not self.textual and r.random() < 0.1:
            return self.every
        return Builder.cls(self, r)

    def declared(self, r, depth, name, defaults=True):
        return Builder.declared(self, r, 0, name, defaults)

    def fill(self, r, item, depth, pool, chance=0.3):
        if isinstance(item, self.every):
            for f in fields_of(self.every):
                if r.random() < chance:
                    self.put(r, item, f, self.value(r, f.typeName()))
        else:
            Builder.fill(self, r, item, depth, pool, chance)


class Loose(object):
    """Nodes which are in no scene"""

    def __init__(self, children=(), routes=()):
        self.children, self.routes = list(children), list(routes)

    def addRoute(self, made):
        self.routes.append(made)

    def addProto(self, cls):
        pass

    def regDefName(self, name, item):
        item.DEF = name


class Deep(Description):
    """Describes what instances are made of as well; what is met is kept"""

    def __init__(self, *args):
        Description.__init__(self, *args)
        # what must not be shared
        self.scenes, self.routes_, self.values = [], [], []
        # (number of the scene, name) -> number of the node
        self.registered = {}
        # descriptions of nodes which are nowhere but in a registry
        self.named = {}

    def node(self, item):
        new = not is_null(item) and id(item) not in self.numbers
        out = Description.node(self, item)
        if new:
            inner = item.__dict__.get(' scenegraph')
            if isinstance(inner, scenegraph.SceneGraph):
                out['inner'] = self.scene(inner)
            for f in fields_of(type(item)):
                v = item.__dict__.get(f.name)
                if isinstance(v, (list, np.ndarray)):
                    self.values.append(v)
        return out

    def scene(self, sg):
        self.scenes.append(sg)
        children = sg.__dict__.get('children', [])
        self.values.append(children)
        out = {'children': [self.node(c) for c in children]}
        here = len(self.scenes)
        if isinstance(sg.__dict__.get('routes'), list):
            self.values.append(sg.routes)
        out['routes'] = self.all_routes(sg.__dict__.get('routes', ()))
        # a copy registers the names of all its nodes
        for n, item in sorted(sg.defNames.items()):
            if n and not is_null(item):
                found = self.node(item)
                # who has a name may be nowhere else
                if isinstance(found, dict):
                    self.named['%d %s' % (here, n)] = found
                self.registered[here, n] = self.numbers[id(item)]
        out['protos'] = sorted(own_protos(sg))
        return out

    def all_routes(self, routes):
        self.routes_ += routes
        return [[type(r).__name__, self.node(r.source), r.sourceField, self.node(r.destination), r.destinationField] for r in routes]

    def world(self, scene):
        if isinstance(scene, Loose):
            return {'children': [self.node(c) for c in scene.children], 'routes': self.all_routes(scene.routes)}
        return self.scene(scene)

    def objects(self):
        return self.keep + self.scenes + self.routes_ + self.values


class World(p10.Run):
    """A scene or loose nodes, and what can be done with it"""

    def __init__(self, ctx, builder, scene):
        self.ctx, self.builder, self.scene = ctx, builder, scene
        self.attic = []
        self.look()

    def look(self):
        self.deep = Deep()
        self.seen = self.deep.world(self.scene)

    def value_fields(self, item):
        return value_fields(type(item)) if isinstance(item, self.builder.every) else p10.Run.value_fields(self, item)

    def op_inlist(self, r, op):
        """A list of strings is changed in place"""

        def lists_of(item):
            return [f for f in self.value_fields(item) if f.typeName() == 'MFString' and isinstance(item.__dict__.get(f.name), list)]

        item = self.pick(r, lists_of)
        if item is not None:
            v = item.__dict__[r.choice(lists_of(item)).name]
            if v and r.random() < 0.5:
                v.pop()
            else:
                v.append(r.choice(WORDS))

    def op_text(self, r, op):
        self.written(p10.Run.op_text, r, op)

    def op_proto(self, r, op):
        self.written(p10.Run.op_proto, r, op)

    def written(self, action, r, op):
        self.builder.textual = True
        try:
            action(self, r, op)
        finally:
            self.builder.textual = False

    def op_cycle(self, r, op):
        if self.builder.cyclic:
            item = self.pick(r, lambda i: [f for f in self.node_fields(i) if f.typeName() == 'MFNode'])
            if item is not None:
                f = r.choice([f for f in self.node_fields(item) if f.typeName() == 'MFNode'])
                getattr(item, f.name).append(self.pick(r))
                self.ctx.probe('cycle')

    def op_null(self, r, op):
        """No node, among the nodes of a list"""
        item = self.pick(r, lambda i: [f for f in self.node_fields(i) if f.typeName() == 'MFNode'])
        if item is not None:
            f = r.choice([f for f in self.node_fields(item) if f.typeName() == 'MFNode'])
            children = getattr(item, f.name)
            children.insert(r.randrange(len(children) + 1), NULL)
            self.ctx.probe('null-in-list')

    def op_event(self, r, op):
        """An event is sent to a node"""
        item = self.pick(r, lambda i: [e for e in events_of(type(i)) if e.typeName() in PARSED])
        if item is not None:
            e = r.choice([e for e in events_of(type(item)) if e.typeName() in PARSED])
            setattr(item, e.name, self.builder.value(r, e.typeName()))

    def op_add(self, r, op):
        if len(self.nodes()) < 30:
            self.place(r, self.builder.node(r, 2, []))

    def op_assign(self, r, op):
        if len(self.nodes()) < 30:
            p10.Run.op_assign(self, r, op)


class Run(object):
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        # without cycles where there are scenes, or instances, which have scenes within
        self.builder = CopyBuilder(case['plain'], case['loose'])
        self.worlds = [World(ctx, self.builder, Loose() if case['loose'] else scenegraph.SceneGraph())]
        self.sent = []
        self.busy = False
        dispatcher.connect(self.heard, weak=False)

    def close(self):
        dispatcher.disconnect(self.heard, weak=False)

    def heard(self, signal=None, sender=None):
        self.sent.append((signal, sender))

    def operate(self, op):
        r = random.Random(op[1])
        getattr(self, 'do_' + op[0], self.edit)(op, r)
        self.sent = []

    # -- judging
    def unchanged(self, changed=()):
        """All worlds are as they were, but for those which were changed"""
        ctx = self.ctx
        for n, w in enumerate(self.worlds):
            if w not in changed:
                d = Deep()
                found = difference(w.seen, d.world(w.scene))
                found = found or difference(w.deep.named, d.named)
                if found is None and w.deep.registered != d.registered:
                    found = 'names'
                ctx.check(found is None, 'other-changed', 'world %d: %s', n, found)
                ours = {id(i) for i in d.objects()}
                for signal, sender in self.sent:
                    ctx.check(id(sender) not in ours, 'other-notifies', 'world %d: %s', n, signal)
        for w in changed:
            w.look()
        self.sent = []
        self.separate()

    def separate(self):
        """No two worlds have anything in common"""
        owner = {}
        arrays_ = {}
        for n, w in enumerate(self.worlds):
            for item in w.deep.objects():
                self.ctx.check(owner.setdefault(id(item), n) == n, 'shared', '%s: %s of worlds %d and %d', type(item).__name__, core.short(repr(item)), owner[id(item)], n)
                if isinstance(item, np.ndarray) and item.size:
                    at = item.__array_interface__['data'][0]
                    self.ctx.check(arrays_.setdefault(at, n) == n, 'shared', 'array of worlds %d and %d', arrays_[at], n)

    # -- editing
    def edit(self, op, r):
        w = r.choice(self.worlds)
        getattr(w, 'op_' + op[0])(r, op)
        self.unchanged([w])

    def do_proto(self, op, r):
        if not self.builder.cyclic:
            self.edit(op, r)

    def do_text(self, op, r):
        w = r.choice(self.worlds)
        if not isinstance(w.scene, Loose) and len(w.nodes()) < 30 and len(self.builder.known) < 6:
            self.edit(op, r)

    def do_gc(self, op, r):
        core.collect(self.ctx)
        self.unchanged()

    def do_drop(self, op, r):
        if len(self.worlds) > 1:
            self.worlds.pop(r.randrange(len(self.worlds)))
            core.collect(self.ctx)
            self.ctx.fault('world-dropped')
            self.unchanged()

    # -- copying
    def within(self, op, action):
        """Copy, maybe with a fault first"""
        if len(op) < 3:
            return action()
        fault, fired = op[2], []

        def point(n, code, line):
            if n == fault['at']:
                fired.append(1)
                if fault['what'] == 'gc':
                    core.POINTS.busy = True
                    try:
                        core.collect(self.ctx)
                    finally:
                        core.POINTS.busy = False
                else:
                    self.ctx.fault('allocation-failed')
                    raise MemoryError('injected')

        made = None
        try:
            with core.POINTS.run(point):
                made = action()
            if not fired or fault['what'] == 'gc':
                return made
            self.ctx.fail('failure-hidden', 'the allocation which failed is not reported')
        except MemoryError:
            if not fired:
                raise
        self.unchanged()
        return action()

    def copy(self, op, r, w):
        """A world which is a copy of this one"""
        w.attic = []
        if isinstance(w.scene, Loose):

            def action():
                made = copier.Copier()
                children = [c.copy(made) for c in w.scene.children]
                return Loose(children, [one.copy(made) for one in w.scene.routes])
        else:

            def action():
                return w.scene.copy() if r.random() < 2 else None

        return World(self.ctx, self.builder, self.within(op, action))

    def do_copy(self, op, r, w=None):
        w = w or r.choice(self.worlds)
        if len(w.nodes()) > 60:
            return None
        made = self.copy(op, r, w)
        self.belongs(made)
        if len(self.worlds) > 3:
            # another one goes
            others = [i for i in self.worlds if i is not w]
            self.worlds.remove(r.choice(others))
        self.worlds.append(made)
        found = difference(w.seen, made.seen) or difference(w.deep.named, made.deep.named)
        self.ctx.check(found is None, 'copy-differs', '%s', found)
        if not isinstance(w.scene, Loose):
            for name, cls in w.scene.protoTypes.items():
                found = made.scene.getProto(name), getattr(made.scene.protoTypes, name, None)
                self.ctx.check(found[0] is not None and found[0] is found[1], 'prototype-lost', '%s: %s', name, found)
            taken = copy.copy(w.scene.protoTypes)
            self.ctx.check(taken == w.scene.protoTypes and taken is not w.scene.protoTypes, 'prototypes-copy', '%s', sorted(taken))
        for key, number in w.deep.registered.items():
            if [n for i in w.deep.keep for n in [i.__dict__.get(' DEF')]].count(key[1]) < 2:
                self.ctx.check(made.deep.registered.get(key) == number, 'name-lost', '%s', key[1])
        self.unchanged([made])
        self.ctx.probe('copied-instances' if any(is_user(type(i)) for i in w.nodes()) else 'copied')
        self.ctx.nontrivial += len(w.nodes()) > 2
        self.ctx.state(repr(w.seen))
        return made

    def belongs(self, made):
        scene = None if isinstance(made.scene, Loose) else made.scene
        for item in made.nodes():
            found = protofunctions.root(item)
            if scene is not None:
                self.ctx.check(found is scene, 'copy-elsewhere', '%s', protofunctions.protoName(item))
            else:
                for w in self.worlds:
                    self.ctx.check(found is not w.scene and all(found is not s for s in w.deep.scenes), 'copy-elsewhere', '%s', protofunctions.protoName(item))

    def do_part(self, op, r):
        w = r.choice(self.worlds)
        item = w.pick(r)
        if item is not None:
            self.parts(op, r, w, [item], r.choice((None, copier.Copier)))

    def do_parts(self, op, r):
        w = r.choice(self.worlds)
        items = [w.pick(r) for _ in range(r.randrange(2, 4))]
        if items[0] is not None:
            self.parts(op, r, w, items, copier.Copier)

    def parts(self, op, r, w, items, make):
        """Some nodes are copied, which make a world of their own"""

        def action():
            if make is None:
                return [i.copy() for i in items]
            made = make()
            return [i.copy(made) for i in items]

        # what was removed from the field of an instance may be in the implementation
        w.attic = []
        copies = self.within(op, action)
        made = World(self.ctx, self.builder, Loose(copies))
        wanted = Deep().world(Loose(items))
        found = difference(wanted, made.seen)
        self.ctx.check(found is None, 'copy-differs', '%s', found)
        self.belongs(made)
        self.worlds.append(made)
        self.unchanged([made])
        if len(self.worlds) > 4 or r.random() < 0.3:
            self.worlds.pop()
        self.ctx.probe('part-copied')

    def do_twin(self, op, r):
        """A copy and its original get the same edits"""
        w = r.choice(self.worlds)
        if not isinstance(w.scene, Loose):
            # all nodes of a copied scene belong to it
            protofunctions.root(w.scene, w.scene)
            self.unchanged([w])
        made = self.do_copy(op, r, w)
        if made is None:
            return
        for _ in range(r.randrange(1, 6)):
            name, seed = r.choice(EDITS), r.randrange(1 << 30)
            if name == 'add' and len(w.nodes()) > 25:
                continue
            heard, outcomes = [], []
            count = self.builder.count
            for one, other in ((w, made), (made, w)):
                self.builder.count = count
                self.sent = []
                numbers = dict(one.deep.numbers)
                numbers.update((id(s), 'scene%d' % n) for n, s in enumerate(one.deep.scenes))
                one.attic = []
                try:
                    getattr(one, 'op_' + name)(random.Random(seed), [name, seed])
                    outcomes.append(None)
                except (ValueError, TypeError, AttributeError) as err:
                    outcomes.append(type(err).__name__)
                heard.append(sorted(repr((self.plain(s), numbers.get(id(sender), 'new'))) for s, sender in self.sent if isinstance(sender, node.Node) and id(sender) in numbers ))
                # keep order: the other is as before, this one changed
                self.unchanged([one])
            self.ctx.check(outcomes[0] == outcomes[1], 'copy-behaves-differently', '%s: %s', name, outcomes)
            found = difference(w.seen, made.seen)
            self.ctx.check(found is None, 'copy-behaves-differently', '%s: %s', name, found)
            self.ctx.check(heard[0] == heard[1], 'copy-notifies-differently', '%s: %s, not %s', name, core.short(heard[1], 300), core.short(heard[0], 300))
            self.ctx.probe('same-edit')

    def plain(self, signal):
        if isinstance(signal, tuple):
            return [getattr(s, 'name', s if isinstance(s, str) else '') for s in signal]
        return str(signal)


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    state = Run(case, ctx)
    try:
        for op in case['ops']:
            ctx.step()
            ctx.log(op[0], op[1])
            state.operate(op)
            core.ADDRESSES.release()
    finally:
        state.close()
