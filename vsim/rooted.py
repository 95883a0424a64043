"""Nodes, the scenes they belong to and the names there, against a model

Shared by P12, which judges names, and P16, which judges belonging.  After
every operation the model says for every node which scenes it may belong to,
and for every name of every scene which nodes it may give; what was observed
is what the model goes on with.
"""

import random
import weakref

from vsim import core
from vsim.kit import *

NAMES = ['a', 'b', 'c', 'N_1', '\u00e9']
FIELDS_OF = {
    'Group': {'children': 'MFNode'},
    'Transform': {'children': 'MFNode'},
    'Collision': {'children': 'MFNode', 'proxy': 'SFNode'},
    'Shape': {'appearance': 'SFNode', 'geometry': 'SFNode'},
    'Appearance': {'material': 'SFNode', 'texture': 'SFNode'},
    'Material': {},
    'Sphere': {},
    'Switch': {'choice': 'MFNode'},
    'P': {'s': 'SFNode', 'm': 'MFNode', 'plain': 'SFNode'},
    'Q': {'s': 'SFNode', 'm': 'MFNode'},
    'scene': {'children': 'MFNode'},
}
FIELD_OF = {'Transform': 'translation', 'Sphere': 'radius', 'Material': 'shininess'}
KINDS = sorted(k for k in FIELDS_OF if k != 'scene')
TEXT = '''#VRML V2.0 utf8
PROTO P [ field SFNode s NULL exposedField MFNode m [ ] exposedField SFNode plain NULL ] {
  Group { children IS m }
  Shape { geometry IS s }
}
PROTO Q [ exposedField SFNode s NULL exposedField MFNode m [ ] ] {
  DEF a P { s IS s m IS m }
}
'''
OPS = ['new', 'new', 'new', 'scene', 'assign', 'assign', 'assign', 'assign', 'append', 'append', 'lists', 'clear', 'reg', 'reg', 'rename', 'root', 'drop', 'drop', 'drop_scene', 'copy', 'copy_scene', 'parse', 'route', 'ends', 'gc', 'gc', 'write']


def gen(rng, weights):
    chosen = [o for o in OPS + weights if rng.random() < 0.8] + ['new', 'scene', 'assign']
    ops = []
    for _ in range(rng.randrange(4, 40)):
        op = [rng.choice(chosen), rng.randrange(1 << 30)]
        if rng.random() < 0.2:
            op.append(rng.randrange(1, 200))
        ops.append(op)
    return {'ops': ops, 'policy': rng.choice(('lifo', 'fifo', 'never')), 'quiet': rng.random() < 0.5}


def reduce(case):
    for n, op in enumerate(case['ops']):
        for k in range(12):
            if op[1] > 11:
                yield dict(case, ops=case['ops'][:n] + [[op[0], k] + op[2:]] + case['ops'][n + 1 :])
        if len(op) > 2:
            yield dict(case, ops=case['ops'][:n] + [op[:2]] + case['ops'][n + 1 :])


class Item(object):
    """What the model knows of a node"""

    def __init__(self, number, kind, real):
        self.number, self.kind = number, kind
        self.ref = weakref.ref(real)
        self.fields = {n: [] for n in FIELDS_OF[kind]}
        # the item of the scene, or None
        self.root = None
        # what else it may belong to, as the implementations of instances are scenes too
        self.names = {}

    @property
    def real(self):
        return self.ref()

    def __repr__(self):
        return '%s%d' % (self.kind, self.number)


class World(object):
    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what
        self.items = []
        self.scenes = []
        # strong references
        self.held = {}
        found = parser.buildParser().parse(TEXT)[1][1]
        self.protos = {n: found.getProto(n) for n in ('P', 'Q')}
        self.keep = found
        self.serial = 0
        # node -> scenes it may belong to; (scene, name) -> nodes it may give
        self.roots_allowed = {}
        self.names_allowed = {}
        # those which belong to the implementation of an instance, and those which may
        self.hidden, self.given = set(), set()

    # -- the model
    def add(self, kind, real, hold=True):
        self.serial += 1
        item = Item(self.serial, kind, real)
        (self.scenes if kind == 'scene' else self.items).append(item)
        if kind == 'scene':
            item.root = item
        if hold:
            self.held[item.number] = real
        return item

    def subtree(self, item):
        found, seen = [], set()

        def visit(one):
            if one.number not in seen:
                seen.add(one.number)
                found.append(one)
                for name in sorted(one.fields):
                    for child in one.fields[name]:
                        visit(child)

        visit(item)
        return found

    def below(self, item, other):
        return other in self.subtree(item)

    def reachable(self):
        """What is alive surely, but for what names alone hold"""
        found = set()
        for item in self.items + self.scenes:
            if item.number in self.held:
                found.update(i.number for i in self.subtree(item))
        return found

    def living(self, scene):
        return scene is not None and scene.ref() is not None

    def joins(self, value, scene, certain=True, takes=False):
        """A node is assigned where the scene is"""
        if value.root is not None:
            certain = False
        if value.root is not None and value.root is not scene and not takes:
            # it keeps its own
            own = value
        else:
            own = None
        here = self.subtree(value)
        loose = set()
        new = []
        for one in here:
            if one is own:
                continue
            if one.root is None and certain:
                self.roots_allowed[one] = [scene]
                new.append(one)
            elif one.root is None:
                self.loosen(one, [None, scene])
            elif one.root is not scene:
                self.loosen(one, [one.root, scene])
        for one in here:
            name = self.name_of(one)
            if not name:
                continue
            same = [o for o in here if self.name_of(o) == name]
            if one in new and len(same) == 1:
                self.names_allowed[scene, name] = [one]
            else:
                self.names_allowed[scene, name] = list(self.may_give(scene, name)) + same
            # other names it had there go
            for other, found in scene.names.items():
                if found is one and other != name:
                    self.names_allowed[scene, other] = list(self.may_give(scene, other)) + [None]

    def enters(self, client, value, certain, appended=False):
        """A node is given to another one"""
        scene = client.root
        if self.living(scene):
            certain = certain and client.number not in self.hidden
            self.joins(value, scene, certain and not self.hidden & {i.number for i in self.subtree(value)})
        if (appended or not self.living(scene)) and (client.kind in ('P', 'Q') or client.number in self.given | self.hidden):
            # the scene may be that of an implementation
            for one in self.subtree(value):
                self.given.add(one.number)
                self.loosen(one, [one.root, None])

    def loosen(self, one, scenes):
        self.roots_allowed[one] = self.roots_allowed.get(one, [one.root]) + scenes

    def may_give(self, scene, name):
        return self.names_allowed.get((scene, name), [scene.names.get(name)])

    def name_of(self, item):
        return item.real.__dict__.get(' DEF', '')

    # -- judging
    def observe_root(self, item):
        found = protofunctions.root(item.real)
        return found if found else None

    def verify(self):
        ctx = self.ctx
        self.items = [i for i in self.items if i.real is not None]
        for scene in self.scenes:
            if scene.real is None and scene.number in self.held:
                raise core.HarnessError('a held scene is dead')
        self.scenes = [s for s in self.scenes if s.real is not None]
        given = self.implemented()
        core_scenes = {core.ADDRESSES.real_id(s.real): s for s in self.scenes}
        reachable = self.reachable()
        for item in self.items:
            for name, children in item.fields.items():
                item.fields[name] = [c for c in children if c.real is not None]
            found = self.observe_root(item)
            allowed = self.roots_allowed.get(item, [item.root])
            if item.root is not None and item.root.real is None:
                allowed = [None] + [a for a in allowed if a is not item.root]
            allowed = [a for a in allowed if a is None or a.real is not None] or [None]
            if found is None:
                got = None
            else:
                got = core_scenes.get(core.ADDRESSES.real_id(found), 'implementation')
            if got == 'implementation':
                # it was given to an instance which had no scene itself
                if self.what == 'roots':
                    ctx.check(item.number in given and None in allowed, 'wrong-scene', '%s belongs to an unknown scene, not %s', item, allowed)
                got = None
                self.hidden.add(item.number)
            else:
                self.hidden.discard(item.number)
                if self.what == 'roots':
                    ctx.check(got in allowed, 'wrong-scene', '%s belongs to %s, not %s', item, got, allowed)
            item.root = got
        for scene in self.scenes:
            ctx.check(protofunctions.root(scene.real) is scene.real, 'wrong-scene', 'a scene belongs to another')
            names = set(NAMES) | set(scene.names) | {n for s, n in self.names_allowed if s is scene} | {'nothing'}
            for name in sorted(names):
                found = scene.real.getDEF(name)
                allowed = self.may_give(scene, name)
                got = self.item_of(found)
                if self.what == 'names':
                    ok = any(a is got for a in allowed)
                    if not ok and found is None:
                        # it may have died
                        ok = all(a is None or a.number not in reachable for a in allowed)
                    ctx.check(ok, 'wrong-node' if found is not None else 'name-not-found', 'scene%d %r: %s, not %s', scene.number, name, got, allowed)
                if found is None:
                    scene.names.pop(name, None)
                else:
                    scene.names[name] = got
        self.roots_allowed, self.names_allowed = {}, {}

    def implemented(self):
        """Numbers of nodes which are or were in fields of instances, or below"""
        for item in self.items:
            if item.kind in ('P', 'Q') or item.number in self.hidden:
                for name in item.fields:
                    for child in item.fields[name]:
                        self.given.update(i.number for i in self.subtree(child))
        return self.given

    def item_of(self, real):
        if real is None:
            return None
        for item in self.items:
            if item.real is real:
                return item
        return 'unknown'


class Run(object):
    def __init__(self, case, ctx, what):
        self.case, self.ctx = case, ctx
        self.world = World(ctx, what)

    def operate(self, op):
        name, seed = op[:2]
        r = random.Random(seed)
        self.at = op[2] if len(op) > 2 else None
        self.chosen = []
        getattr(self, 'op_' + name)(r)
        self.chosen = None
        self.world.verify()

    def within(self, action):
        """Do it, with the collector running in the middle"""
        if self.at is None:
            return action()

        def point(n, code, line):
            if n == self.at:
                core.POINTS.busy = True
                try:
                    core.collect(self.ctx)
                finally:
                    core.POINTS.busy = False

        with core.POINTS.run(point):
            return action()

    # -- choosing
    def item(self, r, wanted=lambda i: True):
        return self.choose(r, [i for i in self.world.items if i.real is not None and wanted(i)])

    def choose(self, r, found):
        if not found:
            return None
        item = r.choice(found)
        # the operation holds what it works with
        self.chosen.append(item.real)
        return item

    def scene(self, r):
        found = [s for s in self.world.scenes if s.number in self.world.held]
        return r.choice(found) if found else None

    def client(self, r):
        found = [i for i in self.world.items + self.world.scenes * 3 if i.real is not None and i.fields and (i.kind != 'scene' or i.number in self.world.held)]
        return self.choose(r, found)

    def value_for(self, r, client):
        """A node which can be put there without making a cycle"""
        item = self.item(r, lambda i: not self.world.below(i, client))
        if item is None or r.random() < 0.3:
            item = self.make(r)
        return item

    def make(self, r):
        kind = r.choice(KINDS)
        cls = self.world.protos.get(kind) or standard()[kind]
        named = {}
        if r.random() < 0.6:
            named['DEF'] = r.choice(NAMES)
        real = self.within(lambda: cls(**named))
        return self.world.add(kind, real)

    # -- operations
    def op_new(self, r):
        if len(self.world.items) < 40:
            item = self.make(r)
            if r.random() < 0.4:
                self.assign(r, item)

    def op_scene(self, r):
        if len(self.world.scenes) > 5:
            return
        children = []
        if r.random() < 0.5:
            children = [i for i in [self.item(r) for _ in range(r.randrange(1, 3))] if i is not None]
        reals = [i.real for i in children]
        if reals:
            named = {}
            routed = children[0]
            name = self.world.name_of(routed)
            same = [i for i in self.world.subtree(routed) if self.world.name_of(i) == name]
            if routed.kind in FIELD_OF and name and len(children) == len(same) == 1:
                # by name
                named['routes'] = [(name, FIELD_OF[routed.kind]) * 2]
            real = self.within(lambda: scenegraph.SceneGraph(children=reals, **named))
            for made in list(real.routes):
                self.ctx.check(made.source is routed.real and made.destination is routed.real, 'wrong-node', 'routes of a new scene')
            self.ctx.check(len(real.routes) == len(named), 'wrong-number-of-routes', 'of a new scene')
            made = None
            del real.routes[:]
        else:
            real = self.within(scenegraph.SceneGraph)
        item = self.world.add('scene', real)
        item.fields['children'] = children
        for child in children:
            # made of them, it may take them from another scene
            self.world.joins(child, item, len(children) == 1, True)

    def assign(self, r, client):
        if not client.fields:
            return
        name = r.choice(sorted(client.fields))
        kind = FIELDS_OF[client.kind][name]
        real = client.real
        if kind == 'SFNode':
            values = [self.value_for(r, client)]
            given = values[0].real
        else:
            values = [self.value_for(r, client) for _ in range(r.choice((0, 1, 1, 1, 2, 3)))]
            given = [v.real for v in values]
            while r.random() < 0.15:
                # which is no node
                given.insert(r.randrange(len(given) + 1), NULL)
        how = r.randrange(3)
        if how < 2:
            self.within(lambda: setattr(real, name, given))
        else:
            f = protofunctions.getField(real, name)
            self.within(lambda: f.fset(real, given))
        client.fields[name] = values
        for v in values:
            self.world.enters(client, v, len(values) == 1)
        self.ctx.nontrivial += 1

    def op_assign(self, r):
        client = self.client(r)
        if client is not None:
            self.assign(r, client)

    def op_append(self, r):
        client = self.client(r)
        lists = [n for n in sorted(client.fields) if FIELDS_OF[client.kind][n] == 'MFNode'] if client else []
        if not lists:
            return
        name = r.choice(lists)
        value = self.value_for(r, client)
        children = getattr(client.real, name)
        at = r.randrange(len(client.fields[name]) + 1)
        real = value.real
        if r.random() < 0.1:
            children.append(NULL)
        if r.random() < 0.5:
            self.within(lambda: children.append(real))
            client.fields[name].append(value)
        else:
            places = [n for n, c in enumerate(children) if c is not NULL] + [len(children)]
            self.within(lambda: children.insert(places[at], real))
            client.fields[name].insert(at, value)
        # whether it belongs to the scene is not said
        self.world.enters(client, value, False, True)
        self.passed_on(client, name)

    def passed_on(self, client, name):
        """An instance gives the whole list to its implementation again"""
        if client.kind in ('P', 'Q'):
            for v in client.fields[name]:
                self.world.enters(client, v, False, True)

    def op_lists(self, r):
        """What is in a list is assigned again"""
        client = self.client(r)
        lists = [n for n in sorted(client.fields) if FIELDS_OF[client.kind][n] == 'MFNode'] if client else []
        if not lists:
            return
        name = r.choice(lists)
        children = getattr(client.real, name)
        given = list(children)
        real = client.real
        self.within(lambda: setattr(real, name, given))
        for v in client.fields[name]:
            self.world.enters(client, v, len(given) == 1)

    def op_clear(self, r):
        client = self.client(r)
        if client is None:
            return
        name = r.choice(sorted(client.fields))
        real = client.real
        if FIELDS_OF[client.kind][name] == 'SFNode':
            self.within(lambda: setattr(real, name, None))
            client.fields[name] = []
        elif client.fields[name]:
            at = r.randrange(len(client.fields[name]))
            children = getattr(real, name)
            place = [n for n, c in enumerate(children) if c is not NULL][at]
            self.within(lambda: children.pop(place))
            client.fields[name].pop(at)
            self.passed_on(client, name)

    def op_reg(self, r):
        scene, item = self.scene(r), self.item(r)
        if scene is None or item is None:
            return
        world = self.world
        name = r.choice(NAMES)
        current = world.name_of(item)
        for other, found in scene.names.items():
            if found is item and other != name:
                world.names_allowed[scene, other] = [None] if other == current else [None, item]
        world.names_allowed[scene, name] = [item]
        real, target = scene.real, item.real
        self.within(lambda: real.regDefName(name, target))
        self.ctx.check(target.DEF == name, 'name-not-given', '%s', name)

    def op_rename(self, r):
        item = self.item(r)
        if item is not None:
            name = r.choice(NAMES + [''])
            if r.random() < 0.5:
                item.real.DEF = name
            else:
                protofunctions.defName(item.real, name)

    def op_root(self, r):
        scene, item = self.scene(r), self.item(r)
        if scene is None or item is None:
            return
        world = self.world
        target = item.real
        self.within(lambda: protofunctions.root(target, scene.real))
        world.joins(item, scene, False)
        world.roots_allowed[item] = [scene]
        name = world.name_of(item)
        if name and len([o for o in world.subtree(item) if world.name_of(o) == name]) == 1:
            world.names_allowed[scene, name] = [item]

    def op_drop(self, r):
        found = [i for i in self.world.items if i.number in self.world.held]
        if found:
            item = r.choice(found)
            del self.world.held[item.number]
            self.ctx.fault('node-dropped')

    def op_drop_scene(self, r):
        scene = self.scene(r)
        if scene is not None:
            del self.world.held[scene.number]
            self.ctx.fault('scene-dropped')

    def op_copy(self, r):
        item = self.item(r)
        if item is None or len(self.world.items) > 30:
            return
        made = copier.Copier()
        top = self.within(lambda: item.real.copy(made))
        self.copied(self.world.subtree(item), made)
        self.ctx.check(self.world.item_of(top) is not None, 'copy-lost')

    def copied(self, originals, made):
        world = self.world
        copies = {}
        for one in originals:
            real = made.use(one.real)
            self.ctx.check(real is not None and real is not one.real, 'not-copied', '%s', one)
            copies[one.number] = world.add(one.kind, real)
            if one.number in world.given:
                # its copy may belong to the copy of the implementation
                world.given.add(copies[one.number].number)
        for one in originals:
            for name, children in one.fields.items():
                copies[one.number].fields[name] = [copies[c.number] for c in children]
        return copies

    def op_copy_scene(self, r):
        scene = self.scene(r)
        if scene is None or len(self.world.items) > 30 or len(self.world.scenes) > 5:
            return
        world = self.world
        made = copier.Copier()
        real = self.within(lambda: scene.real.copy(made))
        originals = world.subtree(scene)[1:]
        for found in scene.names.values():
            for one in world.subtree(found):
                if one not in originals:
                    originals.append(one)
        inside = set(world.subtree(scene))
        copies = self.copied(originals, made)
        new = world.add('scene', real)
        new.fields['children'] = [copies[c.number] for c in scene.fields['children']]
        for one in originals:
            copy = copies[one.number]
            # those which have names only may belong to it or not
            world.roots_allowed[copy] = [new] if one in inside else [None, new]
            name = world.name_of(copy)
            if name:
                world.names_allowed[new, name] = [None]
        for name, found in scene.names.items():
            world.names_allowed[new, name] = [copies[found.number]]

    def op_parse(self, r):
        world = self.world
        if len(world.items) > 30 or len(world.scenes) > 5:
            return
        names = list(NAMES)
        r.shuffle(names)
        text, shape = self.text(r, names, 2, 'Group')
        scene_text = TEXT + text + '\n'
        if r.random() < 0.3 and shape[1]:
            scene_text += 'Group { children [ USE %s ] }\n' % (shape[1],)
        real = self.within(lambda: parser.buildParser().parse(scene_text)[1][1])
        scene = world.add('scene', real)
        self.ctx.check(len(real.children) >= 1, 'not-parsed')
        top = self.register(scene, real.children[0], shape)
        scene.fields['children'] = [top]
        if len(real.children) > 1:
            extra = world.add('Group', real.children[1])
            extra.fields['children'] = [top]
            world.roots_allowed[extra] = [scene]
            scene.fields['children'].append(extra)
            self.ctx.check(real.children[1].children[0] is top.real, 'wrong-node', 'USE gives another node')

    def text(self, r, names, depth, kind):
        name = names.pop() if names and r.random() < 0.6 else None
        parts, fields = [], []
        for field_name in sorted(FIELDS_OF[kind]):
            if depth and r.random() < 0.6:
                children = []
                for _ in range(1 if FIELDS_OF[kind][field_name] == 'SFNode' else r.randrange(3)):
                    children.append(self.text(r, names, depth - 1, r.choice(KINDS)))
                texts = ' '.join(t for t, _ in children)
                parts.append('%s %s' % (field_name, texts if FIELDS_OF[kind][field_name] == 'SFNode' else '[ %s ]' % (texts,)))
                fields.append((field_name, [s for _, s in children]))
        return '%s%s { %s }' % ('DEF %s ' % (name,) if name else '', kind, ' '.join(parts)), (kind, name, fields)

    def register(self, scene, real, shape):
        kind, name, fields = shape
        self.ctx.check(protofunctions.protoName(real) == kind, 'not-parsed')
        item = self.world.add(kind, real, hold=False)
        self.world.roots_allowed[item] = [scene]
        if name:
            self.world.names_allowed[scene, name] = [item]
        for field_name, shapes in fields:
            v = getattr(real, field_name)
            v = [v] if FIELDS_OF[kind][field_name] == 'SFNode' else list(v)
            self.ctx.check(len(v) == len(shapes), 'not-parsed')
            item.fields[field_name] = [self.register(scene, c, s) for c, s in zip(v, shapes)]
        return item

    def op_route(self, r):
        """Routes between names"""
        scene = self.scene(r)
        if scene is None:
            return
        names = [n for n in sorted(scene.names) if scene.names[n].kind in ('Transform', 'Sphere', 'Material')]
        if not names:
            return
        a, b = r.choice(names), r.choice(names)
        one, other = scene.names[a], scene.names[b]
        real = scene.real
        made = self.within(lambda: real.addRoute((a, FIELD_OF[one.kind], b, FIELD_OF[other.kind])))
        if self.world.what == 'names':
            self.ctx.check(made.source is one.real and made.destination is other.real, 'wrong-node', 'route of %s and %s', a, b)
        real.routes.remove(made)

    def op_ends(self, r):
        """A route which the scene is given brings its ends with it"""
        scene = self.scene(r)
        ends = [self.item(r, lambda i: i.kind in FIELD_OF) for _ in range(2)]
        if scene is None or None in ends:
            return
        real = scene.real
        made = route.ROUTE(*[x for i in ends for x in (i.real, FIELD_OF[i.kind])])
        given = list(real.routes) + [made]
        self.within(lambda: setattr(real, 'routes', given))
        for n, i in enumerate(ends[: 1 + (ends[0] is not ends[1])]):
            self.world.joins(i, scene, ends[0] is ends[1], True)
        real.routes.remove(made)

    def op_write(self, r):
        scene = self.scene(r)
        if scene is not None:
            scene.real.toString()

    def check_released(self):
        """Nodes which nobody holds are gone"""
        world = self.world
        kept = world.reachable()
        for scene in world.scenes:
            if scene.real is not None:
                for name in NAMES:
                    item = world.item_of(scene.real.getDEF(name))
                    if isinstance(item, Item):
                        kept.update(i.number for i in world.subtree(item))
        for item in world.items:
            if item.number not in kept and item.number not in world.given:
                self.ctx.check(item.real is None, 'node-kept-alive', '%s', item)

    def op_gc(self, r):
        core.collect(self.ctx)
        if self.world.what == 'roots':
            self.check_released()
        # dropped ones must be gone
        for scene in self.world.scenes:
            if scene.number not in self.world.held:
                self.ctx.check(scene.real is None, 'scene-kept-alive', 'scene%d', scene.number)


def run(case, ctx, what):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    state = Run(case, ctx, what)
    for op in case['ops']:
        ctx.step()
        state.operate(op)
        world = state.world
        summary = [(i.kind, i.number, i.root.number if i.root else 0) for i in world.items], [(s.number, sorted((n, repr(v)) for n, v in s.names.items())) for s in world.scenes]
        ctx.log(op[0], summary)
        ctx.state(summary)
        if not case['quiet']:
            state.op_gc(None)
            world.verify()
        core.ADDRESSES.release()
