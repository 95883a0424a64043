"""P22: a name means what the nearest scope around it says

Texts with prototypes declared within prototypes, shadowing each other and the
standard nodes, and with the same DEF names within and outside of them, get read
next to scenes made by hand below one another.  Prototypes and names are added
at any time, scenes are dropped below those which depend on them, texts are cut,
collections and failing allocations strike while they are read.  The model is
the chain of scopes; every declaration has a mark, so it shows which was used.
"""

import weakref

from vsim import core
from vsim.kit import *
from vsim.scenes import Writer  # noqa: F401 (the harness imports what it needs once)

PROTOS = ['A', 'B', 'C', 'Box', 'Group']
PLAIN = ['Box', 'Group', 'Sphere']
NAMES = ['X', 'Y', 'Z']
MISSING = 'Nowhere'


class Scoping(object):
    """Which names the text may use where"""

    def __init__(self, outer=None):
        self.outer, self.protos, self.defs = outer, set(), set()

    def known(self):
        found = set(PLAIN) if self.outer is None else self.outer.known()
        return sorted(set(found) | self.protos)

    def standard(self, name):
        return name not in self.protos and (self.outer is None or self.outer.standard(name))


def gen_items(rng, scope, depth, least, marks):
    items = []
    for _ in range(max(least, rng.randrange(1, 6))):
        x = rng.random()
        if x < 0.3 and depth < 3:
            name = rng.choice(PROTOS)
            if rng.random() < 0.1:
                items.append(['extern', name, marks()])
            else:
                default = gen_node(rng, scope, 0, plain=True) if rng.random() < 0.25 else None
                inner = Scoping(scope)
                body = gen_items(rng, inner, depth + 1, 1, marks)
                items.append(['proto', name, marks(), default, body])
            scope.protos.add(name)
        elif x < 0.38 and len(scope.defs) > 0 and depth >= 0:
            items.append(['route', rng.choice(sorted(scope.defs)), rng.choice(sorted(scope.defs))])
        else:
            items.append(gen_node(rng, scope, 2))
    if not any(i[0] in ('node', 'use') for i in items):
        items.append(gen_node(rng, scope, 1))
    return items


def gen_node(rng, scope, deep, plain=False, around=()):
    usable = sorted(scope.defs - set(around))
    if not plain and usable and rng.random() < 0.2:
        return ['use', rng.choice(usable)]
    gi = rng.choice(scope.known())
    name = rng.choice(NAMES) if not plain and rng.random() < 0.4 else None
    if not plain and rng.random() < 0.01:
        gi = rng.choice((MISSING, 'A', 'B'))
    # what has no children
    deep = 0 if gi in ('Box', 'Sphere') and scope.standard(gi) else deep
    kids = [gen_node(rng, scope, deep - 1, around=(*around, name)) for _ in range(rng.randrange(3))] if deep > 0 and rng.random() < 0.5 else []
    if name:
        scope.defs.add(name)
    return ['node', gi, name, kids]


def gen(rng, config, tier):
    count = [0]

    def marks():
        count[0] += 1
        return count[0]

    texts = []
    for _ in range(rng.randrange(1, 4)):
        scope = Scoping()
        items = gen_items(rng, scope, 0, 2, marks)
        if rng.random() < 0.12:
            # something which is declared, but elsewhere
            items.append(rng.choice((['use', rng.choice(NAMES)], ['node', rng.choice(PROTOS[:3]), None, []], ['route', rng.choice(NAMES), rng.choice(NAMES)])))
        texts.append(items)
    ops = []
    chosen = ['read', 'read', 'read', 'below', 'empty', 'add', 'add', 'drop', 'gc', 'copy', 'make', 'make', 'name', 'inner', 'apart']
    for _ in range(rng.randrange(4, 26)):
        k, n = rng.choice(chosen), rng.randrange(64)
        op = [k, n]
        if k == 'read':
            op += [rng.choice(('one', 'one', 'new', 'namespace'))]
            if rng.random() < 0.35:
                op.append([rng.choice(('gc', 'memory', 'cut')), rng.randrange(1, rng.choice((60, 400, 2500)))])
        elif k == 'add':
            op += [rng.choice(PROTOS + ['D']), marks()]
        elif k in ('make', 'name'):
            op += [rng.choice((PROTOS + ['D']) if k == 'make' else NAMES), rng.choice(PLAIN)]
        ops.append(op)
    return {'texts': texts, 'ops': [['read', 0, 'one']] + ops, 'policy': rng.choice(('lifo', 'never'))}


def simplify(op):
    if isinstance(op[-1], list):
        yield op[:-1]


def reduce(case):
    def without(items):
        for i, item in enumerate(items):
            yield items[:i] + items[i + 1 :]
            if item[0] == 'proto':
                if item[3]:
                    yield items[:i] + [item[:3] + [None, item[4]]] + items[i + 1 :]
                for body in without(item[4]):
                    if any(b[0] in ('node', 'use') for b in body):
                        yield items[:i] + [item[:4] + [body]] + items[i + 1 :]
            elif item[0] == 'node':
                if item[2]:
                    yield items[:i] + [['node', item[1], None, item[3]]] + items[i + 1 :]
                for kids in without(item[3]):
                    yield items[:i] + [item[:3] + [kids]] + items[i + 1 :]

    for i, text in enumerate(case['texts']):
        for fewer in without(text):
            yield dict(case, texts=case['texts'][:i] + [fewer] + case['texts'][i + 1 :])


# -- the model ---------------------------------------------------------------
class Unknown(Exception):
    """A name which means nothing here"""


class Cyclic(Exception):
    """A node within itself, which is no legal text"""


class Scope(object):
    def __init__(self, outer=None, protos=()):
        self.outer, self.dropped, self.scene = outer, False, None
        self.protos, self.defs, self.children, self.routes = dict(protos), {}, [], []

    def find(self, name):
        scope = self
        while scope is not None:
            if name in scope.protos:
                return scope.protos[name]
            scope = scope.outer
            if scope is not None and scope.gone():
                return None
        return None

    def gone(self):
        # that of a prototype lives as long as the prototype, whoever has that
        return self.dropped or self.scene is not None and self.scene() is None


class Declared(object):
    """A prototype: what it is marked with, and its body"""

    def __init__(self, mark, body=None, default=None, extern=False):
        self.mark, self.body, self.default, self.extern = mark, body, default, extern


class Item(object):
    """A node"""

    def __init__(self, of, name):
        self.of, self.name, self.kids, self.open = of, name, [], True


def standards():
    return {n: Declared(n) for n in PLAIN}


def understand(items, scope):
    """Fill the scope with what the items say"""
    for item in items:
        if item[0] == 'proto':
            default = item[3] and understood(item[3], scope)
            body = Scope(scope)
            understand(item[4], body)
            scope.protos[item[1]] = Declared(item[2], body, default)
        elif item[0] == 'extern':
            scope.protos[item[1]] = Declared(item[2], extern=True)
        elif item[0] == 'route':
            if item[1] not in scope.defs or item[2] not in scope.defs:
                raise Unknown(item)
            scope.routes.append((scope.defs[item[1]], scope.defs[item[2]]))
        else:
            scope.children.append(understood(item, scope))


def understood(item, scope):
    if item[0] == 'use':
        if item[1] not in scope.defs:
            raise Unknown(item)
        if scope.defs[item[1]].open:
            raise Cyclic(item)
        return scope.defs[item[1]]
    declared = scope.find(item[1])
    if declared is None:
        raise Unknown(item)
    made = Item(declared, item[2])
    if item[2]:
        scope.defs[item[2]] = made
    if has_kids(declared):
        for kid in item[3]:
            made.kids.append(understood(kid, scope))
    made.open = False
    return made


def has_kids(declared):
    return declared.mark == 'Group' or isinstance(declared.mark, int)


# -- the text ----------------------------------------------------------------
def written(items, scope, out, indent=''):
    for item in items:
        if item[0] == 'proto':
            out.append('%sPROTO %s [' % (indent, item[1]))
            out.append('%s  field SFInt32 mark %d' % (indent, item[2]))
            out.append('%s  exposedField MFNode kids [ ]' % indent)
            out.append('%s  exposedField SFString way "%d"' % (indent, item[2]))
            if item[3]:
                out.append('%s  field SFNode inside %s' % (indent, node_text(item[3], scope)))
            out.append('%s] {' % indent)
            body = Scope(scope)
            written(item[4], body, out, indent + '  ')
            out.append('%s}' % indent)
            scope.protos[item[1]] = Declared(item[2])
        elif item[0] == 'extern':
            out.append('%sEXTERNPROTO %s [ field SFInt32 mark exposedField MFNode kids exposedField SFString way ] [ "mark:%d" ]' % (indent, item[1], item[2]))
            scope.protos[item[1]] = Declared(item[2])
        elif item[0] == 'route':
            out.append('%sROUTE %s.DEF TO %s.DEF' % (indent, item[1], item[2]))
        else:
            out.append(indent + node_text(item, scope))


def node_text(item, scope):
    """What is written depends on which declaration the name will find"""
    if item[0] == 'use':
        return 'USE ' + item[1]
    declared = scope.find(item[1])
    text = 'DEF %s %s { ' % (item[2], item[1]) if item[2] else '%s { ' % item[1]
    if declared is not None and has_kids(declared) and item[3]:
        text += '%s [ %s ] ' % ('children' if declared.mark == 'Group' else 'kids', ' '.join(node_text(k, scope) for k in item[3]))
    return text + '}'


class Known(object):
    """A scene, and the scope it is"""

    def __init__(self, scene, scope, held=True):
        self.scene, self.scope, self.held = scene, scope, held


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.reader = parser.buildParser()
        self.namespace = standard()
        self.namespace_before = dict(self.namespace)
        self.texts = []
        for items in case['texts']:
            out = ['#VRML V2.0 utf8']
            written(items, Scope(None, standards()), out)
            self.texts.append((items, '\n'.join(out) + '\n'))
        self.known = []
        self.bodies = []

    def pick(self, n):
        return self.known[n % len(self.known)] if self.known else None

    # -- comparing
    def mark_of(self, cls):
        """What shows which declaration this is"""
        url = protofunctions.getExternalURL(cls) if issubclass(cls, node.Node) and cls not in PLAIN_CLASSES else None
        if url:
            return int(list(url)[0].split(':')[1])
        declared = cls.__dict__.get('mark')
        if declared is None:
            return cls.__name__
        return declared.getDefault()

    def is_declared(self, cls, declared, where):
        got = self.mark_of(cls)
        self.ctx.check(got == declared.mark, 'wrong-declaration', '%s: %s, not %s', where, got, declared.mark)

    def is_item(self, real, item, pairs, where):
        """The node is what the item says; shared ones are the same"""
        if id(item) in pairs:
            self.ctx.check(pairs[id(item)] is real, 'another-node', '%s', where)
            return
        pairs[id(item)] = real
        self.is_declared(type(real), item.of, where)
        self.ctx.check((real.DEF or None) == item.name, 'wrong-name', '%s: %s, not %s', where, real.DEF, item.name)
        if has_kids(item.of):
            kids = list(real.children if item.of.mark == 'Group' else real.kids)
            self.ctx.check(len(kids) == len(item.kids), 'wrong-kids', '%s: %s, not %s', where, len(kids), len(item.kids))
            for i, (kid, wanted) in enumerate(zip(kids, item.kids)):
                self.is_item(kid, wanted, pairs, '%s/%s' % (where, i))
        if item.of.body is not None:
            # the implementation has nodes of its own, of the same declarations
            sg = protofunctions.getSceneGraph(real)
            self.is_scene(sg, item.of.body, where + '/body', {})
            if item.of.default:
                self.is_item(real.inside, item.of.default, {}, where + '/inside')

    def is_scene(self, sg, scope, where, pairs):
        check = self.ctx.check
        children = list(sg.children)
        check(len(children) == len(scope.children), 'wrong-children', '%s: %s, not %s', where, len(children), len(scope.children))
        for i, (real, item) in enumerate(zip(children, scope.children)):
            self.is_item(real, item, pairs, '%s/%s' % (where, i))
        for name in NAMES:
            found, item = sg.getDEF(name), scope.defs.get(name)
            if item is None:
                check(found is None, 'name-of-another-scope', '%s: %s', where, name)
            elif id(item) in pairs:
                check(found is pairs[id(item)], 'name-finds-another', '%s: %s', where, name)
        check(len(sg.routes) == len(scope.routes), 'wrong-routes', '%s: %s, not %s', where, len(sg.routes), len(scope.routes))
        for made, (a, b) in zip(sg.routes, scope.routes):
            for real, item in ((made.source, a), (made.destination, b)):
                if id(item) in pairs:
                    check(real is pairs[id(item)], 'route-of-another', '%s', where)

    def names(self, known):
        """What each name means in this scope now"""
        meant = []
        for name in PROTOS + ['D', 'Sphere', MISSING]:
            found, wanted = known.scene.getProto(name), known.scope.find(name)
            if wanted is None:
                self.ctx.check(found is None, 'found-elsewhere', '%s: %s', name, found)
            else:
                self.ctx.check(found is not None, 'not-found', '%s, which is %s', name, wanted.mark)
                self.is_declared(found, wanted, name)
                meant.append((name, wanted.mark))
        self.ctx.log('names', meant, len(known.scene.children), len(known.scene.routes))

    def hold(self, scene, scope, held=True):
        self.known.append(Known(scene, scope, held))
        while len(self.known) > 8:
            self.op_drop(0)

    # -- operations
    def op_read(self, n, how, fault=None):
        ctx, points = self.ctx, core.POINTS
        items, text = self.texts[n % len(self.texts)]
        scope, unknown = Scope(None, standards()), None
        try:
            understand(items, scope)
        except Unknown as err:
            unknown = err
        except Cyclic:
            return
        struck = []
        if fault and fault[0] == 'cut':
            # what is left is refused, or leading items: P17 has that
            ctx.fault('write-torn')
            text = text[: len(text) * (fault[1] % 97) // 97]

        def at_line(n, code, line):
            if n != fault[1]:
                return
            if fault[0] == 'gc':
                points.busy = True
                try:
                    core.collect(ctx)
                    ctx.fault('gc-within-operation')
                finally:
                    points.busy = False
            else:
                struck.append(1)
                ctx.fault('allocation-failed')
                raise MemoryError('injected')

        processor = None
        if how == 'namespace':
            processor = parseprocessor.ParseProcessor(basePrototypes=self.namespace)
        reader = parser.buildParser() if how == 'new' else self.reader
        args = {'processor': processor} if processor else {}
        scene = None
        try:
            if fault and fault[0] != 'cut':
                with points.run(at_line):
                    got = reader.parse(text, **args)
            else:
                got = reader.parse(text, **args)
            if got[0]:
                scene = got[1][1]
        except (NameError, MemoryError, Exception) as err:
            ctx.log('refused', type(err).__name__)
            refused = type(err).__name__
        if fault and fault[0] == 'cut' or struck:
            return
        if unknown:
            ctx.check(scene is None, 'meaningless-name-accepted', '%s', unknown)
            ctx.probe('name-refused')
            return
        ctx.check(scene is not None, 'not-read', '%s', scene is None and refused)
        self.is_scene(scene, scope, 'scene', {})
        ctx.nontrivial = True
        self.hold(scene, scope)
        if how == 'namespace':
            ctx.check(self.namespace == self.namespace_before, 'namespace-changed', '%s', set(self.namespace) ^ set(self.namespace_before))

    def op_below(self, n):
        """A scene within the scope of another one"""
        outer = self.pick(n)
        if outer is not None:
            self.hold(scenegraph.SceneGraph(root=outer.scene), Scope(outer.scope))

    def op_empty(self, n):
        self.hold(scenegraph.SceneGraph(), Scope())

    def op_apart(self, n):
        """Prototypes given to a scene as it is made"""
        given = {name: self.declare(name, 1000 + n + i) for i, name in enumerate(PROTOS[: n % 4])}
        scene = scenegraph.SceneGraph(protoTypes=protonamespace.ProtoNamespace(given))
        self.hold(scene, Scope(None, {name: Declared(1000 + n + i) for i, name in enumerate(PROTOS[: n % 4])}))

    def op_inner(self, n):
        """The scope of a prototype found by its name"""
        known = self.pick(n)
        if known is None:
            return
        for name in PROTOS[n % 5 :]:
            wanted = known.scope.find(name)
            if wanted is not None and wanted.body is not None:
                inner = protofunctions.getSceneGraph(known.scene.getProto(name))
                wanted.body.scene = weakref.ref(inner)
                self.hold(inner, wanted.body, held=False)
                return

    def declare(self, name, mark):
        return node.prototype(
            name,
            [field.newField('mark', 'SFInt32', 0, mark), field.newField('kids', 'MFNode', 1, []), field.newField('way', 'SFString', 1, str(mark))],
        )

    def op_add(self, n, name, mark):
        known = self.pick(n)
        if known is None:
            return
        known.scene.addProto(self.declare(name, mark))
        known.scope.protos[name] = Declared(mark)

    def op_make(self, n, name, _):
        known = self.pick(n)
        if known is None:
            return
        wanted = known.scope.find(name)
        cls = known.scene.getProto(name)
        self.ctx.check((cls is None) == (wanted is None), 'wrong-declaration', '%s: %s', name, cls)
        if wanted is None:
            return
        made, item = cls(), Item(wanted, None)
        self.is_item(made, item, {}, 'made')
        if not any(known.scope is b for b in self.bodies_in_use()):
            known.scene.children.append(made)
            known.scope.children.append(item)

    def bodies_in_use(self):
        return [k.scope for k in self.known if not k.held]

    def op_name(self, n, name, gi):
        """A name is given by hand"""
        known = self.pick(n)
        if known is None or not known.held:
            return
        made, item = standard()[gi](), Item(Declared(gi), name)
        known.scene.regDefName(name, made)
        known.scope.defs[name] = item
        known.scene.children.append(made)
        known.scope.children.append(item)

    def op_copy(self, n):
        known = self.pick(n)
        if known is None or not known.held:
            return
        copy = known.scene.copy()
        was = known.scope
        scope = Scope(was.outer, was.protos)
        scope.children, scope.routes = list(was.children), list(was.routes)
        scope.defs = dict(was.defs)
        self.is_scene(copy, scope, 'copy', {})
        self.hold(copy, scope)

    def op_drop(self, n):
        """What depends on the scene is no longer in its scope"""
        known = self.pick(n)
        if known is None:
            return
        self.known = [k for k in self.known if k.scene is not known.scene]
        if not known.held:
            return
        scene = weakref.ref(known.scene)
        known.scene = None
        core.collect(self.ctx)
        self.ctx.check(scene() is None, 'kept-alive', 'a scene which was dropped')
        known.scope.dropped = True
        self.ctx.fault('scene-dropped')

    def op_gc(self, n):
        core.collect(self.ctx)

    def verify(self):
        for known in self.known:
            self.names(known)
            if known.held:
                self.is_scene(known.scene, known.scope, 'later', {})


PLAIN_CLASSES = tuple(standard()[n] for n in PLAIN)


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    sim = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        getattr(sim, 'op_' + op[0])(*op[1:])
        core.ADDRESSES.release()
        sim.verify()
        ctx.state([(k.held, sorted((n, d.mark) for n, d in k.scope.protos.items() if n not in PLAIN or d.mark != n), sorted(k.scope.defs)) for k in sim.known])
