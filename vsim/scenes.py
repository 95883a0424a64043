"""Random scenes: built, described and written without the code under test

``Scene`` holds a scene which operations edit; ``describe`` gives a canonical
description of a scene by looking at its objects, changing nothing; ``write``
is a writer of the file format independent of the library's.
"""

import random

from vsim import core
from vsim.kit import *

NODES = ('SFNode', 'MFNode')
HEADER = '#VRML V2.0 utf8\n'
TYPENAMES = PARSED + list(NODES)
# types of which the reader makes values of other fields as well
SKIP = ('externalURL',)
DEFS = ['n', 'n', 'n', 'N_', '\u00e9', 'USE', 'DEF', 'NULL', 'TRUE', 'TO', 'IS', '-', 'a-b', '$', 'ROUTE', 'Script', 'Group_', 'PROTO', '\U0001f600']
PROTOS = ['P', 'P', 'P', 'Proto', 'PROTO', 'Scripted', 'USEful', 'TRUEly', 'FALSEr', 'DEF', 'NULLed', 'Group', 'ROUTE', 'EXTERN', 'IS', 'TO', '\u00e9', 'eventIn', 'field']
FIELDS_ = ['f', 'f', 'g', 'field', 'exposedField', 'eventIn', 'eventOut', 'set_f', 'IS', 'USE', 'PROTO', 'ROUTE', 'a-b', '\u00e9', 'DEFx', 'children', 'SF', 'TRUE', 'Script']


CHARS = [' ', ' ', 'a', 'Z', '0', '"', '\\', "'", '#', '\n', '\t', ',', '[', ']', '{', '}', '%', '%s', '\u00fc', '\u2028', '\U0001f600', 'n', 'x', 'u']


def precise(r, v, kind):
    """Like the value, with numbers of many digits"""
    if isinstance(v, list):
        return [precise(r, i, kind) for i in v]
    if kind in ('color', 'colors'):
        return r.random()
    return r.choice((1, -1)) * r.random() * 10.0 ** r.choice((0, 0, 1, 3, 6, 9, -3, -6, 15, 20, -20))


def is_user(cls):
    return issubclass(cls, node.PrototypedNode)


def is_script(item):
    return isinstance(item, script._Script)


def proper(f):
    return f.name and not f.name.startswith(' ') and f.name not in SKIP


def fields_of(cls):
    return sorted((f for f in protofunctions.getFields(cls) if proper(f)), key=lambda f: f.name)


def events_of(cls):
    return sorted((f for f in protofunctions.getFields(cls, 1) if proper(f)), key=lambda f: f.name)


def default_of(f):
    """The canonical default, without storing it anywhere"""
    v = f.getDefault()
    return None if v is None else f.coerce(v)


def value_of(item, f):
    """The value of a field, without storing the default"""
    if f.name in item.__dict__:
        return item.__dict__[f.name]
    return default_of(f)


def same_nodes(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    return a is b


def is_default(item, f):
    """Whether a field with nodes has its default"""
    return f.name not in item.__dict__ or same_nodes(item.__dict__[f.name], default_of(f))


def is_null(item):
    return item is None or isinstance(item, node.NullNode)


def children_of(item):
    """The nodes in the fields of a node, but defaults"""
    for f in fields_of(type(item)):
        if f.typeName() in NODES and f.name in item.__dict__ and not is_default(item, f):
            v = item.__dict__[f.name]
            for child in v if isinstance(v, list) else [v]:
                if not is_null(child):
                    yield child


def reachable(roots):
    """All nodes, each once, in the order in which they are met"""
    found, seen = [], set()

    def visit(item):
        if id(item) in seen:
            return
        seen.add(id(item))
        found.append(item)
        for child in children_of(item):
            visit(child)

    for root in roots:
        if not is_null(root):
            visit(root)
    return found


def plain_value(v):
    if isinstance(v, np.ndarray):
        return ['array', v.dtype.char, v.tolist(), list(v.shape)]
    if isinstance(v, (list, tuple)):
        return [plain_value(i) for i in v]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, bool):
        return int(v)
    return v


class Description(object):
    """Describes nodes, numbering them so that sharing shows"""

    def __init__(self, mapped=(), unnamed=()):
        self.numbers = {}
        self.keep = []
        # (id(node), field): what is mapped, whose value does not count
        self.mapped = mapped
        self.unnamed = unnamed
        self.protos = {}

    def node(self, item):
        if is_null(item):
            return 'NULL'
        if id(item) in self.numbers:
            return ['USE', self.numbers[id(item)]]
        number = self.numbers[id(item)] = len(self.numbers)
        self.keep.append(item)
        cls = type(item)
        name = protofunctions.protoName(cls)
        out = {'node': name, 'number': number, 'DEF': item.__dict__.get(' DEF', '')}
        if id(item) in self.unnamed:
            out['DEF'] = '(any)'
        if is_user(cls):
            self.protos[name] = cls
        declared = {}
        if is_script(item):
            for f in fields_of(cls):
                if f.name not in ('url', 'directOutput', 'mustEvaluate'):
                    mapped = (id(item), f.name) in self.mapped
                    declared[f.name] = [f.typeName(), bool(f.exposure), 'mapped' if mapped else self.value(default_of(f))]
            out['declared'] = declared
            out['events'] = {f.name: [f.typeName(), bool(f.direction)] for f in events_of(cls)}
        values = {}
        for f in fields_of(cls):
            if (id(item), f.name) in self.mapped:
                continue
            if f.typeName() in NODES and (is_user(cls) or is_script(item)) and is_default(item, f):
                values[f.name] = 'default'
            else:
                values[f.name] = self.value(value_of(item, f))
        out['values'] = values
        return out

    def value(self, v):
        if isinstance(v, node.Node):
            return self.node(v)
        if isinstance(v, list) and any(isinstance(i, node.Node) for i in v):
            return [self.node(i) for i in v]
        return plain_value(v)

    def routes(self, routes):
        out = []
        for r in routes:
            a, b = r.source, r.destination
            # routes of nodes elsewhere can't be said
            if id(a) in self.numbers and id(b) in self.numbers:
                out.append([self.numbers[id(a)], r.sourceField, self.numbers[id(b)], r.destinationField])
        return sorted(out)


def describe_proto(cls, others):
    """A prototype's description, adding those it uses to others"""
    out = {'fields': {}, 'events': {f.name: [f.typeName(), bool(f.direction)] for f in events_of(cls)}}
    url = cls.externalURL
    if hasattr(url, '__get__'):
        url = None
    out['url'] = plain_value(url or [])
    for f in fields_of(cls):
        d = Description()
        out['fields'][f.name] = [f.typeName(), bool(f.exposure), None if url else d.value(default_of(f))]
        others.update(d.protos)
    sg = cls.__dict__.get(' scenegraph', None)
    maps = []
    if isinstance(sg, scenegraph.SceneGraph) and not url:
        mappings = [(f, item, n) for f, found in node.ismaps(cls).items() for item, n in found]
        d = Description(mapped={(id(item), n) for f, item, n in mappings})
        children = [d.node(c) for c in sg.__dict__.get('children', ())]
        maps = sorted([f, d.numbers[id(item)], n] for f, item, n in mappings if id(item) in d.numbers)
        out['body'] = {'children': children, 'routes': d.routes(sg.__dict__.get('routes', ())), 'maps': maps}
        others.update(d.protos)
        for p in sg.protoTypes.values():
            if isinstance(p, type) and is_user(p) and not is_script_class(p):
                others[protofunctions.protoName(p)] = p
    else:
        out['body'] = {'children': [], 'routes': [], 'maps': []}
    return out


def default_nodes(cls):
    """The nodes which are defaults of the fields of a prototype"""
    found = []
    for f in fields_of(cls):
        if f.typeName() in NODES:
            v = default_of(f)
            found += reachable(v if isinstance(v, list) else [v])
    return found


def is_script_class(cls):
    return issubclass(cls, script._Script)


def describe_protos(classes):
    out = {}
    left = dict(classes)
    while left:
        name, cls = left.popitem()
        if name in out:
            continue
        others = {}
        out[name] = describe_proto(cls, others)
        left.update((n, c) for n, c in others.items() if n not in out)
    return out


def own_protos(sg):
    return {protofunctions.protoName(p): p for p in sg.protoTypes.values() if isinstance(p, type) and is_user(p) and not is_script_class(p)}


def describe(roots, routes=(), protos=(), unnamed=()):
    d = Description(unnamed=unnamed)
    children = [d.node(c) for c in roots]
    named = dict(protos)
    named.update(d.protos)
    return {'children': children, 'routes': d.routes(routes), 'protos': describe_protos(named)}


def describe_scene(sg, unused=True, unnamed=()):
    return describe(list(sg.__dict__.get('children', ())), list(sg.__dict__.get('routes', ())), own_protos(sg) if unused else (), unnamed)


def difference(a, b, path=''):
    """Where two descriptions differ, as text"""
    if isinstance(a, dict) and isinstance(b, dict):
        for key in sorted(set(a) | set(b)):
            if key not in a or key not in b:
                return '%s/%s: %s, not %s' % (path, key, core.short(b.get(key, 'missing'), 120), core.short(a.get(key, 'missing'), 120))
            found = difference(a[key], b[key], '%s/%s' % (path, key))
            if found:
                return found
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for n, (x, y) in enumerate(zip(a, b)):
            found = difference(x, y, '%s/%d' % (path, n))
            if found:
                return found
        return None
    if type(a) != type(b) or a != b:
        return '%s: %s, not %s' % (path, core.short(b, 120), core.short(a, 120))
    return None


# -- an independent writer ----------------------------------------------------
class Writer(object):
    """Writes scenes; the random generator decides about the layout"""

    def __init__(self, r, known=()):
        self.r = r
        self.known = set(known)
        self.done = set()
        self.out = []

    def space(self):
        x = self.r.random()
        if x < 0.86:
            return ' '
        if x < 0.94:
            return '\n'
        if x < 0.96:
            return ' , '
        if x < 0.98:
            return ' # { " [ comment\n'
        return '\t\r\n'

    def literal(self, t, v):
        v = v.tolist() if isinstance(v, np.ndarray) else v
        text = literal(t, v)
        kind = TYPES[t][0]
        if kind in ('strings', 'ints', 'floats') and len(v) == 1 and self.r.random() < 0.5:
            text = text.strip('[ ]') if kind != 'strings' else quoted(v[0])
        elif kind == 'int' and v >= 0 and self.r.random() < 0.1:
            text = hex(v)
        elif kind in ('vecs', 'colors') and self.r.random() < 0.2:
            text = text.replace(',', '')
        return text

    def value(self, t, v):
        if t == 'SFNode':
            return 'NULL' if is_null(v) else self.node(v)
        if t == 'MFNode':
            items = [self.node(i) for i in v]
            if len(items) == 1 and self.r.random() < 0.3:
                return items[0]
            return '[%s%s]' % (''.join(self.space() + i for i in items), self.space())
        return self.literal(t, v)

    def protos(self, cls):
        """What has to be declared before the class can be used"""
        name = protofunctions.protoName(cls)
        if not is_user(cls) or is_script_class(cls) or name in self.known:
            return
        self.known.add(name)
        body = Writer(self.r, self.known)
        body.known = self.known
        body.out = self.out
        lines = []
        url = cls.externalURL
        url = None if hasattr(url, '__get__') else url
        for f in events_of(cls):
            lines.append('%s %s %s' % ('eventOut' if f.direction else 'eventIn', f.typeName(), f.name))
        for f in fields_of(cls):
            text = '%s %s %s' % ('exposedField' if f.exposure else 'field', f.typeName(), f.name)
            if not url:
                text += ' ' + body.value(f.typeName(), default_of(f))
            lines.append(text)
        self.r.shuffle(lines)
        head = '[%s%s]' % (''.join(self.space() + l for l in lines), self.space())
        if url:
            self.out.append('EXTERNPROTO %s %s [ %s ]' % (name, head, ' '.join(quoted(u) for u in url)))
            return
        sg = cls.__dict__.get(' scenegraph', None)
        if not isinstance(sg, scenegraph.SceneGraph):
            sg = scenegraph.SceneGraph()
        body.done = set()
        body.maps = {}
        for f, found in node.ismaps(cls).items():
            for item, n in found:
                body.maps.setdefault(id(item), []).append((n, f))
        items = [body.node(c) for c in sg.children]
        items += [body.route(r) for r in sg.routes]
        self.out.append('PROTO %s %s {%s%s}' % (name, head, ''.join(self.space() + i for i in items), self.space()))

    maps = {}

    def route(self, r):
        return 'ROUTE %s.%s TO %s.%s' % (r.source.DEF, r.sourceField, r.destination.DEF, r.destinationField)

    def node(self, item):
        cls = type(item)
        self.protos(cls)
        name = protofunctions.defName(item)
        if id(item) in self.done:
            return 'USE%s%s' % (self.space(), name)
        self.done.add(id(item))
        mapped = dict(self.maps.get(id(item), ()))
        lines, declared = [], []
        if is_script(item):
            for f in events_of(cls):
                text = '%s %s %s' % ('eventOut' if f.direction else 'eventIn', f.typeName(), f.name)
                if f.name in mapped:
                    text += ' IS ' + mapped.pop(f.name)
                declared.append(text)
            for f in fields_of(cls):
                if f.name not in ('url', 'directOutput', 'mustEvaluate'):
                    text = '%s %s %s ' % ('exposedField' if f.exposure else 'field', f.typeName(), f.name)
                    text += ('IS ' + mapped.pop(f.name)) if f.name in mapped else self.value(f.typeName(), default_of(f))
                    declared.append(text)
        for f in fields_of(cls):
            if f.name in mapped or (id(item), f.name) in self.maps or f.typeName() not in TYPENAMES:
                continue
            if f.name in [n for n, _ in self.maps.get(id(item), ())]:
                continue
            if f.name not in item.__dict__ or (f.typeName() in NODES and is_default(item, f)):
                continue
            lines.append('%s%s%s' % (f.name, self.space(), self.value(f.typeName(), item.__dict__[f.name])))
        lines += ['%s IS %s' % pair for pair in sorted(mapped.items())]
        return '%s%s%s{%s%s}' % (
            'DEF%s%s%s' % (self.space(), name, self.space()) if name else '',
            'Script' if is_script(item) else protofunctions.protoName(cls),
            self.space(),
            ''.join(self.space() + l for l in declared + lines),
            self.space(),
        )

    def scene(self, roots, routes=(), protos=()):
        for cls in protos:
            self.protos(cls)
        for item in roots:
            text = self.node(item)
            self.out.append(text)
        for r in routes:
            self.out.append(self.route(r))
        return HEADER + '\n'.join(self.out) + '\n'


def parse(text, known=None):
    """The scene of a text, with the prototypes which are known already"""
    processor = None
    if known:
        processor = parseprocessor.ParseProcessor(basePrototypes=dict(standard(), **known))
    return parser.buildParser().parse(text, processor=processor)[1][1] if processor else parser.buildParser().parse(text)[1][1]


# -- building -----------------------------------------------------------------
KINDS = [
    n
    for n, c in sorted(basenamespaces.basePrototypes.items())
    if isinstance(c, type) and issubclass(c, node.Node) and n not in ('NULL', 'sceneGraph', 'ROUTE', 'IS', 'Script')
]
COMMON = ['Transform', 'Group', 'Switch', 'Shape', 'Material', 'Sphere', 'Box', 'Coordinate', 'IndexedFaceSet', 'Text', 'Appearance', 'Collision', 'TimeSensor', 'PixelTexture', 'PositionInterpolator']
COMMON = [n for n in COMMON if n in KINDS]


class Builder(object):
    """Makes nodes, prototypes and scripts as its random generators say"""

    def __init__(self, plain_names=False):
        self.count = 0
        # name -> class, the prototypes which can be used
        self.known = {}
        self.plain_names = plain_names
        # names given which do not follow the count; gives those in use, and types of nodes
        self.given = set()
        self.taken = None

    def fresh(self, r, prefixes):
        self.count += 1
        names, kinds = self.taken() if self.taken else ((), ())
        if self.taken and prefixes is DEFS and not self.plain_names and r.random() < 0.3:
            # as a saved scene names the nodes which its routes need
            name = '%s_%d' % (r.choice(kinds or COMMON), r.randrange(6))
            if name not in self.given and name not in names:
                self.given.add(name)
                return name
        name = '%s%d' % (prefixes[0] if self.plain_names else r.choice(prefixes), self.count)
        if name in self.given or name in names:
            return self.fresh(r, prefixes)
        if self.taken:
            self.given.add(name)
        return name

    def cls(self, r):
        x = r.random()
        if x < 0.3 and self.known:
            return self.known[r.choice(sorted(self.known))]
        return standard()[r.choice(COMMON) if x < 0.8 else r.choice(KINDS)]

    def value(self, r, t):
        v = value(r, t)['v']
        kind = TYPES[t][0]
        if kind in ('float', 'floats', 'vec', 'vecs', 'color', 'colors') and r.random() < 0.2:
            v = precise(r, v, kind)
        elif kind == 'int' and r.random() < 0.3:
            v = r.choice((r.randrange(-(2**31), 2**31), 2**31 - 1, -(2**31)))
        elif kind in ('string', 'strings') and r.random() < 0.2:
            v = ['%s%s' % (i, ''.join(r.choice(CHARS) for _ in range(r.choice((1, 3, 9, 70))))) for i in (v if kind == 'strings' else [v])]
            v = v if kind == 'strings' else v[0]
        if isinstance(v, list) and v and kind not in ('vec', 'color', 'matrix') and r.random() < 0.12:
            # long ones are written differently
            v = (v * 1200)[: r.choice((10, 24, 25, 26, 33, 34, 49, 50, 51, 99, 100, 101, 130, 201, 1001))]
        return given({'t': t, 'v': v, 'form': 'plain'})

    def nodes(self, r, depth, pool, number=None):
        return [self.node(r, depth, pool) for _ in range(r.choice((0, 1, 1, 2, 3)) if number is None else number)]

    def node(self, r, depth=2, pool=None):
        """A node, maybe one of the pool of those which may be shared"""
        if pool and r.random() < 0.15:
            return r.choice(pool)
        if r.random() < 0.12:
            item = self.script(r, depth)
        else:
            item = self.cls(r)()
        if r.random() < 0.4:
            item.DEF = self.fresh(r, DEFS)
        self.fill(r, item, depth, pool)
        if item.DEF and pool is not None:
            pool.append(item)
        return item

    def fill(self, r, item, depth, pool, chance=0.3):
        for f in fields_of(type(item)):
            t = f.typeName()
            if t not in TYPENAMES or r.random() > (chance if t not in NODES else 0.6):
                continue
            if t in NODES:
                if depth > 0:
                    self.put(r, item, f, self.node(r, depth - 1, pool) if t == 'SFNode' else self.nodes(r, depth - 1, pool))
            else:
                self.put(r, item, f, self.value(r, t))

    def put(self, r, item, f, v):
        if r.random() < 0.5:
            setattr(item, f.name, v)
        else:
            f.fset(item, v, notify=0)

    def declared(self, r, depth, name, defaults=True):
        t = r.choice(TYPENAMES)
        exposure = r.randrange(2)
        if not defaults or r.random() < 0.2:
            return field.newField(name, t, exposure)
        if t == 'SFNode':
            v = self.node(r, 0) if depth > 0 and r.random() < 0.5 else NULL
        elif t == 'MFNode':
            v = self.nodes(r, 0, None) if depth > 0 and r.random() < 0.5 else []
        else:
            v = self.value(r, t)
        return field.newField(name, t, exposure, v)

    def event(self, r, name):
        return field.newEvent(name, r.choice(TYPENAMES), r.randrange(2))

    def names(self, r, n):
        return ['%s%d' % ('f' if self.plain_names else r.choice(FIELDS_), i) for i in range(n)]

    def script(self, r, depth=1):
        fields = [self.event(r, n) if r.random() < 0.4 else self.declared(r, depth - 1, n) for n in self.names(r, r.randrange(4))]
        made = script.Script(fields)
        for item in default_nodes(type(made)):
            # copies of the script share it
            if not item.DEF:
                item.DEF = self.fresh(r, DEFS)
        return made

    def proto(self, r):
        """A prototype with an implementation, mappings and routes"""
        name = self.fresh(r, PROTOS)
        extern = r.random() < 0.12
        names = self.names(r, r.randrange(6))
        fields = [self.event(r, n) if r.random() < 0.25 else self.declared(r, 1, n, not extern) for n in names]
        if extern:
            cls = node.prototype(name, fields, externalURL=[r.choice(('a.wrl#A', 'urn:x', 'b"c\\d')) for _ in range(r.randrange(1, 4))])
            self.known[name] = cls
            return cls
        if r.random() < 0.04:
            # none at all
            cls = node.prototype(name, fields)
            self.known[name] = cls
            return cls
        sg = scenegraph.SceneGraph()
        pool = []
        sg.children = self.nodes(r, 2, pool, r.randrange(3))
        cls = node.prototype(name, fields)
        inner = reachable(sg.children)
        taken = set()
        for f in fields:
            places = [(item, g) for item in inner for g in fields_of(type(item)) + events_of(type(item)) if g.typeName() == f.typeName()]
            if isinstance(f, field.Event):
                places = [(i, g) for i, g in places if isinstance(g, field.Event) and g.direction == f.direction or isinstance(g, field.Field) and g.exposure]
            else:
                places = [(i, g) for i, g in places if isinstance(g, field.Field)]
            for item, g in r.sample(places, min(len(places), r.choice((0, 1, 1, 2)))):
                if (id(item), g.name) in taken:
                    continue
                taken.add((id(item), g.name))
                if g.name in item.__dict__:
                    # what is mapped has no value of its own
                    g.fdel(item, notify=0)
                node.ismaps(cls).setdefault(f.name, []).append((item, g.name))
        protofunctions.setSceneGraph(cls, sg)
        # what was in a mapped field is gone
        left = {id(i) for i in reachable(sg.children)}
        node.ismaps(cls).update({f: [(i, n) for i, n in found if id(i) in left] for f, found in node.ismaps(cls).items()})
        for item in reachable(sg.children):
            if item.DEF and r.random() < 0.5:
                sg.regDefName(item.DEF, item)
        for route_ in self.routes(r, sg.children, r.choice((0, 0, 1, 2))):
            sg.addRoute(route_) if r.random() < 0.5 else sg.routes.append(route_)
        self.known[name] = cls
        return cls

    def routes(self, r, roots, number, needs_names=True):
        items = reachable(roots)
        made = []
        for _ in range(number):
            found = self.ends(r, items)
            if found:
                a, n, b, m = found
                if needs_names:
                    for item in (a, b):
                        if not item.DEF:
                            item.DEF = self.fresh(r, DEFS)
                made.append(route.ROUTE(a, n, b, m))
        return made

    def ends(self, r, items):
        """Ends of a route, of types which fit"""
        ports = [
            (i, f)
            for i in items
            for f in fields_of(type(i)) + events_of(type(i))
            if f.typeName() not in NODES
        ]
        sources = [(i, f) for i, f in ports if not isinstance(f, field.Event) or f.direction]
        if not sources:
            return None
        a, f = r.choice(sources)
        targets = [(i, g) for i, g in ports if g.typeName() == f.typeName() and (i is not a or g is not f) and (not isinstance(g, field.Event) or not g.direction)]
        if not targets:
            return None
        b, g = r.choice(targets)
        n, m = f.name, g.name
        if isinstance(f, field.Field) and r.random() < 0.2 and not self.has(a, n + '_changed'):
            n += '_changed'
        if isinstance(g, field.Field) and r.random() < 0.2 and not self.has(b, 'set_' + m):
            m = 'set_' + m
        return a, n, b, m

    def has(self, item, name):
        return any(f.name == name for f in fields_of(type(item)) + events_of(type(item)))
