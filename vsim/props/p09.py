"""P09: instances of a prototype are independent, and IS works both ways

Random prototypes, nested and with routes, are declared in a text or built
directly; instances are made, set from outside and from inside, copied and
dropped.  The model is a graph of cells (fields of the instances and of the
nodes of their implementations) joined by mappings and routes: a change of a
cell reaches whatever the joints lead to, and nothing else ever changes.
"""

from vsim import core
from vsim.kit import *

BASE = {
    'Transform': {'translation': 'SFVec3f', 'scale': 'SFVec3f', 'center': 'SFVec3f', 'children': 'MFNode'},
    'Material': {'diffuseColor': 'SFColor', 'emissiveColor': 'SFColor', 'transparency': 'SFFloat', 'shininess': 'SFFloat'},
    'Switch': {'whichChoice': 'SFInt32', 'choice': 'MFNode'},
    'Shape': {'geometry': 'SFNode', 'appearance': 'SFNode'},
    'Text': {'string': 'MFString'},
    'Coordinate': {'point': 'MFVec3f'},
    'Script': {'amount': 'SFFloat', 'place': 'SFVec3f', 'tone': 'event:SFColor', 'tick': 'event:SFFloat'},
}  # fmt: skip
OWN = ['SFVec3f', 'SFColor', 'SFFloat', 'SFInt32', 'MFString', 'MFVec3f', 'SFNode', 'MFNode', 'event:SFFloat', 'event:SFColor']
NODES = ('SFNode', 'MFNode')


def spec_for(rng, t, bad=0.0):
    event = t.startswith('event:')
    t = t.replace('event:', '')
    if t == 'SFNode':
        return {'t': t, 'v': rng.choice((None, rng.randrange(1, 9)))}
    if t == 'MFNode':
        return {'t': t, 'v': [rng.randrange(1, 9) for _ in range(rng.randrange(0, 4))]}
    made = value(rng, t, bad)
    if event and made.get('form') == 'map':
        # events hand on what they are given, to several maybe
        made['form'] = 'plain'
    return made


def gen(rng, config, tier):
    protos = []
    for p in range(rng.randrange(1, 4)):
        fields = []
        inner = []
        # nodes of the implementation
        for i in range(rng.randrange(1, 5)):
            if p and rng.random() < 0.45:
                kind = rng.randrange(p)
                known = [(n, t) for n, t, d in protos[kind]['fields']]
            else:
                kind = rng.choice(sorted(BASE))
                known = sorted(BASE[kind].items())
            given_ = [
                [n, spec_for(rng, t)] for n, t in known if not t.startswith('event') and t not in NODES and rng.random() < 0.3
            ]
            inner.append({'kind': kind, 'given': given_, 'under': rng.choice((None, None, 'Group', 'Transform')), 'at': rng.random()})
        cells = []
        for i, item in enumerate(inner):
            kind = item['kind']
            known = sorted(BASE[kind].items()) if isinstance(kind, str) else [(n, t) for n, t, d in protos[kind]['fields']]
            cells += [(i, n, t) for n, t in known]
        rng.shuffle(cells)
        maps = []
        for i, n, t in cells:
            if n in [g[0] for g in inner[i]['given']] or rng.random() < 0.45:
                continue
            same_type = [f for f in fields if f[1] == t]
            if same_type and rng.random() < 0.5:
                f = rng.choice(same_type)
            else:
                f = ['f%d' % len(fields), t, None if t.startswith('event') else default_for(rng, t)]
                fields.append(f)
            maps.append([f[0], i, n])
        if rng.random() < 0.2:
            t = rng.choice(OWN)
            fields.append(['f%d' % len(fields), t, None if t.startswith('event') else default_for(rng, t)])
        routes = []
        for _ in range(rng.choice((0, 0, 1, 2)) if cells else 0):
            a = rng.choice(cells)
            others = [c for c in cells if c[2].replace('event:', '') == a[2].replace('event:', '') and c[:2] != a[:2] and a[2] not in NODES]
            if others:
                b = rng.choice(others)
                routes.append([a[0], a[1], b[0], b[1]])
        # fields are known by the names of their events as well
        alias = {}
        for i, n, t in cells:
            if not t.startswith('event') and inner[i]['kind'] != 'Script' and rng.random() < 0.25:
                alias['%d.%s' % (i, n)] = rng.choice(('set_%s', '%s_changed')) % n
        protos.append({'fields': fields, 'inner': inner, 'maps': maps, 'routes': routes, 'alias': alias})
    # prototypes declared within the body of the one that uses them (in a text)
    inside = [None] * len(protos)
    for p in range(len(protos) - 2, -1, -1):
        users = {q for q, other in enumerate(protos) if any(i['kind'] == p for i in other['inner'])}
        fitting = [q for q in range(p + 1, len(protos)) if all(within(inside, r, q) for r in users)]
        if fitting and rng.random() < 0.5:
            inside[p] = rng.choice(fitting)
    ops = []
    for _ in range(rng.randrange(4, 30)):
        r = rng.random()
        if r < 0.22:
            ops.append(['new', rng.choice((len(protos) - 1, rng.randrange(len(protos)))), rng.choice(('call', 'call', 'named', 'text', 'derived')), rng.randrange(1 << 30)])
        elif r < 0.44:
            ops.append(['set', rng.randrange(6), rng.randrange(12), rng.randrange(1 << 30)])
        elif r < 0.66:
            ops.append(['inside', rng.randrange(6), rng.randrange(40), rng.randrange(1 << 30)])
        elif r < 0.72:
            ops.append(['del', rng.randrange(6), rng.randrange(40)])
        elif r < 0.79:
            ops.append(['list', rng.randrange(6), rng.randrange(40), rng.choice(('append', 'append', 'pop', 'slice')), rng.randrange(1, 9)])
        elif r < 0.84:
            ops.append(['reject', rng.randrange(6), rng.randrange(40), rng.randrange(1 << 30)])
        elif r < 0.89:
            ops.append(['copy', rng.randrange(6)])
        elif r < 0.95:
            ops.append(['drop', rng.randrange(6)])
        elif r < 0.97:
            ops.append(['broken', rng.randrange(len(protos)), rng.randrange(1, 400)])
        else:
            ops.append(['gc'])
    for op in ops:
        if op[0] in ('new', 'set', 'inside', 'copy', 'drop', 'del') and rng.random() < 0.1:
            op.append({'at': rng.randrange(1, 200)})
    return {
        'protos': protos,
        'inside': inside,
        'text': rng.random() < 0.6,
        'ops': ops,
        'quiet': rng.random() < 0.4,
        'policy': rng.choice(('lifo', 'fifo', 'never')),
    }


def within(inside, p, q):
    """Whether prototype p is q or declared within it"""
    while p is not None and p != q:
        p = inside[p]
    return p is not None


def default_for(rng, t):
    if t == 'SFNode':
        return {'t': t, 'v': None}
    if t == 'MFNode':
        return {'t': t, 'v': []}
    made = value(rng, t)
    made['form'] = 'plain'
    return made


def reduce(case):
    """Cases with less in their prototypes"""
    for p, spec in enumerate(case['protos']):

        def using(**changes):
            protos = list(case['protos'])
            protos[p] = dict(spec, **changes)
            return dict(case, protos=protos)

        if spec.get('alias'):
            yield using(alias={})
        for i in range(len(spec['maps'])):
            yield using(maps=spec['maps'][:i] + spec['maps'][i + 1 :])
        for i in range(len(spec['routes'])):
            yield using(routes=spec['routes'][:i] + spec['routes'][i + 1 :])
        for i, item in enumerate(spec['inner']):
            if item['given']:
                yield using(inner=spec['inner'][:i] + [dict(item, given=[])] + spec['inner'][i + 1 :])
            if item['under']:
                yield using(inner=spec['inner'][:i] + [dict(item, under=None)] + spec['inner'][i + 1 :])
        last = len(spec['inner']) - 1
        if last and not any(m[1] == last for m in spec['maps']) and not any(last in (r[0], r[2]) for r in spec['routes']):
            yield using(inner=spec['inner'][:-1])
        for i, f in enumerate(spec['fields']):
            if not any(m[0] == f[0] for m in spec['maps']) and not any(
                item['kind'] == p and (any(f[0] == g[0] for g in item['given'])) for q in case['protos'] for item in q['inner']
            ):
                yield using(fields=spec['fields'][:i] + spec['fields'][i + 1 :])
    used = {item['kind'] for q in case['protos'] for item in q['inner']}
    last = len(case['protos']) - 1
    inside = case.get('inside') or []
    for p, q in enumerate(inside):
        if q is not None:
            yield dict(case, inside=inside[:p] + [None] + inside[p + 1 :])
    if last and last not in used and last not in inside:
        yield dict(case, inside=inside[:-1], protos=case['protos'][:-1], ops=[op if op[0] not in ('new', 'broken') or op[1] != last else [op[0], last - 1] + op[2:] for op in case['ops']])


# -- the model ----------------------------------------------------------------
class Cells(object):
    """A node of the model: its fields and, for instances, its implementation"""

    def __init__(self, kind, types):
        self.kind = kind
        self.types = dict(types)
        self.values = {}
        self.defaults = {}
        self.inner = []
        # field -> [(cells, field)]: mappings, both ways, and routes
        self.joined = {n: [] for n in self.types}
        self.routed = {n: [] for n in self.types}
        # values which may as well be there, after creation
        self.loose = {}

    def everything(self):
        yield self
        for item in self.inner:
            yield from item.everything()

    def reach(self, name, routes=True):
        found = [(self, name)]
        seen = {(id(self), name)}
        for cells, field_name in found:
            follow = list(cells.joined[field_name])
            if routes:
                follow += cells.routed[field_name]
            for other, other_name in follow:
                if (id(other), other_name) not in seen:
                    seen.add((id(other), other_name))
                    found.append((other, other_name))
        return found

    def set(self, name, v, routes=True):
        reached = self.reach(name, routes)
        for cells, field_name in reached:
            cells.store(field_name, v)
        return reached

    def store(self, name, v):
        self.loose.pop(name, None)
        if not self.types[name].startswith('event'):
            self.values[name] = keep(v)


def ball(number):
    return None if number is None else basenodes.Sphere(radius=float(number))


def model_value(spec):
    if spec['t'] in NODES:
        return list(spec['v']) if spec['t'] == 'MFNode' else spec['v']
    return expected(spec)


def real_value(spec):
    if spec['t'] == 'SFNode':
        return ball(spec['v'])
    if spec['t'] == 'MFNode':
        return [ball(n) for n in spec['v']]
    return given(spec)


def known_as(spec, i, n):
    return spec.get('alias', {}).get('%d.%s' % (i, n), n)


class Run(object):
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.protos = case['protos']
        self.classes = []
        self.defaults = {}
        for kind, types in BASE.items():
            if kind != 'Script':
                self.defaults[kind] = {n: self.read(standard()[kind](), n, t) for n, t in types.items()}
            else:
                self.defaults[kind] = {n: expected({'t': t, 'v': self.script_default(t)}) for n, t in types.items() if not t.startswith('event')}
        if case['text']:
            self.declare_text()
        else:
            for p in range(len(self.protos)):
                self.declare(p)
        self.instances = []
        self.templates = [self.template(p) for p in range(len(self.protos))]
        # the models of the templates stay as they are
        self.serial = 0
        self.first = [(self.snapshot(protofunctions.getSceneGraph(c)), self.declared(c)) for c in self.classes]

    def script_default(self, t):
        return 0.5 if t == 'SFFloat' else [1.0, 2.0, 3.0]

    # -- declaring
    def script_fields(self):
        made = []
        for n, t in sorted(BASE['Script'].items()):
            if t.startswith('event'):
                made.append(field.newEvent(n, t[6:], 0))
            else:
                made.append(field.newField(n, t, 1, self.script_default(t)))
        return made

    def declare(self, p):
        spec = self.protos[p]
        fields = []
        for n, t, default in spec['fields']:
            if default is None:
                fields.append(field.newEvent(n, t[6:], 0))
            else:
                fields.append(field.newField(n, t, 1, real_value(default)))
        sg = scenegraph.SceneGraph()
        cls = node.prototype('P%d' % p, fields)
        made = []
        for i, item in enumerate(spec['inner']):
            kind = item['kind']
            if kind == 'Script':
                one = script.Script(self.script_fields())
            else:
                one = standard()[kind]() if isinstance(kind, str) else self.classes[kind]()
            for n, v in item['given']:
                setattr(one, n, real_value(v))
            made.append(one)
            sg.regDefName('I%d' % i, one)
        for i, item in enumerate(spec['inner']):
            under = item['under']
            if under is None:
                sg.children.append(made[i])
            else:
                sg.children.append(standard()[under](children=[made[i]]))
        for f, i, n in spec['maps']:
            node.ismaps(cls).setdefault(f, []).append((made[i], known_as(spec, i, n)))
        for i, n, j, m in spec['routes']:
            sg.addRoute(made[i], known_as(spec, i, n), made[j], known_as(spec, j, m))
        protofunctions.setSceneGraph(cls, sg)
        self.classes.append(cls)

    def declare_text(self):
        lines = ['#VRML V2.0 utf8']
        inside = self.case.get('inside') or [None] * len(self.protos)

        def declare(p):
            spec = self.protos[p]
            lines.append('PROTO P%d [' % p)
            for n, t, default in spec['fields']:
                if default is None:
                    lines.append(' eventIn %s %s' % (t[6:], n))
                else:
                    lines.append(' exposedField %s %s %s' % (t, n, literal(t, default['v'])))
            lines.append('] {')
            declare_within(p)
            for i, item in enumerate(spec['inner']):
                lines.append(self.inner_text(spec, i, item))
            for i, n, j, m in spec['routes']:
                lines.append(' ROUTE I%d.%s TO I%d.%s' % (i, known_as(spec, i, n), j, known_as(spec, j, m)))
            lines.append('}')

        def declare_within(q):
            for p in range(len(self.protos)):
                if inside[p] == q:
                    declare(p)

        declare_within(None)
        self.text = '\n'.join(lines) + '\n'
        sg = parser.buildParser().parse(self.text)[1][1]
        self.scene = sg
        self.classes = [None] * len(self.protos)
        for p in range(len(self.protos) - 1, -1, -1):
            q = inside[p]
            scope = sg if q is None else protofunctions.getSceneGraph(self.classes[q])
            self.classes[p] = scope.protoTypes.get('P%d' % p)
            self.ctx.check(self.classes[p] is not None, 'prototype-missing', 'P%d', p)

    def inner_text(self, spec, i, item):
        kind = item['kind']
        name = kind if isinstance(kind, str) else 'P%d' % kind
        mapped = {n: f for f, at, n in spec['maps'] if at == i}
        body = []
        if kind == 'Script':
            for n, t in sorted(BASE['Script'].items()):
                if t.startswith('event'):
                    body.append('eventIn %s %s%s' % (t[6:], n, ' IS ' + mapped[n] if n in mapped else ''))
                elif n in mapped:
                    body.append('field %s %s IS %s' % (t, n, mapped[n]))
                else:
                    body.append('field %s %s %s' % (t, n, literal(t, self.script_default(t))))
        else:
            body = ['%s IS %s' % (known_as(spec, i, n), f) for n, f in sorted(mapped.items())]
        body += ['%s %s' % (n, literal(v['t'], v['v'])) for n, v in item['given']]
        text = 'DEF I%d %s { %s }' % (i, name, ' '.join(body))
        if item['under']:
            text = '%s { children [ %s ] }' % (item['under'], text)
        return ' ' + text

    def template(self, p):
        """The model of a new instance"""
        spec = self.protos[p]
        made = Cells(p, [(n, t) for n, t, d in spec['fields']])
        made.values = {n: model_value(d) for n, t, d in spec['fields'] if d is not None}
        made.defaults = {n: keep(v) for n, v in made.values.items()}
        for item in spec['inner']:
            kind = item['kind']
            if isinstance(kind, str):
                one = Cells(kind, BASE[kind])
                one.values = {n: keep(v) for n, v in self.defaults[kind].items()}
                mapped = {n for f, i, n in spec['maps'] if spec['inner'][i] is item}
                if kind == 'Script' and self.case['text']:
                    # declared without a default
                    for n in mapped & set(one.values):
                        one.values[n] = expected({'t': BASE[kind][n], 'v': 0.0 if n == 'amount' else [0.0] * 3})
                one.defaults = {n: keep(v) for n, v in one.values.items()}
            else:
                one = self.template(kind)
            for n, v in item['given']:
                one.set(n, model_value(v), routes=not self.case["text"])
            made.inner.append(one)
        for f, i, n in spec['maps']:
            made.joined[f].append((made.inner[i], n))
            made.inner[i].joined[n].append((made, f))
        for i, n, j, m in spec['routes']:
            made.inner[i].routed[n].append((made.inner[j], m))
        # the defaults are passed in, through the mappings alone
        fixed = {(id(made), n) for n in made.types}
        passed = []
        for f, i, n in spec['maps']:
            if f in made.defaults:
                for cells, name in made.inner[i].reach_down(n):
                    cells.store(name, made.defaults[f])
                    fixed.add((id(cells), name))
                    passed.append((cells, name, made.defaults[f]))
        for f, i, n in spec['maps']:
            if f in made.defaults:
                for cells, name in made.inner[i].reach(n):
                    if (id(cells), name) not in fixed and not cells.types[name].startswith('event'):
                        cells.loose.setdefault(name, []).append(keep(made.defaults[f]))
        return made

    # -- reading the real thing
    def read(self, real, name, t):
        got = getattr(real, name)
        if t == 'SFNode':
            return None if got is NULL else int(got.radius)
        if t == 'MFNode':
            return [int(i.radius) for i in got]
        return got

    def nodes(self, real, p):
        """The nodes of the implementation of an instance"""
        sg = protofunctions.getSceneGraph(real) if not isinstance(real, scenegraph.SceneGraph) else real
        found = []
        wanted = len(self.protos[p]['inner'])
        self.ctx.check(len(sg.children) == wanted, 'implementation-missing', '%d nodes, not %d', len(sg.children), wanted)
        if sg is not real:
            kind = type(sg.children[0]) if wanted else node.Node
            for types in (None, (kind,), (standard()['Fog'], kind), standard()['Anchor']):
                got = real.renderedChildren(types) if types else real.renderedChildren()
                all_ = [c for c in sg.children if not types or isinstance(c, types)]
                self.ctx.check(len(got) == len(all_) and all(a is b for a, b in zip(got, all_)), 'rendered-children', '%s: %s', types, len(got))
        for i, item in enumerate(self.protos[p]['inner']):
            child = sg.children[i]
            found.append(child.children[0] if item['under'] else child)
        return found

    def pairs(self, cells, real):
        """(cells, node) for all nodes of an instance"""
        yield cells, real
        if cells.inner:
            children = self.nodes(real, cells.kind)
            for i, child in enumerate(children):
                found = protofunctions.getSceneGraph(real).getDEF('I%d' % i)
                self.ctx.check(found is child, 'wrong-inner-name', 'I%d of %s', i, cells.kind)
            for one, child in zip(cells.inner, children):
                yield from self.pairs(one, child)

    def equal(self, got, wanted, t):
        if t in NODES:
            return got == wanted
        return same(got, wanted)

    def verify_instance(self, which, cells, real):
        ctx = self.ctx
        for part, child in self.pairs(cells, real):
            for n, t in part.types.items():
                if t.startswith('event'):
                    continue
                got = self.read(child, n, t)
                if n in part.loose:
                    for v in part.loose.pop(n):
                        if self.equal(got, v, t):
                            part.values[n] = keep(v)
                if not self.equal(got, part.values[n], t):
                    where = 'own' if part is cells else 'inner'
                    ctx.fail(
                        'wrong-%s-value' % (where,), 'instance %s, field %s of %s: %s, not %s', which, n, part.kind, core.short(got), core.short(part.values[n])
                    )

    def verify(self):
        for number, (cells, real, serial) in enumerate(self.instances):
            self.verify_instance(serial, cells, real)
        for p, cls in enumerate(self.classes):
            now = (self.snapshot(protofunctions.getSceneGraph(cls)), self.declared(cls))
            self.ctx.check(now == self.first[p], 'prototype-changed', '%s: %s, not %s', p, core.short(now), core.short(self.first[p]))

    def snapshot(self, sg):
        """What the prototype's own implementation holds"""
        found = []

        def visit(one):
            for f in sorted(protofunctions.getFields(one), key=lambda f: f.name):
                if f.fhas(one) and f.name not in (' root', ' scenegraph', 'routes', 'defNames'):
                    v = f.fget(one)
                    if f.name == ' DEF' and not v or v is NULL:
                        continue
                    if isinstance(v, node.Node):
                        found.append((f.name, protofunctions.protoName(v)))
                        visit(v)
                    elif isinstance(v, olist.OList):
                        if len(v):
                            found.append((f.name, len(v)))
                            for i in v:
                                visit(i)
                    else:
                        found.append((f.name, repr(plain(v))))

        for child in sg.children:
            visit(child)
        found.append(sorted(sg.defNames))
        found.append(len(sg.routes))
        return found

    def declared(self, cls):
        return [
            (f.name, repr(plain(f.getDefault())))
            for f in sorted(protofunctions.getFields(cls), key=lambda f: f.name)
            if not f.name.startswith(' ') and f.name != 'externalURL'
        ]

    # -- operations
    def within(self, op, action):
        """Run the action, the collector running at a line of it"""
        fault = op[-1] if isinstance(op[-1], dict) else None
        if not fault:
            return action()
        points = core.POINTS

        def at_line(n, code, line):
            if n == fault['at']:
                points.busy = True
                try:
                    core.collect(self.ctx)
                    self.ctx.fault('gc-within-operation')
                finally:
                    points.busy = False

        with points.run(at_line):
            return action()

    def pick(self, op):
        if not self.instances:
            return None
        return self.instances[op[1] % len(self.instances)]

    def cell(self, op, chosen, want=None):
        """(cells, node, field, type) of one of the cells of the instance"""
        options = []
        for part, child in self.pairs(chosen[0], chosen[1]):
            for n, t in sorted(part.types.items()):
                if want is None or t in want:
                    options.append((part, child, n, t))
        return options[op[2] % len(options)] if options else None

    def op(self, op):
        ctx = self.ctx
        kind = op[0]
        ctx.log(kind, op[1:])
        if kind == 'new':
            self.new(op)
        elif kind == 'gc':
            core.collect(ctx)
        elif kind == 'drop':
            if self.instances:
                self.instances.pop(op[1] % len(self.instances))
                ctx.fault('instance-dropped')
                self.within(op, lambda: core.collect(ctx))
        elif kind == 'broken':
            self.broken(op)
        elif self.instances:
            chosen = self.pick(op)
            if kind == 'set':
                names = sorted(chosen[0].types)
                if names:
                    name = names[op[2] % len(names)]
                    self.change(op, (chosen[0], chosen[1], name, chosen[0].types[name]))
            elif kind == 'inside':
                self.change(op, self.cell(op, chosen))
            elif kind == 'del':
                self.delete(op, self.cell(op, chosen))
            elif kind == 'list':
                self.listed(op, self.cell(op, chosen, ('MFNode',)))
            elif kind == 'reject':
                self.reject(op, chosen)
            elif kind == 'copy':
                made = self.within(op, chosen[1].copy)
                ctx.check(made is not chosen[1], 'copy-is-original')
                self.add(self.copied(chosen[0]), made)

    def add(self, cells, real):
        self.serial += 1
        self.instances.append((cells, real, self.serial))
        if len(self.instances) > 6:
            self.instances.pop(0)

    def new(self, op):
        p, how = op[1], op[2]
        cls = self.classes[p]
        cells = self.template(p)
        rng = core.random.Random(op[3])
        arguments = []
        if how != 'call':
            for n, t in sorted(cells.types.items()):
                if not t.startswith('event') and rng.random() < 0.4:
                    arguments.append((n, t, spec_for(rng, t)))
        # what is given counts as set, in the order in which it is given
        if how == 'text':
            text = '#VRML V2.0 utf8\nP%d { %s }\n' % (p, ' '.join('%s %s' % (n, literal(t, s['v'])) for n, t, s in arguments))
            known = dict(standard())
            known['P%d' % p] = cls
            reader = parser.buildParser()
            processor = parseprocessor.ParseProcessor(basePrototypes=known)

            def action():
                return reader.parse(text, processor=processor)[1][1].children[0]

        elif how == 'named':
            values = {n: real_value(s) for n, t, s in arguments}

            def action():
                return cls(**values)

        elif how == 'derived':
            # a class of its own, with the implementation it inherits
            derived = type(str('Derived'), (cls,), {})
            action = lambda: derived(**{n: real_value(s) for n, t, s in arguments})
        else:
            action = cls
        made = self.within(op, action)
        for n, t, s in arguments:
            if how == 'text':
                # what a text says is no event
                cells.set(n, model_value(dict(s, form='plain')), routes=False)
            else:
                cells.set(n, model_value(s))
        self.add(cells, made)

    def change(self, op, where):
        if where is None:
            return
        cells, real, name, t = where
        rng = core.random.Random(op[3])
        spec = spec_for(rng, t)
        if t == 'SFNode' and spec['v'] is None:
            v = NULL
        else:
            v = real_value(spec)
        self.within(op, lambda: setattr(real, name, v))
        reached = cells.set(name, model_value(spec))
        if len(reached) > 1:
            self.ctx.probe('reached-others')
            if any(c is not cells and cells not in c.inner for c, n in reached):
                self.ctx.probe('reached-outwards')
        self.ctx.log(name, len(reached))

    def delete(self, op, where):
        if where is None:
            return
        cells, real, name, t = where
        if t.startswith('event'):
            return
        getattr(real, name)
        if not protofunctions.getField(real, name).fhas(real):
            return
        self.within(op, lambda: delattr(real, name))
        cells.set(name, cells.defaults[name])

    def listed(self, op, where):
        if where is None:
            return
        cells, real, name, t = where
        items = getattr(real, name)
        wanted = [int(i.radius) for i in items]
        how, number = op[3], op[4]
        if how == 'append':
            items.append(ball(number))
            wanted.append(number)
        elif how == 'pop' and wanted:
            items.pop(0)
            wanted.pop(0)
        elif how == 'slice':
            items[1:] = [ball(number), ball(number + 1)]
            wanted[1:] = [number, number + 1]
        else:
            return
        cells.set(name, wanted)

    def reject(self, op, chosen):
        where = self.cell(op, chosen)
        cells, real, name, t = where
        if t.startswith('event'):
            return
        if t in NODES:
            wrong = 'no node' if t == 'SFNode' else 5
        else:
            rng = core.random.Random(op[3])
            spec = value(rng, t, 1.0)
            if spec['bad'] == 'transient':
                spec['bad'] = 'bomb'
            wrong = given(spec)
        try:
            setattr(real, name, wrong)
        except Exception:
            self.ctx.fault('assignment-rejected')
        else:
            self.ctx.fail('invalid-value-accepted', '%s %s', name, t)

    def broken(self, op):
        """Creating an instance fails in the middle"""

        def at_line(n, code, line):
            if n == op[2]:
                raise MemoryError('injected')

        try:
            with core.POINTS.run(at_line):
                self.classes[op[1]]()
        except MemoryError:
            self.ctx.fault('allocation-failed')

    def copied(self, cells):
        """An independent model in the same state"""
        memo = {}

        def first(c):
            made = Cells(c.kind, c.types)
            made.values = {n: keep(v) for n, v in c.values.items()}
            made.defaults = c.defaults
            made.loose = {n: [keep(v) for v in vs] for n, vs in c.loose.items()}
            made.inner = [first(i) for i in c.inner]
            memo[id(c)] = made
            return made

        made = first(cells)
        for c in cells.everything():
            for n in c.types:
                memo[id(c)].joined[n] = [(memo[id(o)], m) for o, m in c.joined[n]]
                memo[id(c)].routed[n] = [(memo[id(o)], m) for o, m in c.routed[n]]
        return made


def reach_down(self, name):
    """The cells to which a default is passed: inwards, by mappings"""
    found = [(self, name)]
    for cells, field_name in found:
        for other, other_name in cells.joined[field_name]:
            if other in cells.inner and (other, other_name) not in found:
                found.append((other, other_name))
    return found


Cells.reach_down = reach_down


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    sim = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        sim.op(op)
        core.ADDRESSES.release()
        if not case['quiet'] or op[0] == 'gc':
            sim.verify()
        ctx.state([(c.kind, [len(i.inner) for i in c.everything()], sorted((n, str(v)) for n, v in c.values.items())) for c, r, s in sim.instances])
    sim.verify()
    ctx.nontrivial = len(sim.instances) > 1 and ctx.counts['probe:reached-others'] > 0
