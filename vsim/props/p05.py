"""P05: routes carry events to every destination, once, and through cycles

Graphs of routes between fields and events of a few nodes, held by scenes or by
their client, get built, rerouted and dropped; values are set, watchers set
further values, destinations reject, operations fail at any line.
"""

from vsim import core
from vsim.kit import *

GROUPS = [
    ['SFFloat', 'SFTime', 'SFInt32', 'SFBool', 'SFFloat', 'MFFloat'],
    ['SFVec3f', 'SFVec3d', 'SFColor', 'MFVec3f', 'SFVec3f'],
    ['SFString', 'MFString', 'SFFloat', 'SFString'],
    ['SFNode', 'MFNode', 'SFNode'],
    ['SFVec3f', 'SFVec2f', 'SFFloat', 'MFFloat', 'SFRotation', 'MFVec2f'],
]
EVENTS = ['SFFloat', 'SFBool', 'SFTime', 'SFVec3f', 'SFString', 'SFInt32', 'SFNode', 'MFNode', 'MFVec3f']
STANDARD = {
    'Transform': [['translation', 'SFVec3f', 'field'], ['scale', 'SFVec3f', 'field'], ['center', 'SFVec3f', 'field'], ['rotation', 'SFRotation', 'field'], ['children', 'MFNode', 'field']],
    'Material': [['diffuseColor', 'SFColor', 'field'], ['transparency', 'SFFloat', 'field'], ['shininess', 'SFFloat', 'field']],
    'TimeSensor': [['fraction_changed', 'SFFloat', 'event'], ['cycleInterval', 'SFTime', 'field'], ['enabled', 'SFBool', 'field'], ['time', 'SFTime', 'event'], ['isActive', 'SFBool', 'event']],
    'Viewpoint': [['position', 'SFVec3f', 'field'], ['fieldOfView', 'SFFloat', 'field'], ['description', 'SFString', 'field'], ['set_bind', 'SFBool', 'event']],
    'Switch': [['whichChoice', 'SFInt32', 'field'], ['choice', 'MFNode', 'field']],
    'Text': [['string', 'MFString', 'field'], ['maxExtent', 'SFFloat', 'field'], ['length', 'MFFloat', 'field']],
    'Shape': [['geometry', 'SFNode', 'field']],
    'PointLight': [['color', 'SFColor', 'field'], ['location', 'SFVec3f', 'field'], ['on', 'SFBool', 'field'], ['intensity', 'SFFloat', 'field']],
}  # fmt: skip
NODES = 5
FAILS = ('fails',)


def port_value(rng, t, bad=0.04):
    if t == 'SFNode':
        return {'t': t, 'v': rng.randrange(-1, NODES)}
    if t == 'MFNode':
        return {'t': t, 'v': [rng.randrange(NODES) for _ in range(rng.randrange(4))]}
    spec = value(rng, t, 0)
    if spec.get('form') in ('map', 'outside', 'view'):
        spec['form'] = 'plain'
    if rng.random() < bad:
        spec['bad'] = rng.choice(('wrong', 'bomb'))
        spec['at'] = rng.randrange(4)
        spec['error'] = rng.choice(('ValueError', 'TypeError', 'RuntimeError'))
        spec['n'] = rng.randrange(3)
    return spec


def gen(rng, config, tier):
    style = rng.random()
    parsed = style < 0.12
    group = rng.choice(GROUPS)
    nodes = []
    for i in range(rng.randrange(1, 6)):
        if parsed or rng.random() < 0.25:
            kind = rng.choice(sorted(STANDARD))
            nodes.append({'kind': kind, 'ports': STANDARD[kind]})
        else:
            ports = []
            for j in range(rng.randrange(1, 5)):
                if rng.random() < 0.25:
                    candidates = [t for t in group if t in EVENTS] or EVENTS
                    ports.append(['e%d' % j, rng.choice(candidates), 'event'] + ([rng.choice(('record', 'reject'))] if rng.random() < 0.4 else []))
                else:
                    t = rng.choice(group if rng.random() < 0.85 else rng.choice(GROUPS))
                    ports.append(['f%d' % j, t, 'field'])
            nodes.append({'kind': 'own', 'ports': ports})
    far = rng.random() < 0.04
    if far:
        # one long way through everything
        parsed = False
        t = rng.choice(('SFFloat', 'SFVec3f', 'SFString', 'SFNode'))
        nodes = [
            {'kind': 'own', 'ports': [['f%d' % j, t, 'field'] if rng.random() < 0.8 else ['e%d' % j, t, 'event'] for j in range(4)]}
            for _ in range(rng.randrange(4, 11))
        ]
    keys = [(n, p) for n, spec in enumerate(nodes) for p in range(len(spec['ports']))]

    def port():
        return list(rng.choice(keys))

    def typed(key):
        return nodes[key[0]]['ports'][key[1]][1]

    def compatible(key):
        t = typed(key)
        options = [k for k in keys if typed(k) == t and k != tuple(key)]
        related = [k for k in keys for g in GROUPS if t in g and typed(k) in g and k != tuple(key)]
        if options and rng.random() < 0.5:
            return list(rng.choice(options))
        if related and rng.random() < 0.9:
            return list(rng.choice(related))
        return port()

    def new_route(src=None):
        src = src or port()
        return [src, compatible(src), rng.choice(('scene', 'scene', 'tuple', 'def', 'own', 'args')), rng.randrange(4)]

    shape = rng.random()
    routes = []
    if far:
        way = list(keys)
        rng.shuffle(way)
        routes = [[list(a), list(b), 'scene', 0] for a, b in zip(way, way[1:] + way[:1])]
        if rng.random() < 0.5:
            routes.reverse()
    elif shape < 0.35:
        # a chain, perhaps closed
        at = port()
        for _ in range(rng.randrange(1, 8)):
            r = new_route(at)
            routes.append(r)
            at = r[1]
        if rng.random() < 0.6:
            routes.append([at, routes[0][0], 'scene', 0])
    elif shape < 0.55:
        # a fan, with routes on from there
        at = port()
        for _ in range(rng.randrange(2, 5)):
            r = new_route(at)
            routes.append(r)
            if rng.random() < 0.7:
                routes.append(new_route(r[1]))
    else:
        routes = [new_route() for _ in range(rng.randrange(1, 12))]
    ops = []
    noisy = rng.random() < 0.35
    for _ in range(rng.randrange(3, 22)):
        r = rng.random()
        key = port() if rng.random() < 0.4 or not routes else list(rng.choice(routes)[0])
        if r < 0.60:
            op = ['set', key, port_value(rng, typed(key)), rng.choice(('attr', 'attr', 'fset', 'quiet'))]
            if rng.random() < 0.1:
                op.append([rng.choice(('memory', 'memory', 'gc')), rng.randrange(1, 80)])
            ops.append(op)
        elif r < 0.65:
            ops.append(['del', key])
        elif r < 0.70:
            ops.append(['list', key, rng.choice(('append', 'remove', 'pop')), rng.randrange(NODES)])
        elif r < 0.76:
            ops.append(['route', new_route()])
        elif r < 0.82:
            ops.append(['unroute', rng.randrange(12), rng.choice(('remove', 'delete', 'assign'))])
        elif r < 0.85:
            ops.append(['redirect', rng.randrange(12), port()])
        elif r < 0.88:
            ops.append(['incomplete', key, rng.randrange(4)])
        elif r < 0.96 and not far:
            other = port()
            kind = rng.choice(('set', 'set', 'set', 'collect', 'raise')) if noisy else 'set'
            ops.append(['watch', key, kind, other, port_value(rng, typed(other), 0), rng.randrange(1, 4), rng.choice(('field', 'scene', 'def'))])
        else:
            ops.append(['gc'])
    return {
        'nodes': nodes, 'routes': routes, 'ops': ops, 'parsed': parsed,
        'policy': rng.choice(('lifo', 'never')), 'whole': rng.random() < 0.2,
    }  # fmt: skip


class Reaction(object):
    def __init__(self, run, key, kind, target, spec, limit):
        self.run, self.key, self.kind = run, key, kind
        self.target, self.spec, self.limit = target, spec, limit

    def __call__(self, signal, sender, value=None):
        self.run.react(self)


class Recorder(object):
    """Sees every arrival at a port"""

    def __init__(self, run, key):
        self.run, self.key = run, key

    def __call__(self, signal, sender, value=None):
        if signal[0] == 'route':
            self.run.arrived(self.key, signal, sender, value)
        else:
            self.run.told(self.key, value)


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.scene = scenegraph.SceneGraph()
        self.pool = [basenodes.Shape(DEF='s%d' % i) for i in range(NODES)]
        self.specs = case['nodes']
        self.nodes = []
        self.ports = {}
        self.routes = []
        self.own = []
        self.reactions = []
        self.handled = []
        self.arrivals = {}
        self.budget = 0
        self.total = 0
        self.mf = False
        self.classes = []
        self.pending = None
        self.depth = 0
        if case['parsed'] and case['nodes']:
            self.parse(case)
        else:
            self.nodes = [self.make(n, spec) for n, spec in enumerate(case['nodes'])]
            if case.get('whole'):
                self.assemble(case['routes'])
            else:
                for n, created in enumerate(self.nodes):
                    self.scene.regDefName('n%d' % n, created)
                for r in case['routes']:
                    self.wire(r)
        self.recorders = []
        for n, spec in enumerate(case['nodes']):
            for p, what in enumerate(spec['ports']):
                key = n, p
                recorder = Recorder(self, key)
                self.recorders.append(recorder)
                self.port(key).watch(self.nodes[n], recorder, ('route', self.port(key)))
                if what[2] == 'event':
                    self.port(key).watch(self.nodes[n], recorder, ('set', self.port(key)))
        self.read = {key: self.actual(key) for key in self.keys()}

    def keys(self):
        return [(n, p) for n, spec in enumerate(self.specs) for p in range(len(spec['ports']))]

    def spec(self, key):
        return self.specs[key[0]]['ports'][key[1]]

    def port(self, key):
        return protofunctions.getField(self.nodes[key[0]], self.spec(key)[0])

    def make(self, n, spec):
        if spec['kind'] != 'own':
            return standard()[spec['kind']]()
        members = []
        methods = {}
        for p, what in enumerate(spec['ports']):
            if what[2] == 'event':
                members.append(field.newEvent(what[0], what[1], 1))
                if len(what) > 3:
                    methods['on_' + what[0]] = self.handler((n, p), what[3])
            elif what[1] in ('SFNode', 'MFNode'):
                members.append(field.newField(what[0], what[1], 1))
            else:
                members.append(field.newField(what[0], what[1], 1))
        cls = node.prototype('Own%d' % n, members, baseClasses=(node.Node,))
        for name, method in methods.items():
            setattr(cls, name, method)
        self.classes.append(cls)
        return cls()

    def handler(self, key, kind):
        def method(self_, value):
            self.ctx.log('handled', key)
            if kind == 'reject':
                self.ctx.fault('handler-rejects')
                raise ValueError('injected')

        return method

    def name(self, key, how, source):
        text = self.spec(key)[0]
        if self.spec(key)[2] == 'field':
            if source and how == 1:
                return text + '_changed'
            if not source and how == 2:
                return 'set_' + text
        return text

    def parse(self, case):
        lines = []
        for n, spec in enumerate(case['nodes']):
            lines.append('DEF n%d %s {}' % (n, spec['kind']))
        for src, dst, how, form in case['routes']:
            lines.append('ROUTE n%d.%s TO n%d.%s' % (src[0], self.name(src, form, True), dst[0], self.name(dst, form, False)))
        self.scene = parser.buildParser().parse('#VRML V2.0 utf8\n' + '\n'.join(lines) + '\n')[1][1]
        self.nodes = [self.scene.getDEF('n%d' % n) for n in range(len(case['nodes']))]
        self.ctx.check(len(self.scene.routes) == len(case['routes']), 'routes-not-parsed', '%s', len(self.scene.routes))
        for (src, dst, how, form), obj in zip(case['routes'], list(self.scene.routes)):
            self.routes.append([tuple(src), tuple(dst), obj, 'scene'])

    def wire(self, r):
        src, dst, how, form = r
        src, dst = self.norm(src), self.norm(dst)
        a, b = self.nodes[src[0]], self.nodes[dst[0]]
        args = (a, self.name(src, form, True), b, self.name(dst, form, False))
        self.ctx.log('wire', src, dst, how)
        if how == 'own':
            made = route.ROUTE(source=args[0], sourceField=args[1], destination=args[2], destinationField=args[3])
            self.own.append(made)
            self.routes.append([src, dst, made, 'own'])
            return
        if how == 'scene':
            made = self.scene.addRoute(route.ROUTE(*args))
        elif how == 'tuple':
            made = self.scene.addRoute(args)
        elif how == 'args':
            made = self.scene.addRoute(*args)
        else:
            made = self.scene.addRoute(('n%d' % src[0], args[1], 'n%d' % dst[0], args[3]))
        self.routes.append([src, dst, made, 'scene'])

    def assemble(self, routes):
        """The scene gets its names and routes as it is made"""
        names = {'n%d' % n: created for n, created in enumerate(self.nodes)}
        given = []
        for src, dst, how, form in routes:
            src, dst = self.norm(src), self.norm(dst)
            ends = (src[0], self.name(src, form, True), dst[0], self.name(dst, form, False))
            if how == 'def':
                given.append(('n%d' % ends[0], ends[1], 'n%d' % ends[2], ends[3]))
            else:
                made = (self.nodes[ends[0]], ends[1], self.nodes[ends[2]], ends[3])
                given.append(route.ROUTE(*made) if how == 'scene' else list(made) if how == 'args' else made)
            self.routes.append([src, dst, None, 'scene'])
        self.scene = scenegraph.SceneGraph(defNames=names, routes=given)
        self.ctx.check(len(self.scene.routes) == len(given), 'routes-not-made', '%s', len(self.scene.routes))
        for known, made in zip(self.routes, self.scene.routes):
            known[2] = made

    def norm(self, key):
        n = key[0] % len(self.specs)
        return n, key[1] % len(self.specs[n]['ports'])

    # -- values
    def obj(self, spec, key):
        t = spec['t']
        if t == 'SFNode':
            return NULL if spec['v'] < 0 else self.pool[spec['v']]
        if t == 'MFNode':
            return [self.pool[i] for i in spec['v']]
        if self.spec(key)[2] == 'event':
            # events keep whatever they are given
            v = expected(spec) if 'bad' not in spec else given(spec)
            return list(v) if isinstance(v, map) else v
        return given(spec)

    def show(self, v):
        """As something which can be compared"""
        if isinstance(v, np.ndarray):
            return ('array', v.dtype.char, repr(v.tolist()))
        if isinstance(v, node.Node):
            for i, n in enumerate(self.pool):
                if n is v:
                    return ('node', i)
            return ('node', 'NULL' if v is NULL else '?')
        if isinstance(v, (list, tuple)):
            return (type(v).__name__ == 'tuple' and 'tuple' or 'list',) + tuple(self.show(i) for i in v)
        if isinstance(v, (bool, int, float, str, type(None))):
            return (type(v).__name__, v)
        return ('other', type(v).__name__, id(v))

    def actual(self, key):
        target = self.nodes[key[0]]
        if self.spec(key)[2] == 'event':
            held = target.__dict__.get(self.port(key).name, AttributeError)
            try:
                read = getattr(target, self.spec(key)[0])
            except AttributeError:
                read = AttributeError
            self.ctx.check(read is held, 'event-reads-otherwise', '%s: %s, not %s', key, read, held)
            return held
        v = self.port(key).fget(target)
        return list(v) if isinstance(v, olist.OList) else keep(v)

    def convert(self, key, v):
        """What arrives at a port when the value is routed there, or None"""
        port = self.port(key)
        what = self.spec(key)
        if what[2] == 'event':
            if len(what) > 3 and what[3] == 'reject':
                return None
            return (v,)
        try:
            if isinstance(v, list) and what[1] == 'SFNode':
                v = olist.OList(v)
            v = port.coerce(keep(v))
        except (ValueError, TypeError):
            return None
        except Exception:
            return FAILS
        return (list(v),) if isinstance(v, olist.OList) else (v,)

    # -- the model
    def closure(self, sources):
        """What may arrive and what certainly arrives, from the sources

        sources: [(port, value)] which get set by the operation
        """
        may, rejecting, fails = {}, set(), [False]
        work = list(sources)
        fired = []
        seen = set()
        aborts = False
        while work:
            key, v = work.pop()
            mark = (key, self.show(v))
            if mark in seen:
                continue
            if len(seen) > 3000:
                break
            seen.add(mark)
            may.setdefault(key, []).append(v)
            for src, dst, obj, how in self.routes:
                if src == key:
                    result = self.convert(dst, v)
                    if result is None:
                        rejecting.add(dst)
                    elif result is FAILS:
                        aborts = True
                    else:
                        work.append((dst, result[0]))
            for reaction in self.reactions:
                if reaction.key == key and reaction.limit > 0:
                    if reaction.kind == 'raise':
                        aborts = True
                    elif reaction.kind == 'set' and reaction not in fired:
                        fired.append(reaction)
                        work.append((reaction.target, self.wanted(reaction)))
        certain = set()
        if not aborts:
            work = [key for key, v in sources]
            while work:
                key = work.pop()
                if key in certain:
                    continue
                certain.add(key)
                for src, dst, obj, how in self.routes:
                    if src == key and dst not in rejecting:
                        work.append(dst)
                for reaction in fired:
                    if reaction.key == key:
                        work.append(reaction.target)
        return may, certain, rejecting, aborts

    def wanted(self, reaction):
        v = self.obj(reaction.spec, reaction.target)
        return self.convert_set(reaction.target, v)

    def convert_set(self, key, v):
        """What is stored when the value is assigned"""
        if self.spec(key)[2] == 'event':
            return v
        result = self.port(key).coerce(v)
        return list(result) if isinstance(result, olist.OList) else result

    # -- what happens
    def arrived(self, key, signal, sender, value):
        ctx = self.ctx
        ctx.log('arrived', key, self.show(value))
        self.total += 1
        ctx.check(self.total < 20000, 'cascade-does-not-end', '%d arrivals', self.total)
        ctx.check(self.pending is not None, 'arrival-from-nowhere', '%s', key)
        ctx.check(sender is self.nodes[key[0]], 'arrival-from-another', '%s', key)
        # one told of late, after a watcher set something in turn, is of before
        ctx.check(self.nested or self.show(list(value) if isinstance(value, olist.OList) else value) == self.show(self.actual(key)), 'arrival-with-another-value', '%s: %s, holds %s', key, core.short(value), core.short(self.actual(key)))
        self.arrivals[key] = self.arrivals.get(key, 0) + 1

    def told(self, key, value):
        """Of an event which was set, which holds the value by then"""
        if self.pending is None or self.nested or self.raised or key in self.first:
            return
        self.first.add(key)
        self.ctx.check(self.show(value) == self.show(self.actual(key)), 'told-of-another-value', '%s: %s, holds %s', key, core.short(value), core.short(self.actual(key)))

    def react(self, reaction):
        if reaction.limit <= 0 or self.pending is None or self.depth > 6:
            return
        reaction.limit -= 1
        if reaction.kind == 'raise':
            self.ctx.fault('watcher-raises')
            self.raised = True
            raise core.SimFault('observer')
        if reaction.kind == 'collect':
            core.collect(self.ctx)
        elif reaction.kind == 'set':
            self.ctx.fault('set-within-cascade')
            self.depth += 1
            self.nested = True
            self.spend(reaction.target)
            try:
                setattr(self.nodes[reaction.target[0]], self.spec(reaction.target)[0], self.obj(reaction.spec, reaction.target))
            finally:
                self.depth -= 1

    def spend(self, key):
        """The key gets set: each of its routes may deliver once anywhere"""
        self.budget += sum(1 for src, dst, obj, how in self.routes if src == key)

    def cascade(self, sources, action, fault=None, fragile=False):
        """Run the action, which sets the sources, and judge the outcome"""
        ctx = self.ctx
        may, certain, rejecting, aborts = self.closure(sources)
        aborts = aborts or fragile
        if rejecting:
            ctx.fault('destination-rejects')
        self.arrivals, self.budget, self.raised, self.pending, self.nested = {}, 0, False, True, False
        self.first = set()
        # a list of nodes which changes sends that on its own, as it changes
        mf = self.nested = any(self.spec(k)[1] == 'MFNode' for k in may)
        for key, v in sources:
            self.spend(key)
        failed = None
        points = core.POINTS

        def at_line(n, code, line):
            if n == fault[1]:
                if fault[0] == 'gc':
                    points.busy = True
                    try:
                        core.collect(ctx)
                    finally:
                        points.busy = False
                elif may and not any(self.spec(k)[1] == 'MFNode' for k in may):
                    ctx.fault('allocation-failed')
                    raise MemoryError('injected')

        try:
            if fault:
                with points.run(at_line):
                    action()
            else:
                action()
        except core.Violation:
            raise
        except core.SimFault as err:
            if str(err) != 'observer':
                raise
            failed = err
        except MemoryError as err:
            failed = err
        except Exception as err:
            # a conversion which failed otherwise than by rejecting
            if not aborts:
                raise
            failed = err
        finally:
            self.pending = None
        ctx.log('cascade', sorted(may), sorted(certain), repr(failed))
        if failed is not None or aborts:
            certain = set()
        for key in self.keys():
            now = self.actual(key)
            shown = self.show(now)
            allowed = {self.show(v) for v in may.get(key, ())}
            if key not in certain:
                allowed.add(self.show(self.read[key]))
            if shown not in allowed:
                if key in certain:
                    cls = 'not-delivered' if shown == self.show(self.read[key]) else 'wrong-value-delivered'
                else:
                    cls = 'changed-beyond-reach' if key not in may else 'wrong-value-delivered'
                ctx.fail(cls, '%s is %s, may be %s', key, shown, sorted(allowed))
            self.read[key] = now
            count = self.arrivals.get(key, 0)
            if not mf:
                ctx.check(count <= self.budget, 'delivered-again', '%s: %d times, %d routes leave what was set', key, count, self.budget)
            if key in certain and key not in [s for s, v in sources] and not any(r.target == key for r in self.reactions):
                ctx.check(count, 'arrival-not-announced', '%s', key)
        if len(may) > 3:
            ctx.probe('long-cascade')
        if any(self.arrivals.get(s) for s, v in sources):
            ctx.probe('cycle-closed')
        ctx.state(sorted(may), sorted(certain))

    def op(self, op):
        ctx = self.ctx
        kind = op[0]
        if kind == 'set':
            self.set(op)
        elif kind == 'del':
            key = self.norm(op[1])
            if self.spec(key)[2] == 'field':
                port = self.port(key)
                target = self.nodes[key[0]]
                default = port.coerce(port.getDefault())
                default = list(default) if isinstance(default, olist.OList) else default
                ctx.log('del', key)
                self.cascade([(key, default)], lambda: delattr(target, self.spec(key)[0]))
        elif kind == 'list':
            key = self.norm(op[1])
            if self.spec(key)[1:3] == ['MFNode', 'field']:
                target = self.port(key).fget(self.nodes[key[0]])
                wanted = list(target)
                item = self.pool[op[3]]
                if op[2] == 'append':
                    wanted.append(item)
                    action = lambda: target.append(item)
                elif op[2] == 'remove':
                    if not any(i is item for i in target):
                        return
                    wanted.remove(item)
                    action = lambda: target.remove(item)
                else:
                    if not wanted:
                        return
                    wanted.pop()
                    action = lambda: target.pop()
                ctx.log('list', key, op[2], op[3])
                self.cascade([(key, wanted)], action)
        elif kind == 'route':
            if len(self.routes) < 60:
                self.wire(op[1])
        elif kind == 'unroute':
            if self.routes:
                self.unroute(op[1] % len(self.routes), op[2])
        elif kind == 'redirect':
            if self.routes:
                entry = self.routes[op[1] % len(self.routes)]
                key = self.norm(op[2])
                ctx.log('redirect', entry[:2], key)
                entry[2].destination = self.nodes[key[0]]
                entry[2].destinationField = self.spec(key)[0]
                entry[1] = key
        elif kind == 'incomplete':
            key = self.norm(op[1])
            a, f = self.nodes[key[0]], self.spec(key)[0]
            named = [
                dict(source=a, sourceField=f),
                dict(source=a, sourceField=f, destination=a),
                dict(destination=a, destinationField=f),
                dict(source=a, sourceField='nonesuch', destination=a, destinationField=f),
            ][op[2]]
            ctx.log('incomplete', key, op[2])
            ctx.fault('incomplete-route')
            self.own.append(route.ROUTE(**named))
        elif kind == 'watch':
            key = self.norm(op[1])
            target = self.norm(op[3])
            if self.spec(target)[1] != op[4]['t'] or self.spec(target)[3:] == ['reject']:
                return
            reaction = Reaction(self, key, op[2], target, op[4], op[5])
            self.reactions.append(reaction)
            port = self.port(key)
            if op[6:] in ([], ['field']):
                port.watch(self.nodes[key[0]], reaction, ('set', port))
                port.watch(self.nodes[key[0]], reaction, ('del', port))
            else:
                # which makes no route of it
                source = self.nodes[key[0]] if op[6] == 'scene' else 'n%d' % key[0]
                before = list(self.scene.routes)
                args = (source, self.spec(key)[0], reaction)
                self.scene.addRoute(*(args if op[5] == 1 else (args,)))
                ctx.check(list(self.scene.routes) == before, 'watcher-among-routes')
            port.watch(self.nodes[key[0]], reaction, ('route', port))
        elif kind == 'gc':
            core.collect(ctx)

    def unroute(self, index, how):
        src, dst, obj, held = self.routes.pop(index)
        self.ctx.log('unroute', src, dst, held, how)
        if held == 'own':
            self.own = [o for o in self.own if o is not obj]
        elif how == 'assign':
            self.scene.routes = [o for o in self.scene.routes if o is not obj]
        elif how == 'delete':
            at = next(i for i, o in enumerate(self.scene.routes) if o is obj)
            del self.scene.routes[at]
        else:
            self.scene.routes.remove(obj)
        del obj
        core.collect(self.ctx)
        self.ctx.fault('route-removed')

    def set(self, op):
        ctx = self.ctx
        key = self.norm(op[1])
        spec, how = op[2], op[3]
        if spec['t'] != self.spec(key)[1]:
            return
        target, port = self.nodes[key[0]], self.port(key)
        event = self.spec(key)[2] == 'event'
        fault = op[4] if len(op) > 4 else None
        ctx.log('set', key, spec.get('v'), spec.get('bad'), how, fault)
        rejected = 'bad' in spec and not event
        if event and len(self.spec(key)) > 3 and self.spec(key)[3] == 'reject':
            rejected = True
        v = self.obj(spec, key)
        name = self.spec(key)[0]
        if spec['t'] == 'MFNode' and how == 'quiet':
            # what changes in a list of nodes is announced by the list
            how = 'attr'
        if event or how == 'attr':
            action = lambda: setattr(target, name, v)
        elif how == 'fset':
            action = lambda: port.fset(target, v)
        else:
            action = lambda: port.fset(target, v, notify=0)
        if how == 'quiet' and not event:
            if rejected:
                return
            before = len(self.arrivals)
            self.pending = None
            action()
            self.read[key] = self.actual(key)
            for other in self.keys():
                ctx.check(self.show(self.actual(other)) == self.show(self.read[other]), 'quiet-set-delivered', '%s by %s', other, key)
            return
        if rejected:
            failures = []

            def rejecting():
                try:
                    action()
                except MemoryError:
                    raise
                except (ValueError, TypeError, RuntimeError) as err:
                    failures.append(err)
                else:
                    ctx.fail('invalid-value-accepted', '%s', key)

            ctx.fault('source-rejects')
            self.cascade([], rejecting, fault)
            return
        # such an element fails in whichever way it is looked at
        fragile = event and 'bad' in spec and spec['error'] == 'RuntimeError'
        self.cascade([(key, self.convert_set(key, v))], action, fault, fragile)


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    if not case['nodes']:
        return
    sim = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        sim.op(op)
        core.ADDRESSES.release()
    ctx.nontrivial = bool(sim.total)
