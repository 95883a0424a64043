"""P02: the value of a field belongs to that field of that node alone

Clients share objects between assignments, keep them and change them in place
afterwards, change values and defaults they have read in place, copy nodes and
let routes carry values; the collector runs and assignments fail in between.
"""

from vsim import core
from vsim.kit import *

MUTABLE = [t for t in ALL if TYPES[t][0] not in ('bool', 'int', 'float', 'string')]


def gen(rng, config, tier):
    types = [rng.choice(MUTABLE) for _ in range(rng.randrange(1, 4))]
    classes = []
    for i in range(rng.randrange(1, 3)):
        fields = []
        for j in range(rng.randrange(1, 5)):
            t = rng.choice(types)
            default = None
            if rng.random() < 0.7:
                default = value(rng, t, size=rng.choice((1, 2, 4)))
            fields.append(['f%d' % j, t, default])
        classes.append(fields)
    nodes = [rng.randrange(len(classes)) for _ in range(rng.randrange(2, 5))]
    sources = [value(rng, rng.choice(types), size=rng.choice((1, 2, 4))) for _ in range(4)]
    bad = rng.choice((0.0, 0.3))
    ops = []
    for _ in range(rng.randrange(4, 30)):
        r = rng.random()
        n, f = rng.randrange(8), rng.randrange(4)
        if r < 0.3:
            ops.append(['assign', n, f, rng.randrange(4), rng.choice(('attr', 'fset', 'quiet', 'new'))])
        elif r < 0.4:
            ops.append(['change-source', rng.randrange(4), rng.randrange(12)])
        elif r < 0.62:
            ops.append(['change-value', n, f, rng.randrange(12)])
        elif r < 0.68:
            ops.append(['delete', n, f])
        elif r < 0.74:
            ops.append(['new', rng.randrange(4)])
        elif r < 0.80:
            ops.append(['copy', n])
        elif r < 0.86:
            ops.append(['hand-over', n, f, rng.randrange(8), rng.randrange(4)])
        elif r < 0.91:
            ops.append(['route', n, f, rng.randrange(8), rng.randrange(4)])
        elif r < 0.96:
            t = rng.choice(types)
            ops.append(['fail', n, f, value(rng, t, 1.0)] if rng.random() < bad else ['read', n, f])
        else:
            ops.append(['gc'])
    points = sorted(rng.randrange(1, 4000) for _ in range(rng.choice((0, 0, 3))))
    return {'classes': classes, 'nodes': nodes, 'sources': sources, 'ops': ops, 'points': points}


def _other(current, kind):
    # within the range of colours, as everything else is fine with that too
    if kind in (int, np.int32, np.uint32):
        return kind((int(current) + 1) % 7)
    return kind(0.25) if current != 0.25 else kind(1.0)


def colored(word):
    return word.lower() in COLORS or word.startswith('#')


def change(obj, where):
    """Change something of the object in place; gives a change of the model"""
    if isinstance(obj, np.ndarray):
        if not obj.size:
            return False
        obj.flat[where % obj.size] = _other(obj.flat[where % obj.size], obj.dtype.type)
        return True
    if isinstance(obj, list):
        if obj and where % 3:
            i = where % len(obj)
            if isinstance(obj[i], str):
                obj[i] = '#%06x' % where if colored(obj[i]) else 'changed %d' % where
            elif isinstance(obj[i], list):
                row = obj[i]
                while isinstance(row[0], list):
                    row = row[0]
                row[0] = _other(row[0], float)
            else:
                obj[i] = _other(obj[i], type(obj[i]))
        elif obj and isinstance(obj[0], str):
            obj.append('#%06x' % where if colored(obj[0]) else 'added %d' % where)
        else:
            return False
        return True
    return False


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.classes, self.fields, self.defaults = [], [], []
        for i, c in enumerate(case['classes']):
            cls = make_class('Sim%d' % i, c)
            by_name = {f.name: f for f in value_fields(cls)}
            self.classes.append(cls)
            self.fields.append([by_name[f[0]] for f in c])
            self.defaults.append([zero(f[1]) if f[2] is None else expected(f[2]) for f in c])
        self.of = [n % len(self.classes) for n in case['nodes']]
        self.nodes = [self.classes[c]() for c in self.of]
        self.sources = [(s['t'], given(s)) for s in case['sources']]
        # what the sources would give now, worked out independently
        self.wanted = [s for s in case['sources']]
        self.model = {}
        self.routes = []

    def key(self, n, f):
        n %= len(self.nodes)
        return n, f % len(self.fields[self.of[n]])

    def field(self, key):
        return self.fields[self.of[key[0]]][key[1]]

    def value(self, key):
        """What the field is to have, whether assigned or default"""
        if key not in self.model:
            self.model[key] = keep(self.defaults[self.of[key[0]]][key[1]])
        return self.model[key]

    def snapshot(self, t, obj):
        """The canonical value of the object as it is now"""
        kind, dim, dtype = TYPES[t]
        if kind == 'strings':
            if isinstance(obj, str):
                return [obj]
            return [str(s) for s in obj]
        if isinstance(obj, str):
            obj = obj.replace(',', ' ').split()
        if isinstance(obj, list):
            obj = [i for item in obj for i in (spelled(item) if isinstance(item, str) else [item])]
        if isinstance(obj, (int, float)):
            obj = [float(obj)] * dim
        if isinstance(obj, np.ndarray):
            a = np.array(obj, dtype)
        elif kind == 'array':
            a = np.array(obj, dtype)
        else:
            a = np.array(list(_flat(obj)), dtype)
        if kind in ('vecs', 'colors'):
            a = a.reshape((-1, dim))
        elif kind in ('matrix', 'matrices'):
            a = a.reshape(((-1,) if kind == 'matrices' else ()) + (SIDES[dim],) * 2)
        elif kind != 'array':
            a = a.reshape((-1,))
        if kind in ('color', 'colors'):
            a = np.clip(a, 0.0, 1.0)
        return a

    def cascade(self, key, seen=None):
        """The routes carry the value on, as long as they are alive"""
        seen = seen if seen is not None else {key}
        for source, destination in self.routes_of(key):
            if destination in seen:
                continue
            seen.add(destination)
            self.model[destination] = keep(self.value(source))
            self.cascade(destination, seen)

    def routes_of(self, key):
        return [(s, d) for s, d, r in self.routes if s == key]

    def op(self, op):
        ctx = self.ctx
        kind = op[0]
        if kind == 'assign':
            key = self.key(op[1], op[2])
            t, obj = self.sources[op[3] % len(self.sources)]
            fld = self.field(key)
            if fld.typeName() != t or isinstance(obj, map):
                return
            wanted = self.snapshot(t, obj)
            target = self.nodes[key[0]]
            if op[4] == 'attr':
                setattr(target, fld.name, obj)
            elif op[4] == 'fset':
                fld.fset(target, obj)
            elif op[4] == 'quiet':
                fld.fset(target, obj, notify=0)
            elif len(self.nodes) < 8:
                c = self.of[key[0]]
                self.nodes.append(self.classes[c](**{fld.name: obj}))
                self.of.append(c)
                key = len(self.nodes) - 1, key[1]
            else:
                return
            self.model[key] = wanted
            if op[4] in ('attr', 'fset'):
                self.cascade(key)
            ctx.log('assign', key, op[3], op[4], plain(wanted))
            ctx.probe('assigned-shared-object')
        elif kind == 'change-source':
            t, obj = self.sources[op[1] % len(self.sources)]
            if change(obj, op[2]):
                ctx.fault('source-changed-in-place')
                ctx.log('change-source', op[1])
        elif kind == 'change-value':
            key = self.key(op[1], op[2])
            obj = getattr(self.nodes[key[0]], self.field(key).name)
            model = self.value(key)
            if change(model, op[3]):
                change(obj, op[3])
                ctx.fault('value-changed-in-place')
                ctx.log('change-value', key, plain(model))
        elif kind == 'delete':
            key = self.key(op[1], op[2])
            target = self.nodes[key[0]]
            if self.field(key).fhas(target):
                self.field(key).fdel(target, notify=0)
                self.model.pop(key, None)
        elif kind == 'new':
            if len(self.nodes) < 8:
                c = op[1] % len(self.classes)
                self.nodes.append(self.classes[c]())
                self.of.append(c)
        elif kind == 'copy':
            n = op[1] % len(self.nodes)
            if len(self.nodes) < 8:
                self.nodes.append(self.nodes[n].copy())
                self.of.append(self.of[n])
                for (m, f), v in list(self.model.items()):
                    if m == n:
                        self.model[len(self.nodes) - 1, f] = keep(v)
                ctx.probe('copied')
        elif kind == 'hand-over':
            # the very object one field holds is assigned to another
            a, b = self.key(op[1], op[2]), self.key(op[3], op[4])
            if a != b and self.field(a).typeName() == self.field(b).typeName():
                obj = getattr(self.nodes[a[0]], self.field(a).name)
                setattr(self.nodes[b[0]], self.field(b).name, obj)
                self.model[b] = keep(self.value(a))
                self.cascade(b)
                ctx.probe('handed-over')
        elif kind == 'route':
            a, b = self.key(op[1], op[2]), self.key(op[3], op[4])
            if a != b and self.field(a).typeName() == self.field(b).typeName() and len(self.routes) < 4:
                # no cycles here, they are another property's
                if self.reaches(b, a):
                    return
                r = route.ROUTE(self.nodes[a[0]], self.field(a).name, self.nodes[b[0]], self.field(b).name)
                self.routes.append((a, b, r))
        elif kind == 'fail':
            key = self.key(op[1], op[2])
            fld = self.field(key)
            if fld.typeName() != op[3]['t'] or op[3]['bad'] == 'transient':
                return
            try:
                setattr(self.nodes[key[0]], fld.name, given(op[3]))
            except Exception:
                ctx.fault('assignment-failed')
            else:
                ctx.fail('invalid-value-accepted', '%s', core.short(op[3]))
        elif kind == 'read':
            key = self.key(op[1], op[2])
            getattr(self.nodes[key[0]], self.field(key).name)
        elif kind == 'gc':
            core.collect(ctx)

    def reaches(self, a, b):
        return a == b or any(self.reaches(d, b) for s, d, r in self.routes if s == a)

    def verify(self):
        for n, target in enumerate(self.nodes):
            for f in range(len(self.fields[self.of[n]])):
                key = n, f
                fld = self.field(key)
                if key in self.model or fld.fhas(target):
                    actual = fld.fget(target)
                    self.ctx.check(
                        same(actual, self.value(key)),
                        'value-changed-from-elsewhere', '%s %s is %s, not %s',
                        key, fld.typeName(), core.short(actual), core.short(self.value(key)),
                    )


def _flat(v):
    for i in v:
        if isinstance(i, (list, tuple)):
            yield from _flat(i)
        else:
            yield i


POINTS = core.POINTS


def run(case, ctx):
    sim = Run(case, ctx)
    due = set(case['points'])

    def at(n, code, line):
        if n in due:
            POINTS.busy = True
            core.collect(ctx)
            POINTS.busy = False

    import contextlib

    with POINTS.run(at) if due else contextlib.nullcontext():
        for op in case['ops']:
            ctx.step()
            sim.op(op)
            sim.verify()
            ctx.state(sorted((k, plain(v)) for k, v in sim.model.items()))
    # new nodes have the defaults as they were declared
    for c, cls in enumerate(sim.classes):
        fresh = cls()
        for f, fld in enumerate(sim.fields[c]):
            actual = getattr(fresh, fld.name)
            ctx.check(
                same(actual, sim.defaults[c][f]), 'default-changed', '%s is %s, not %s',
                fld.typeName(), core.short(actual), core.short(sim.defaults[c][f]),
            )
    ctx.nontrivial = any(k.endswith('in-place') for k in ctx.counts)
