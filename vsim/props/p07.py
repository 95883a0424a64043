"""P07: the matrix of a path is that of the transforms as they are now

Strong and weak paths through shared transforms get built, extended, asked and
dropped while the transforms' fields are set, deleted and routed to; computing
fails at any line, the collector runs, nodes of weak paths die, watchers ask for
matrices while the caches are being told of a change.
"""

import math

from vsim import core
from vsim.kit import *

DEFAULTS = {
    'translation': [0.0, 0.0, 0.0], 'center': [0.0, 0.0, 0.0], 'scale': [1.0, 1.0, 1.0],
    'rotation': [0.0, 0.0, 1.0, 0.0], 'scaleOrientation': [0.0, 0.0, 1.0, 0.0],
}  # fmt: skip
NAMES = sorted(DEFAULTS)
AXES = [[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [0.5, -0.25, 2.0], [0.0, -3.0, 0.0], [0.25, 0.0, 0.0], [0.25, 0.5, -0.25]]


def setting(rng, name=None):
    name = name or rng.choice(NAMES)
    if rng.random() < 0.12:
        return name, list(DEFAULTS[name])
    if name in ('translation', 'center'):
        v = [rng.choice((0.0, 1.0, -2.0, 0.5, 10.0, -33.25)) for _ in range(3)]
    elif name == 'scale':
        v = [rng.choice((1.0, 2.0, 0.5, -1.0, 0.25, 3.0)) for _ in range(3)]
    else:
        v = rng.choice(AXES) + [rng.choice((0.0, 0.5, 1.5, -0.75, 3.0, 6.0))]
    return name, v


def flags(rng):
    if rng.random() < 0.5:
        return [True, True, True, rng.random() < 0.5]
    return [rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5]


def gen(rng, config, tier):
    kinds = [rng.choice(('Transform', 'Transform', 'Transform', 'Mine', 'Group', 'Shape')) for _ in range(rng.randrange(2, 6))]
    favourite = [flags(rng) for _ in range(rng.randrange(1, 4))]

    def some():
        return rng.choice(favourite) if rng.random() < 0.75 else flags(rng)

    start = []
    for i in range(rng.randrange(0, 4)):
        start.append([rng.randrange(6)] + list(setting(rng)))
    ops = []
    for _ in range(rng.randrange(5, 40)):
        r = rng.random()
        if r < 0.30:
            op = ['ask', rng.randrange(8), some(), rng.choice(('named', 'positional', 'ints'))]
            if rng.random() < 0.25:
                op.append({'what': rng.choice(('memory', 'memory', 'runtime', 'gc')), 'at': rng.randrange(1, 90)})
            ops.append(op)
        elif r < 0.60:
            ops.append(['set', rng.randrange(6)] + list(setting(rng)) + [rng.choice(('attr', 'attr', 'fset', 'route', 'fresh'))])
        elif r < 0.65:
            ops.append(['del', rng.randrange(6), rng.choice(NAMES)])
        elif r < 0.68:
            ops.append(['reject', rng.randrange(6), rng.choice(NAMES)])
        elif r < 0.77:
            ops.append(['path', [rng.randrange(6) for _ in range(rng.randrange(0, 5))], rng.random() < 0.4])
        elif r < 0.86:
            ops.append(['extend', rng.randrange(8), [rng.randrange(6) for _ in range(rng.choice((1, 1, 1, 2, 0)))], rng.random() < 0.5])
        elif r < 0.90:
            ops.append(['forget', rng.randrange(8)])
        elif r < 0.94:
            ops.append(['die', rng.randrange(6)])
        elif r < 0.95:
            ops.append(['direct', dict(setting(rng) for _ in range(rng.randrange(0, 5))), dict(setting(rng) for _ in range(rng.choice((0, 0, 2))))])
        elif r < 0.97:
            ops.append(['watch', rng.randrange(6), rng.choice(NAMES), rng.randrange(8), some()])
        else:
            ops.append(['gc'])
    return {
        'kinds': kinds, 'start': start, 'ops': ops,
        'paths': [[[rng.randrange(6) for _ in range(rng.randrange(1, 5))], rng.random() < 0.3] for _ in range(rng.randrange(1, 4))],
        'policy': rng.choice(('lifo', 'lifo', 'never')),
    }  # fmt: skip


# -- the reference: all in double precision, from what was assigned
def translation(v):
    m = np.identity(4)
    m[3, :3] = v[:3]
    return m


def scaling(v):
    return np.diag([v[0], v[1], v[2], 1.0])


def rotation(v):
    x, y, z, a = v
    length = math.sqrt(x * x + y * y + z * z)
    x, y, z = x / length, y / length, z / length
    # Rodrigues; transposed, as points are rows
    k = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    r = np.identity(3) + math.sin(a) * k + (1 - math.cos(a)) * k.dot(k)
    m = np.identity(4)
    m[:3, :3] = r.T
    return m


def inverse_of(kind, v):
    if kind is scaling:
        return scaling([1.0 / i for i in v])
    if kind is rotation:
        return rotation(list(v[:3]) + [-v[3]])
    return translation([-i for i in v])


def steps(values, translate, scale, rotate):
    """What is applied to a point of the node, in order, to get its parent's"""
    result = []
    center = values['center'] if scale or rotate else DEFAULTS['center']
    result.append((translation, [-i for i in center]))
    if scale:
        turned = values['scaleOrientation']
        result.append((rotation, list(turned[:3]) + [-turned[3]]))
        result.append((scaling, values['scale']))
        result.append((rotation, turned))
    if rotate:
        result.append((rotation, values['rotation']))
    result.append((translation, center))
    if translate:
        result.append((translation, values['translation']))
    return result


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.mine = type('Mine', (basenodes.Transform,), {'PROTO': 'Mine'})
        self.kinds = case['kinds']
        self.nodes, self.values = [], []
        for kind in case['kinds']:
            self.create(kind)
        self.paths = []
        self.watchers = []
        self.feeders = []
        for n, name, v in case['start']:
            self.set(n % len(self.nodes), name, v, 'attr')
        for members, weak in case['paths']:
            self.new_path(members, weak)

    def create(self, kind, index=None):
        made = self.mine() if kind == 'Mine' else standard()[kind]()
        values = {k: list(v) for k, v in DEFAULTS.items()} if kind in ('Transform', 'Mine') else None
        if index is None:
            self.nodes.append(made)
            self.values.append(values)
        else:
            self.nodes[index], self.values[index] = made, values

    def new_path(self, members, weak):
        members = [m % len(self.nodes) for m in members]
        cls = nodepath97.WeakNodePath if weak else nodepath97.NodePath
        made = cls([self.nodes[m] for m in members])
        if len(self.paths) < 8:
            self.paths.append([made, [(m, self.values[m]) for m in members], weak])

    # -- the reference
    def expected(self, members, wanted):
        translate, scale, rotate, inverse = wanted
        point = []
        for m, values in reversed(members):
            if values is not None:
                point.extend(steps(values, translate, scale, rotate))
        result, bound = np.identity(4), np.identity(4)
        if inverse:
            made = [inverse_of(kind, v) for kind, v in reversed(point)]
        else:
            made = [kind(v) for kind, v in point]
        for m in made:
            result, bound = result.dot(m), bound.dot(np.abs(m))
        return result, bound

    def judge(self, entry, wanted, got, cls='wrong-matrix'):
        result, bound = self.expected(entry[1], wanted)
        got = np.asarray(got, 'd')
        self.ctx.check(got.shape == (4, 4), 'no-matrix', '%s', core.short(got))
        close = np.abs(got - result) <= bound * 2e-5 + 2e-6
        self.ctx.check(
            bool(close.all()), cls, 'path %s, %s: %s, not %s', [m for m, v in entry[1]], wanted,
            np.round(got, 5).tolist(), np.round(result, 5).tolist(),
        )  # fmt: skip

    def query(self, path, wanted, how='named'):
        translate, scale, rotate, inverse = wanted
        if how == 'ints':
            translate, scale, rotate, inverse = int(translate), int(scale), int(rotate), int(inverse)
        if how == 'positional':
            return path.transformMatrix(translate, scale, rotate, inverse=inverse)
        return path.transformMatrix(translate=translate, scale=scale, rotate=rotate, inverse=inverse)

    # -- operations
    def ask(self, op):
        ctx = self.ctx
        if not self.paths:
            return
        entry = self.paths[op[1] % len(self.paths)]
        fault = op[4] if len(op) > 4 else None
        wanted = op[2]
        ctx.log('ask', [m for m, v in entry[1]], wanted, fault)
        if not fault:
            self.judge(entry, wanted, self.query(entry[0], wanted, op[3]))
            return
        points = core.POINTS
        raised = []

        def at_line(n, code, line):
            if n < fault['at'] or raised:
                return
            if fault['what'] != 'gc':
                # what computes may fail, and what connects
                if 'matrix' not in code.co_filename and not code.co_name.startswith('depend'):
                    return
            elif n != fault['at']:
                return
            if fault['what'] == 'gc':
                points.busy = True
                try:
                    core.collect(ctx)
                finally:
                    points.busy = False
                return
            ctx.fault('computation-failed')
            raised.append(1)
            raise {'memory': MemoryError, 'runtime': RuntimeError}[fault['what']]('injected')

        try:
            with points.run(at_line):
                got = self.query(entry[0], wanted, op[3])
        except (MemoryError, RuntimeError):
            ctx.check(raised, 'query-failed', '%s', wanted)
            # asked again, it is right
            got = self.query(entry[0], wanted, op[3])
            self.judge(entry, wanted, got, 'wrong-after-failure')
        else:
            self.judge(entry, wanted, got)

    def set(self, n, name, v, how):
        values = self.values[n]
        if values is None:
            return
        target = self.nodes[n]
        self.ctx.log('set', n, name, v, how)
        if how == 'fset':
            protofunctions.getField(target, name).fset(target, tuple(v))
        elif how == 'route':
            feeder = standard()['Transform']()
            wire = route.ROUTE(feeder, name, target, name)
            setattr(feeder, name, v)
            if len(self.feeders) < 3:
                # keeps feeding, and has a cached matrix of its own
                self.feeders.append((feeder, wire))
            self.ctx.fault('routed')
        elif how == 'fresh':
            setattr(target, name, np.array(v, 'd'))
        else:
            setattr(target, name, v)
        values[name] = [float(np.float32(i)) for i in v]

    def op(self, op):
        ctx = self.ctx
        kind = op[0]
        if kind == 'ask':
            self.ask(op)
        elif kind == 'set':
            self.set(op[1] % len(self.nodes), op[2], op[3], op[4])
        elif kind == 'del':
            n = op[1] % len(self.nodes)
            if self.values[n] is not None:
                fld = protofunctions.getField(self.nodes[n], op[2])
                if fld.fhas(self.nodes[n]):
                    delattr(self.nodes[n], op[2])
                    self.values[n][op[2]] = list(DEFAULTS[op[2]])
        elif kind == 'reject':
            n = op[1] % len(self.nodes)
            if self.values[n] is not None:
                ctx.fault('assignment-rejected')
                try:
                    setattr(self.nodes[n], op[2], ['x', 1.0])
                except ValueError:
                    pass
                else:
                    ctx.fail('invalid-value-accepted', '%s', op[2])
        elif kind == 'path':
            self.new_path(op[1], op[2])
        elif kind == 'direct':
            self.direct(op[1], op[2])
        elif kind == 'extend':
            self.extend(op)
        elif kind == 'forget':
            if self.paths:
                self.paths.pop(op[1] % len(self.paths))
                core.collect(ctx)
                ctx.fault('path-dropped')
        elif kind == 'die':
            self.die(op[1] % len(self.nodes))
        elif kind == 'watch':
            self.watch(op)
        elif kind == 'gc':
            core.collect(ctx)

    def direct(self, given, parent):
        """The matrices of fields' values, asked for without nodes"""
        def judge(got, chain, inverse, cls):
            members = [(n, dict(DEFAULTS, **values)) for n, values in enumerate(chain)]
            self.judge([None, members], [True, True, True, inverse], np.identity(4) if got is None else got, cls)

        f = transformmatrix
        above = f.transformMatrix(**parent)
        judge(above, [parent], False, 'wrong-transform-matrix')
        judge(f.transformMatrix(parentMatrix=above, **given), [parent, given], False, 'wrong-transform-matrix')
        judge(f.itransformMatrix(**given), [given], True, 'wrong-transform-matrix')
        # for inverses it is the matrix of what is below
        below = f.itransformMatrix(**parent)
        judge(f.itransformMatrix(parentMatrix=below, **given), [given, parent], True, 'wrong-transform-matrix')
        judge(f.transformMatrices(parentMatrix=above, **given)[0], [parent, given], False, 'wrong-transform-matrices')
        judge(f.transformMatrices(parentMatrix=below, **given)[1], [given, parent], True, 'wrong-transform-matrices')
        for pair in (f.transformMatrices(**given), f.localMatrices(**given)):
            judge(pair[0], [given], False, 'wrong-transform-matrices')
            judge(pair[1], [given], True, 'wrong-transform-matrices')
        # where the center comes to be
        named = {k: given[k] for k in ('translation', 'center') if k in given}
        got = np.asarray(f.center(parentMatrix=above, **named), 'd')
        matrix, bound = self.expected([(0, dict(DEFAULTS, **parent)), (1, dict(DEFAULTS, translation=given.get('translation', [0.0] * 3)))], [True, True, True, False])
        point = np.array(list(given.get('center', [0.0] * 3)) + [1.0])
        wanted, bound = point.dot(matrix), np.abs(point).dot(bound)
        self.ctx.check(
            bool((np.abs(got - wanted) <= bound * 2e-5 + 2e-6).all()), 'wrong-center', '%s below %s: %s, not %s',
            given, parent, np.round(got, 5).tolist(), np.round(wanted, 5).tolist(),
        )  # fmt: skip

    def extend(self, op):
        if not self.paths:
            return
        path, members, weak = self.paths[op[1] % len(self.paths)]
        added = [m % len(self.nodes) for m in op[2]]
        if op[3] and len(added) == 1:
            made = path + self.nodes[added[0]]
        else:
            made = path + [self.nodes[m] for m in added]
        self.ctx.log('extend', [m for m, v in members], added)
        if len(self.paths) < 8:
            self.paths.append([made, members + [(m, self.values[m]) for m in added], weak])

    def die(self, n):
        """The node dies; strong paths keep it, so they go first"""
        ctx = self.ctx
        values = self.values[n]
        if values is None:
            return
        old = self.nodes[n]
        self.paths = [p for p in self.paths if p[2] or not any(v is values for m, v in p[1])]
        for p in self.paths:
            p[1] = [(m, v) for m, v in p[1] if v is not values]
        self.watchers = [w for w in self.watchers if w.node() is not old]
        self.feeders = []
        ctx.log('die', n)
        del old
        self.nodes[n] = None
        core.collect(ctx)
        core.ADDRESSES.release()
        ctx.fault('node-died')
        self.create(self.kinds[n], n)

    def watch(self, op):
        """A watcher which asks for matrices while caches are being told"""
        n = op[1] % len(self.nodes)
        if self.values[n] is None or not self.paths:
            return
        watcher = Watcher(self, self.nodes[n], self.paths[op[3] % len(self.paths)][0], op[4])
        self.watchers.append(watcher)
        fld = protofunctions.getField(self.nodes[n], op[2])
        for what in ('set', 'del', 'route'):
            fld.watch(self.nodes[n], watcher, (what, fld))

    def verify(self, wanted):
        for entry in self.paths:
            self.judge(entry, wanted, self.query(entry[0], wanted), 'wrong-matrix')


class Watcher(object):
    def __init__(self, run, node_, path, wanted):
        import weakref

        self.run, self.wanted = run, wanted
        self.node, self.path = weakref.ref(node_), weakref.ref(path)

    def __call__(self, signal, sender, value=None):
        path = self.path()
        if path is not None:
            # what it gets depends on who is told first, what others get
            # afterwards does not
            self.run.ctx.fault('asked-within-notification')
            self.run.query(path, self.wanted)


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    sim = Run(case, ctx)
    seen = []
    for op in case['ops']:
        ctx.step()
        sim.op(op)
        core.ADDRESSES.release()
        if op[0] == 'ask' and op[2] not in seen:
            seen.append(op[2])
        ctx.state([v for v in sim.values], [[m for m, v in p[1]] for p in sim.paths])
    for wanted in seen + [[True, True, True, False], [True, True, True, True]]:
        sim.verify(wanted)
    if core.ADDRESSES.reused:
        ctx.fault('address-reused', core.ADDRESSES.reused)
    ctx.nontrivial = len(seen) > 0 and len(ctx.states) > 2
