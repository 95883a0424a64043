"""P14: the accelerated and the pure implementations behave the same

The library is loaded twice into one process, with and without the extensions.
The same history of operations goes to both, step by step: the results, the
kinds of errors, what was notified and what is stored must agree after every
step; matrices within rounding.  Whole histories of other properties' workloads
are run on both as well, and what they observed is compared line by line.
"""

import importlib
import sys

from pydispatch import dispatcher

from vsim import core

TYPED = None
# workloads of other properties which may be compared; faults at lines of code are not the same
WORKLOADS = ('p01', 'p02', 'p03', 'p04', 'p05', 'p07', 'p09', 'p12', 'p13')
WORLDS = {}
OURS = ('vsim.kit', 'vsim.lab', 'vsim.scenes', 'vsim.rooted', 'vsim.props.')


def belongs(name):
    return name.split('.')[0] in ('vrml', 'vrml_accelerate') or any(name.startswith(o) for o in OURS) and name != __name__


def take():
    """The modules of which there are two are taken out"""
    found = {n: m for n, m in sys.modules.items() if belongs(n)}
    for n in found:
        del sys.modules[n]
        package, _, last = n.rpartition('.')
        if package in ('vsim', 'vsim.props'):
            vars(sys.modules[package]).pop(last, None)
    return found


def give(modules):
    sys.modules.update(modules)
    for n, m in modules.items():
        package, _, last = n.rpartition('.')
        if package in ('vsim', 'vsim.props'):
            setattr(sys.modules[package], last, m)


class Implementation(object):
    """One of the loaded libraries, with the tools which use it"""

    def __init__(self, name, accelerated):
        self.name = name
        self.modules = {}
        if not accelerated:
            self.modules['vrml_accelerate'] = None
        with self:
            self.lab = importlib.import_module('vsim.lab')
            self.lab_errors = self.lab.ERRORS
            from vrml import field

            for module in WORKLOADS:
                importlib.import_module('vsim.props.' + module)
            found = [b.__module__ for b in field.Field.__mro__ if b.__name__ == 'BaseField']
            if (found[0] != 'vrml.field') != accelerated:
                raise core.HarnessError('%s: fields come from %s' % (name, found))

    def __enter__(self):
        self.before = take()
        give(self.modules)

    def __exit__(self, *args):
        self.modules = take()
        give(self.before)

    def module(self, name):
        return self.modules['vsim.props.' + name]


def prepare(config, accel_path):
    take()
    WORLDS['accelerated'] = Implementation('accelerated', True)
    WORLDS['pure'] = Implementation('pure', False)


IDENTITY = [[float(i == j) for i in range(4)] for j in range(4)]
HOW_SET = ['attr', 'attr', 'descriptor', 'fset', 'keyword', 'false', 'true', '0', '1', 'class', 'constructor']
HOW_GET = ['attr', 'attr', 'fget', 'both', 'class', 'has', 'hasattr', 'default', 'default-for', 'copy', 'copy-field', 'str', 'copy-node', 'attributes']
HOW_DEL = ['attr', 'attr', 'descriptor', 'fdel', 'keyword', 'false', 'true', '0', '1', 'class']
PARTS = ('translation', 'center', 'rotation', 'scale', 'scaleOrientation')


def kit():
    return WORLDS['accelerated'].modules['vsim.kit']


def gen(rng, config, tier):
    with WORLDS['accelerated']:
        return made(rng, tier)


def made(rng, tier):
    if rng.random() < 0.3:
        name = rng.choice(WORKLOADS)
        case = WORLDS['accelerated'].module(name).gen(rng, rng.choice(('pure', 'accel')), tier)
        return {'workload': name, 'case': case}
    k = kit()
    errors = sorted(WORLDS['accelerated'].lab_errors)
    types = [rng.sample(k.ALL, 5) for _ in range(2)]
    used = sorted(set(types[0] + types[1] + ['SFFloat', 'SFTime', 'SFInt32', 'SFBool', 'SFString', 'MFString', 'SFVec3f', 'SFColor']))
    bad = rng.choice((0.0, 0.2, 0.4))

    def any_value(t=None):
        if t is not None:
            return {'n': rng.randrange(24), 'of': {t: k.value(rng, t, bad)}}
        return {'n': rng.randrange(24), 'of': {t: k.value(rng, t, bad) for t in used}}

    def some(v, n):
        return [rng.choice(v) for _ in range(n)]

    def cls(n):
        fields = []
        for t in rng.sample(types[n], rng.randrange(1, 6)):
            x = rng.random()
            if x < 0.15:
                fields.append(['picky', 'SFFloat', k.value(rng, 'SFFloat') if rng.random() < 0.5 else None, some([None, None, 'none'] + errors, 4)])
            elif x < 0.25:
                fields.append(['event', t if t in k.PARSED else 'SFFloat', None, None])
            elif x < 0.4:
                fields.append(['factory', t, k.value(rng, t, bad), some([None, None, 'none'] + errors, 3)])
            elif x < 0.5:
                fields.append(['nodes', rng.choice(('SFNode', 'MFNode')), None, None])
            else:
                fields.append(['field', t, k.value(rng, t, 0.15) if rng.random() < 0.6 else None, None])
        return ['class', fields]

    ops = [cls(0)] + ([cls(1)] if rng.random() < 0.5 else [])
    ops += [['new', rng.randrange(2), []] for _ in range(rng.randrange(1, 4))]
    kinds = ['set'] * 8 + ['get'] * 4 + ['del'] * 3 + ['new', 'watch', 'watch', 'unwatch', 'coerce', 'check', 'refuse', 'text', 'route', 'gc']
    moves = ['matrix', 'matrix', 'transform', 'transform', 'move', 'move', 'path', 'path']
    x = rng.random()
    kinds = kinds if x < 0.6 else moves if x < 0.8 else kinds + moves
    for _ in range(rng.randrange(4, 30)):
        kind = rng.choice(kinds)
        n, f = rng.randrange(4), rng.randrange(8)
        if kind == 'set':
            ops.append([kind, n, f, any_value(), rng.choice(HOW_SET)])
        elif kind == 'get':
            ops.append([kind, n, f, rng.choice(HOW_GET)])
        elif kind == 'del':
            ops.append([kind, n, f, rng.choice(HOW_DEL)])
        elif kind == 'new':
            ops.append([kind, n, []])
        elif kind in ('coerce', 'check'):
            ops.append([kind, n, f, any_value()])
        elif kind == 'refuse':
            ops.append([kind, n, f, some([None, 'none', 'none'] + errors, rng.randrange(1, 4))])
        elif kind == 'watch':
            how = rng.choice((['see'], ['raise', rng.choice(errors)], ['set', rng.randrange(3), rng.randrange(8), rng.choice(HOW_SET[:9])], ['del', rng.randrange(3), rng.randrange(8)]))
            ops.append([kind, n, f, rng.choice(('set', 'set', 'del')), any_value(), how])
        elif kind == 'unwatch':
            ops.append([kind, n])
        elif kind == 'text':
            ops.append([kind, n])
        elif kind == 'route':
            ops.append([kind, n, f, rng.randrange(4), rng.randrange(8)])
        elif kind == 'matrix':
            ops.append(matrix(rng, k))
        elif kind == 'transform':
            ops.append([kind, parts(rng, k)])
        elif kind == 'move':
            part = rng.choice(PARTS)
            ops.append([kind, n, part, part_value(rng, k, part), rng.random() < 0.2])
        elif kind == 'path':
            ops.append([kind, [rng.randrange(4) for _ in range(rng.randrange(4))], rng.randrange(3)])
        else:
            ops.append(['gc'])
    return {'ops': ops}


def single(k, v):
    return float(k.np.float32(v))


def part_value(rng, k, part):
    def number(low, high):
        return single(k, rng.choice((0.0, 1.0, -1.0, 0.5, 2.0, rng.uniform(low, high), rng.uniform(low, high))))

    if part in ('rotation', 'scaleOrientation'):
        axis = [number(-2, 2) for _ in range(3)]
        if rng.random() < 0.9 and not any(axis):
            axis[rng.randrange(3)] = 1.0
        return axis + [single(k, rng.choice((0.0, 3.141592653589793, 6.283185307179586, -1.5, 1e-9, 5e-4, 12.566370614359172, rng.uniform(-20, 20), rng.uniform(-20, 20))))]
    if part == 'scale':
        return [single(k, rng.choice((1.0, 1.0, 2.0, 0.5, -1.0, rng.uniform(0.1, 5)))) for _ in range(3)]
    return [number(-50, 50) for _ in range(3)]


def parts(rng, k):
    return [part_value(rng, k, p) if rng.random() < 0.6 else None for p in PARTS]


def matrix(rng, k):
    name = rng.choice(('rotMatrix', 'scaleMatrix', 'transMatrix', 'center', 'perspectiveMatrix', 'perspectiveMatrix', 'orthoMatrix', 'orthoMatrix',
                       'transformMatrix', 'itransformMatrix', 'transformMatrices', 'localMatrices'))  # fmt: skip
    how = rng.choice(('plain', 'tuple', 'array', 'double', 'keyword'))
    if name == 'perspectiveMatrix':
        near = single(k, rng.uniform(0.01, 5))
        values = [single(k, rng.uniform(0.05, 3.0)), single(k, rng.uniform(0.2, 5)), near, single(k, near + rng.uniform(0.5, 1000))]
        if rng.random() < 0.3:
            values = values[: rng.randrange(5)]
    elif name == 'orthoMatrix':
        values = []
        for _ in range(3):
            low = rng.choice((-1.0, 0.0, single(k, rng.uniform(-100, 100)), rng.randrange(-5, 5)))
            values += [low, rng.choice((1, -1)) * single(k, rng.uniform(0.5, 200)) + low]
        if rng.random() < 0.3:
            values = values[: rng.choice((0, 2, 4))]
    elif name in ('rotMatrix', 'scaleMatrix', 'transMatrix'):
        part = {'rotMatrix': 'rotation', 'scaleMatrix': 'scale', 'transMatrix': 'translation'}[name]
        values = [part_value(rng, k, part) if rng.random() < 0.9 else None]
    elif name == 'center':
        values = [part_value(rng, k, 'translation'), part_value(rng, k, 'center')]
    else:
        values = [part_value(rng, k, p) for p in PARTS]
    return ['matrix', name, values, how, rng.random() < 0.4]


def simplify(op):
    if op[0] == 'set' and op[4] != 'attr':
        yield op[:4] + ['attr']
    if op[0] in ('set', 'coerce', 'check') and len(op[3]['of']) > 1:
        for t in sorted(op[3]['of']):
            yield op[:3] + [dict(op[3], of={t: op[3]['of'][t]})] + op[4:]


def reduce(case):
    if 'workload' in case:
        module = WORLDS['accelerated'].module(case['workload'])
        inner = case['case']
        for name in sorted(inner):
            if isinstance(inner[name], list):
                size = len(inner[name])
                step = size
                while step > 0:
                    for at in range(0, size, step):
                        yield dict(case, case=dict(inner, **{name: inner[name][:at] + inner[name][at + step :]}))
                    step //= 2
        if hasattr(module, 'reduce'):
            with WORLDS['accelerated']:
                found = list(module.reduce(inner))
            for one in found:
                yield dict(case, case=one)


def alike(a, b, close):
    """Whether both are the same, but for rounding where that may be"""
    if isinstance(a, list) and isinstance(b, list):
        if close and ['array'] in (a[:1], b[:1]) and {a[0], b[0]} <= {'array', 'NoneType'}:
            # which floating point type is not said, and no matrix says the identity
            a, b = (IDENTITY if i[0] == 'NoneType' else i[2] for i in (a, b))
            return numbers_alike(a, b)
        return len(a) == len(b) and all(alike(x, y, close) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(alike(a[key], b[key], close) for key in a)
    if close and isinstance(a, float) and isinstance(b, float):
        return numbers_alike(a, b)
    return type(a) == type(b) and (a == b or a != a and b != b)


def numbers_alike(a, b):
    np = kit().np
    a, b = np.array(a, 'd'), np.array(b, 'd')
    if a.shape != b.shape:
        return False
    finite = np.isfinite(a) & np.isfinite(b)
    size = max(1.0, float(np.abs(a[finite]).max()) if finite.any() else 1.0)
    return bool((finite | (np.isnan(a) & np.isnan(b)) | (a == b)).all()) and bool((np.abs(a - b)[finite] <= 1e-4 * size).all())


def run(case, ctx):
    if 'workload' in case:
        return compare(case, ctx)
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = 'lifo'
    core.ADDRESSES.active = True
    labs = {}
    for name, world in sorted(WORLDS.items()):
        with world:
            labs[name] = world.lab.Lab(ctx)
    try:
        for op in case['ops']:
            ctx.step()
            got = {}
            for name, world in sorted(WORLDS.items()):
                with world:
                    if op[0] == 'gc':
                        core.collect(ctx)
                        got[name] = None
                    else:
                        got[name] = labs[name].do(op)
            a, b = got['accelerated'], got['pure']
            close = op[0] in ('matrix', 'path')
            if a is not None:
                for what, x, y in zip(('result', 'notifications', 'values'), a, b):
                    ctx.check(alike(x, y, close), what + '-differ', '%s: accelerated %s, pure %s', op[:2], *apart(x, y, close))
                ctx.nontrivial += op[0] in ('set', 'matrix', 'path')
                ctx.probe(('raises-' + a[0][1]) if a[0][0] == 'raises' else 'gives')
                # digests must not depend on rounding
                ctx.log(op[0], b[0] if not close else b[0][:1], b[1], b[2])
                ctx.state(repr(b[1:]))
    finally:
        for name, world in sorted(WORLDS.items()):
            with world:
                labs[name].close()


def apart(a, b, close):
    """Where they differ"""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and not (close and a[:1] == ['array']):
        for x, y in zip(a, b):
            if not alike(x, y, close):
                return apart(x, y, close)
    if isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b):
        for key in sorted(a):
            if not alike(a[key], b[key], close):
                return apart(a[key], b[key], close)
    return core.short(repr(a), 300), core.short(repr(b), 300)


class Observed(core.Ctx):
    """Keeps what a workload saw"""

    def __init__(self, real):
        core.Ctx.__init__(self, True)
        self.real, self.seen = real, []

    def log(self, *items):
        self.seen.append(repr(items))

    def fault(self, kind, n=1):
        self.real.fault(kind, n)


def compare(case, ctx):
    """Another property's workload on both, without its faults at lines of the code"""
    seen = {}
    for name, world in sorted(WORLDS.items()):
        observed = Observed(ctx)
        # the dispatcher is one; nobody of the other run listens
        for table in (dispatcher.connections, dispatcher.senders, dispatcher.sendersBack):
            table.clear()
        with world:
            module = world.module(case['workload'])
            # the lines of one are not those of the other
            core.POINTS.off = True
            try:
                module.run(core.jsonable(case['case']), observed)
                end = 'ends'
            except core.Violation as err:
                # right or wrong is for that property to say
                end = err.cls
            except core.HarnessError:
                raise
            except BaseException as err:
                end = type(err).__name__
            finally:
                core.POINTS.off = False
        seen[name] = observed.seen + [end]
    a, b = seen['accelerated'], seen['pure']
    for n, (x, y) in enumerate(zip(a, b)):
        ctx.check(x == y, 'workload-differs', '%s: accelerated %s, pure %s', case['workload'], core.short(x, 400), core.short(y, 400))
    ctx.check(len(a) == len(b), 'workload-differs', '%s: one goes on', case['workload'])
    ctx.log(case['workload'], a)
    ctx.state(case['workload'], repr(a))
    ctx.probe('workload-' + case['workload'])
    ctx.nontrivial += len(a) > 2
