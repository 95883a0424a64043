"""P17: a text cut short is never read as something it did not say

Scenes get saved, and the write is torn: only a beginning survives, maybe with
zeros where the rest should be.  What survived is read, with collections and
failing allocations in between, by a parser which goes on being used.  Either it
is refused, or it gives leading items of the scene which was saved, complete and
unchanged; and the complete text reads as before afterwards.
"""

import random
import re

from vsim import core
from vsim.kit import *
from vsim.scenes import *
from vsim.props.p10 import style

TOKEN = re.compile(r'[^\[\]{}\s"\'#,\x00-\x10]')
PIECES = re.compile(r'"(?:[^"\\]|\\.)*"|#[^\n]*|[\[\]{}]|[^\[\]{}\s"#,]+|[\s,]+')


def gen(rng, config, tier):
    cuts = []
    for _ in range(rng.randrange(4, 30)):
        cut = [rng.choice(('any', 'any', 'edge', 'edge', 'top', 'top', 'top', 'low', 'low', 'late')), rng.randrange(1 << 30)]
        x = rng.random()
        if x < 0.1:
            cut.append(['zeros', rng.randrange(1, 600)])
        elif x < 0.16:
            cut.append(['allocation-failed', rng.randrange(1, rng.choice((100, 3000)))])
        elif x < 0.22:
            cut.append(['gc', rng.randrange(1, rng.choice((100, 3000)))])
        cuts.append(cut)
    return {
        'seed': rng.randrange(1 << 30), 'plain': rng.random() < 0.5, 'size': rng.randrange(1, 4), 'protos': rng.choice((0, 0, 1, 2, 3)),
        'style': rng.randrange(1 << 30), 'writer': rng.random() < 0.3, 'one': rng.random() < 0.6, 'cuts': cuts, 'policy': rng.choice(('lifo', 'never')),
    }  # fmt: skip


def simplify(op):
    if len(op) > 2:
        yield op[:2]


def reduce(case):
    for name, least in (('size', 1), ('protos', 0)):
        if case[name] > least:
            yield dict(case, **{name: case[name] - 1})
    for name in ('seed', 'style'):
        for k in range(20):
            if case[name] >= 20:
                yield dict(case, **{name: k})
    for name in ('plain', 'one', 'writer'):
        if not case[name]:
            yield dict(case, **{name: True})


def positions(text):
    """Where the text may be cut, by what is there"""
    found = {'any': list(range(len(text) + 1)), 'edge': [], 'top': [], 'low': [], 'late': list(range(max(0, len(text) - 40), len(text) + 1))}
    depth = 0
    for m in PIECES.finditer(text):
        edges = [m.start(), m.end()]
        found['edge'] += edges
        if m.group() in ('[', '{'):
            depth += 1
        inside = list(range(m.start(), m.end() + 1)) if m.end() - m.start() < 12 else edges
        if depth == 0:
            found['top'] += inside
        elif depth == 1:
            found['low'] += inside
        if m.group() in (']', '}'):
            depth -= 1
            if depth == 0:
                found['top'] += edges
    found['top'] = found['top'] or found['any']
    found['low'] = found['low'] or found['any']
    return found


class Read(object):
    """What reading gave, as plain data"""

    def __init__(self, scene):
        d = Description()
        self.children = [d.node(c) for c in scene.__dict__.get('children', ())]
        self.routes = []
        for r in scene.__dict__.get('routes', ()):
            ends = [d.numbers.get(id(r.source), 'elsewhere'), r.sourceField, d.numbers.get(id(r.destination), 'elsewhere'), r.destinationField]
            self.routes.append(ends)
        self.names = {n: d.numbers.get(id(v), 'elsewhere') for n, v in scene.defNames.items() if n and v is not None}
        self.protos = describe_protos(own_protos(scene))
        # DEF names which are given more than once
        given = [i.__dict__.get(' DEF') for i in d.keep]
        self.twice = {n for n in given if given.count(n) > 1}

    def __eq__(self, other):
        return self.differs(other) is None

    def differs(self, other):
        return (
            difference(self.children, other.children, 'children') or difference(self.routes, other.routes, 'routes')
            or difference(self.names, other.names, 'names') or difference(self.protos, other.protos, 'protos')
        )  # fmt: skip

    def leads(self, full, cut_within):
        """What is in here which is not so in the full one"""
        children, routes = self.children, self.routes
        found = self.others(children, routes, full)
        if found and cut_within:
            # the last item ends with a name which was cut
            if routes and self.others(children, routes[:-1], full) is None:
                return None
            if children and self.others(children[:-1], routes, full) is None:
                return None
        return found

    def others(self, children, routes, full):
        found = difference(full.children[: len(children)], children, 'children') or difference(full.routes[: len(routes)], routes, 'routes')
        for n in sorted(self.protos):
            found = found or difference(full.protos.get(n, 'missing'), self.protos[n], 'protos/' + n)
        for n in sorted(self.names):
            if n not in full.names or n not in full.twice and full.names[n] != self.names[n]:
                found = found or 'name %s: %s, not %s' % (n, self.names[n], full.names.get(n))
        return found


class Run(object):
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        r = random.Random(case['seed'])
        builder = Builder(case['plain'])
        for _ in range(case['protos']):
            builder.proto(r)
        roots = builder.nodes(r, 2, [], case['size'])
        routes = builder.routes(r, roots, r.choice((0, 1, 2, 4)))
        self.text = Writer(r).scene(roots, routes, list(builder.known.values()))
        if not case['writer']:
            values, named = style(random.Random(case['style']))
            self.text = linearise.linearise(parse(self.text), values, **named)
        self.reader = parser.buildParser()
        self.full = Read(self.read(self.text))
        self.where = positions(self.text)

    def read(self, text):
        reader = self.reader if self.case['one'] else parser.buildParser()
        success, (tags, scene), stopped = self.parts(reader.parse(text))
        if not success:
            raise ValueError('refused')
        return scene

    def parts(self, result):
        success, found, stopped = result
        return success, (found[0], found[1]), stopped

    def fault(self, what):
        ctx, points = self.ctx, core.POINTS

        def at_line(n, code, line):
            if n != what[1]:
                return
            if what[0] == 'gc':
                points.busy = True
                try:
                    core.collect(ctx)
                finally:
                    points.busy = False
            else:
                ctx.fault('allocation-failed')
                raise MemoryError('injected')

        return points.run(at_line)

    def cut(self, kind, n, what=None):
        ctx = self.ctx
        found = self.where[kind]
        at = found[n % len(found)]
        text = self.text[:at]
        ctx.fault('write-torn')
        if what and what[0] == 'zeros':
            text += '\0' * what[1]
            ctx.fault('rest-zeroed')
        within = 0 < at < len(self.text) and TOKEN.match(self.text[at - 1]) and TOKEN.match(self.text[at])
        try:
            if what and what[0] != 'zeros':
                with self.fault(what):
                    scene = self.read(text)
            else:
                scene = self.read(text)
        except Exception as err:
            ctx.log(kind, at, type(err).__name__)
            ctx.probe('refused-' + kind)
            return
        got = Read(scene)
        wrong = got.leads(self.full, within)
        ctx.check(wrong is None, 'says-otherwise', '%s after %s', wrong, repr(text[-60:]))
        ctx.log(kind, at, len(got.children), len(got.routes), sorted(got.protos))
        ctx.probe('leading-items')
        ctx.nontrivial += len(got.children) + len(got.protos) > 0
        ctx.state(len(got.children), len(got.routes), len(got.protos), kind, len(self.full.children))

    def whole(self):
        found = self.full.differs(Read(self.read(self.text)))
        self.ctx.check(found is None, 'reads-otherwise', '%s', found)


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    sim = Run(case, ctx)
    for op in case['cuts']:
        ctx.step()
        sim.cut(*op)
        core.ADDRESSES.release()
    sim.whole()
    # by anybody else as well
    sim.reader = parser.buildParser()
    sim.whole()
