"""P23: a text is read as what it says, however it is laid out

Texts are generated from what they say, in all notations which the language
has for it, and read one after the other, some by the same reader, while the
collector or failing allocations strike.  Some have one thing wrong in them, and
are to be refused.  The model is the document the text was made of.
"""

import random
import zlib

from vsim import core
from vsim import standard as standard_types
from vsim.kit import *
from vsim.scenes import events_of, fields_of

SIMPLE = PARSED + ['MFUInt32', 'MFFloat32', 'SFArray']
# of each type fields which take any of its values
NODES = {name: {f: t for f, (t, exposed, default) in fields.items()} for name, fields in standard_types.FIELDS.items()}
COMMON = 'Transform Group Switch Anchor Material Appearance Shape IndexedFaceSet Coordinate Color TextureCoordinate Text FontStyle TimeSensor PixelTexture OrientationInterpolator TextureTransform WorldInfo Box'.split()
NAMES = ['n', 'DEFn', 'USEn', 'h\u00e9', 'a-b', 'TRUEn', 'ROUTEn', 'PROTOn', 'NULLn', 'n$', 'T\u65e5', 'ISn', '_', 'Scriptn', 'fieldn', 'n:m', 'EXTERNPROTOn', 'e']
CHARS = 'abntux \\\\"#{}[],\n\t\r\u00e9\u65e5\U0001f600./\'0-'
NUMBERS = {
    'int': ['"5"', 'TRUE', 'NULL', 'Box { }', '[ ]', '1.5', '1e2', '1 2', '--1', '1 "a"', '"1"', 'x', '[ 1 2 ]'],
    'float': ['"5"', 'TRUE', 'NULL', 'Box { }', '[ ]', '1 2', '1.2.3', '1e', '1e5.5', '5 TRUE', '--1', '0x5'],
    'vec': ['"a"', 'TRUE', 'NULL', '[ ]', '1', '1 2 3 4 5', '1 2 3 "a"', '1.2.3 1 1 1', '"1" "2" "3"', 'Box { }'],
    'ints': ['"5"', 'TRUE', 'NULL', '[ 1.5 ]', '[ "a" ]', '[ 1 "a" ]', '[ TRUE ]', '[ 1 [ 2 ] ]', '[ 1e2 ]', 'Box { }', '[ Box { } ]', '1 2.5'],
    'floats': ['"5"', 'TRUE', 'NULL', '[ 1.2.3 ]', '[ "a" ]', '[ 1 "a" ]', '[ TRUE ]', '[ 1 [ 2 ] ]', 'Box { }', '[ 1 2 Box { } ]', '[ 1e ]'],
    'vecs': ['"5"', 'TRUE', 'NULL', '[ 1 ]', '[ 1 2 3 4 5 ]', '[ 1 2 3 4 5 6 7 ]', '[ "a" ]', '[ 1 2 3 "a" ]', 'Box { }', '1'],
    'string': ['5', 'TRUE', 'NULL', 'Box { }', '[ ]', '"a" "b"', '[ 5 ]', '5 "a"', '[ "a" "b" ]'],
    'strings': ['5', '[ 5 ]', '[ "a" 5 ]', 'TRUE', 'NULL', 'Box { }', '"a" 5', '[ "a" TRUE ]', '[ Box { } ]', '[ [ 5 ] ]'],
    'bool': ['0', '1', '"TRUE"', 'true', 'NULL', '[ ]', 'TRUE FALSE', 'Box { }', 'True', '[ 1 ]', 'TRUEn'],
    'SFNode': ['5', '"a"', '[ ]', 'TRUE', 'Box { } Box { }', '[ Box { } Box { } ]', 'NULL NULL', 'USE Nobody', 'Nothing { }', 'Box', 'Box { } 5', 'NULL { }'],
    'MFNode': ['5', '"a"', '[ 5 ]', '[ Box { } 5 ]', 'TRUE', 'USE Nobody', '[ Box { } USE Nobody ]', '[ Nothing { } ]', 'Box { } "a"', '[ Box { ]', '[ TRUE ]', '[ Box { } [ ] ]'],
}
NUMBERS['array'] = ['"5"', 'TRUE', 'NULL', '[ "a" ]', 'Box { }', '[ 1 [ TRUE ] ]', '[ 1.2.3 ]', '[ [ 1 ] "a" ]']
NUMBERS['color'], NUMBERS['uints'], NUMBERS['colors'] = NUMBERS['vec'], NUMBERS['ints'], NUMBERS['vecs']


# -- generating ----------------------------------------------------------------
def gen_int(rng, low=-(2**31), high=2**31 - 1):
    v = rng.choice((0, 1, 7, 10, 255, rng.randrange(100), rng.randrange(low, high), low, high, -1 if low else 1, -8 if low else 8))
    sign, v = ('-' if v < 0 else rng.choice(('', '', '', '+'))), abs(v)
    x = rng.random()
    if x < 0.5:
        return sign + str(v)
    if x < 0.65:
        return sign + '0' * rng.randrange(1, 4) + str(v)
    return sign + rng.choice(('0x%x', '0x%X', '0X%x', '0x00%X')) % v


def int_of(token):
    sign = -1 if token[0] == '-' else 1
    token = token.lstrip('+-').lower()
    if token.startswith('0x'):
        return sign * sum('0123456789abcdef'.index(c) << 4 * i for i, c in enumerate(reversed(token[2:])))
    return sign * sum('0123456789'.index(c) * 10**i for i, c in enumerate(reversed(token)))


def gen_float(rng, unit=False):
    if unit:
        return rng.choice(('0', '1', '.5', '0.25', '1.', '5e-1', '25E-2', '+.125', '1.0', '00', '1e0', '.1e+1', '0.75'))
    x = rng.random()
    whole, part = str(rng.choice((0, 0, 1, 7, 12, 360, rng.randrange(100000)))), str(rng.choice((0, 5, 25, 125, rng.randrange(1000000))))
    token = rng.choice(('', '', '', '-', '+'))
    if x < 0.25:
        token += rng.choice(('', '0', '00')) + whole
    elif x < 0.4:
        token += '.' + part
    elif x < 0.5:
        token += whole + '.'
    else:
        token += whole + '.' + rng.choice(('', '0', '00')) + part
    if rng.random() < 0.25:
        token += rng.choice('eE') + rng.choice(('', '+', '-')) + str(rng.choice((0, 1, 2, 5, 7, 12))).zfill(rng.choice((1, 1, 2)))
    return token


def gen_value(rng, t):
    """How a value is written: [kind, type, tokens, whether in brackets]"""
    kind, dim, dtype = TYPES[t]
    size = rng.choice((0, 1, 1, 2, 3, 5, 20))
    if kind == 'bool':
        return ['bool', t, [rng.randrange(2)], 0]
    if kind in ('string', 'strings'):
        size = 1 if kind == 'string' else size
        said = [[rng.choice(WORDS) if rng.random() < 0.4 else ''.join(rng.choice(CHARS) for _ in range(rng.choice((0, 1, 2, 5, 40)))), rng.randrange(2)] for _ in range(size)]
        return ['strings', t, said, int(kind == 'strings' and (size != 1 or rng.random() < 0.5))]
    if kind == 'array' and rng.random() < 0.6:
        wide = rng.randrange(1, 4)
        deep = rng.random() < 0.3

        def rows(n):
            return [[gen_float(rng) for _ in range(wide)] for _ in range(n)]

        n = rng.randrange(1, 4)
        return ['array', t, [rows(n) for _ in range(rng.randrange(1, 3))] if deep else rows(n), 0]
    single = kind in ('int', 'float', 'vec', 'color')
    size = (1 if single else size) * (dim or 1)
    if kind == 'int' or kind == 'ints':
        tokens = [gen_int(rng) for _ in range(size)]
    elif kind == 'uints':
        tokens = [gen_int(rng, 0, 2**32 - 1) for _ in range(size)]
    else:
        tokens = [gen_float(rng, kind in ('color', 'colors')) for _ in range(size)]
    return ['numbers', t, tokens, int(not single and (size != (dim or 1) or rng.random() < 0.5))]


class World(object):
    """What the text can use at a place in it"""

    def __init__(self, rng, protos=None):
        self.rng, self.protos, self.defs = rng, {} if protos is None else dict(protos), {}
        self.count = 0

    def fresh(self):
        self.count += 1
        return '%s%d' % (self.rng.choice(NAMES), self.count)

    def node(self, depth, maps=None, named=True):
        rng = self.rng
        if self.defs and named and rng.random() < 0.12:
            return ['use', rng.choice(sorted(self.defs))]
        x = rng.random()
        if x < 0.1:
            kind, fields = 'Script', {'url': 'MFString', 'directOutput': 'SFBool'}
        elif x < 0.4 and self.protos:
            kind = rng.choice(sorted(self.protos))
            fields = self.protos[kind]
        else:
            kind = rng.choice(COMMON if rng.random() < 0.6 else sorted(NODES))
            fields = NODES[kind]
        attrs, declared = [], []
        if kind == 'Script':
            declared = self.declarations(depth, 'q')
            for d in declared:
                found = [f for f in sorted(maps or ()) if maps[f] == d[1] and not d[0].startswith('event')]
                if found and rng.random() < 0.5:
                    d[3] = ['is', d[1], [rng.choice(found)], 0]
        often = min(0.5, 3.0 / (len(fields) or 1))
        for name in sorted(fields):
            if rng.random() < often:
                t = fields[name]
                if t in ('SFNode', 'MFNode'):
                    if depth <= 0:
                        continue
                    v = self.nodes(t, depth - 1, named)
                else:
                    if maps and rng.random() < 0.4:
                        found = [f for f in sorted(maps) if maps[f] == t]
                        if found:
                            attrs.append([name, t, ['is', t, [rng.choice(found)], 0]])
                            continue
                    v = gen_value(rng, t)
                    if rng.random() < 0.1:
                        attrs.append([name, t, gen_value(rng, t)])
                attrs.append([name, t, v])
        rng.shuffle(attrs)
        made = ['node', kind, None, attrs, declared]
        if named and rng.random() < 0.3:
            made[2] = self.fresh()
            self.defs[made[2]] = [name for name in fields if fields[name] not in ('SFNode', 'MFNode')]
        return made

    def nodes(self, t, depth, named=True):
        n = self.rng.choice((0, 1, 1, 1)) if t == 'SFNode' else self.rng.choice((0, 1, 1, 2, 3))
        if t == 'MFNode' and named and self.defs and self.rng.random() < 0.15:
            # the same ones over and over
            some = self.rng.sample(sorted(self.defs), min(len(self.defs), 3))
            return ['nodes', t, [['use', self.rng.choice(some)] for _ in range(self.rng.randrange(2, 9))], 1]
        return ['nodes', t, [self.node(depth, named=named) for _ in range(n)], int(t == 'MFNode' and (n == 0 or n > 1 or self.rng.random() < 0.6))]

    def declarations(self, depth, letter, default=True, number=None):
        """[exposure or direction, type, name, value]"""
        rng, made = self.rng, []
        for i in range(rng.choice((0, 1, 2, 4)) if number is None else number):
            t = rng.choice(SIMPLE + SIMPLE + ['SFNode', 'MFNode'])
            name = '%s%s%d' % (letter, rng.choice(('', 'field', '_', 'TRUE')), i)
            if rng.random() < 0.15:
                # what nodes of other types have, as fields or otherwise
                name = ('sensitive', 'translation', 'visible', 'size')[i % 4]
                if name in [d[2] for d in made]:
                    continue
            if rng.random() < 0.25:
                made.append([rng.choice(('eventIn', 'eventOut')), t, name, None])
                continue
            v = None
            if default:
                v = gen_value(rng, t) if t in SIMPLE else self.nodes(t, min(depth, 0), False)
            made.append([rng.choice(('field', 'exposedField')), t, name, v])
        return made

    def proto(self, depth):
        rng = self.rng
        name = 'P' + self.fresh()
        if rng.random() < 0.15:
            declared = self.declarations(0, 'f', False)
            said = gen_value(rng, 'MFString')
            if not said[2]:
                said = ['strings', 'MFString', [['a.wrl#A', 0]], rng.randrange(2)]
            made = ['extern', name, declared, said]
        else:
            declared = self.declarations(0, 'f', number=rng.choice((1, 2, 3, 6)))
            inner = World(rng, self.protos)
            inner.count = 100 * (self.count + 1)
            maps = {d[2]: d[1] for d in declared if d[0] in ('field', 'exposedField') and d[1] in SIMPLE}
            body = []
            if depth > 0 and rng.random() < 0.2:
                body.append(inner.proto(depth - 1))
            for _ in range(rng.choice((0, 1, 1, 2))):
                body += inner.items(1, maps) if depth > 0 else [inner.node(1, maps)]
            if rng.random() < 0.15:
                body += [r for r in [inner.route()] if r]
            made = ['proto', name, declared, body]
        self.protos[name] = {d[2]: d[1] for d in declared if d[0] in ('field', 'exposedField')}
        return made

    def route(self, names=None):
        rng = self.rng
        places = [(n, f) for n in sorted(self.defs) if names is None or n in names for f in self.defs[n]]
        if not places:
            return None
        (a, f), (b, g) = rng.choice(places), rng.choice(places)
        return ['route', a, rng.choice((f, f, f + '_changed')), b, rng.choice((g, g, 'set_' + g))]


    def items(self, depth, maps=None):
        """A node, and before it what is declared within its braces"""
        rng = self.rng
        made, seen = [], sorted(self.defs)
        if rng.random() < 0.1:
            made.append(['within', 0, self.proto(0)])
        node_ = self.node(depth, maps)
        if node_[0] == 'node' and rng.random() < 0.3:
            own = self.route(seen + [node_[2]])
            if own:
                made.append(['within', rng.randrange(20), own])
        if node_[1:2] == [made and made[0][2][1]]:
            made[0] = made[0][2]
        return made + [node_]


def flat(items):
    return [i[2] if i[0] == 'within' else i for i in items]


def gen(rng, config, tier):
    texts = []
    for _ in range(rng.randrange(1, 4)):
        world = World(rng)
        items = []
        for _ in range(rng.choice((1, 2, 3, 5, 8))):
            x = rng.random()
            if x < 0.3:
                items.append(world.proto(1))
            elif x < 0.4:
                items += [r for r in [world.route()] if r]
            else:
                items += world.items(rng.choice((0, 1, 2, 3)))
        wrong = None
        if rng.random() < 0.35:
            if rng.random() < 0.3:
                wrong = [rng.choice(('drop', 'add', 'change', 'twice')), rng.randrange(1000)]
            else:
                spoil(rng, items)
        texts.append({'items': items, 'wrong': wrong, 'layout': rng.randrange(1, 10**6)})
    ops = []
    for _ in range(rng.randrange(2, 7)):
        op = ['read', rng.randrange(12), rng.choice(('one', 'one', 'new'))]
        if rng.random() < 0.3:
            op.append([rng.choice(('gc', 'memory')), rng.randrange(1, rng.choice((60, 400, 2500)))])
        ops.append(op)
    return {'texts': texts, 'ops': ops, 'policy': rng.choice(('lifo', 'never'))}


def spoil(rng, items):
    """One thing in the text is wrong"""
    places = []

    def visit(item):
        if item[0] == 'within':
            item = item[2]
        if item[0] in ('proto', 'extern'):
            if item[0] == 'proto':
                places.extend((d, 3, d[1]) for d in item[2] if d[3])
                for i in item[3]:
                    visit(i)
            places.extend((d, 1, None) for d in item[2])
        elif item[0] == 'node':
            places.append((item, 'attr', None))
            places.extend((a, 2, a[1]) for a in item[3] if a[2][0] != 'is')
            places.extend((d, 3, d[1]) for d in item[4] if d[3] and d[3][0] != 'is')
            for a in item[3]:
                if a[2][0] == 'nodes':
                    for i in a[2][2]:
                        visit(i)

    for item in items:
        visit(item)
    if not places:
        return
    # what is rare as well
    t = rng.choice(sorted({str(p[2]) for p in places}))
    place, where, t = rng.choice([p for p in places if str(p[2]) == t])
    if where == 'attr':
        place[3].insert(rng.randrange(len(place[3]) + 1), ['nosuchfield', 'SFFloat', rng.choice((['bad', 'SFFloat', '1', 0], ['bad', 'SFNode', 'Box { }', 0]))])
    elif where == 1:
        # no declaration has such a type
        place[1] = 'SFNothing'
        place[3] = place[3] and ['bad', 'SFNothing', '1', 0]
    else:
        kind = t if t in ('SFNode', 'MFNode') else TYPES[t][0]
        texts = NUMBERS.get(kind, ())
        if where == 3 and kind in ('vec', 'color', 'vecs', 'colors'):
            # how many numbers a default has shows when it is used
            texts = [i for i in texts if i.strip('[ ]0123456789') or i == '[ ]' and kind in ('vec', 'color')]
            texts = [i for i in texts if i != '[ ]']
        if texts:
            place[where] = ['bad', t, rng.choice(texts), 0]


def simplify(op):
    if len(op) > 3:
        yield op[:3]


def reduce(case):
    def fewer(items):
        for i, item in enumerate(items):
            yield items[:i] + items[i + 1 :]
            if item[0] == 'within':
                yield items[:i] + [item[2]] + items[i + 1 :]
            if item[0] in ('proto', 'extern'):
                for n in range(len(item[2])):
                    yield items[:i] + [item[:2] + [item[2][:n] + item[2][n + 1 :]] + item[3:]] + items[i + 1 :]
            if item[0] == 'proto':
                for body in fewer(item[3]):
                    yield items[:i] + [item[:3] + [body]] + items[i + 1 :]
            elif item[0] == 'node':
                for n in range(len(item[4])):
                    yield items[:i] + [item[:4] + [item[4][:n] + item[4][n + 1 :]]] + items[i + 1 :]
                for n, (name, t, v) in enumerate(item[3]):
                    yield items[:i] + [item[:3] + [item[3][:n] + item[3][n + 1 :]] + item[4:]] + items[i + 1 :]
                    if v[0] == 'nodes':
                        for kids in fewer(v[2]):
                            if v[1] == 'MFNode' or len(kids) < 2:
                                yield items[:i] + [item[:3] + [item[3][:n] + [[name, t, [v[0], t, kids, int(t == 'MFNode')]]] + item[3][n + 1 :]] + item[4:]] + items[i + 1 :]
                    elif v[0] in ('numbers', 'strings') and v[3] and not TYPES[t][1]:
                        for k in range(len(v[2])):
                            yield items[:i] + [item[:3] + [item[3][:n] + [[name, t, [v[0], t, v[2][:k] + v[2][k + 1 :], 1]]] + item[3][n + 1 :]] + item[4:]] + items[i + 1 :]
                if item[2]:
                    yield items[:i] + [item[:2] + [None] + item[3:]] + items[i + 1 :]

    def with_text(i, **changed):
        return dict(case, texts=case['texts'][:i] + [dict(case['texts'][i], **changed)] + case['texts'][i + 1 :])

    for i, text in enumerate(case['texts']):
        if text['items']:
            yield with_text(i, items=[])
        if text['layout']:
            yield with_text(i, layout=0)
        for items in fewer(text['items']):
            yield with_text(i, items=items)


# -- writing ---------------------------------------------------------------------
class Unwritable(Exception):
    """The text would use a name it does not declare (when it got reduced)"""


class Text(object):
    def __init__(self, text):
        self.tokens = []
        self.wrong = bool(text['wrong'])
        self.items(text['items'], [set()], dict(NODES, Script=('url', 'directOutput', 'mustEvaluate')))
        r = random.Random(text['layout'])
        if text['wrong']:
            self.wrong = self.unbalance(*text['wrong'])
        self.text = self.layout(r, text['layout'])

    def put(self, *tokens):
        self.tokens.extend(tokens)

    def items(self, items, defs, known):
        waiting = []
        for item in items:
            if item[0] == 'within':
                waiting.append(item)
                continue
            if item[0] == 'node':
                self.item_node(defs, known, *item[1:], within=waiting)
            else:
                for i in flat(waiting):
                    getattr(self, 'item_' + i[0])(defs, known, *i[1:])
                getattr(self, 'item_' + item[0])(defs, known, *item[1:])
            waiting = []
        for i in flat(waiting):
            getattr(self, 'item_' + i[0])(defs, known, *i[1:])

    def item_use(self, defs, known, name):
        if name not in defs[-1]:
            raise Unwritable(name)
        self.put('USE', name)

    def item_route(self, defs, known, a, f, b, g):
        if a not in defs[-1] or b not in defs[-1]:
            raise Unwritable(a)
        self.put('ROUTE', '%s.%s' % (a, f), 'TO', '%s.%s' % (b, g))

    def item_node(self, defs, known, kind, name, attrs, declared, within=()):
        if kind not in known:
            raise Unwritable(kind)
        for field_, t, v in attrs:
            if field_ not in known[kind] and v[0] != 'bad' or v[0] == 'is' and v[2][0] not in known.get(' fields', ()):
                raise Unwritable(field_)
        if any(d[3] and d[3][0] == 'is' and d[3][2][0] not in known.get(' fields', ()) for d in declared):
            raise Unwritable(kind)
        if name:
            self.put('DEF', name)
            defs[-1].add(name)
        self.put(kind, '{')
        for d in declared:
            self.declaration(defs, known, *d)
        within, places = list(within), len(attrs) + 1
        for n in range(places):
            while within and (within[0][1] % places <= n or n == places - 1):
                self.items([within.pop(0)[2]], defs, known)
            for field_, t, v in attrs[n : n + 1]:
                self.put(field_)
                self.value(v, defs, known)
        self.put('}')

    def item_proto(self, defs, known, name, declared, body):
        self.put('PROTO', name, '[')
        for d in declared:
            self.declaration(defs, known, *d)
        self.put(']', '{')
        fields = [d[2] for d in declared if d[0] in ('field', 'exposedField')]
        self.items(body, defs + [set()], dict(known, **{' fields': fields}))
        self.put('}')
        known[name] = fields

    def item_extern(self, defs, known, name, declared, url):
        self.put('EXTERNPROTO', name, '[')
        for d in declared:
            self.declaration(defs, known, *d)
        self.put(']')
        self.value(url, defs, known)
        known[name] = [d[2] for d in declared if d[0] in ('field', 'exposedField')]

    def declaration(self, defs, known, exposure, t, name, v):
        self.wrong = self.wrong or t not in SIMPLE + ['SFNode', 'MFNode']
        self.put(exposure, t, name)
        if v:
            self.value(v, defs, known)

    def value(self, v, defs, known):
        kind, t, said, brackets = v
        if kind == 'bad':
            self.wrong = True
            self.put(*said.split(' '))
            return
        if brackets:
            self.put('[')
        if kind == 'bool':
            self.put('TRUE' if said[0] else 'FALSE')
        elif kind == 'array':
            self.rows(said)
        elif kind == 'is':
            self.put('IS', said[0])
        elif kind == 'numbers':
            self.put(*said)
        elif kind == 'strings':
            self.put(*[written(*s) for s in said])
        elif not said and t == 'SFNode':
            self.put('NULL')
        else:
            self.items(said, defs, known)
        if brackets:
            self.put(']')

    def rows(self, said):
        self.put('[')
        for i in said:
            if isinstance(i, list):
                self.rows(i)
            else:
                self.put(i)
        self.put(']')

    def unbalance(self, how, n):
        """One bracket or brace too many or too few"""
        places = [i for i, t in enumerate(self.tokens) if t in '[]{}']
        if how == 'add' or not places:
            self.tokens.insert(n % (len(self.tokens) + 1), '}])'[n % 2])
            return True
        i = places[n % len(places)]
        if how == 'drop':
            del self.tokens[i]
        elif how == 'twice':
            self.tokens.insert(i, self.tokens[i])
        else:
            self.tokens[i] = {'[': '{', '{': '[', ']': '}', '}': ']'}[self.tokens[i]]
        return True

    def layout(self, r, how):
        if not how:
            return '#VRML V2.0 utf8\n' + ' '.join(self.tokens) + '\n'
        end = r.choice(('\n', '\n', '\r\n', '\r'))
        tight, busy = r.choice((0.0, 0.5, 1.0)), r.choice((0.0, 0.1, 0.4))
        out = ['#VRML V2.0 utf8', end]
        last = '{'
        for token in self.tokens + ['']:
            separate = ''
            if last[-1] in '[]{}"' or token[:1] in ('[', ']', '{', '}', '"', ''):
                if r.random() > tight:
                    separate = ' '
            else:
                separate = ' '
            while r.random() < busy:
                separate += r.choice((' ', '\t', end, ',', ' , ', end + end, ',,', '#' + r.choice(('', ' comment', ' { [ " ', 'DEF \u65e5 } "', '#')) + end))
            if separate == '' and token and last[-1] not in '[]{}"' and token[0] not in '[]{}"':
                separate = ' '
            out += [separate, token]
            last = token or last
        if r.random() < 0.3:
            out.append('# at the end' + r.choice(('', end)))
        return ''.join(out)


def written(content, lazy):
    """A string; the lazy leave alone the backslashes which stand for themselves"""
    out = []
    for i, c in enumerate(content):
        if c == '\\' and lazy and content[i + 1 : i + 2] not in ('\\', '"', '') and content[i - 1 : i] != '\\':
            out.append('\\')
        elif c in '\\"':
            out.append('\\' + c)
        else:
            out.append(c)
    return '"%s"' % ''.join(out)


# -- judging -----------------------------------------------------------------------
def meaning(v):
    """The canonical value which is written"""
    kind, t, said, brackets = v
    if kind == 'bool':
        return said[0]
    if kind == 'strings':
        return [s[0] for s in said] if t == 'MFString' else said[0][0]
    if kind == 'array':
        return np.array([[[float(s) for s in j] if isinstance(j, list) else float(j) for j in i] for i in said], 'd')
    kind, dim, dtype = TYPES[t]
    if kind == 'int':
        return int_of(said[0])
    if kind == 'float':
        return float(said[0])
    if kind in ('ints', 'uints'):
        return np.array([int_of(s) for s in said], dtype)
    numbers = np.array([float(s) for s in said], dtype)
    return numbers if kind in ('vec', 'color', 'floats', 'array') else numbers.reshape((-1, dim))


def default_value(t, said):
    """The default the standard declares, as if written"""
    if t == 'SFBool':
        return ['bool', t, [said[0] == 'TRUE'], 0]
    if t in ('SFString', 'MFString'):
        return ['strings', t, [[s, 0] for s in said], 0]
    return ['numbers', t, said, 0]


class Judge(object):
    """Compares what was read with what was written"""

    def __init__(self, ctx, scene):
        self.ctx, self.scene = ctx, scene
        self.count = 0

    def items(self, sg, items, known, maps, where):
        """The scope sg has precisely the items; known: name -> declaration"""
        check = self.ctx.check
        defs, routes, nodes = {}, [], []
        mapped = {}
        items = flat(items)
        for item in items:
            if item[0] in ('proto', 'extern'):
                known = dict(known)
                known[item[1]] = (item, known)
            elif item[0] == 'route':
                routes.append(item)
            else:
                nodes.append((item, known))
        children = list(sg.children)
        check(len(children) == len(nodes), 'wrong-number-of-nodes', '%s: %d, not %d', where, len(children), len(nodes))
        for n, (real, (item, seen)) in enumerate(zip(children, nodes)):
            self.node(real, item, seen, defs, maps, mapped, '%s/%d' % (where, n))
        for item in items:
            if item[0] in ('proto', 'extern'):
                cls = sg.protoTypes.get(item[1])
                check(cls is not None and protofunctions.protoName(cls) == item[1], 'prototype-missing', '%s: %s', where, item[1])
                self.proto(cls, item, known[item[1]][1], '%s/%s' % (where, item[1]))
        real = [r for r in sg.routes if not isinstance(r, route.IS)]
        check(len(real) == len(routes), 'wrong-number-of-routes', '%s: %d, not %d', where, len(real), len(routes))
        for made, (_, a, f, b, g) in zip(real, routes):
            got = (made.source, made.sourceField, made.destination, made.destinationField)
            check(got[0] is defs[a] and got[2] is defs[b] and got[1::2] == (f, g), 'wrong-route', '%s: %s.%s to %s.%s', where, a, f, b, g)
        return mapped

    def node(self, real, item, known, defs, maps, mapped, where):
        check = self.ctx.check
        self.count += 1
        if item[0] == 'use':
            check(real is defs[item[1]], 'another-node', '%s: %s', where, item[1])
            return
        _, kind, name, attrs, declared = item
        check(protofunctions.protoName(real) == kind, 'wrong-type', '%s: %s, not %s', where, protofunctions.protoName(real), kind)
        check(real.DEF == (name or ''), 'wrong-name', '%s: %s, not %s', where, real.DEF, name)
        where = '%s %s' % (where, kind)
        if kind == 'Script':
            self.declarations(type(real), declared, known, where)
            defaults = {d[2]: d[3] for d in declared if d[3]}
            fields = {d[2]: d[1] for d in declared if d[3]}
            fields.update(url='MFString', directOutput='SFBool', mustEvaluate='SFBool')
        elif kind in known:
            proto = known[kind][0]
            defaults = {d[2]: d[3] for d in proto[2] if d[3]}
            fields = {d[2]: d[1] for d in proto[2] if d[0] in ('field', 'exposedField')}
        else:
            check(type(real) is standard()[kind], 'wrong-type', '%s: not the standard one', where)
            self.standard(type(real), kind, where)
            fields = NODES[kind]
            defaults = {f: default_value(t, said) for f, (t, exposed, said) in standard_types.FIELDS[kind].items() if said}
        values = {f: (t, defaults.get(f)) for f, t in fields.items()}
        values.update((f, (t, v)) for f, t, v in attrs)
        for f in sorted(values):
            t, v = values[f]
            if v and v[0] == 'is':
                mapped.setdefault(v[2][0], []).append((real, f))
                v = maps.get(v[2][0], 'any')
                if v == 'any':
                    # within the declaration it has no value of its own
                    continue
                if v is None:
                    continue
            got = getattr(real, f)
            if t == 'SFNode':
                if v is None or not v[2]:
                    check(isinstance(got, node.NullNode), 'wrong-value', '%s: %s is %s', where, f, got)
                else:
                    self.node(got, v[2][0], known, defs, maps, mapped, where + '.' + f)
            elif t == 'MFNode':
                wanted = v[2] if v else []
                check(len(got) == len(wanted), 'wrong-value', '%s: %s has %d nodes, not %d', where, f, len(got), len(wanted))
                for n, (one, said) in enumerate(zip(got, wanted)):
                    self.node(one, said, known, defs, maps, mapped, '%s.%s/%d' % (where, f, n))
            elif v is None:
                wanted = zero(t)
                check(np.array_equal(got, wanted), 'wrong-default', '%s: %s is %s, not %s', where, f, got, wanted)
            else:
                wanted = meaning(v)
                check(same(got, wanted), 'wrong-value', '%s: %s is %s, not %s, written %s', where, f, core.short(got), core.short(wanted), core.short(v[2]))
        if name:
            defs[name] = real
        if kind in known and known[kind][0][0] == 'proto':
            # its own implementation says what it says
            proto, seen = known[kind]
            inner = protofunctions.getSceneGraph(real)
            own = {d[2]: (values[d[2]][1] if not (values[d[2]][1] and values[d[2]][1][0] == 'is') else maps.get(values[d[2]][1][2][0], 'any')) for d in proto[2] if d[2] in values}
            self.items(inner, proto[3], seen, own, where + ' body')

    def standard(self, cls, kind, where):
        """The type has what the standard declares"""
        fields = {f.name: (f.typeName(), bool(f.exposure)) for f in fields_of(cls)}
        events = {f.name: (f.typeName(), bool(f.direction)) for f in events_of(cls)}
        for f, said in standard_types.FIELDS[kind].items():
            self.ctx.check(fields.get(f) == said[:2], 'wrong-standard-type', '%s: %s is %s', where, f, fields.get(f))
        for f, said in standard_types.EVENTS[kind].items():
            self.ctx.check(events.get(f) == said, 'wrong-standard-type', '%s: %s is %s', where, f, events.get(f))

    def declarations(self, cls, declared, known, where):
        check = self.ctx.check
        own = {}
        for f in fields_of(cls) + events_of(cls):
            own[f.name] = f
        for exposure, t, name, v in declared:
            check(name in own, 'declaration-missing', '%s: %s', where, name)
            f = own[name]
            if exposure.startswith('event'):
                check(isinstance(f, field.Event) and f.direction == (exposure == 'eventOut'), 'wrong-declaration', '%s: %s', where, name)
            else:
                check(isinstance(f, field.Field) and bool(f.exposure) == (exposure == 'exposedField'), 'wrong-declaration', '%s: %s', where, name)
            check(f.typeName() == t, 'wrong-declaration', '%s: %s is a %s', where, name, f.typeName())
        extra = {n for n in own if not n.startswith(' ')} - {d[2] for d in declared} - {'externalURL', 'url', 'directOutput', 'mustEvaluate'}
        check(not extra, 'more-declared', '%s: %s', where, sorted(extra))

    def proto(self, cls, item, known, where):
        self.declarations(cls, item[2], known, where)
        if item[0] == 'extern':
            self.ctx.check(list(protofunctions.getExternalURL(cls)) == meaning(item[3]), 'wrong-url', '%s: %s', where, protofunctions.getExternalURL(cls))
            return
        mapped = self.items(protofunctions.getSceneGraph(cls), item[3], known, {}, where)
        got = {f: list(found) for f, found in node.ismaps(cls).items() if found}
        self.ctx.check(sorted(got) == sorted(mapped), 'wrong-mappings', '%s: %s, not %s', where, sorted(got), sorted(mapped))
        for f in got:
            self.ctx.check({(id(i), n) for i, n in got[f]} == {(id(i), n) for i, n in mapped[f]}, 'wrong-mappings', '%s: %s', where, f)


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.reader = parser.buildParser()
        self.texts = []
        for text in case['texts']:
            try:
                self.texts.append((text['items'], Text(text)))
            except Unwritable:
                pass
        self.read_ = []

    def op_read(self, n, how, fault=None):
        ctx, points = self.ctx, core.POINTS
        if not self.texts:
            return
        items, text = self.texts[n % len(self.texts)]
        reader = parser.buildParser() if how == 'new' else self.reader
        struck = []

        def at_line(n, code, line):
            if n != fault[1]:
                return
            if fault[0] == 'gc':
                points.busy = True
                try:
                    core.collect(ctx)
                    ctx.fault('gc-within-operation')
                finally:
                    points.busy = False
            else:
                struck.append(1)
                ctx.fault('allocation-failed')
                raise MemoryError('injected')

        scene, refused = None, None
        ctx.log('text', zlib.crc32(text.text.encode('utf8')))
        try:
            if fault:
                with points.run(at_line):
                    got = reader.parse(text.text)
            else:
                got = reader.parse(text.text)
            if got[0]:
                scene = got[1][1]
        except Exception as err:
            refused = '%s: %s' % (type(err).__name__, str(err)[:120])
            ctx.log('refused', type(err).__name__)
        if text.wrong:
            ctx.check(scene is None, 'malformed-accepted', '%s', text.text[-300:])
            ctx.fault('malformed-text')
            return
        if scene is None and struck:
            return
        ctx.check(scene is not None, 'not-read', '%s', refused)
        self.judge(scene, items)
        self.read_ = self.read_[-2:] + [(scene, items)]

    def judge(self, scene, items):
        judge = Judge(self.ctx, scene)
        judge.items(scene, items, {}, {}, '')
        self.ctx.log('read', judge.count, len(scene.routes))
        self.ctx.nontrivial += judge.count > 2

    def verify(self):
        for scene, items in self.read_:
            self.judge(scene, items)


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    sim = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        getattr(sim, 'op_' + op[0])(*op[1:])
        core.ADDRESSES.release()
    sim.verify()
    for items, text in sim.texts:
        ctx.state(len(text.text), len(text.tokens), text.wrong)
