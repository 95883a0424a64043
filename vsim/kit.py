"""What the properties' workloads are made of: values, classes, nodes

Values are written in the cases as JSON, {'t': type, 'v': canonical, 'form': how
it is given}, or {'t': type, 'bad': kind, ...} for one which must be rejected.
The numbers are exact in 32 bits, so expectations need no tolerance.
"""

import numpy as np

from vrml import arrays, cache, copier, event, field, fieldtypes, node, nodepath
from vrml import olist, protofunctions, protonamespace, route, weaklist, weaktuple
from vrml import weakkeydictfix
from vrml.vrml97 import basenamespaces, basenodes, linearise, nodetypes, parser
from vrml.vrml97 import nodepath as nodepath97
from vrml.vrml97 import parseprocessor, scenegraph, script, shaders, transformmatrix
from pydispatch import dispatcher

from simpleparse import error as simpleparse_error

from vsim.core import SimFault

# simpleparse's own does not end for texts with characters beyond latin-1
simpleparse_error.ParserSyntaxError.__str__ = lambda self: 'ParserSyntaxError: %s at %s' % (self.production, self.position)

NULL = node.NULL

# type name -> (kind, dimension, numpy type)
TYPES = {
    'SFBool': ('bool', 0, None),
    'SFInt32': ('int', 0, None),
    'SFUInt32': ('int', 0, None),
    'SFFloat': ('float', 0, None),
    'SFTime': ('float', 0, None),
    'SFString': ('string', 0, None),
    'MFString': ('strings', 0, None),
    'SFVec2f': ('vec', 2, 'f'),
    'SFVec3f': ('vec', 3, 'f'),
    'SFVec4f': ('vec', 4, 'f'),
    'SFVec2d': ('vec', 2, 'd'),
    'SFVec3d': ('vec', 3, 'd'),
    'SFVec4d': ('vec', 4, 'd'),
    'SFRotation': ('vec', 4, 'f'),
    'SFColor': ('color', 3, 'f'),
    'MFInt32': ('ints', 0, 'i'),
    'MFUInt32': ('uints', 0, 'I'),
    'SFImage': ('uints', 0, 'I'),
    'MFFloat': ('floats', 0, 'd'),
    'MFFloat32': ('floats', 0, 'f'),
    'MFTime': ('floats', 0, 'd'),
    'MFVec2f': ('vecs', 2, 'f'),
    'MFVec3f': ('vecs', 3, 'f'),
    'MFVec4f': ('vecs', 4, 'f'),
    'MFVec2d': ('vecs', 2, 'd'),
    'MFVec3d': ('vecs', 3, 'd'),
    'MFVec4d': ('vecs', 4, 'd'),
    'MFRotation': ('vecs', 4, 'd'),
    'MFColor': ('colors', 3, 'f'),
    'SFMatrix3f': ('matrix', 9, 'f'),
    'SFMatrix4f': ('matrix', 16, 'f'),
    'SFMatrix3d': ('matrix', 9, 'd'),
    'SFMatrix4d': ('matrix', 16, 'd'),
    'MFMatrix3f': ('matrices', 9, 'f'),
    'MFMatrix4f': ('matrices', 16, 'f'),
    'MFMatrix3d': ('matrices', 9, 'd'),
    'MFMatrix4d': ('matrices', 16, 'd'),
    'SFArray': ('array', 0, 'd'),
    'SFArray32': ('array', 0, 'f'),
}
# those which the file format reader knows
PARSED = [
    'SFBool', 'SFInt32', 'SFFloat', 'SFTime', 'SFString', 'MFString',
    'SFVec2f', 'SFVec3f', 'SFRotation', 'SFColor', 'MFInt32', 'SFImage',
    'MFFloat', 'MFTime', 'MFVec2f', 'MFVec3f', 'MFRotation', 'MFColor',
]  # fmt: skip
ALL = sorted(TYPES)

WORDS = [
    '', 'a', 'b c', 'TRUE', 'q"uote', 'back\\slash', 'end\\', '"', '#hash', '{}[]',
    'line\nbreak', 'h\u00e9llo', '\U0001f600', '\\"', "it's", ',', 'USE x',
]  # fmt: skip
DEAD = object()
SIDES = {9: 3, 16: 4}


def _number(rng):
    return rng.choice((0.0, 1.0, -1.0, 0.25, 0.5, -0.75, 2.0, 3.5, -8.0, 100.0, 1e-5, -0.125, 1234567.0))


def _exact(rng, dtype):
    value = _number(rng)
    return float(np.float32(value)) if dtype == 'f' else value


# the names which CSS gives to colours, and their components
COLOR_NAMES = """
    aliceblue f0f8ff antiquewhite faebd7 aqua 00ffff aquamarine 7fffd4 azure f0ffff beige f5f5dc bisque ffe4c4
    black 000000 blanchedalmond ffebcd blue 0000ff blueviolet 8a2be2 brown a52a2a burlywood deb887 cadetblue 5f9ea0
    chartreuse 7fff00 chocolate d2691e coral ff7f50 cornflowerblue 6495ed cornsilk fff8dc crimson dc143c
    cyan 00ffff darkblue 00008b darkcyan 008b8b darkgoldenrod b8860b darkgray a9a9a9 darkgreen 006400
    darkkhaki bdb76b darkmagenta 8b008b darkolivegreen 556b2f darkorange ff8c00 darkorchid 9932cc darkred 8b0000
    darksalmon e9967a darkseagreen 8fbc8f darkslateblue 483d8b darkslategray 2f4f4f darkturquoise 00ced1
    darkviolet 9400d3 deeppink ff1493 deepskyblue 00bfff dimgray 696969 dodgerblue 1e90ff firebrick b22222
    floralwhite fffaf0 forestgreen 228b22 fuchsia ff00ff gainsboro dcdcdc ghostwhite f8f8ff gold ffd700
    goldenrod daa520 gray 808080 green 008000 greenyellow adff2f honeydew f0fff0 hotpink ff69b4 indianred cd5c5c
    indigo 4b0082 ivory fffff0 khaki f0e68c lavender e6e6fa lavenderblush fff0f5 lawngreen 7cfc00
    lemonchiffon fffacd lightblue add8e6 lightcoral f08080 lightcyan e0ffff lightgoldenrodyellow fafad2
    lightgreen 90ee90 lightgrey d3d3d3 lightpink ffb6c1 lightsalmon ffa07a lightseagreen 20b2aa lightskyblue 87cefa
    lightslategray 778899 lightsteelblue b0c4de lightyellow ffffe0 lime 00ff00 limegreen 32cd32 linen faf0e6
    magenta ff00ff maroon 800000 mediumaquamarine 66cdaa mediumblue 0000cd mediumorchid ba55d3 mediumpurple 9370db
    mediumseagreen 3cb371 mediumslateblue 7b68ee mediumspringgreen 00fa9a mediumturquoise 48d1cc
    mediumvioletred c71585 midnightblue 191970 mintcream f5fffa mistyrose ffe4e1 moccasin ffe4b5 navajowhite ffdead
    navy 000080 oldlace fdf5e6 olive 808000 olivedrab 6b8e23 orange ffa500 orangered ff4500 orchid da70d6
    palegoldenrod eee8aa palegreen 98fb98 paleturquoise afeeee palevioletred db7093 papayawhip ffefd5
    peachpuff ffdab9 peru cd853f pink ffc0cb plum dda0dd powderblue b0e0e6 purple 800080 red ff0000
    rosybrown bc8f8f royalblue 4169e1 saddlebrown 8b4513 salmon fa8072 sandybrown f4a460 seagreen 2e8b57
    seashell fff5ee sienna a0522d silver c0c0c0 skyblue 87ceeb slateblue 6a5acd slategray 708090 snow fffafa
    springgreen 00ff7f steelblue 4682b4 tan d2b48c teal 008080 thistle d8bfd8 tomato ff6347 turquoise 40e0d0
    violet ee82ee wheat f5deb3 white ffffff whitesmoke f5f5f5 yellow ffff00 yellowgreen 9acd32
"""
_WORDS = COLOR_NAMES.split()
COLORS = {name: tuple(bytes.fromhex(code)) for name, code in zip(_WORDS[::2], _WORDS[1::2])}


def _named(rng, kind):
    """A colour, and what it is written as"""
    if kind == 'name':
        name = rng.choice(sorted(COLORS))
        # the table of names has four digits
        return [round(i / 255.0, 4) for i in COLORS[name]], rng.choice((name, name, name.upper(), name.capitalize()))
    channels = [rng.choice((0, 1, 15, 16, 127, 128, 250, 255, rng.randrange(256))) for _ in range(3)]
    return [i / 255.0 for i in channels], rng.choice(('#%02x%02x%02x', '#%02X%02X%02X')) % tuple(channels)


def spelled(word):
    """The components which the word stands for"""
    if word.lower() in COLORS:
        return [round(i / 255.0, 4) for i in COLORS[word.lower()]]
    if word.startswith('#'):
        return [i / 255.0 for i in bytes.fromhex(word[1:])]
    return [float(word)]


def _matrix(rng, dim, dtype):
    side = SIDES[dim]
    return [[_exact(rng, dtype) for _ in range(side)] for _ in range(side)]


def canonical(rng, t, size=None):
    """A canonical value of the type, as JSON"""
    kind, dim, dtype = TYPES[t]
    if size is None:
        size = rng.choice((0, 1, 1, 2, 3, 5, 12))
    if kind == 'bool':
        return rng.randrange(2)
    if kind == 'int':
        low = 0 if t == 'SFUInt32' else -20
        return rng.choice((0, 1, rng.randrange(low, 50), 2147483647))
    if kind == 'float':
        return rng.choice((_number(rng), 0.1, 1e300, -2.5e-7))
    if kind == 'string':
        return rng.choice(WORDS)
    if kind == 'strings':
        return [rng.choice(WORDS) for _ in range(size)]
    if kind == 'vec':
        return [_exact(rng, dtype) for _ in range(dim)]
    if kind == 'color':
        return [rng.choice((0.0, 0.25, 0.5, 0.75, 1.0)) for _ in range(3)]
    if kind == 'ints':
        return [rng.choice((-1, 0, 1, rng.randrange(-100, 100))) for _ in range(size)]
    if kind == 'uints':
        return [rng.choice((0, 1, rng.randrange(0, 100))) for _ in range(size)]
    if kind == 'floats':
        return [_exact(rng, dtype) for _ in range(size)]
    if kind == 'vecs':
        return [[_exact(rng, dtype) for _ in range(dim)] for _ in range(size)]
    if kind == 'colors':
        return [
            [rng.choice((0.0, 0.25, 0.5, 0.75, 1.0)) for _ in range(3)]
            for _ in range(size)
        ]
    if kind == 'matrix':
        return _matrix(rng, dim, dtype)
    if kind == 'matrices':
        return [_matrix(rng, dim, dtype) for _ in range(min(size, 3))]
    if kind == 'array':
        if rng.random() < 0.5:
            return [_exact(rng, dtype) for _ in range(max(1, size))]
        width = rng.randrange(1, 4)
        return [[_exact(rng, dtype) for _ in range(width)] for _ in range(max(1, size))]
    raise ValueError(kind)


FORMS = {
    'bool': ['plain', 'bool', 'word', 'number'],
    'int': ['plain', 'word', 'float'],
    'float': ['plain', 'word'],
    'string': ['plain', 'bytes', 'single', 'parts', 'number'],
    'strings': ['plain', 'tuple', 'one'],
    'vec': ['plain', 'tuple', 'array', 'other', 'word', 'nested', 'map', 'view', 'scalar'],
    'color': ['plain', 'tuple', 'array', 'other', 'map', 'view', 'outside', 'scalar', 'name', 'hex'],
    'ints': ['plain', 'tuple', 'array', 'other', 'word', 'map', 'view'],
    'uints': ['plain', 'tuple', 'array', 'other', 'word', 'map', 'view'],
    'floats': ['plain', 'tuple', 'array', 'other', 'word', 'map', 'view'],
    'vecs': ['plain', 'tuple', 'array', 'other', 'flat', 'word', 'map', 'view'],
    'colors': ['plain', 'tuple', 'array', 'other', 'flat', 'map', 'view', 'word', 'names', 'names'],
    'matrix': ['plain', 'tuple', 'flat', 'array', 'other', 'word', 'map', 'view', 'scalar'],
    'matrices': ['plain', 'tuple', 'array', 'other', 'flat', 'word', 'map', 'view'],
    'array': ['plain', 'tuple', 'array', 'other', 'map', 'view'],
}
ERRORS = {
    'ValueError': ValueError,
    'TypeError': TypeError,
    'MemoryError': MemoryError,
    'RuntimeError': RuntimeError,
    'SimFault': SimFault,
}


def value(rng, t, bad=0.0, size=None):
    """A value specification for the type"""
    kind = TYPES[t][0]
    spec = {'t': t, 'v': canonical(rng, t, size)}
    if rng.random() < bad:
        spec['bad'] = rng.choice(
            ('wrong', 'wrong', 'bomb', 'bomb', 'bomb', 'transient')
        )
        spec['at'] = rng.randrange(0, 6)
        spec['error'] = rng.choice(sorted(ERRORS))
        spec['n'] = rng.randrange(3)
    else:
        spec['form'] = rng.choice(FORMS[kind])
        if spec['form'] == 'scalar':
            number = next(_flat(spec['v']))
            spec['v'] = [[number] * len(i) if isinstance(i, list) else number for i in spec['v']]
        elif spec['form'] == 'number':
            if kind == 'string':
                # what is no string becomes its text
                spec['words'] = rng.randrange(len(NUMBERS))
                spec['v'] = str(NUMBERS[spec['words']])
        elif spec['form'] in ('name', 'hex'):
            spec['v'], spec['words'] = _named(rng, spec['form'])
        elif spec['form'] == 'names':
            # names and numbers, in any order
            spec['words'] = words = []
            for i, v in enumerate(spec['v']):
                if i == 0 or rng.random() < 0.6:
                    spec['v'][i], word = _named(rng, rng.choice(('name', 'hex')))
                    words.append(word)
                else:
                    words.extend(v)
    return spec


NUMBERS = [1, 1.0, True, 0, 0.0, False, -0.0, 2.5, 10**20]


class Bomb(object):
    """An element whose conversion fails, always or only the first time"""

    def __init__(self, error, then, fired):
        self.error, self.then, self.fired = error, then, fired

    def __repr__(self):
        # the same for every one
        return '<Bomb>'

    def _convert(self, kind):
        if self.fired[0] and self.then is not None:
            return kind(self.then)
        self.fired[0] += 1
        raise self.error('injected conversion failure')

    def __float__(self):
        return self._convert(float)

    def __int__(self):
        return self._convert(int)

    def __index__(self):
        return self._convert(int)

    def __str__(self):
        return self._convert(str)

    def __bool__(self):
        return self._convert(bool)


def _tuples(v):
    return tuple(_tuples(i) if isinstance(i, list) else i for i in v)


def _flat(v):
    for i in v:
        if isinstance(i, list):
            yield from _flat(i)
        else:
            yield i


def _array(v, t, dtype):
    """An array of the canonical shape"""
    kind, dim, _ = TYPES[t]
    a = np.array(v, dtype)
    if kind in ('vecs', 'colors'):
        a = a.reshape((-1, dim))
    elif kind == 'matrix':
        a = a.reshape((SIDES[dim],) * 2)
    elif kind == 'matrices':
        a = a.reshape((-1,) + (SIDES[dim],) * 2)
    return a


def given(spec, fired=None):
    """The object to give to the code under test"""
    t, v = spec['t'], spec['v']
    kind, dim, dtype = TYPES[t]
    if 'bad' in spec:
        return _bad(spec, kind, dim, dtype, fired if fired is not None else [0])
    form = spec.get('form', 'plain')
    if kind == 'bool':
        return {
            'plain': v,
            'bool': bool(v),
            'word': ['FALSE', 'true'][v],
            'number': [0.0, 2.5][v],
        }[form]
    if kind == 'int':
        return {'plain': v, 'word': ' %d ' % v, 'float': float(v)}[form]
    if kind == 'float':
        return {'plain': v, 'word': repr(v)}[form]
    if kind == 'string':
        if form == 'number':
            return NUMBERS[spec['words']]
        if form == 'bytes':
            return v.encode('utf8')
        if form == 'single':
            return [v]
        if form == 'parts':
            return (v[: len(v) // 2], v[len(v) // 2 :])
        return v
    if kind == 'strings':
        if form == 'one' and len(v) == 1:
            return v[0]
        return tuple(v) if form == 'tuple' else list(v)
    if form == 'tuple':
        return _tuples(v)
    if 'words' in spec:
        # those of the canonical form are left where the form gets changed
        return list(spec['words']) if form == 'names' else spec['words'] if form in ('name', 'hex') else list(v)
    if form == 'scalar':
        return next(_flat(v))
    if form == 'array':
        return _array(v, t, dtype)
    if form == 'other':
        return _array(v, t, {'f': 'd', 'd': 'f', 'i': 'l', 'I': 'l'}[dtype]) if _fits(v, dtype) else _array(v, t, dtype)
    if form == 'view':
        # not contiguous, and changed by whoever changes its base
        a = _array(v, t, dtype)
        wide = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype)
        wide[::2] = a
        return wide[::2]
    if form == 'word':
        return ', '.join(repr(i) for i in _flat(v))
    if form == 'nested':
        return [v[:1], v[1:]]
    if form == 'map':
        return map(lambda x: x, [list(i) if isinstance(i, list) else i for i in v])
    if form == 'flat':
        return list(_flat(v))
    if form == 'outside':
        return [{0.0: -3.0, 1.0: 7.5}.get(i, i) for i in v]
    return [list(i) if isinstance(i, list) else i for i in v]


def _fits(v, dtype):
    """Whether the values survive the other floating point type"""
    return dtype != 'd' or all(float(np.float32(i)) == i for i in _flat(v))


def _bad(spec, kind, dim, dtype, fired):
    t, v, how = spec['t'], spec['v'], spec['bad']
    error = ERRORS[spec['error']]
    n = spec['n']
    if how == 'wrong':
        if kind == 'bool':
            return Bomb(ValueError, None, fired)
        if kind in ('int', 'float'):
            return ['no number', None, [1, 2]][n]
        if kind == 'string':
            return [b'\xff\xfe\xff', ['a', 5, 'b'], (b'a', 'b')][n]
        if kind == 'strings':
            return [5, ['a', b'\xff'], None][n]
        if kind == 'color' and spec['at'] < 3:
            return ['no colour', '#12g456', ''][n]
        if kind == 'colors' and spec['at'] < 3:
            return [['red', 0.5], ['red', 'no colour'], [0.5, 'red', 1.0, 1.0]][n]
        if kind in ('vec', 'color', 'matrix'):
            return [[1.0] * (dim + 1), [1.0] * (dim - 1), ['x'] * dim][n]
        if kind in ('ints', 'uints', 'floats'):
            return [['x', 'y'], object(), [1, None]][n]
        if kind in ('vecs', 'colors', 'matrices'):
            return [
                [0.5] * (dim * 2 + 1),
                [[0.5] * dim, [0.5] * (dim - 1)],
                map(float, [0.5] * (dim * 2 - 1)),
            ][n]
        return [[[1.0], [1.0, 2.0]], ['x'], [1.0, None, 'z']][n]
    # one element cannot be converted
    if kind in ('bool', 'int', 'float'):
        return Bomb(error, v if how == 'transient' else None, fired)
    if kind == 'string':
        return Bomb(error, v if how == 'transient' else None, fired)
    if kind == 'strings':
        elements = list(v) or ['x']
    else:
        elements = list(_flat(v)) or [0.0] * (dim or 1)
    at = spec['at'] % len(elements)
    elements[at] = Bomb(error, elements[at] if how == 'transient' else None, fired)
    return map(lambda x: x, elements) if n == 1 and kind != 'strings' else elements


def expected(spec):
    """The canonical value which is to be stored, None if there is none"""
    t, v = spec['t'], spec['v']
    kind, dim, dtype = TYPES[t]
    if spec.get('bad') == 'transient':
        # what it would be if the failure was overcome
        if kind == 'strings':
            return list(v) or ['x']
        if dtype:
            v = list(_flat(v)) or [0.0] * (dim or 1)
    if dtype:
        return _array(v, t, dtype)
    return list(v) if isinstance(v, list) else v


def same(actual, wanted):
    """Whether the stored value is precisely the one wanted"""
    if isinstance(wanted, np.ndarray):
        return (
            isinstance(actual, np.ndarray)
            and actual.shape == wanted.shape
            and actual.dtype == wanted.dtype
            and bool((actual == wanted).all())
        )
    if isinstance(wanted, list):
        return isinstance(actual, list) and list(actual) == wanted
    if isinstance(wanted, float):
        return isinstance(actual, float) and actual == wanted
    if isinstance(wanted, int):
        return not isinstance(actual, np.ndarray) and actual == wanted
    return type(actual) == type(wanted) and actual == wanted


def plain(v):
    """The value as something which can be logged and compared"""
    if isinstance(v, np.ndarray):
        return ['array', v.dtype.char, v.tolist()]
    if isinstance(v, node.Node):
        return ['node', protofunctions.protoName(v), protofunctions.defName(v)]
    if isinstance(v, (list, tuple)):
        return [plain(i) for i in v]
    if isinstance(v, np.generic):
        return v.item()
    return v


def keep(wanted):
    """A copy of the value, as the value might get changed"""
    if isinstance(wanted, np.ndarray):
        return wanted.copy()
    if isinstance(wanted, list):
        return list(wanted)
    return wanted


# -- classes -----------------------------------------------------------------
class SFGroup(node.SFNode):
    """A field which takes nothing but groups (and NULL)"""

    fieldType = 'SFGroup'
    requiredTypes = (basenodes.Group,)


class MFGroup(node.MFNode):
    """A list which takes nothing but groups"""

    fieldType = 'MFGroup'
    baseSFNode = SFGroup('GeneralSFGroup')


RESTRICTED = {'SFGroup': SFGroup, 'MFGroup': MFGroup}


def make_class(name, fields):
    """A prototype with the fields: [[name, type, default value or None], ...]"""
    built = []
    for fname, t, default in fields:
        if default is None:
            built.append(field.newField(fname, field_type(t), 1))
        else:
            if default.get('form') == 'map':
                # an iterator can be used only once, so isn't a default
                default = dict(default, form='plain')
            built.append(field.newField(fname, field_type(t), 1, given(default)))
    return node.prototype(name, built)


def field_type(t):
    """The type, as some are not registered under their names"""
    if t in RESTRICTED:
        return RESTRICTED[t]
    return t if t in field.baseFieldTypes else getattr(fieldtypes, t)


def zero(t):
    """The default of a field without a default of its own"""
    kind, dim, dtype = TYPES[t]
    if kind == 'bool' or kind == 'int':
        return 0
    if kind == 'float':
        return 0.0
    if kind == 'string':
        return ''
    if kind == 'strings':
        return []
    if kind in ('vec', 'color'):
        return np.zeros((dim,), dtype)
    if kind == 'matrix':
        # those in double precision have no better default
        return np.identity(SIDES[dim], 'f') if dtype == 'f' else np.zeros((SIDES[dim],) * 2, dtype)
    return _array([], t, dtype)


def standard():
    """The standard node types, by name"""
    return basenamespaces.basePrototypes


def value_fields(cls):
    """The fields of a class whose values are not nodes"""
    return sorted(
        (
            f
            for f in protofunctions.getFields(cls)
            if isinstance(f, field.Field)
            and not f.name.startswith(' ')
            and f.typeName() in TYPES
            and f.name != 'externalURL'
        ),
        key=lambda f: f.name,
    )


# -- texts -------------------------------------------------------------------
def quoted(text):
    return '"%s"' % (text.replace('\\', '\\\\').replace('"', '\\"'),)


def literal(t, v):
    """The canonical value as the file format has it"""
    kind, dim, dtype = TYPES.get(t, ('nodes', 0, None))
    if t == 'SFNode':
        return 'NULL' if v is None else 'Sphere { radius %d }' % (v,)
    if t == 'MFNode':
        return '[ %s ]' % (' '.join('Sphere { radius %d }' % (i,) for i in v),)
    if kind == 'bool':
        return ('FALSE', 'TRUE')[v]
    if kind in ('int', 'float'):
        return repr(v)
    if kind == 'string':
        return quoted(v)
    if kind == 'strings':
        return '[ %s ]' % (', '.join(quoted(i) for i in v),)
    if kind in ('vec', 'color'):
        return ' '.join(repr(i) for i in v)
    return '[ %s ]' % (', '.join(' '.join(repr(j) for j in i) if isinstance(i, list) else repr(i) for i in v),)
