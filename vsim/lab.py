"""Field storage and matrices, operated step by step; loaded once per implementation (P14)

Every operation gives its outcome, and with it what was notified and what is
stored now, as plain data.
"""

from vsim import core
from vsim.kit import *

FLOATS = ('transformMatrix', 'itransformMatrix', 'transformMatrices', 'localMatrices')
PARTS = ('translation', 'center', 'rotation', 'scale', 'scaleOrientation')


ERRORS = dict(ERRORS, AttributeError=AttributeError, KeyError=KeyError, StopIteration=StopIteration)


class Picky(fieldtypes.SFFloat):
    """A field which accepts what it is told to"""

    refuse = ()
    fieldType = 'SFFloat'

    def coerce(self, value):
        if self.refuse:
            error = self.refuse[0]
            self.refuse = self.refuse[1:]
            if error == 'none':
                return None
            if error:
                raise ERRORS[error]('refused')
        return super(Picky, self).coerce(value)


class Lab(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.classes, self.nodes, self.sent = [], [], []
        self.observers = []
        self.depth = 0
        self.transforms = []
        dispatcher.connect(self.heard, weak=False)

    def close(self):
        dispatcher.disconnect(self.heard, weak=False)

    # -- observing
    def heard(self, signal=None, sender=None, value=None, **named):
        who = [n for n, item in enumerate(self.nodes) if item is sender]
        who = who or [t for t, item in enumerate(self.transforms) if item is sender and 'transform']
        what = [getattr(s, 'name', s if isinstance(s, str) else '') for s in signal] if isinstance(signal, tuple) else [str(signal)]
        self.sent.append([what, who, self.plain(value), sorted(named)])

    def plain(self, v):
        if isinstance(v, Bomb):
            return 'bomb'
        if isinstance(v, (field.BaseField, field.Event)):
            return ['field', v.name, v.typeName() if hasattr(v, 'typeName') else '']
        if isinstance(v, type):
            return ['class', protofunctions.protoName(v) if issubclass(v, node.Node) else v.__name__]
        if isinstance(v, dict):
            return {k: self.plain(i) for k, i in v.items()}
        if isinstance(v, list) or isinstance(v, tuple):
            return [type(v).__name__] + [self.plain(i) for i in v]
        if isinstance(v, node.Node):
            # which may have been named with anything
            return [i if isinstance(i, (str, type(None))) else self.plain(i) for i in plain(v)]
        if isinstance(v, np.ndarray):
            return plain(v)
        if v is field._NULL or callable(v) or type(v) is object:
            return type(v).__name__
        if isinstance(v, map):
            return 'map'
        if isinstance(v, (bool, int, float, str, bytes, np.generic, type(None))):
            return [type(v).__name__, repr(v) if isinstance(v, bytes) else plain(v)]
        return type(v).__name__

    def stored(self):
        nodes_ = [{k: self.plain(v) for k, v in list(item.__dict__.items()) if k != ' root'} for item in self.nodes]
        return [nodes_, [sorted([k, self.plain(v)] for k, v in list(c.__dict__.items()) if k == 'PROTO' or k[:1] in 'ev' and k[1:2].isdigit()) for c in self.classes]]

    def do(self, op):
        """What came of it: the result or the kind of the error, what was sent, what is stored"""
        self.sent = []
        try:
            result = ['gives', self.plain(getattr(self, 'op_' + op[0])(*op[1:]))]
        except core.Violation:
            raise
        except (Exception, SimFault) as err:
            result = ['raises', type(err).__name__]
        # the other one's are heard as well
        sent, self.sent = self.sent, []
        return [result, sent, self.stored()]

    # -- operations with fields
    def field_of(self, n, f):
        """The node and its field, whichever there are"""
        item = self.nodes[n % len(self.nodes)]
        found = sorted((g for e in (0, 1) for g in protofunctions.getFields(type(item), e) if g.name[:1] in 'ev' and g.name[1:2].isdigit()), key=lambda g: g.name)
        # those whose class was set instead are gone
        return item, found[f % len(found)] if found else protofunctions.getField(item, 'DEF')

    def op_class(self, fields):
        try:
            self.declare(fields)
        except Exception:
            # there are nodes all the same
            self.declare([['field', 'SFString', None, None]])
            raise

    def declare(self, fields):
        built = []
        for n, (kind, t, default, refuse) in enumerate(fields):
            name = 'v%d' % n
            v = given(default) if default and default.get('form') != 'map' else None
            if kind == 'picky':
                made = Picky(name, 1) if v is None else Picky(name, 1, v)
                made.refuse = tuple(refuse)
            elif kind == 'event':
                made = field.newEvent('e%d' % n, t, n % 2)
            elif kind == 'factory':
                made = field.newField(name, field_type(t), 1, Factory(default, refuse))
            elif kind == 'nodes':
                made = field.newField(name, t, 1)
            else:
                made = field.newField(name, field_type(t), n % 2) if v is None else field.newField(name, field_type(t), n % 2, v)
            built.append(made)
        self.classes.append(node.prototype('C%d' % len(self.classes), built))

    def op_new(self, c, values):
        cls = self.classes[c % len(self.classes)]
        names = sorted(f.name for f in protofunctions.getFields(cls) if f.name[:1] == 'v' and f.name[1:2].isdigit())
        named = {names[f % len(names)]: given(v) for f, v in values} if names else {}
        self.nodes.append(cls(**named))
        return sorted(named)

    def value(self, f, spec):
        t = f.typeName()
        if t == 'SFNode':
            return (NULL, None, self.nodes[spec['n'] % len(self.nodes)], 5)[spec['n'] % 4]
        if t == 'MFNode':
            return ([], [self.nodes[spec['n'] % len(self.nodes)]] * 2, None, [5])[spec['n'] % 4]
        return given(spec['of'][t])

    def op_set(self, n, f, spec, how):
        item, f = self.field_of(n, f)
        v = self.value(f, spec)
        if how == 'attr':
            return setattr(item, f.name, v)
        if how == 'descriptor':
            return type(f).__set__(f, item, v)
        if how == 'fset':
            return f.fset(item, v)
        if how == 'keyword':
            return f.fset(item, v, notify=spec['n'] % 2)
        if how == 'class' and spec['n'] < 4 and f.name != 'DEF':
            # a value takes the place of the field
            return f.fset(type(item), v, spec['n'] % 2)
        if how == 'constructor':
            self.nodes.append(type(item)(**{f.name: v}))
            return None
        return f.fset(item, v, {'false': False, '0': 0, '1': 1}.get(how, True))

    def op_get(self, n, f, how):
        item, f = self.field_of(n, f)
        if how == 'attr':
            return getattr(item, f.name)
        if how == 'fget':
            return f.fget(item)
        if how == 'both':
            return f.fget(item, type(item))
        if how == 'class':
            return getattr(type(item), f.name)
        if how == 'has':
            return f.fhas(item)
        if how == 'hasattr':
            return hasattr(item, f.name)
        if how == 'default':
            return f.getDefault()
        if how == 'default-for':
            return f.getDefault(item)
        if how == 'copy':
            return f.copy(item)
        if how == 'copy-field':
            made = f.copy(type(item))
            return [made.name, made.typeName(), made.exposure, made.getDefault()]
        if how == 'str':
            return str(f)
        if how == 'copy-node':
            made = item.copy()
            self.nodes.append(made)
            return None
        return [f.name, f.defaultobj, bool(f.call_default), getattr(f, 'exposure', None)]

    def op_del(self, n, f, how):
        item, f = self.field_of(n, f)
        if how == 'attr':
            return delattr(item, f.name)
        if how == 'descriptor':
            return type(f).__delete__(f, item)
        if how == 'fdel':
            return f.fdel(item)
        if how == 'keyword':
            return f.fdel(item, notify=0)
        if how == 'class':
            return f.fdel(type(item))
        return f.fdel(item, {'false': False, 'true': True, '0': 0, '1': 1}[how])

    def op_coerce(self, n, f, spec):
        item, f = self.field_of(n, f)
        return f.coerce(self.value(f, spec))

    def op_check(self, n, f, spec):
        item, f = self.field_of(n, f)
        return f.check(self.value(f, spec))

    def op_text(self, n):
        return linearise.linearise(self.nodes[n % len(self.nodes)])

    def op_refuse(self, n, f, refuse):
        item, f = self.field_of(n, f)
        if isinstance(f, Picky):
            f.refuse = tuple(refuse)

    def op_watch(self, n, f, what, spec, how):
        """Somebody is told, and reacts"""
        item, f = self.field_of(n, f)
        left = [spec['n'] % 3 + 1]

        def told(signal=None, sender=None, value=None):
            if not left[0] or self.depth > 3:
                return
            left[0] -= 1
            self.depth += 1
            try:
                self.ctx.fault('observer-' + how[0])
                if how[0] == 'raise':
                    raise ERRORS[how[1]]('observer')
                if how[0] == 'set':
                    self.op_set(n + how[1], how[2], spec, how[3])
                if how[0] == 'del':
                    self.op_del(n + how[1], how[2], 'fdel')
            finally:
                self.depth -= 1

        self.observers.append((told, item, (what, f)))
        dispatcher.connect(told, sender=item, signal=(what, f))

    def op_unwatch(self, n):
        if self.observers:
            told, item, signal = self.observers.pop(n % len(self.observers))
            dispatcher.disconnect(told, sender=item, signal=signal)

    def op_route(self, n, f, m, g):
        item, f = self.field_of(n, f)
        other, g = self.field_of(m, g)
        made = route.ROUTE(item, f.name, other, g.name)
        self.observers.append((made.forward, item, ('set', f)))

    # -- operations with matrices
    def op_matrix(self, name, values, how, inverse):
        of = transformmatrix
        if how == 'array':
            values = [np.array(v, 'f') if isinstance(v, list) else v for v in values]
        elif how == 'double':
            values = [np.array(v, 'd') if isinstance(v, list) else v for v in values]
        elif how == 'tuple':
            values = [tuple(v) if isinstance(v, list) else v for v in values]
        if name == 'perspectiveMatrix':
            if how == 'keyword':
                names = ('fovy', 'aspect', 'zNear', 'zFar')
                return of.perspectiveMatrix(inverse=inverse, **dict(zip(names, values)))
            return of.perspectiveMatrix(*values, **({'inverse': True} if inverse else {}))
        if name == 'orthoMatrix':
            if how == 'keyword':
                return of.orthoMatrix(**dict(zip(('left', 'right', 'bottom', 'top', 'zNear', 'zFar'), values)))
            return of.orthoMatrix(*values)
        if name in ('rotMatrix', 'scaleMatrix', 'transMatrix'):
            return getattr(of, name)(values[0])
        if name == 'center':
            return of.center(*values[:2])
        return getattr(of, name)(**dict(zip(PARTS, values)))

    def op_transform(self, values):
        made = basenodes.Transform(**dict((k, v) for k, v in zip(PARTS, values) if v is not None))
        self.transforms.append(made)

    def op_move(self, n, part, v, delete):
        if self.transforms:
            item = self.transforms[n % len(self.transforms)]
            if delete and part in item.__dict__:
                delattr(item, part)
            else:
                setattr(item, part, v)

    def op_path(self, which, inverse):
        if not self.transforms:
            return None
        path = nodepath97.NodePath([self.transforms[n % len(self.transforms)] for n in which])
        return path.transformMatrix(inverse=inverse) if inverse < 2 else [path.transformMatrix(), path.itransformMatrix() if hasattr(path, 'itransformMatrix') else None]


class Factory(object):
    """A default made when it is needed, which may fail"""

    def __init__(self, spec, refuse):
        self.spec, self.refuse = spec, tuple(refuse)

    def __call__(self):
        if self.refuse:
            error = self.refuse[0]
            self.refuse = self.refuse[1:]
            if error == 'none':
                return None
            if error:
                raise ERRORS[error]('no default')
        return given(self.spec)

    def __str__(self):
        return 'factory'
