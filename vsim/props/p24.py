"""P24: a prototype has precisely the fields declared for it

Prototypes get made, extended, changed and forgotten; fields and events are
added to and removed from them at any time, by threads which the schedule
switches at lines, with collections and failing allocations within.  The model
is a tree of plain classes, from which the declarations which apply to each
prototype follow; what getField(), getFields(), the nodes and copies of the
definitions say is judged against it.
"""

import copy as copying

from vsim import core, threads
from vsim.kit import *
from vsim.kit import protofunctions as proto

# names of values, of nodes and of events: what hides another is of its kind
VALUES = ['a', 'b', 'c', 'set_a', 'a_changed', 'size']
NODES = {'one': 'SFNode', 'kids': 'MFNode'}
EVENTS = ['e', 'f', 'set_b', 'b_changed', 'set_kids']
BASES = ['Node', 'PROTO', 'Group', 'Material', 'TouchSensor']
ASKED = VALUES + sorted(NODES) + EVENTS + [
    'set_c', 'c_changed', 'set_a_changed', 'set_set_a', 'e_changed', 'set_e', 'set_one', 'kids_changed',
    'a_changed_changed', 'b_changed_changed', 'set_set_b', 'stored_a', 'set_stored_a', 'stored_c_changed', ' e', ' f',
    ' a', ' b', ' size', 'set_ a', 'x', 'set_x', 'x_changed', '', 'set_', '_changed', 'DEF', ' DEF', 'set_DEF',
    'children', 'addChildren', 'set_children', 'children_changed', 'set_addChildren', 'diffuseColor', 'isActive', 'set_enabled',
]  # fmt: skip
NO_FIELDS = ['copy', 'toString', 'PROTO']
USUAL = ['SFFloat', 'SFFloat', 'SFInt32', 'SFString', 'MFString', 'SFVec3f', 'MFVec3f', 'MFInt32', 'SFColor', 'SFBool', 'MFFloat', 'SFRotation']
MISSING = object()


def gen_field(rng, bad=0.0):
    x = rng.random()
    if x < 0.15:
        name = rng.choice(sorted(NODES))
        return [name, name, NODES[name], rng.randrange(2), None]
    if x < 0.4:
        name = rng.choice(EVENTS)
        stored = name if rng.random() < 0.8 else rng.choice((' ' + name, 'set_c', 'c_changed') if name == 'e' else (' ' + name,))
        return [name, stored, 'event ' + rng.choice(USUAL), rng.randrange(2), None]
    name, t = rng.choice(VALUES), rng.choice(USUAL)
    default = value(rng, t) if rng.random() < 0.5 else None
    return [name, name if rng.random() < 0.8 else rng.choice((' ', 'stored_')) + name, t, rng.randrange(2), default]


def gen_value(rng):
    spec = value(rng, rng.choice(USUAL), 0.1)
    if 'bad' in spec:
        spec['error'] = rng.choice(('ValueError', 'TypeError'))
    return spec


def gen_fault(rng):
    x = rng.random()
    if x > 0.3:
        return []
    return [{'what': 'gc' if x < 0.12 else 'memory', 'at': rng.randrange(1, rng.choice((4, 12, 60)))}]


def gen_small(rng, kind):
    """What a thread can do as well"""
    n = rng.randrange(64)
    if kind == 'add':
        spec = gen_field(rng)
        # under the name it is declared with
        spec[1] = spec[0]
        return ['add', n, spec]
    if kind == 'remove':
        return ['remove', n, rng.choice((None, None, None, rng.choice(VALUES))), rng.randrange(64), rng.choice(('name', 'object'))]
    if kind == 'find':
        return ['find', n, rng.choice(ASKED)]
    if kind == 'list':
        return ['list', n, rng.randrange(2)]
    if kind == 'new':
        given_ = []
        for _ in range(rng.randrange(4)):
            name = rng.choice(VALUES + ['kids', 'one'] if rng.random() < 0.8 else ASKED + NO_FIELDS)
            given_.append([name, gen_value(rng), rng.randrange(64), rng.random() < 0.9])
        return ['new', n, given_]
    raise core.HarnessError(kind)


def gen(rng, config, tier):
    def cls():
        n = rng.choice((1, 1, 1, 2))
        bases = [rng.randrange(64) for _ in range(n)]
        return ['class', bases, rng.choice(('prototype', 'subclass')), [gen_field(rng) for _ in range(rng.randrange(5))]]

    ops = [cls() for _ in range(rng.randrange(1, 3))]
    kinds = ['class', 'add', 'add', 'remove', 'remove', 'find', 'find', 'find', 'list', 'new', 'new', 'new', 'set', 'read', 'read', 'copy', 'definition', 'definition',
             'by-type', 'namespace', 'drop', 'gc', 'name', 'url', 'scene', 'threads']  # fmt: skip
    for _ in range(rng.randrange(4, 30)):
        k, n = rng.choice(kinds), rng.randrange(64)
        if k == 'class':
            op = cls()
        elif k in ('add', 'remove', 'find', 'list', 'new'):
            op = gen_small(rng, k)
        elif k == 'set':
            op = [k, n, rng.choice(VALUES), gen_value(rng), rng.random() < 0.9]
        elif k == 'read':
            op = [k, n, rng.choice(VALUES)]
        elif k == 'definition':
            op = [k, n, rng.randrange(64), rng.randrange(64), rng.choice((None, 'z', 'e')), rng.choice((None, 0, 1))]
        elif k == 'by-type':
            op = [k, rng.choice(USUAL + ['SFNode', 'MFNode', 'Nothing', '', 'sffloat']), rng.randrange(3), value(rng, rng.choice(USUAL)) if rng.random() < 0.5 else None]
        elif k == 'namespace':
            op = [k, rng.choice(('put', 'put', 'get', 'get', 'drop', 'copy', 'copying')), n, rng.choice(('A', 'B', 'C', 'get_it')), rng.randrange(64)]
        elif k == 'name':
            op = [k, n, rng.choice(('A', 'New', None, None)), rng.choice(('proto', 'def'))]
        elif k in ('url', 'scene'):
            op = [k, n, rng.choice(('put', 'get', 'drop')), rng.choice((['u'], ['u', 'v'], 'w'))]
        elif k == 'threads':
            jobs = [
                [gen_small(rng, rng.choice(('add', 'add', 'remove', 'find', 'list', 'list', 'new'))) for _ in range(rng.randrange(1, 4))]
                for _ in range(rng.randrange(2, 4))
            ]
            op = [k, jobs, [[rng.randrange(3), rng.randrange(1, rng.choice((4, 30)))] for _ in range(rng.randrange(1, 30))]]
        else:
            op = [k, n]
        if k in ('class', 'add', 'remove', 'find', 'list', 'new', 'definition', 'copy', 'by-type'):
            op += gen_fault(rng)
        ops.append(op)
    return {'ops': ops, 'bases': [rng.choice(BASES) for _ in range(2)]}


def simplify(op):
    if isinstance(op[-1], dict) and 'what' in op[-1]:
        yield op[:-1]
    if op[0] == 'threads':
        for i, job in enumerate(op[1]):
            for j in range(len(job)):
                if len(job) > 1:
                    yield ['threads', op[1][:i] + [job[:j] + job[j + 1 :]] + op[1][i + 1 :], op[2]]
        for i in range(len(op[2])):
            yield ['threads', op[1], op[2][:i] + op[2][i + 1 :]]
    if op[0] in ('new', 'class'):
        at = 2 if op[0] == 'new' else 3
        for i in range(len(op[at])):
            yield op[:at] + [op[at][:i] + op[at][i + 1 :]] + op[at + 1 :]


# -- the model ---------------------------------------------------------------
class Declared(object):
    """A field or event, and what it was declared with"""

    def __init__(self, definition, name, t, exposure, default):
        self.definition, self.name, self.t, self.exposure, self.default = definition, name, t, exposure, default
        self.event = t.startswith('event ')

    def initial(self):
        return zero(self.t) if self.default is None else expected(self.default)


class Shadow(object):
    """A class of the code under test, and the plain one with the same ancestors"""

    def __init__(self, cls, plain, name):
        self.cls, self.plain, self.name = cls, plain, name
        self.own = {}
        self.url = MISSING
        self.template = MISSING
        # the name it was given, as those which extend it have too
        self.called = vars(cls).get('PROTO') if name is None else None
        plain.shadow = self


def declared_by(cls):
    """What a class of the library declares, and those it extends"""
    return {k: v for k, v in vars(cls).items() if isinstance(v, (field.Field, field.Event))}


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.library = {object: object}
        self.shadows, self.nodes, self.orphans = [], [], 0
        self.spaces = [(type(field.baseFieldTypes)(), {})]
        self.known = {}
        self.registries = [(r, dict(r)) for r in (field.baseFieldTypes, field.baseEventTypes)]
        self.bases = []
        for name in case['bases']:
            bases = {'Node': (node.Node,), 'PROTO': (node.PrototypedNode, node.Node)}.get(name) or (standard()[name],)
            self.bases.append(bases)
        self.during = None

    def plain(self, cls):
        """The plain class which stands for one of the library"""
        if cls not in self.library:
            made = type(cls.__name__, tuple(self.plain(b) for b in cls.__bases__), {})
            self.library[cls] = made
            shadow = Shadow(cls, made, None)
            for k, v in declared_by(cls).items():
                t = v.typeName()
                event = isinstance(v, field.Event)
                shadow.own[k] = self.known[id(v)] = Declared(v, v.name, 'event ' + t if event else t, v.direction if event else v.exposure, None)
        return self.library[cls]

    def chain(self, shadow):
        """The ones whose declarations apply, the nearest first"""
        return [vars(c)['shadow'] for c in shadow.plain.__mro__ if 'shadow' in vars(c)]

    def lists(self, shadow, events):
        found = {}
        for s in reversed(self.chain(shadow)):
            found.update({k: d for k, d in s.own.items() if d.event == events})
        return found

    def meant(self, shadow, name):
        """What a name means to the prototype"""
        for s in self.chain(shadow):
            if name in s.own:
                return s.own[name]
        for events in (False, True):
            for d in self.lists(shadow, events).values():
                if d.name == name:
                    return d
        if name.startswith('set_'):
            return self.meant(shadow, name[4:])
        if name.endswith('_changed'):
            return self.meant(shadow, name[:-8])
        return None

    def pick(self, n):
        return self.shadows[n % len(self.shadows)]

    def asked(self, shadow, n):
        """The prototype, or a node of it, which is asked instead"""
        nodes = [m for m, s, _ in self.nodes if s is shadow]
        return nodes[n % len(nodes)] if nodes and n % 3 == 0 else shadow.cls

    # -- faults
    def tried(self, fault, action):
        """(whether it was done, result or error)"""
        ctx, points = self.ctx, core.POINTS
        struck = []

        def at_line(n, code, line):
            if n != fault['at']:
                return
            if fault['what'] == 'gc':
                points.busy = True
                try:
                    core.collect(ctx)
                    ctx.fault('gc-within-operation')
                finally:
                    points.busy = False
            else:
                struck.append(1)
                ctx.fault('allocation-failed')
                raise MemoryError('injected')

        try:
            if fault is None:
                return True, action()
            with points.run(at_line):
                got = action()
        except MemoryError as err:
            ctx.check(struck, 'unexpected-MemoryError')
            err.__traceback__ = None
            return None, err
        except (AttributeError, ValueError, TypeError, KeyError, OverflowError) as err:
            ctx.check(not struck, 'failure-hidden', 'a failed allocation gives %s', type(err).__name__)
            err.__traceback__ = None
            return False, err
        ctx.check(not struck, 'failure-hidden', 'the allocation which failed is not reported')
        return True, got

    # -- operations
    def make(self, spec):
        name, stored, t, exposure, default = spec
        if t.startswith('event '):
            made = field.newEvent(stored, t[6:], exposure)
        elif default is None:
            made = field.newField(stored, t, exposure)
        else:
            if default.get('form') == 'map':
                default = dict(default, form='plain')
            made = field.newField(stored, t, exposure, given(default))
        d = Declared(made, stored, t, exposure, default)
        self.known[id(made)] = d
        return d

    def op_class(self, bases, how, specs, fault=None):
        if len(self.shadows) >= 8:
            return
        own = {}
        for spec in specs:
            if how == 'prototype':
                spec = [spec[0], spec[0]] + spec[2:]
            own[spec[0]] = self.make(spec)
        chosen = []
        for n in bases:
            if n % 4 == 0 or not self.shadows:
                more = self.bases[n % 2]
            else:
                more = (self.pick(n // 4).cls,)
            chosen += [c for c in more if c not in chosen]
        # what makes a node a prototype's comes before what makes it a node
        chosen.sort(key=lambda c: not issubclass(c, node.PrototypedNode))
        name = 'P%d' % (len(self.known),)
        try:
            plain = type(name, tuple(self.plain(c) for c in chosen), {})
        except TypeError:
            plain = None

        def action():
            if how == 'prototype':
                return node.prototype(name, [d.definition for d in own.values()], baseClasses=tuple(chosen))
            return type(name, tuple(chosen), {k: d.definition for k, d in own.items()})

        done, got = self.tried(fault, action)
        if done is None:
            return
        self.ctx.check(done == (plain is not None), 'not-made', '%s: %r', chosen, got)
        if not done:
            self.ctx.check(isinstance(got, TypeError), 'wrong-error', '%r', got)
            self.ctx.fault('bases-refused')
            return
        self.ctx.check(got.__mro__[1:-1] == tuple(s.cls for s in self.chain_of(plain)), 'wrong-ancestors', '%s', got.__mro__)
        self.library[got] = plain
        shadow = Shadow(got, plain, name)
        if how == 'prototype':
            shadow.called = name
        shadow.own = own
        self.shadows.append(shadow)

    def chain_of(self, plain):
        return [vars(c)['shadow'] for c in plain.__mro__ if 'shadow' in vars(c)]

    def op_add(self, n, spec, fault=None):
        shadow = self.pick(n)
        d = self.make(spec)
        target = self.asked(shadow, n)
        done, got = self.tried(fault, lambda: proto.addField(target, d.definition))
        if done is None:
            # it was done, or wasn't
            done = vars(shadow.cls).get(d.name) is d.definition
        else:
            self.ctx.check(done, 'not-added', '%s: %r', spec, got)
        if done:
            shadow.own[d.name] = d

    def chosen(self, shadow, name, which):
        """An own one which is to be removed: those of its own name only"""
        if name is not None:
            return name
        own = sorted(k for k, d in shadow.own.items() if d.name == k)
        if which % 3 == 0:
            # or of what it extends
            own = sorted(k for e in (False, True) for k, d in self.lists(shadow, e).items() if d.name == k and k in VALUES + EVENTS) or own
        return own[which % len(own)] if own else 'a'

    def op_remove(self, n, name, which, how, fault=None):
        shadow = self.pick(n)
        name = self.chosen(shadow, name, which)
        d = shadow.own.get(name)
        target = self.asked(shadow, n)
        # what isn't declared here can be named by one which is declared elsewhere
        given_ = name
        if how == 'object':
            meant = self.lists(shadow, False).get(name) or self.lists(shadow, True).get(name)
            given_ = meant.definition if meant and meant.name == name else field.newField(name, 'SFFloat')
        done, got = self.tried(fault, lambda: proto.removeField(target, given_))
        if done is None:
            done = name not in vars(shadow.cls)
        else:
            self.ctx.check(done == (d is not None), 'wrong-removal', '%s, declared: %s, %r', name, d is not None, got)
            if not done:
                self.ctx.check(isinstance(got, AttributeError), 'wrong-error', '%r', got)
                self.ctx.fault('nothing-to-remove')
        if done and d is not None:
            del shadow.own[name]

    def op_find(self, n, name, fault=None):
        shadow = self.pick(n)
        target = self.asked(shadow, n)
        d = self.meant(shadow, name)
        done, got = self.tried(fault, lambda: proto.getField(target, name))
        if done is None:
            return
        self.ctx.check(done == (d is not None), 'wrong-finding', '%r: %s', name, got)
        if done:
            self.ctx.check(got is d.definition, 'wrong-field', '%r gives %s, not %s', name, got, d.definition)
            self.ctx.probe('found-otherwise', name not in self.lists(shadow, d.event))
        else:
            self.ctx.check(isinstance(got, AttributeError), 'wrong-error', '%r', got)
            self.ctx.fault('unknown-name')

    def op_list(self, n, events, fault=None):
        shadow = self.pick(n)
        target = self.asked(shadow, n)
        done, got = self.tried(fault, lambda: proto.getFields(target, events))
        if done is None:
            return
        self.ctx.check(done, 'unlisted', '%r', got)
        self.listed(shadow, bool(events), got)
        # which is the caller's
        del got[:]

    def listed(self, shadow, events, got):
        wanted = sorted(id(d.definition) for d in self.lists(shadow, events).values())
        names = sorted(getattr(f, 'name', f) for f in got)
        self.ctx.check(sorted(map(id, got)) == wanted, 'wrong-fields', '%s has %s, not %s', shadow.name, names, sorted(self.lists(shadow, events)))

    def argument(self, d, spec, which, fits):
        """(what to give, what becomes of it)"""
        if d.t == 'SFNode':
            made = standard()['Sphere']()
            return made, made
        if d.t == 'MFNode':
            made = [standard()['Sphere']() for _ in range(which % 3)]
            return made, list(made)
        if fits and spec['t'] != d.t and d.t in TYPES:
            spec = {'t': d.t, 'v': zero_of(d.t, which)}
        if spec['t'] != d.t or spec.get('bad'):
            return given(spec), MISSING
        return given(spec), expected(spec)

    def op_new(self, n, given_, fault=None):
        shadow = self.pick(n)
        arguments, wanted, refused, unclear = {}, {}, False, False
        for name, spec, which, fits in given_:
            d = None if name in NO_FIELDS else self.meant(shadow, name)
            if name in arguments or d is not None and d.name in wanted:
                continue
            if d is None or d.event:
                arguments[name] = given(spec)
                refused = True
                continue
            if d.name.startswith((' DEF', 'children')) or d.t not in TYPES and d.t not in NODES.values():
                continue
            arguments[name], value_ = self.argument(d, spec, which, fits)
            wanted[d.name] = (d, value_)
            if value_ is MISSING:
                unclear = True
        done, got = self.tried(fault, lambda: shadow.cls(**arguments))
        if done is None:
            return
        if refused:
            self.ctx.check(not done, 'accepted', '%s as %s', sorted(arguments), [k for k in arguments if self.meant(shadow, k) is None])
            self.ctx.fault('keyword-refused')
        elif not done:
            self.ctx.check(unclear and isinstance(got, (ValueError, TypeError, OverflowError)), 'refused', '%s: %r', sorted(arguments), got)
            self.ctx.fault('value-refused')
        if not done:
            return
        values = {k: v for k, v in wanted.items() if v[1] is not MISSING}
        stored = vars(got)
        for k, (d, v) in values.items():
            self.ctx.check(k in stored and self.as_wanted(stored[k], v), 'wrong-value', '%s', k)
        extra = {k for k in stored if not k.startswith(' ') and k not in wanted}
        self.ctx.check(not extra, 'too-much', '%s', extra)
        if len(self.nodes) < 10:
            # what is not clear is not looked at
            self.nodes.append((got, shadow, {k: v for k, v in wanted.items()}))
        return got

    def as_wanted(self, got, v):
        if isinstance(v, node.Node):
            return got is v
        if isinstance(v, list) and v and isinstance(v[0], node.Node) or isinstance(got, field.baseFieldTypes['MFNode'].baseObjectType):
            return len(got) == len(v) and all(a is b for a, b in zip(got, v))
        return same(got, v)

    def op_set(self, n, name, spec, fits):
        if not self.nodes:
            return
        made, shadow, values = self.nodes[n % len(self.nodes)]
        d = self.meant(shadow, name)
        # as an attribute it has its own name only
        if d is None or name not in self.lists(shadow, False):
            return
        argument, wanted = self.argument(d, spec, n, fits)
        try:
            setattr(made, name, argument)
        except (ValueError, TypeError, OverflowError):
            self.ctx.check(wanted is MISSING, 'refused', '%s', name)
            self.ctx.fault('value-refused')
            return
        values[d.name] = (d, wanted)

    def op_read(self, n, name):
        if not self.nodes:
            return
        made, shadow, values = self.nodes[n % len(self.nodes)]
        d = self.meant(shadow, name)
        if d is None or name not in self.lists(shadow, False):
            return
        got = getattr(made, name)
        wanted = values[d.name][1] if d.name in values else d.initial()
        if wanted is not MISSING:
            self.ctx.check(self.as_wanted(got, wanted), 'wrong-value', '%s is %s, not %s', name, plain(got), plain(wanted))
        if d.name not in values:
            values[d.name] = (d, wanted)

    def op_copy(self, n, fault=None):
        if not self.nodes:
            return
        made, shadow, values = self.nodes[n % len(self.nodes)]
        current = {d.name: d for d in self.lists(shadow, False).values()}
        if any(v is MISSING or current.get(k) is not d for k, (d, v) in values.items()):
            # it has values of fields which aren't there any more
            return
        done, got = self.tried(fault, made.copy)
        if done is None:
            return
        self.ctx.check(done and type(got) is shadow.cls, 'not-copied', '%r', got)
        for k, (d, v) in values.items():
            self.ctx.check(k in vars(got), 'value-not-copied', '%s', k)
            if d.t not in NODES.values():
                self.ctx.check(self.as_wanted(vars(got)[k], v), 'wrong-copy', '%s', k)

    def op_definition(self, n, which, m, name, direction, fault=None):
        """A definition is copied for use in another prototype"""
        shadow, other = self.pick(n), self.pick(m)
        found = [d for events in (False, True) for k, d in sorted(self.lists(shadow, events).items()) if not d.name.startswith(' ') and d.name in VALUES + EVENTS + sorted(NODES)]
        if not found:
            return
        d = found[which % len(found)]
        if d.event:
            done, got = self.tried(fault, lambda: d.definition.clone(name, direction) if which % 2 else d.definition.clone(name=name, direction=direction))
        else:
            done, got = self.tried(fault, lambda: d.definition.copy(other.cls))
        if done is None:
            return
        self.ctx.check(done, 'not-copied', '%s: %r', d.name, got)
        copy = Declared(got, d.name, d.t, d.exposure, d.default)
        if d.event:
            copy.name = d.name if name is None else name
            copy.exposure = d.exposure if direction is None else direction
            if copy.name not in EVENTS:
                copy.name = copy.name if name is None else name
        self.ctx.check(got is not d.definition and type(got) is type(d.definition), 'wrong-copy', '%s', got)
        self.known[id(got)] = copy
        self.defined(copy)
        if copy.name in VALUES + EVENTS + sorted(NODES):
            proto.addField(other.cls, got)
            other.own[copy.name] = copy
        else:
            self.kept = got

    def op_by_type(self, t, how, default, fault=None):
        """A type is named"""
        known = t in dict(self.registries[how == 2][0])
        if how == 2:
            done, got = self.tried(fault, lambda: field.newEvent('x', t, 0))
        elif default is not None and default['t'] == t and default.get('form') != 'map':
            done, got = self.tried(fault, lambda: field.newField('x', t, how, given(default)))
        else:
            default = None
            done, got = self.tried(fault, lambda: field.newField('x', t, how))
        if done is None:
            return
        self.ctx.check(done == known, 'wrong-type', '%s: %r', t, got)
        if done:
            self.defined(Declared(got, 'x', ('event ' if how == 2 else '') + t, 0 if how == 2 else how, default))
        else:
            self.ctx.check(isinstance(got, KeyError), 'wrong-error', '%r', got)
            self.ctx.fault('unknown-type')

    def defined(self, d):
        """A definition says what it was declared with"""
        f = d.definition
        self.ctx.check(f.name == d.name, 'definition-changed', 'name %r, not %r', f.name, d.name)
        t = d.t[6:] if d.event else d.t
        self.ctx.check(f.typeName() == t, 'definition-changed', 'type %s, not %s', f.typeName(), t)
        if d.event:
            self.ctx.check(f.direction == d.exposure, 'definition-changed', 'direction %s', f.direction)
            self.ctx.check(str(f) == '%s %s %s' % (('eventIn', 'eventOut')[d.exposure], t, d.name), 'definition-text', '%s', f)
            return
        self.ctx.check(f.exposure == d.exposure, 'definition-changed', 'exposure %s', f.exposure)
        start = '%s %s %s ' % (('field', 'exposedField')[d.exposure], t, d.name)
        self.ctx.check(str(f).startswith(start), 'definition-text', '%s', f)
        if d.t in TYPES:
            got = f.coerce(f.getDefault())
            self.ctx.check(same(got, d.initial()), 'definition-changed', 'default %s, not %s', plain(got), plain(d.initial()))

    def op_namespace(self, what, n, key, which):
        space, wanted = self.spaces[n % len(self.spaces)]
        if what == 'put':
            space[key] = wanted[key] = which
        elif what == 'drop':
            for s in (space, wanted):
                s.pop(key, None)
        elif what == 'get':
            try:
                got = getattr(space, key)
            except AttributeError:
                got = MISSING
            self.ctx.check(got == wanted.get(key, MISSING), 'wrong-namespace', '%s', key)
            self.ctx.check(hasattr(space, key) == (key in wanted), 'wrong-namespace', '%s', key)
        elif len(self.spaces) < 5:
            made = space.copy() if what == 'copy' else copying.copy(space)
            self.ctx.check(type(made) is type(space) and made is not space, 'wrong-namespace', '%s', type(made))
            self.spaces.append((made, dict(wanted)))

    def op_name(self, n, name, what):
        shadow = self.pick(n)
        made = [m for m, s, _ in self.nodes if s is shadow]
        if what == 'def' and made:
            target = made[n % len(made)]
            if name is not None:
                proto.defName(target, name)
                self.ctx.check(proto.defName(target) == name and proto.name(target) == name, 'wrong-name', '%s', name)
            self.ctx.check(proto.name(target) == proto.defName(target) == target.DEF, 'wrong-name', '%s', proto.name(target))
            return
        target = made[0] if made and n % 2 else shadow.cls
        if name is not None:
            proto.protoName(target, name)
            shadow.called = name
        self.ctx.check(proto.builtin(target) == (not issubclass(shadow.cls, node.PrototypedNode)), 'builtin', '%s', shadow.name)
        self.ctx.check(proto.getPrototype(target) is shadow.cls, 'wrong-prototype', '%s', shadow.name)

    def op_url(self, n, what, value_):
        shadow = self.pick(n)
        if what == 'put':
            proto.setExternalURL(shadow.cls, value_)
            shadow.url = [value_] if isinstance(value_, str) else list(value_)
        elif what == 'drop':
            if shadow.url is not MISSING:
                proto.delExternalURL(shadow.cls)
                shadow.url = MISSING
        else:
            got = proto.getExternalURL(shadow.cls)
            self.ctx.check(list(got) == ([] if shadow.url is MISSING else shadow.url), 'wrong-url', '%s, not %s', got, shadow.url)
            if shadow.url is MISSING:
                shadow.url = []

    def op_scene(self, n, what, value_):
        from vrml.vrml97 import scenegraph

        shadow = self.pick(n)
        if not issubclass(shadow.cls, node.PrototypedNode):
            return
        if what == 'put':
            shadow.template = scenegraph.SceneGraph(children=[standard()['Sphere'](radius=n + 1)])
            proto.setSceneGraph(shadow.cls, shadow.template)
        elif what == 'drop':
            if shadow.template is not MISSING:
                proto.delSceneGraph(shadow.cls)
                shadow.template = MISSING
        else:
            got = proto.getSceneGraph(shadow.cls)
            if shadow.template is MISSING:
                self.ctx.check(not got or not got.children, 'wrong-scene', '%s', shadow.name)
            else:
                self.ctx.check(got is shadow.template, 'wrong-scene', '%s', shadow.name)
            # and nodes have what is found first
            for shadow in self.shadows:
                if issubclass(shadow.cls, node.PrototypedNode):
                    chain = [s for s in self.chain(shadow) if s.template is not MISSING]
                    radii = [c.radius for c in proto.getSceneGraph(shadow.cls()).children]
                    self.ctx.check(radii == ([c.radius for c in chain[0].template.children] if chain else []), 'wrong-instance', '%s: %s', shadow.name, radii)

    def op_drop(self, n):
        """Nobody uses the prototype any more, nor those which extend it"""
        if len(self.shadows) < 2:
            return
        shadow = self.pick(n)
        gone = [s for s in self.shadows if shadow in self.chain(s)]
        if len(gone) == len(self.shadows):
            return
        self.shadows = [s for s in self.shadows if s not in gone]
        self.nodes = [m for m in self.nodes if m[1] not in gone]
        self.ctx.fault('prototype-dropped')

    def op_gc(self, n):
        core.collect(self.ctx)

    # -- threads
    def op_threads(self, jobs, schedule):
        ctx = self.ctx
        log = []
        # what is touched: only what isn't is sure
        made = {}
        for i, job in enumerate(jobs):
            for j, op in enumerate(job):
                if op[0] == 'add':
                    made[i, j] = self.make(op[2])
        touched, before = set(), {}
        plan = {}
        for i, job in enumerate(jobs):
            for j, op in enumerate(job):
                shadow = self.pick(op[1])
                if op[0] == 'add':
                    touched.add((shadow, made[i, j].name))
                elif op[0] == 'remove':
                    plan[i, j] = self.chosen(shadow, op[2], op[3])
                    touched.add((shadow, plan[i, j]))
        possible = {}
        for s in self.shadows:
            for c in self.chain(s):
                for k, d in c.own.items():
                    possible.setdefault((c, k), []).append(d)
        for (i, j), d in made.items():
            possible.setdefault((self.pick(jobs[i][j][1]), d.name), []).append(d)

        def surely(shadow, name, event):
            """What is declared throughout, if that is the nearest for sure"""
            for c in self.chain(shadow):
                if (c, name) in touched:
                    return None
                if name in c.own:
                    return c.own[name] if c.own[name].event == event else None
            return None

        def perform(i):
            def action():
                for j, op in enumerate(jobs[i]):
                    shadow = self.pick(op[1])
                    try:
                        if op[0] == 'add':
                            got = proto.addField(shadow.cls, made[i, j].definition)
                        elif op[0] == 'remove':
                            got = proto.removeField(shadow.cls, plan[i, j])
                        elif op[0] == 'find':
                            got = proto.getField(shadow.cls, op[2])
                        elif op[0] == 'list':
                            got = proto.getFields(shadow.cls, op[2])
                        else:
                            arguments = {}
                            for name, spec, which, fits in op[2]:
                                d = surely(shadow, name, False)
                                if d is not None and d.t in TYPES:
                                    arguments[name] = self.argument(d, {'t': None, 'v': None}, which, True)
                            got = (shadow.cls(**{k: a for k, (a, _) in arguments.items()}), arguments)
                        log.append((i, j, True, got))
                    except (AttributeError, KeyError) as err:
                        err.__traceback__ = None
                        log.append((i, j, False, err))

            return action

        simulation = threads.Simulation(ctx, [perform(i) for i in range(len(jobs))], schedule)
        done = simulation.run()
        ctx.fault('switched', simulation.switches)
        for t in done:
            if t.error is not None:
                raise t.error
        adds, removals = {}, {}
        for i, j, worked, got in log:
            op, shadow = jobs[i][j], self.pick(jobs[i][j][1])
            ctx.log('thread', i, op[0], worked)
            if op[0] == 'add':
                ctx.check(worked, 'not-added', '%r', got)
                adds.setdefault((shadow, made[i, j].name), []).append(made[i, j])
            elif op[0] == 'remove':
                key = (shadow, plan[i, j])
                removals.setdefault(key, []).append(worked)
                ctx.check(worked or isinstance(got, AttributeError), 'wrong-error', '%r', got)
            elif op[0] == 'list':
                ctx.check(worked, 'unlisted', '%r', got)
                ids = [id(f) for f in got]
                for k in {k for c in self.chain(shadow) for k in c.own}:
                    d = surely(shadow, k, bool(op[2]))
                    ctx.check(d is None or ids.count(id(d.definition)) == 1, 'field-missed', '%s of %s', k, shadow.name)
                may = {id(d.definition) for (c, k), ds in possible.items() if c in self.chain(shadow) for d in ds if d.event == bool(op[2])}
                ctx.check(set(ids) <= may, 'never-declared', '%s', [f.name for f in got if id(f) not in may])
            elif op[0] == 'find':
                simple = [(c, op[2]) for c in self.chain(shadow)]
                sure = surely(shadow, op[2], False) or surely(shadow, op[2], True)
                if sure is not None:
                    ctx.check(worked and got is sure.definition, 'wrong-field', '%s gives %s', op[2], got)
                elif worked:
                    may = {id(d.definition) for (c, k), ds in possible.items() if c in self.chain(shadow) for d in ds}
                    ctx.check(id(got) in may, 'never-declared', '%s gives %s', op[2], got)
                elif not touched & {(c, k) for c in self.chain(shadow) for k in VALUES + EVENTS + sorted(NODES)}:
                    ctx.check(self.meant(shadow, op[2]) is None, 'wrong-finding', '%s', op[2])
                del simple
            elif worked:
                for k, (a, wanted) in got[1].items():
                    d = surely(shadow, k, False)
                    ctx.check(self.as_wanted(vars(got[0]).get(d.name), wanted), 'wrong-value', '%s', k)
            else:
                ctx.fail('not-made', '%r', got)
        for shadow, name in touched:
            # one of the orders there can have been
            now = vars(shadow.cls).get(name)
            old = shadow.own.get(name)
            added = adds.get((shadow, name), [])
            removed = removals.get((shadow, name), [])
            options = [d for d in added if now is d.definition]
            if not removed:
                ctx.check(options, 'lost-field', '%s', name)
            elif now is not None and not options:
                ctx.check(old is not None and now is old.definition and not any(removed) and not added, 'wrong-field', '%s', name)
                options = [old]
            elif now is None:
                ctx.check(any(removed) or old is None and not added, 'lost-field', '%s', name)
            ctx.check(sum(removed) <= len(added) + (old is not None), 'removed-twice', '%s', name)
            shadow.own.pop(name, None)
            if options:
                shadow.own[name] = options[0]

    def verify(self):
        for shadow in self.shadows:
            for events in (False, True):
                self.listed(shadow, events, proto.getFields(shadow.cls, events))
            called = [s.called for s in self.chain(shadow) if s.called is not None][0] or shadow.name
            self.ctx.check(proto.protoName(shadow.cls) == proto.name(shadow.cls) == called, 'wrong-name', '%s, not %s', proto.protoName(shadow.cls), called)
            for d in shadow.own.values():
                self.defined(d)
        for made, shadow, values in self.nodes:
            stored = vars(made)
            for k, (d, v) in values.items():
                if v is not MISSING:
                    self.ctx.check(k in stored and self.as_wanted(stored[k], v), 'value-lost', '%s of a %s', k, shadow.name)
        for space, wanted in self.spaces:
            self.ctx.check(dict(space) == wanted, 'wrong-namespace', '%s, not %s', space, wanted)
        for registry, before in self.registries:
            self.ctx.check(dict(registry) == before, 'types-changed', '%s', set(before) ^ set(registry))


def zero_of(t, n):
    """Some value of the type"""
    kind, dim, dtype = TYPES[t]
    number = float(n % 2)
    if kind in ('bool', 'int'):
        return n % 2
    if kind == 'float':
        return number
    if kind == 'string':
        return 'text'
    if kind == 'strings':
        return ['text'] * (n % 3)
    if kind in ('vec', 'color'):
        return [number] * dim
    if kind in ('vecs', 'colors'):
        return [[number] * dim] * (n % 3)
    if kind in ('ints', 'uints'):
        return [n % 2] * (n % 3)
    return [number] * (n % 3)


def run(case, ctx):
    sim = Run(case, ctx)
    for op in case['ops']:
        if not sim.shadows and op[0] not in ('class', 'by-type', 'namespace', 'gc'):
            continue
        ctx.step()
        getattr(sim, 'op_' + op[0].replace('-', '_'))(*op[1:])
        sim.verify()
        ctx.log(op[0], [(s.name, sorted(k for e in (False, True) for k in sim.lists(s, e))) for s in sim.shadows], [(s.name, sorted(v)) for _, s, v in sim.nodes])
        ctx.state([(s.name is None, sorted(s.own), sorted(k for k, d in sim.lists(s, False).items())) for s in sim.shadows], len(sim.nodes))
        ctx.nontrivial = ctx.nontrivial or len(sim.shadows) > 1 and any(s.own for s in sim.shadows)
