"""P08: weak containers hold what is alive, in order, and nothing else

Each operation is run on the weak container with the real items and on a plain
list of stand-ins for those alive.  Items die between operations, within them
(where the collector runs at a chosen line) and at the hands of iterators and
comparisons the operations call.
"""

import copy
import functools
import operator

from vsim import core
from vsim.kit import *

LISTS = ['list', 'list', 'list', 'path', 'path97']
COMPARISONS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']


def gen(rng, config, tier):
    kind = rng.choice(LISTS)
    # few values, so that there are different but equal items
    values = [rng.randrange(4) for _ in range(8)]

    def some(most=4):
        return [rng.randrange(8) for _ in range(rng.randrange(0, most))]

    def index():
        return rng.choice((0, 0, 1, 2, 3, -1, -1, -2, rng.randrange(-9, 9)))

    def slc():
        return [rng.choice((None, index())), rng.choice((None, index())), rng.choice((None, None, None, 1, 2, -1, -2))]

    def given():
        """[items, how it is given]"""
        how = {'how': rng.choice(('list', 'list', 'tuple', 'refs', 'iter', 'iter', 'weak', 'self'))}
        if how['how'] == 'iter':
            how['at'] = rng.randrange(0, 4)
            how['do'] = rng.choice(('fail', 'kill', 'kill', 'gc', 'none'))
            how['victim'] = rng.randrange(8)
        return [some(), how]

    ops = []
    for _ in range(rng.randrange(5, 45)):
        r = rng.random()
        if r < 0.10:
            ops.append(['append', rng.randrange(8)])
        elif r < 0.16:
            ops.append(['insert', index(), rng.randrange(8)])
        elif r < 0.24:
            ops.append(rng.choice((['extend'], ['iadd'], ['radd'], ['add'], ['add'])) + given())
        elif r < 0.29:
            ops.append(['setitem', index(), rng.randrange(8)])
        elif r < 0.35:
            ops.append(['setslice', slc()] + given())
        elif r < 0.38:
            ops.append(['delitem', index()])
        elif r < 0.41:
            ops.append(['delslice', slc()])
        elif r < 0.46:
            ops.append(['getitem', index()])
        elif r < 0.50:
            ops.append(['getslice', slc()])
        elif r < 0.54:
            ops.append(['pop', rng.choice((None, index()))])
        elif r < 0.57:
            ops.append(['remove', rng.randrange(8)])
        elif r < 0.64:
            ops.append([rng.choice(('contains', 'count', 'index')), rng.randrange(8)])
        elif r < 0.66:
            ops.append([rng.choice(('reverse', 'clear', 'sort', 'sortby'))])
        elif r < 0.70:
            ops.append([rng.choice(('copy', 'copycopy', 'again')), rng.random() < 0.4])
        elif r < 0.72:
            ops.append([rng.choice(('mul', 'imul', 'rmul')), rng.randrange(0, 3)])
        elif r < 0.76:
            ops.append(['compare', rng.choice(COMPARISONS), rng.choice(('same', 'some', 'weak')), some()])
        elif r < 0.79:
            ops.append([rng.choice(('iterate', 'reversed', 'bool', 'unpack', 'sorted', 'onto'))])
        elif r < 0.91:
            ops.append(['kill', rng.randrange(8), rng.random() < 0.55])
        elif r < 0.92:
            ops.append(['gc'])
        elif r < 0.94:
            ops.append(['passing', rng.choice(('extend', 'iadd', 'setslice', 'made', 'append', 'insert')), [rng.choice((None, index())), rng.choice((None, index())), None], rng.randrange(1, 5), rng.random() < 0.4])
        elif r < 0.97:
            ops.append([rng.choice(('tmake', 'dset', 'dset')), some(5)])
        else:
            ops.append([rng.choice(('tuse', 'duse', 'ddel', 'tuse')), rng.randrange(12), rng.randrange(8)])
    if rng.random() < 0.4:
        # an item of several dies in the middle of what looks at them
        at = rng.randrange(len(ops) + 1)
        one, two, three = rng.sample(range(8), 3)
        struck = rng.choice((['pop', rng.choice((0, 1, 1, 2, -1, -2, -3))], ['pop', index()], ['remove', two], ['delitem', rng.choice((1, -2))], ['insert', rng.choice((1, 2, -1, -2)), two],
                             ['setitem', rng.choice((1, 2, -2)), one], ['delslice', slc()], ['setslice', slc()] + given(), ['index', three], ['sort'], ['copy', True], ['imul', 2]))
        struck = struck + [{'at': rng.randrange(1, 26), 'what': 'gc'}]
        dies = rng.choice((one, two, three))
        ops[at:at] = [['append', one], ['append', two], ['append', three], ['kill', dies, True], struck]
    for op in ops:
        if isinstance(op[-1], dict) and 'what' in op[-1]:
            continue
        if rng.random() < 0.35:
            op.append({'at': rng.randrange(1, rng.choice((8, 16, 16, 40))), 'what': rng.choice(('gc', 'gc', 'gc', 'memory'))})
        elif rng.random() < 0.08:
            op.append({'compare': rng.randrange(1, 4), 'victim': rng.randrange(8)})
    return {'kind': kind, 'values': values, 'ops': ops}


class Item(object):
    """What is held weakly, compares by its value"""

    hook = None

    def __init__(self, serial, value):
        self.serial, self.value = serial, value

    def _compared(self):
        hook = Item.hook
        if hook is not None:
            hook()

    def __eq__(self, other):
        self._compared()
        return isinstance(other, Item) and self.value == other.value

    def __hash__(self):
        return hash(self.value)

    def __lt__(self, other):
        self._compared()
        return self.value < other.value

    def __le__(self, other):
        return self.value <= other.value

    def __gt__(self, other):
        return self.value > other.value

    def __ge__(self, other):
        return self.value >= other.value


class StandIn(Item):
    """For an item in the plain list of the model"""

    def _compared(self):
        pass


class Slot(node.Node):
    """A node as an item, compares by identity"""

    PROTO = 'Slot'


def order(a, b):
    return (b.value > a.value) - (b.value < a.value)


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.kind = case['kind']
        self.cls = {'list': weaklist.WeakList, 'path': nodepath.WeakNodePath, 'path97': nodepath97.WeakNodePath}[self.kind]
        self.values = case['values']
        self.items = []
        self.serials = []
        # serial -> weak reference to the item
        self.refs = {}
        self.value_of = {}
        self.count = 0
        self.doomed = set()
        for i in range(8):
            self.create(i)
        self.real = self.cls()
        # the serials of the items in it
        self.model = []
        # weak tuples with their serials, the dictionary with its values
        self.tuples = []
        self.dict = weakkeydictfix.WeakKeyDictionary()
        self.mapping = {}

    def create(self, i):
        self.count += 1
        if self.kind == 'list':
            made = Item(self.count, self.values[i])
        else:
            made = Slot()
            made.serial, made.value = self.count, self.count
        if i < len(self.items):
            self.items[i], self.serials[i] = made, self.count
        else:
            self.items.append(made)
            self.serials.append(self.count)
        self.refs[self.count] = core.weakref.ref(made)
        self.value_of[self.count] = made.value

    def alive(self, serial):
        return self.refs[serial]() is not None

    def kill(self, i, cycle):
        victim = self.items[i]
        self.items[i] = None
        self.ctx.fault('item-died-later' if cycle else 'item-died')
        if cycle:
            victim.myself = victim
            self.doomed.add(self.serials[i])
        del victim
        self.create(i)

    # -- one operation, on the weak list or on the model's
    def source(self, given, who, target):
        """The sequence given to an operation"""
        indices, how = given
        items = [who(i) for i in indices]
        kind = how['how']
        if kind == 'tuple':
            return tuple(items)
        if kind == 'self':
            return target
        if kind == 'refs' and who == self.item:
            return [core.weakref.ref(i) for i in items]
        if kind == 'weak' and who == self.item:
            return self.cls(items)
        if kind == 'iter':
            if how['do'] == 'fail':
                return self.failing(items, how)
            if who == self.item:
                # not to keep what is to die
                del items
                return self.acting(indices, how)
        return items

    def failing(self, items, how):
        for n, item in enumerate(items):
            if n == how['at']:
                raise core.SimFault('iterator')
            yield item
        if how['at'] >= len(items):
            raise core.SimFault('iterator')

    def acting(self, indices, how):
        """Gives the items, one dying, or the collector running, on the way"""
        items = [self.items[i] for i in indices]
        for n in range(len(items)):
            if n == how['at']:
                if how['do'] == 'kill' and how['victim'] not in indices:
                    self.ctx.fault('item-died-within-operation')
                    self.kill(how['victim'], False)
                elif how['do'] == 'gc':
                    core.collect(self.ctx)
            yield items[n]

    def item(self, i):
        return self.items[i]

    def stand_in(self, serial):
        return StandIn(serial, self.value_of[serial])

    def apply(self, target, op, who):
        """Execute the operation, giving its result"""
        weak = who == self.item
        kind = op[0]
        if kind == 'append':
            return target.append(who(op[1]))
        if kind == 'insert':
            return target.insert(op[1], who(op[2]))
        if kind == 'extend':
            return target.extend(self.source(op[1:3], who, target))
        if kind == 'iadd':
            before = target
            target += self.source(op[1:3], who, target)
            return target is before
        if kind in ('add', 'radd'):
            other = self.source(op[1:3], who, target)
            if not isinstance(other, list):
                other = list(other)
            if self.kind != 'list' or type(other) is not list:
                other = list(other)
                if kind == 'radd' and self.kind != 'list':
                    kind = 'add'
            other = [i() if isinstance(i, core.weakref.ref) else i for i in other]
            return list(target + other if kind == 'add' else other + target)
        if kind == 'setitem':
            target[op[1]] = who(op[2])
            return None
        if kind == 'setslice':
            source = self.source(op[2:4], who, target)
            if op[1][2] not in (None, 1) and not isinstance(source, (list, tuple)):
                source = list(source)
            target[slice(*op[1])] = source
            return None
        if kind == 'delitem':
            del target[op[1]]
            return None
        if kind == 'delslice':
            del target[slice(*op[1])]
            return None
        if kind == 'getitem':
            return target[op[1]]
        if kind == 'getslice':
            return list(target[slice(*op[1])])
        if kind == 'pop':
            return target.pop() if op[1] is None else target.pop(op[1])
        if kind == 'remove':
            return target.remove(who(op[1]))
        if kind == 'contains':
            return bool(who(op[1]) in target)
        if kind in ('count', 'index'):
            return getattr(target, kind)(who(op[1]))
        if kind in ('reverse', 'clear'):
            return getattr(target, kind)()
        if kind == 'sort':
            if self.kind != 'list':
                return None
            return target.sort()
        if kind == 'sortby':
            return target.sort(order) if weak else target.sort(key=functools.cmp_to_key(order))
        if kind in ('copy', 'copycopy', 'again'):
            if kind == 'copy':
                other = target.copy()
            elif kind == 'copycopy':
                other = copy.copy(target)
            else:
                other = type(target)(target)
            items = list(other)
            if weak and op[1] and isinstance(other, self.cls):
                # go on with the copy
                self.real = other
            return items
        if kind == 'mul':
            return list(target * op[1])
        if kind == 'rmul':
            return list(op[1] * target)
        if kind == 'imul':
            target *= op[1]
            return None
        if kind == 'compare':
            if op[2] == 'same':
                other = list(target)
            else:
                other = [who(i) for i in op[3]]
                if op[2] == 'weak' and weak:
                    other = self.cls(other)
            if self.kind != 'list':
                if op[1] not in ('eq', 'ne'):
                    return None
                if not weak:
                    return self.kind and bool(getattr(operator, op[1])([i.serial for i in target], [i.serial for i in other]))
                if op[1] == 'ne':
                    return not bool(target == other)
            return bool(getattr(operator, op[1])(target, other))
        if kind == 'iterate':
            return [i for i in target]
        if kind == 'reversed':
            return list(reversed(target))
        if kind == 'bool':
            return bool(target)
        if kind == 'unpack':
            first, *rest = target
            return [first] + rest
        if kind == 'sorted':
            return sorted(target, key=lambda i: i.value)
        if kind == 'onto':
            made = [None]
            made.extend(target)
            return made[1:]
        raise core.HarnessError(kind)

    def outcome(self, target, op, who):
        """('gave' or 'raised', normalised result)"""
        try:
            return ('gave', self.normal(self.apply(target, op, who)))
        except core.Violation:
            raise
        except (MemoryError, core.SimFault, IndexError, ValueError, TypeError) as err:
            return ('raised', type(err).__name__)

    def normal(self, result):
        if isinstance(result, (Item, Slot)):
            return result.serial
        if isinstance(result, list):
            return [self.normal(i) for i in result]
        if result is None or isinstance(result, (bool, int)):
            return result
        return repr(type(result))

    def op(self, op):
        ctx = self.ctx
        fault = op[-1] if isinstance(op[-1], dict) and ('what' in op[-1] or 'compare' in op[-1]) else None
        if op[0] == 'kill':
            self.kill(op[1], op[2])
            ctx.log('kill', op[1], op[2])
        elif op[0] == 'gc':
            core.collect(ctx)
        elif op[0] == 'passing':
            self.passing(op)
        elif op[0][0] in 'td':
            if op[0] in ('tmake', 'tuse'):
                self.tuple(op)
                return self.settle()
            if op[0] in ('dset', 'duse', 'ddel'):
                self.mapped(op)
                return self.settle()
            self.operate(op, fault)
        else:
            self.operate(op, fault)
        self.settle()

    def passing(self, op):
        """Items which nothing holds but what gives them"""
        _, how, where, count, cycle = op[:5]
        real = self.real

        def given():
            for n in range(count):
                made = Item(-1, n) if self.kind == 'list' else Slot()
                made.serial, made.value = -1, n
                if cycle:
                    made.myself = made
                yield made
                del made

        if how == 'extend':
            real.extend(given())
        elif how == 'iadd':
            real += given()
        elif how == 'setslice':
            real[slice(*where)] = given()
            self.model[slice(*where)] = []
        elif how == 'made':
            real = self.cls(given())
        else:
            for item in given():
                # given as a reference to it
                item = core.weakref.ref(item) if where[0] is None else item
                if how == 'append':
                    real.append(item)
                else:
                    real.insert(where[1] or 0, item)
            del item
        self.ctx.fault('item-died-as-given')
        if cycle:
            core.collect(self.ctx)
        now = [i.serial for i in real]
        wanted = [] if how == 'made' else [s for s in self.model if self.alive(s)]
        self.ctx.check(now == wanted and len(real) == len(wanted), 'passing-item', '%s leaves %s and %d references, not %s', op, now, len(real), wanted)
        self.ctx.log('passing', how, now)

    def half(self, items):
        """The items of something repeated once"""
        middle = len(items) // 2
        self.ctx.check(items[:middle] == items[middle:], 'tuple-items', 'repeated: %s', items)
        return items[:middle]

    def settle(self):
        """The dead leave the model"""
        self.model = [s for s in self.model if self.alive(s)]
        self.doomed = {s for s in self.doomed if self.alive(s)}
        for key in list(self.mapping):
            if not self.alive(key):
                del self.mapping[key]

    def operate(self, op, fault):
        ctx = self.ctx
        before = list(self.model)
        serials = list(self.serials)
        if fault and fault.get('what') == 'memory' and (self.doomed or 'do' in repr(op)):
            fault = None
        struck = []
        points = core.POINTS

        def at_line(n, code, line):
            if n != fault['at']:
                return
            if fault['what'] == 'gc':
                points.busy = True
                try:
                    core.collect(ctx)
                    ctx.fault('gc-within-operation')
                finally:
                    points.busy = False
            else:
                struck.append(1)
                ctx.fault('allocation-failed')
                raise MemoryError('injected')

        if fault and 'compare' in fault and self.kind == 'list':
            left = [fault['compare']]

            def hook():
                left[0] -= 1
                if left[0] == 0 and fault['victim'] not in [i for i in op[1:] if isinstance(i, int)]:
                    ctx.fault('item-died-within-operation')
                    self.kill(fault['victim'], False)

            Item.hook = hook
        try:
            if fault and 'what' in fault:
                with points.run(at_line):
                    got = self.outcome(self.real, op, self.item)
            else:
                got = self.outcome(self.real, op, self.item)
        finally:
            Item.hook = None
        if got == ('raised', 'SimFault') and op[0] in ('extend', 'iadd'):
            # a list may keep what was given before, or nothing
            wanted = [(got, before)]
        else:
            wanted = []
        dead = {s for s in before + serials if not self.alive(s)}
        if struck and got == ('raised', 'MemoryError'):
            # it happened, or did not
            wanted += [(got, before), (got, self.expect(op, before, serials)[1])]
        else:
            wanted += [self.expect(op, before, serials)]
            if dead:
                wanted.append(self.expect(op, [s for s in before if s not in dead], serials))
                (how, result), content = wanted[0]
                if isinstance(result, list) and (self.kind != 'list' or op[0] in ('copy', 'copycopy', 'again')):
                    # what is given holds its items weakly too
                    wanted.append(((how, [s for s in result if s not in dead]), content))
        now = [i.serial for i in self.content()]
        ctx.log(op, got, now)
        accepted = []
        for result, content in wanted:
            content = [s for s in content if s not in dead]
            accepted.append((result, content))
            if result == got and content == now:
                self.model = content
                break
        else:
            cls = 'wrong-result' if all(r != got for r, c in accepted) else 'wrong-contents'
            ctx.fail(cls, '%s on %s: %s leaving %s, not %s (dead: %s)', op, before, got, now, accepted, sorted(dead))
        if dead:
            ctx.probe('died-within-operation')

    def expect(self, op, before, serials):
        """What a plain list of the items would do"""
        target = [self.stand_in(s) for s in before]

        def who(i):
            return self.stand_in(serials[i])

        kind = op[0]
        outcome = self.outcome(target, op, who)
        return outcome, [i.serial for i in target]

    def content(self):
        """The items, as the list itself gives them"""
        found = list(self.real)
        self.ctx.check(all(i is not None for i in found), 'dead-item-given', 'in %s', found)
        return found

    # -- tuples and dictionaries
    def tuple(self, op):
        ctx = self.ctx
        if op[0] == 'tmake':
            if len(self.tuples) > 3:
                self.tuples.pop(0)
            made = weaktuple.WeakTuple([self.items[i] if i % 2 else core.weakref.ref(self.items[i]) for i in op[1]])
            self.tuples.append((made, [self.serials[i] for i in op[1]]))
            return
        if not self.tuples:
            return
        which, serials = self.tuples[op[1] % len(self.tuples)]
        valid = all(self.alive(s) for s in serials)
        number = self.normal
        got = [
            self.tried(lambda: [number(i) for i in which]),
            self.tried(lambda: [number(which[n]) for n in range(len(which))]),
            self.tried(lambda: [number(i) for i in which[:]]),
            self.tried(lambda: [number(i) for i in which + ()]),
            self.tried(lambda: [number(i) for i in () + which]),
            self.tried(lambda: [number(i) for i in which * 1]),
            self.tried(lambda: self.half([number(i) for i in 2 * which])),
            self.tried(lambda: self.half([number(i) for i in which + which])),
            self.tried(lambda: [number(i) for i in reversed(which)][::-1]),
        ]
        wanted = serials if valid else 'dead'
        ctx.check(len(which) == len(serials) and bool(which.valid()) == valid, 'tuple-validity', '%s of %s', which.valid(), serials)
        ctx.check(all(g == wanted for g in got), 'tuple-items', '%s, not %s', got, wanted)
        ctx.log('tuple', serials, valid)
        if not valid:
            ctx.probe('dead-tuple-used')
        # each item as long as it lives
        for n, s in enumerate(serials):
            one = self.tried(lambda: number(which[n]))
            ctx.check(one == (s if self.alive(s) else 'dead'), 'tuple-item', 'item %d: %s', n, one)
        if valid:
            item = self.items[op[2]]
            ctx.check(bool(item in which) == (item.serial in serials), 'tuple-contains')
            ctx.check(which.count(item) == serials.count(item.serial), 'tuple-count')
            if item.serial in serials:
                ctx.check(which.index(item) == serials.index(item.serial), 'tuple-index')
            ctx.check(bool(which == list(which)) and not bool(which != list(which)), 'tuple-comparison')
            ctx.check(bool(which == weaktuple.WeakTuple(list(which))), 'tuple-comparison')
            # as a list of its items compares
            others = [[self.items[op[2]]], list(which)[:-1], list(which) + [item], list(which)[:-1] + [item], [item] + list(which)[1:], []]
            for other in others:
                for name in COMPARISONS:
                    if self.kind != 'list' and name not in ('eq', 'ne'):
                        # these items have no order
                        continue
                    compare = getattr(operator, name)
                    wanted = compare(list(which), other)
                    for form in (other, weaktuple.WeakTuple(other)):
                        result = compare(which, form)
                        ctx.check(result is wanted, 'tuple-comparison', '%s of %s: %s', name, [number(i) for i in other], result)
        else:
            # whatever has to look at a dead item says so
            item = self.items[op[2]]
            dead = min(n for n, s in enumerate(serials) if not self.alive(s))
            place = serials.index(item.serial) if item.serial in serials else None
            found = (['dead'] if place is None or place > dead else ['dead', True], ['dead'] if place is None or place > dead else ['dead', place])
            ctx.check(self.tried(lambda: bool(item in which)) in found[0], 'dead-tuple-contains', '%s in %s', item.serial, serials)
            ctx.check(self.tried(lambda: which.index(item)) in found[1], 'dead-tuple-index', '%s in %s', item.serial, serials)
            ctx.check(self.tried(lambda: which.count(item)) == 'dead', 'dead-tuple-count', '%s in %s', item.serial, serials)
            # equal up to the dead one
            other = [self.refs[s]() if self.alive(s) else None for s in serials]
            for name, compare in (('==', lambda: which == other), ('!=', lambda: which != other), ('<', lambda: which < other), ('>=', lambda: which >= other)):
                ctx.check(self.tried(compare) == 'dead', 'dead-tuple-comparison', '%s of %s', name, serials)
            del other

    def tried(self, action):
        try:
            return action()
        except ReferenceError:
            return 'dead'

    def mapped(self, op):
        ctx = self.ctx
        if op[0] == 'dset':
            for i in op[1]:
                item = self.items[i]
                key = self.find(item)
                self.count += 1
                self.dict[item] = self.count
                # an equal key which is there already stays
                self.mapping[key if key is not None else item.serial] = self.count
                self.refs.setdefault(self.count, None)
            return
        item = self.items[op[2]]
        key = self.find(item)
        if op[0] == 'ddel':
            try:
                del self.dict[item]
            except KeyError:
                ctx.check(key is None, 'key-lost', '%s', item.serial)
            else:
                ctx.check(key is not None, 'wrong-key-found', '%s', item.serial)
                del self.mapping[key]
        else:
            ctx.check(self.dict.get(item) == (None if key is None else self.mapping[key]), 'wrong-mapping', '%s', item.serial)
            ctx.check((item in self.dict) == (key is not None), 'wrong-mapping', '%s', item.serial)
            if op[1] < 3:
                # the keys live as long as the iteration looks at them
                seen = []
                victim = op[1]
                for n, k in enumerate(self.dict.keys()):
                    if n == 1:
                        self.kill(victim, False)
                        del k
                        continue
                    seen.append(k.serial)
                    del k
                ctx.check(len(set(seen)) == len(seen), 'key-repeated')
                self.settle()
        ctx.log(op[0], key)

    def find(self, item):
        """The key in the model which is equal to the item"""
        for key in self.mapping:
            if self.value_of[key] == self.value_of[item.serial]:
                return key
        return None

    def verify(self):
        ctx = self.ctx
        found = [i.serial for i in self.content()]
        ctx.check(found == self.model, 'wrong-contents', '%s, not %s', found, self.model)
        ctx.check(len(self.real) == len(self.model), 'wrong-length', '%s of %s', len(self.real), self.model)
        for n in range(-len(self.model), len(self.model)):
            ctx.check(self.real[n].serial == self.model[n], 'wrong-item', 'at %d', n)
        keys = {k.serial: v for k, v in self.dict.items()}
        ctx.check(keys == self.mapping and len(self.dict) == len(self.mapping), 'wrong-mapping', '%s, not %s', keys, self.mapping)
        for i in range(8):
            if self.kind == 'list':
                self.items[i].__dict__.pop('unused', None)
            ctx.check(self.items[i] is self.refs[self.serials[i]](), 'harness', '')

    def released(self):
        """The containers keep nothing alive"""
        for i in range(8):
            self.items[i] = None
        core.collect(self.ctx)
        kept = [s for s, ref in self.refs.items() if ref is not None and ref() is not None]
        self.ctx.check(not kept, 'item-kept', '%s', kept)
        self.ctx.check(list(self.real) == [] and len(self.real) == 0 and not len(self.dict), 'dead-item-kept', '')


def run(case, ctx):
    Item.hook = None
    sim = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        sim.op(op)
        sim.verify()
        ctx.state(sim.model, sorted(sim.mapping), sorted(sim.doomed))
    sim.released()
    ctx.nontrivial = len(ctx.states) > 2
