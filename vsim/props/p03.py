"""P03: an observable list is a list, and announces what changes in it

The list is used by every operation a list has, through failing iterators and
indices, while observers change the list from within announcements, fail, and
the object the announcements are sent for is collected.
"""

import collections

from vsim import core
from vsim.kit import *

L = olist.OList
NEW, DEL = L.NEW_CHILD_EVT, L.DEL_CHILD_EVT
ADDED, REMOVED = L.NEW_PARENT_EVT, L.DEL_PARENT_EVT


# the operations which treat items by their identity alone
BY_IDENTITY = ('append', 'insert', 'pop', 'popi', 'del', 'set', 'delslice', 'clear', 'extend', 'iadd', 'replace', 'reverse', 'look')


# announced loosely where items are repeated, and for it equal ones are
SLICES = ('setslice', 'assignall')


class Equal(object):
    """An item which equals others"""

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Equal) and self.value == other.value

    def __hash__(self):
        return hash(self.value)


def items(rng, n, distinct):
    count = rng.choice((0, 1, 1, 2, 3, 4, 7))
    if distinct:
        return rng.sample(range(n), min(count, n))
    return [rng.randrange(n) for _ in range(count)]


def one(rng, n, distinct, nested=False):
    i = rng.randrange(-3, 9)
    j = rng.randrange(-3, 9)
    e = rng.randrange(n)
    es = items(rng, n, distinct)
    choices = [
        ['append', e], ['insert', i, e], ['pop'], ['popi', i], ['remove', e],
        ['del', i], ['set', i, e], ['setslice', i, j, None, es],
        ['delslice', i, j, rng.choice((None, None, 1, 2, -1, -2))],
        ['setslice', i, j, rng.choice((2, -1, -2, 3)), es],
        ['extend', es, rng.choice(('list', 'iter', 'tuple', 'self'))],
        ['iadd', es, rng.choice(('list', 'iter', 'tuple', 'self'))],
        ['clear'], ['assignall', es],
        ['replace', i, e],
    ]  # fmt: skip
    if not nested:
        choices += [
            ['imul', rng.randrange(-1, 3)], ['reverse'], ['sort'], ['look', i, j, e],
            ['failing', rng.choice(('extend', 'iadd', 'setslice')), i, j, es, rng.randrange(4)],
        ]  # fmt: skip
    return rng.choice(choices)


def gen(rng, config, tier):
    n = rng.randrange(2, 11)
    distinct = rng.random() < 0.6
    ops = []
    reactions = []
    if rng.random() < 0.5:
        for _ in range(rng.randrange(1, 5)):
            kind = rng.choice(('op', 'op', 'raise', 'gc', 'gc'))
            reactions.append(
                [rng.randrange(1, 40), kind, one(rng, n, distinct, nested=True)]
            )
    for _ in range(rng.randrange(3, 30)):
        r = rng.random()
        if r < 0.9:
            ops.append(one(rng, n, distinct))
        elif r < 0.94:
            ops.append(['sender', rng.randrange(3)])
        elif r < 0.96:
            ops.append(['kill-sender'])
        else:
            ops.append(['gc'])
    case = {
        'n': n, 'start': items(rng, n, distinct), 'ops': ops, 'reactions': reactions,
    }  # fmt: skip
    if rng.random() < 0.2:
        case['equals'] = rng.randrange(1, 4)
        case['ops'] = [op for op in ops if op[0] in BY_IDENTITY + SLICES + ('sender', 'kill-sender', 'gc')]
        case['reactions'] = [r for r in reactions if r[2][0] in BY_IDENTITY]
    return case


class Failing(object):
    def __init__(self, values, after, ctx):
        self.values, self.after, self.ctx = values, after, ctx

    def __iter__(self):
        for i, v in enumerate(self.values):
            if i == self.after:
                break
            yield v
        self.ctx.fault('iterator-fails')
        raise core.SimFault('iterator')


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.equals = case.get('equals')
        if self.equals:
            self.elements = [Equal(i % case['equals']) for i in range(case['n'])]
        else:
            self.elements = [basenodes.Group(DEF='e%d' % i) for i in range(case['n'])]
        self.names = {id(e): i for i, e in enumerate(self.elements)}
        self.list = L([self.elements[i % case['n']] for i in case['start']])
        self.senders = [basenodes.Group(DEF='s%d' % i) for i in range(3)]
        self.sender = None
        self.events = []
        self.seen = 0
        self.depth = 0
        self.raised = False
        self.nested = False
        self.due = {r[0]: r for r in case['reactions']}
        # the receivers are kept, as the dispatcher has weak references
        self.receivers = [self.child_event, self.parent_event]
        for signal in (NEW, DEL):
            dispatcher.connect(self.receivers[0], signal=signal)
        for signal in (ADDED, REMOVED):
            dispatcher.connect(self.receivers[1], signal=signal)

    def names_of(self, values):
        return [self.names[id(v)] for v in values]

    # -- what is announced
    def child_event(self, signal, sender, value):
        self.event(signal, sender, value, 'child')

    def parent_event(self, signal, sender, parent):
        self.event(signal, parent, sender, 'parent')

    def event(self, signal, whom, value, kind):
        ctx = self.ctx
        which = self.names.get(id(value))
        ctx.check(which is not None, 'announced-nothing-of-ours', '%s', core.short(value))
        wanted = self.sender if self.sender is not None else self.list
        ctx.check(whom is wanted, 'wrong-sender', 'of %s %s', signal, which)
        self.events.append((kind, signal, which))
        ctx.log('event', kind, signal, which)
        if not self.nested:
            # the change announced is to be seen in the list
            if signal in (NEW, ADDED):
                ctx.check(
                    any(v is value for v in self.list), 'announced-before-change',
                    '%s %s: %s', signal, which, self.names_of(self.list),
                )
            elif self.single:
                ctx.check(
                    self.names_of(self.list).count(which) < self.before.count(which) or which in self.after_also,
                    'announced-before-change', '%s %s: %s', signal, which, self.names_of(self.list),
                )
        self.seen += 1
        reaction = self.due.get(self.seen)
        if reaction is not None and self.depth < 3:
            if reaction[1] == 'raise':
                self.raised = True
                ctx.fault('observer-raises')
                raise core.SimFault('observer')
            elif reaction[1] == 'gc':
                core.collect(ctx)
            else:
                self.nested = True
                self.depth += 1
                ctx.fault('changed-within-announcement')
                ctx.log('nested', reaction[2])
                try:
                    self.apply(self.list, reaction[2], self.list)
                except (IndexError, ValueError):
                    pass
                finally:
                    self.depth -= 1

    # -- operations, on the list or on the model
    def apply(self, target, op, itself):
        kind = op[0]
        e = self.elements
        n = len(e)
        if kind == 'append':
            target.append(e[op[1] % n])
        elif kind == 'insert':
            target.insert(op[1], e[op[2] % n])
        elif kind == 'pop':
            return target.pop()
        elif kind == 'popi':
            return target.pop(op[1])
        elif kind == 'remove':
            target.remove(e[op[1] % n])
        elif kind == 'del':
            del target[op[1]]
        elif kind == 'set':
            target[op[1]] = e[op[2] % n]
        elif kind == 'replace':
            # the same again
            target[op[1]] = target[op[1]]
        elif kind == 'setslice':
            target[slice(op[1], op[2], op[3])] = [e[i % n] for i in op[4]]
        elif kind == 'delslice':
            del target[slice(op[1], op[2], op[3])]
        elif kind in ('extend', 'iadd'):
            values = [e[i % n] for i in op[1]]
            if op[2] == 'iter':
                values = iter(values)
            elif op[2] == 'tuple':
                values = tuple(values)
            elif op[2] == 'self':
                values = target
                if len(target) > 12:
                    return
            if kind == 'extend':
                target.extend(values)
            else:
                original = target
                target += values
                self.ctx.check(target is original, 'no-longer-the-list', '+=')
        elif kind == 'imul':
            if len(target) > 12:
                return
            original = target
            target *= op[1]
            self.ctx.check(target is original, 'no-longer-the-list', '*=')
        elif kind == 'clear':
            target.clear()
        elif kind == 'assignall':
            target[:] = [e[i % n] for i in op[1]]
        elif kind == 'reverse':
            target.reverse()
        elif kind == 'sort':
            target.sort(key=lambda v: self.names[id(v)])
        elif kind == 'look':
            return [
                target[op[1] : op[2]] == list(target)[op[1] : op[2]],
                target.count(e[op[3] % n]),
                e[op[3] % n] in target,
                len(target),
                [self.names[id(v)] for v in reversed(target)],
                self.names_of(target + [e[0]]),
                self.names_of(target * 2),
                bool(target),
                self.names_of(target.copy()),
            ]

    def operation(self, op):
        ctx = self.ctx
        ctx.log('op', op)
        kind = op[0]
        if kind == 'gc':
            core.collect(ctx)
            return
        if kind == 'sender':
            self.sender = self.senders[op[1] % 3]
            self.list.setSender(self.sender)
            return
        if kind == 'kill-sender':
            for i, s in enumerate(self.senders):
                if s is self.sender:
                    self.senders[i] = basenodes.Group()
            s = self.sender = None
            core.collect()
            ctx.fault('sender-collected')
            return
        self.before = before = self.names_of(self.list)
        self.single = kind in ('pop', 'popi', 'remove', 'del', 'delslice', 'clear')
        self.after_also = ()
        self.events = []
        self.raised = self.nested = False
        model = [self.elements[i] for i in before]
        wanted_error = error = None
        wanted_result = result = None
        if kind == 'failing':
            values = [self.elements[i % len(self.elements)] for i in op[4]]
            after = op[5] % (len(values) + 1)
            wanted_error = core.SimFault
            failing = Failing(values, after, ctx)
            prefix = self.names_of(values[:after])
        else:
            try:
                wanted_result = self.apply(model, op, model)
            except Exception as err:
                wanted_error = type(err)
        try:
            if kind == 'failing':
                if op[1] == 'extend':
                    self.list.extend(failing)
                elif op[1] == 'iadd':
                    target = self.list
                    target += failing
                else:
                    self.list[op[2] : op[3]] = failing
            else:
                result = self.apply(self.list, op, self.list)
        except core.Violation:
            raise
        except Exception as err:
            error = type(err)
            if not (self.raised and error is core.SimFault):
                ctx.check(
                    wanted_error is not None and issubclass(error, wanted_error),
                    'operation-refused', '%s on %s: %r', op, before, err,
                )
        else:
            ctx.check(wanted_error is None or (kind == 'failing'), 'operation-accepted', '%s on %s', op, before)
            ctx.check(kind != 'failing', 'operation-accepted', '%s on %s', op, before)
            if kind in ('pop', 'popi'):
                ctx.check(result is wanted_result, 'wrong-result', '%s on %s', op, before)
            elif kind == 'look':
                ctx.check(result == wanted_result, 'wrong-result', '%s on %s: %s', op, before, result)
        after = self.names_of(self.list)
        ctx.log('after', after)
        ctx.state(after)
        if self.nested or self.raised:
            es = {'setslice': 4, 'assignall': 1, 'failing': 4}.get(kind)
            es = [] if es is None else [i % len(self.elements) for i in op[es]]
            # repeated items of a slice are only loosely announced
            loose = kind == 'imul' or len(set(es)) < len(es) or self.equals and kind in SLICES
            self.conserved(before, after, relaxed=self.raised or loose)
            return
        if kind == 'failing':
            # all or nothing, or the part which there was as a list does
            done = before + prefix
            ctx.check(after in (before, done if op[1] != 'setslice' else before), 'wrong-contents', '%s on %s: %s', op, before, after)
        else:
            wanted = before if error else self.names_of(model)
            ctx.check(after == wanted, 'wrong-contents', '%s on %s: %s, not %s', op, before, after, wanted)
        if error and after == before:
            ctx.check(not self.events, 'failed-operation-announced', '%s: %s', op, self.events)
        if not (self.equals and kind in SLICES):
            self.exact(op, before, after)
            self.conserved(before, after)

    def exact(self, op, before, after):
        """Operations on single items announce precisely those"""
        kind = op[0]
        children = [(s, w) for k, s, w in self.events if k == 'child']
        parents = [(s, w) for k, s, w in self.events if k == 'parent']
        relation = {NEW: ADDED, DEL: REMOVED}
        self.ctx.check(
            [(relation[s], w) for s, w in children] == parents,
            'children-told-otherwise', '%s: %s', op, self.events,
        )
        if before == after and kind not in ('set',):
            self.ctx.check(not children, 'announced-no-change', '%s: %s', op, children)
        gone = collections.Counter(before) - collections.Counter(after)
        come = collections.Counter(after) - collections.Counter(before)
        if kind in ('append', 'insert', 'pop', 'popi', 'remove', 'del', 'delslice', 'clear', 'set', 'extend', 'iadd'):
            dels = collections.Counter(w for s, w in children if s == DEL)
            news = collections.Counter(w for s, w in children if s == NEW)
            if kind in ('extend', 'iadd') and (max(collections.Counter(after).values(), default=0) > 1):
                return
            self.ctx.check(dels == gone and news == come, 'wrong-announcements', '%s on %s: %s', op, before, children)

    def conserved(self, before, after, relaxed=False):
        """What was added less what was removed is what the change was"""
        if relaxed:
            return
        first, last = collections.Counter(before), collections.Counter(after)
        net = collections.Counter()
        for kind, signal, which in self.events:
            if kind == 'child':
                net[which] += 1 if signal == NEW else -1
        if self.nested:
            # a slice may have had duplicates on the way, which are loose
            if max(first.values(), default=0) > 1 or self.duplicates():
                return
        for which in range(len(self.elements)):
            if first[which] > 1 or last[which] > 1:
                continue
            self.ctx.check(
                net[which] == last[which] - first[which], 'announcements-do-not-add-up',
                '%d: %d to %d, announced %s', which, first[which], last[which], self.events,
            )

    def duplicates(self):
        """Whether any operation may have met duplicates in between"""
        return max(collections.Counter(self.names_of(self.list)).values(), default=0) > 1 or self.loose


def run(case, ctx):
    sim = Run(case, ctx)
    # with nested changes, only element-wise operations are exactly announced
    sim.loose = any(
        r[1] == 'op' and r[2][0] not in ('append', 'insert', 'pop', 'popi', 'remove', 'del', 'set', 'clear', 'delslice', 'replace')
        for r in case['reactions']
    )
    for op in case['ops']:
        ctx.step()
        sim.operation(op)
    ctx.nontrivial = len(ctx.states) > 2
