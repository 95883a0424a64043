"""P21: a path is the sequence of its nodes

Paths of all kinds are made, extended by nodes, lists and other paths, sliced,
compared and matched with each other and with lists, while nodes of weak paths
die: between operations and, being in cycles, when the collector runs at a
chosen line of an operation; allocations fail at chosen lines as well.  The
model of a path is the list of its nodes, without the dead ones where the path
is weak.
"""

import weakref

from vsim import core
from vsim.kit import *

KINDS = ['strong', 'strong97', 'weak', 'weak97', 'weak97']
OPS = ['extend', 'extend', 'extend', 'slice', 'slice', 'common', 'common', 'compare', 'compare', 'item', 'iterate', 'transforms', 'text', 'change', 'die', 'die', 'gc', 'drop', 'again']


def gen(rng, config, tier):
    chosen = [k for k in OPS if rng.random() < 0.85] + ['extend', 'common', 'compare']

    def members(most=5):
        return [rng.randrange(6) for _ in range(rng.randrange(most))]

    def index():
        return rng.choice((None, 0, 1, 2, 3, -1, -2, 9))

    ops = [['new', members(7), rng.choice(KINDS)] for _ in range(rng.randrange(1, 4))]
    for _ in range(rng.randrange(5, 45)):
        k = rng.choice(chosen + ['new'])
        n, m = rng.randrange(64), rng.randrange(64)
        op = [k, n]
        if k == 'new':
            op = [k, members(7), rng.choice(KINDS)]
        elif k == 'extend':
            op += [rng.choice(('node', 'node', 'list', 'path', 'path')), members(4) or [m % 6], m]
        elif k == 'slice':
            op += [index(), index(), rng.choice((None, None, None, 1, 2, -1))]
        elif k in ('common', 'compare'):
            # often with what shares its beginning
            op += [m, rng.choice(('path', 'path', 'list', 'related', 'related', 'related')), rng.randrange(8), rng.choice((None, rng.randrange(6)))]
        elif k == 'item':
            op += [rng.randrange(-8, 8)]
        elif k == 'transforms':
            op += [rng.random() < 0.5]
        elif k == 'change':
            op += [rng.choice(('append', 'insert', 'pop', 'set')), rng.randrange(-3, 4), m % 6]
        elif k == 'die':
            op = [k, n % 6, rng.random() < 0.6]
        elif k == 'gc':
            op = [k]
        if k in ('extend', 'slice', 'common', 'compare', 'iterate', 'transforms', 'text', 'again') and rng.random() < 0.4:
            op.append({'at': rng.randrange(1, 30), 'what': rng.choice(('gc', 'gc', 'gc', 'memory'))})
        ops.append(op)
    return {'kinds': [rng.choice(('Group', 'Transform', 'Shape')) for _ in range(6)], 'ops': ops}


def simplify(op):
    if isinstance(op[-1], dict):
        yield op[:-1]


class Path(object):
    """A path with the numbers of the nodes it was given"""

    def __init__(self, path, members):
        self.path, self.members = path, members
        self.weak = isinstance(path, weaklist.WeakList)


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.kinds = case['kinds']
        self.classes = {
            'strong': nodepath.NodePath, 'weak': nodepath.WeakNodePath,
            'strong97': nodepath97.NodePath, 'weak97': nodepath97.WeakNodePath,
        }  # fmt: skip
        # the current node of each place, and of each number ever given
        self.nodes, self.numbers = [None] * 6, [None] * 6
        self.refs, self.kind_of = [], []
        for place in range(6):
            self.create(place)
        self.paths = []

    def create(self, place):
        made = standard()[self.kinds[place]]()
        made.number = len(self.refs)
        self.nodes[place], self.numbers[place] = made, made.number
        self.refs.append(weakref.ref(made))
        self.kind_of.append(self.kinds[place])

    def alive(self, number):
        return self.refs[number]() is not None

    def living(self, known, before=()):
        """Which nodes the path has"""
        if not known.weak:
            return list(known.members)
        return [n for n in known.members if self.alive(n) or n in before]

    def pick(self, n):
        return self.paths[n % len(self.paths)] if self.paths else None

    # -- operations
    def tried(self, fault, action):
        """The result, or None where an allocation failed"""
        ctx = self.ctx
        points = core.POINTS
        if not fault:
            return action()
        struck = []

        def at_line(n, code, line):
            if n != fault['at']:
                return
            if fault['what'] == 'gc':
                points.busy = True
                try:
                    core.collect(ctx)
                    ctx.fault('gc-within-operation')
                finally:
                    points.busy = False
            elif 'weaklist' not in code.co_filename or code.co_name != 'remove':
                # what is told of a death can't fail
                struck.append(1)
                ctx.fault('allocation-failed')
                raise MemoryError('injected')

        try:
            with points.run(at_line):
                got = action()
        except MemoryError:
            ctx.check(struck, 'unexpected-MemoryError')
            return None
        ctx.check(not struck, 'failure-hidden', 'the allocation which failed is not reported')
        return got

    def judge(self, what, got, wanted, *about):
        """The result is that for the nodes alive before, or for those alive now"""
        before = self.before

        def numbers(result):
            return [n for n in result if self.alive(n)] if isinstance(result, list) else result

        accepted = [numbers(wanted(set(before))), numbers(wanted(set()))]
        self.ctx.log(what, about, got)
        self.ctx.check(numbers(got) in accepted, what, '%s: %s, not %s', about, got, accepted)
        if any(not self.alive(i) for i in before):
            self.ctx.probe('died-within-operation')

    def number(self, item):
        self.ctx.check(isinstance(item, node.Node) and hasattr(item, 'number'), 'gives-no-node', '%s', type(item).__name__)
        return item.number

    def add(self, made, kind, members, what):
        ctx = self.ctx
        ctx.check(type(made) is kind, 'wrong-kind', '%s: %s', what, type(made).__name__)
        ctx.check(all(made is not p.path for p in self.paths), 'not-a-new-path', '%s', what)
        if len(self.paths) >= 10:
            self.paths.pop(0)
        self.paths.append(Path(made, members))

    def op_new(self, places, kind):
        made = self.classes[kind]([self.nodes[p] for p in places])
        self.add(made, self.classes[kind], [self.numbers[p] for p in places], 'new')

    def op_extend(self, n, how, places, m, fault=None):
        known = self.pick(n)
        if known is None:
            return
        other = self.pick(m)
        if how == 'node':
            members = [self.numbers[places[0]]]
            given = self.nodes[places[0]]
        elif how == 'list' or len(other.members) > 12:
            members = [self.numbers[p] for p in places]
            given = [self.nodes[p] for p in places]
        else:
            members = list(other.members)
            given = other.path
        if len(known.members) > 12:
            return
        path = known.path
        made = self.tried(fault, lambda: path + given)
        if made is None:
            return

        def wanted(before):
            added = self.living(other, before) if given is other.path else members
            return self.living(known, before) + added

        got = [self.number(i) for i in made]
        self.judge('wrong-extension', got, wanted, how)
        self.add(made, type(path), got, 'extended')

    def op_slice(self, n, start, stop, step, fault=None):
        known = self.pick(n)
        if known is None:
            return
        part = slice(start, stop, step)
        path = known.path
        made = self.tried(fault, lambda: path[part])
        if made is None:
            return
        got = [self.number(i) for i in made]
        self.judge('wrong-slice', got, lambda before: self.living(known, before)[part], start, stop, step)
        self.add(made, type(path), got, 'slice')

    def op_again(self, n, fault=None):
        """Another path of the nodes of this one"""
        known = self.pick(n)
        if known is None:
            return
        path = known.path
        made = self.tried(fault, lambda: type(path)(path))
        if made is not None:
            got = [self.number(i) for i in made]
            self.judge('wrong-copy', got, lambda before: self.living(known, before))
            self.add(made, type(path), got, 'again')

    def other(self, known, m, how, cut, place):
        """What to compare with, as a function giving its numbers"""
        if how == 'path':
            other = self.pick(m)
            return other.path, lambda before: self.living(other, before)
        members = self.living(known)
        if how == 'related':
            members = members[:cut]
        if place is not None:
            members.append(self.numbers[place])
        items = [self.refs[i]() for i in members]
        if how == 'list':
            return items, lambda before: members
        made = self.classes[KINDS[m % len(KINDS)]](items)
        held = Path(made, members)
        return made, lambda before: self.living(held, before)

    def op_common(self, n, m, how, cut, place, fault=None):
        known = self.pick(n)
        if known is None:
            return
        other, theirs = self.other(known, m, how, cut, place)
        path = known.path
        made = self.tried(fault, lambda: path.common(other))
        if made is None:
            return

        def wanted(before):
            found = []
            for a, b in zip(self.living(known, before), theirs(before)):
                if a != b:
                    break
                found.append(a)
            return found

        got = [self.number(i) for i in made]
        self.judge('wrong-common', got, wanted, n, how)
        self.add(made, type(path), got, 'common')

    def op_compare(self, n, m, how, cut, place, fault=None):
        known = self.pick(n)
        if known is None:
            return
        other, theirs = self.other(known, m, how, cut, place)
        path = known.path

        def wanted(before):
            return self.living(known, before) == theirs(before)

        equal = self.tried(fault, lambda: bool(path == other))
        if equal is not None:
            self.judge('wrong-comparison', equal, wanted, n, how)
        self.before = set(i for i in self.before if self.alive(i))
        self.judge('wrong-comparison', bool(path == other), wanted, n, how)
        self.judge('wrong-comparison', not (path != other), wanted, n, how)

    def op_item(self, n, i):
        known = self.pick(n)
        if known is None:
            return
        members = self.living(known)
        try:
            got = self.number(known.path[i])
        except IndexError:
            got = None
        wanted = members[i] if -len(members) <= i < len(members) else None
        self.ctx.check(got == wanted, 'wrong-item', '%s of %s: %s', i, members, got)
        self.ctx.check(len(known.path) == len(members), 'wrong-length', '%s of %s', len(known.path), members)

    def op_iterate(self, n, fault=None):
        known = self.pick(n)
        if known is None:
            return
        path = known.path
        items = self.tried(fault, lambda: [i for i in path])
        if items is not None:
            self.judge('wrong-items', [self.number(i) for i in items], lambda before: self.living(known, before), n)
        items = [self.number(i) for i in reversed(path)]
        self.judge('wrong-items', items[::-1], lambda before: self.living(known), n)

    def op_transforms(self, n, reverse, fault=None):
        known = self.pick(n)
        if known is None or not hasattr(known.path, 'transformChildren'):
            return
        path = known.path
        items = self.tried(fault, lambda: list(path.transformChildren(reverse=reverse)))
        if items is None:
            return

        def wanted(before):
            found = [i for i in self.living(known, before) if self.kind_of[i] == 'Transform']
            return found[::-1] if reverse else found

        self.judge('wrong-transforms', [self.number(i) for i in items], wanted, n, reverse)
        for item in list(path):
            self.ctx.check(bool(path.isTransform(item)) == (self.kind_of[item.number] == 'Transform'), 'not-recognised', '%s', item.number)

    def op_text(self, n, fault=None):
        known = self.pick(n)
        if known is None:
            return
        path = known.path
        names = {i: str(self.refs[i]()) for i in known.members if self.alive(i)}
        text = self.tried(fault, lambda: str(path))
        if text is not None:
            wanted = [
                '%s(%s)' % (type(path).__name__, '->'.join(names[i] for i in self.living(known, before) if i in names))
                for before in (self.before, ())
            ]
            self.ctx.check(text in wanted, 'wrong-text', '%s', n)
        repr(path)

    def op_change(self, n, what, i, place):
        """The list of this path is changed, that of no other one"""
        known = self.pick(n)
        if known is None:
            return
        members = self.living(known)
        path, item = known.path, self.nodes[place]
        if what == 'append':
            path.append(item)
            members.append(self.numbers[place])
        elif what == 'insert':
            path.insert(i, item)
            members.insert(i, self.numbers[place])
        elif members and what == 'pop':
            got = self.number(path.pop())
            self.ctx.check(got == members.pop(), 'wrong-pop', '%s', got)
        elif members and -len(members) <= i < len(members):
            path[i] = item
            members[i] = self.numbers[place]
        known.members = members

    def op_die(self, place, cycle):
        """A node of weak paths dies; strong paths keep it, so they go first"""
        number = self.numbers[place]
        self.paths = [p for p in self.paths if p.weak or number not in p.members]
        victim = self.nodes[place]
        self.nodes[place] = None
        self.create(place)
        self.ctx.fault('node-dies-later' if cycle else 'node-died')
        if cycle:
            victim.myself = victim
        del victim
        if not cycle:
            # what extends a path keeps it, and so its nodes
            core.collect(self.ctx)
            held = any(not p.weak for p in self.paths)
            self.ctx.check(held or not self.alive(number), 'node-kept-alive', '%s', number)

    def op_drop(self, n):
        if self.paths:
            self.paths.pop(n % len(self.paths))

    def op_gc(self):
        core.collect(self.ctx)

    def verify(self):
        for p in self.paths:
            members = self.living(p)
            got = [self.number(i) for i in p.path]
            self.ctx.check(got == members, 'wrong-path', '%s, not %s', got, members)


def run(case, ctx):
    sim = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        sim.before = {n for n in range(len(sim.refs)) if sim.alive(n)}
        getattr(sim, 'op_' + op[0])(*op[1:])
        sim.verify()
        ctx.state([(p.weak, sim.living(p)) for p in sim.paths])
        ctx.nontrivial = ctx.nontrivial or len(sim.paths) > 2
