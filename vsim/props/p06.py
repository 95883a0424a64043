"""P06: the cache gives what was stored for the client, or nothing

Clients store data under keys in several caches, depending on fields and on
other nodes; fields change, clients, nodes and caches die, in cycles as well, the
collector runs at any line of an operation and addresses are reused at once.
"""

import weakref

from vsim import core
from vsim.kit import *

KEYS = ['', 'display', ('matrix', True, False), 'bounds', 7, ('matrix', False, True), 0, b'display', 'd', 'Display', ('display',), 1.5, frozenset(), -7, ('matrix', True), 'k']
FIELDS = [
    ('Transform', 'translation', 'SFVec3f'), ('Transform', 'scale', 'SFVec3f'), ('Transform', 'children', 'MFNode'),
    ('Material', 'diffuseColor', 'SFColor'), ('Material', 'transparency', 'SFFloat'),
    ('Box', 'size', 'SFVec3f'), ('Sphere', 'radius', 'SFFloat'),
    ('Switch', 'whichChoice', 'SFInt32'), ('Shape', 'geometry', 'SFNode'), ('Own', 'value', 'SFFloat'), ('Own', 'out', 'event'),
]  # fmt: skip
KINDS = ['Transform', 'Material', 'Switch', 'Shape', 'Own', 'object', 'Transform', 'Own', 'Box', 'Sphere']


def gen(rng, config, tier):
    # some have many clients, or many keys
    count = rng.randrange(2, 7) if rng.random() < 0.8 else 14
    keys = 5 if rng.random() < 0.8 else len(KEYS)
    kinds = [rng.choice(KINDS) for _ in range(count)]
    ops = []
    for _ in range(rng.randrange(5, 45)):
        r = rng.random()
        n, k, c = rng.randrange(6), rng.randrange(keys if rng.random() < 0.3 else 2), rng.choice((0, 0, 1, 2))
        if r < 0.22:
            ops.append(['store', n, k, c, rng.choice(('holder', 'class', 'global')), rng.random() < 0.25])
        elif r < 0.23:
            # everything it has under many keys, or depends on
            if keys > 5:
                ops += [['store', n, i, c, 'holder', False] for i in range(rng.randrange(5, keys))]
            how = rng.choice(('name', 'field', 'node', 'node'))
            ops += [['depend', n, k, c, i, rng.randrange(3), how] for i in range(count)]
        elif r < 0.38:
            ops.append(['depend', n, k, c, rng.randrange(count), rng.randrange(3), rng.choice(('name', 'field', 'field', 'node'))])
        elif r < 0.58:
            ops.append(['change', rng.randrange(count), rng.randrange(3), rng.choice(('set', 'set', 'set', 'del', 'route', 'quiet', 'reject', 'list'))])
        elif r < 0.66:
            ops.append(['get', n, k, c, rng.random() < 0.5])
        elif r < 0.72:
            ops.append(['reset', n, k, c])
        elif r < 0.76:
            ops.append(['clear', n, k, c, rng.choice(('clear', 'call', 'held', 'heldcall'))])
        elif r < 0.80:
            ops.append(['release', rng.randrange(8)])
        elif r < 0.92:
            ops.append(['kill', rng.choice((n, rng.randrange(count))), rng.choice(KINDS), rng.random() < 0.3])
        elif r < 0.94:
            ops.append(['drop', c])
        else:
            ops.append(['gc'])
    for op in ops:
        if op[0] in ('store', 'depend', 'change', 'get', 'reset', 'clear') and rng.random() < 0.12:
            op.append({'at': rng.randrange(1, 40), 'what': rng.choice(('gc', 'gc', 'memory'))})
    return {'kinds': kinds, 'keys': keys, 'ops': ops, 'policy': rng.choice(('lifo', 'lifo', 'lifo', 'fifo', 'never'))}


class Thing(object):
    """A client which is no node"""


class Token(object):
    """Cached data"""

    def __init__(self, number):
        self.number = number


class Empty(Token):
    """Data which counts as false, as an empty list does"""

    def __len__(self):
        return 0


class Entry(object):
    """The model of a holder"""

    def __init__(self, token, holder):
        self.token = token
        self.holder = weakref.ref(holder)
        self.fields = set()
        self.needs = set()
        # may have depended on something when an operation failed
        self.loose = False


class Run(object):
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.keys = case.get('keys', 5)
        self.own = node.prototype('Own', [field.newField('value', 'SFFloat', 1, 0.0), field.newEvent('out', 'SFFloat', 1)], baseClasses=(node.Node,))
        self.caches = [cache.CACHE, cache.Cache(), cache.Cache()]
        self.objects = []
        self.serial = []
        self.kinds = []
        self.count = 0
        self.number = 0
        self.tokens = {}
        # (serial of client, key index, cache) -> Entry
        self.entries = {}
        # holders which their users keep, with their entries
        self.held = []
        self.doomed = set()
        self.kept = False
        self.feeders = {}
        for kind in case['kinds']:
            self.create(kind)

    def create(self, kind, index=None):
        if kind == 'object':
            made = Thing()
        elif kind == 'Own':
            made = self.own()
        else:
            made = standard()[kind]()
        self.count += 1
        if index is None:
            self.objects.append(made)
            self.serial.append(self.count)
            self.kinds.append(kind)
        else:
            self.objects[index] = made
            self.serial[index] = self.count
            self.kinds[index] = kind

    def field(self, n, f):
        """A field of the object, (name, type), or None"""
        options = [(name, t) for kind, name, t in FIELDS if kind == self.kinds[n]]
        return options[f % len(options)] if options else None

    def token(self):
        self.number += 1
        made = (Token if self.number % 4 else Empty)(self.number)
        self.tokens[self.number] = weakref.ref(made)
        return made

    # -- faults within operations
    def within(self, fault, action):
        """Run the action under its fault; whether it failed"""
        ctx = self.ctx
        if not fault:
            action()
            return False
        points = core.POINTS

        def at_line(n, code, line):
            if n != fault['at']:
                return
            if fault['what'] == 'gc':
                points.busy = True
                try:
                    ctx.fault('gc-within-operation')
                    core.collect()
                    self.deaths()
                finally:
                    points.busy = False
            else:
                ctx.fault('allocation-failed')
                raise MemoryError('injected')

        try:
            with points.run(at_line):
                action()
        except MemoryError:
            # the interpreter may keep frames of such an exception, with all
            # that is in them, so what is still alive tells nothing any more
            self.kept = True
            return True
        return False

    def deaths(self):
        """The doomed are dead now: what needed them is gone"""
        doomed, self.doomed = self.doomed, set()
        for serial in doomed:
            self.died(serial)

    def died(self, serial):
        for key, entry in list(self.entries.items()):
            if key[0] == serial:
                del self.entries[key]
            elif serial in entry.needs:
                del self.entries[key]
                entry.token = None
        for item in self.held:
            if serial in item[1].needs:
                item[1].token = None
                item[1].needs.discard(serial)

    # -- operations
    def key(self, op):
        n = op[1] % len(self.objects)
        return n, (self.serial[n], op[2] % len(KEYS), op[3])

    def op(self, op):
        ctx = self.ctx
        kind = op[0]
        fault = op[-1] if isinstance(op[-1], dict) else None
        if kind == 'store':
            self.store(op, fault)
        elif kind == 'depend':
            self.depend(op, fault)
        elif kind == 'change':
            self.change(op, fault)
        elif kind == 'get':
            n, key = self.key(op)
            self.within(fault, lambda: self.get(n, key, op[4]))
        elif kind == 'reset':
            n, key = self.key(op)
            entry = self.entries.get(key)
            if entry is None:
                return
            token = self.token()
            holder = self.holder(n, key)
            if holder is None:
                return
            holder.set(token)
            entry.token = token.number
        elif kind == 'clear':
            self.clear(op, fault)
        elif kind == 'release':
            if self.held:
                self.held.pop(op[1] % len(self.held))
        elif kind == 'kill':
            self.kill(op)
        elif kind == 'drop':
            if op[1]:
                ctx.fault('cache-dropped')
                self.caches[op[1]] = cache.Cache()
                for key in list(self.entries):
                    if key[2] == op[1]:
                        # holders kept by their users keep their cache
                        self.tokens.pop(self.entries[key].token, None)
                        del self.entries[key]
        elif kind == 'gc':
            core.collect(ctx)
            self.deaths()

    def store(self, op, fault):
        n, key = self.key(op)
        where = self.caches[key[2]]
        how = op[4]
        token = self.token()
        made = []

        def action():
            if how == 'holder':
                made.append(where.holder(self.objects[n], token, KEYS[key[1]]))
            elif how == 'global' and key[2] == 0:
                made.append(cache.CacheHolder(self.objects[n], token, KEYS[key[1]]))
            else:
                made.append(cache.CacheHolder(self.objects[n], token, key=KEYS[key[1]], cache=where))

        old = self.entries.get(key)
        failed = self.within(fault, action)
        self.ctx.log('store', key, how, failed)
        if failed:
            now = where.getData(self.objects[n], KEYS[key[1]])
            if now is token:
                made = [where.getHolder(self.objects[n], KEYS[key[1]])]
            else:
                return
        self.entries[key] = Entry(token.number, made[0])
        if op[5]:
            self.held.append((made[0], self.entries[key]))

    def holder(self, n, key):
        holder = self.caches[key[2]].getHolder(self.objects[n], KEYS[key[1]])
        entry = self.entries[key]
        if holder is None and (entry.loose or entry.token is None):
            del self.entries[key]
            return None
        self.ctx.check(holder is not None and holder is self.entries[key].holder(), 'entry-lost', '%s', key)
        return holder

    def depend(self, op, fault):
        n, key = self.key(op)
        if key not in self.entries:
            return
        holder = self.holder(n, key)
        if holder is None:
            return
        entry = self.entries[key]
        on = op[4] % len(self.objects)
        what = self.field(on, op[5])
        how = op[6]
        target = self.objects[on]
        if how == 'node' or what is None:
            if on == n:
                return
            action = lambda: holder.depend(target)
            failed = self.within(fault, action)
            if failed:
                entry.loose = True
            else:
                entry.needs.add(self.serial[on])
        else:
            f = what[0] if how == 'name' else protofunctions.getField(target, what[0])
            failed = self.within(fault, lambda: holder.depend(target, f))
            if failed:
                entry.loose = True
            else:
                entry.fields.add((self.serial[on], what[0]))
        self.ctx.log('depend', key, self.serial[on], what, how, failed)
        self.forget(key, entry)

    def forget(self, key, entry):
        """An entry whose need died within the very operation is gone"""
        alive = set(self.serial) | self.doomed
        if self.entries.get(key) is entry and entry.needs - alive:
            del self.entries[key]

    def change(self, op, fault):
        ctx = self.ctx
        n = op[1] % len(self.objects)
        what = self.field(n, op[2])
        if what is None:
            return
        name, t = what
        how = op[3]
        target = self.objects[n]
        f = protofunctions.getField(target, name)
        self.number += 1
        number = float(self.number % 97) + 0.5
        if t == 'SFVec3f' or t == 'SFColor':
            v, wrong = [number / 100] * 3, [1.0]
        elif t == 'SFInt32':
            v, wrong = self.number, 'x'
        elif t == 'SFNode':
            v, wrong = basenodes.Box(), 5
        elif t == 'MFNode':
            v, wrong = [basenodes.Shape()], 5
        else:
            v, wrong = number, 'x'
        event = t == 'event'
        if t == 'MFNode' and fault and fault['what'] == 'memory':
            # a list which is not completely set up never is
            fault = None
        changed = True
        if how == 'list' and t == 'MFNode':
            children = f.fget(target)
            action = lambda: children.append(basenodes.Shape())
        elif how == 'reject' and not event:
            changed = False

            def action():
                try:
                    setattr(target, name, wrong)
                except ValueError:
                    pass
                else:
                    ctx.fail('invalid-value-accepted', '%s', name)

        elif how == 'quiet' and not event and t != 'MFNode':
            changed = False
            action = lambda: f.fset(target, v, notify=0)
        elif how == 'del' and not event:
            f.fget(target)
            action = lambda: delattr(target, name)
        elif how == 'route':
            feeder = self.own()
            wire = route.ROUTE(feeder, 'out', target, name)
            action = lambda: setattr(feeder, 'out', v)
        else:
            action = lambda: setattr(target, name, v)
        dependent = [(k, e) for k, e in self.entries.items() if (self.serial[n], name) in e.fields]
        held = [e for h, e in self.held if (self.serial[n], name) in e.fields]
        failed = self.within(fault, action)
        ctx.log('change', self.serial[n], name, how, sorted(k for k, e in dependent), failed)
        if dependent and changed:
            ctx.probe('invalidated')
        for key, entry in dependent:
            if failed:
                # told or not, but not halfway
                if self.entries.get(key) is entry:
                    index = self.serial.index(key[0]) if key[0] in self.serial else None
                    if index is not None and self.caches[key[2]].getData(self.objects[index], KEYS[key[1]]) is None:
                        entry.token = None
            elif changed:
                entry.token = None
        for entry in held:
            if changed and not failed:
                entry.token = None

    def clear(self, op, fault):
        n, key = self.key(op)
        how = op[4]
        if how in ('held', 'heldcall'):
            if not self.held:
                return
            holder, entry = self.held[op[1] % len(self.held)]
            keys = [k for k, e in self.entries.items() if e is entry]
            self.ctx.log('clear', how, keys)
            if not keys:
                # replaced, or its client died: nobody else's business
                self.ctx.probe('stale-holder-cleared')
            if how == 'held':
                holder.clear()
            else:
                holder()
                if keys:
                    del self.entries[keys[0]]
            entry.token = None
            return
        if key not in self.entries:
            return
        entry = self.entries[key]
        holder = self.holder(n, key)
        if holder is None:
            return
        self.ctx.log('clear', how, key)
        if how == 'clear':
            holder.clear()
            entry.token = None
        else:
            holder()
            entry.token = None
            del self.entries[key]

    def kill(self, op):
        ctx = self.ctx
        n = op[1] % len(self.objects)
        serial = self.serial[n]
        ctx.log('kill', serial, op[2], op[3])
        ctx.fault('client-died')
        victim = self.objects[n]
        self.objects[n] = None
        if op[3]:
            # in a cycle, so it dies when the collector runs
            victim.myself = victim
            self.doomed.add(serial)
            del victim
        else:
            del victim
            core.collect()
            self.deaths()
            self.died(serial)
            core.ADDRESSES.release()
        self.create(op[2], n)

    # -- what must hold
    def get(self, n, key, default):
        """What the cache has for the client"""
        ctx = self.ctx
        entry = self.entries.get(key)
        alternatives = []
        if default:
            got = self.caches[key[2]].getData(self.objects[n], KEYS[key[1]], default=alternatives)
        else:
            got = self.caches[key[2]].getData(self.objects[n], KEYS[key[1]])
        # the collector may have run meanwhile
        later = self.entries.get(key)
        wanted = {e.token if e is not None else None for e in (entry, later)}
        if got is None or got is alternatives:
            number = None
        else:
            ctx.check(isinstance(got, Token), 'wrong-data', '%s: %r', key, got)
            number = got.number
        if number in wanted or (number is None and entry is not None and entry.loose):
            return
        if number is None:
            ctx.fail('data-lost', '%s was %s', key, wanted)
        ctx.fail('stale-data' if entry is not None else 'data-of-another', '%s: %s, not %s', key, number, wanted)

    def verify(self):
        for n in range(len(self.objects)):
            for c in range(len(self.caches)):
                for k in range(self.keys):
                    self.get(n, (self.serial[n], k, c), False)
        for c, where in enumerate(self.caches if not self.kept else ()):
            known = {key[0] for key in self.entries if key[2] == c} | self.doomed
            self.ctx.check(sum(1 for v in list(where.values()) if v) <= len(known), 'entry-outlives-client', 'cache %d', c)

    def released(self):
        """After a collection no data is kept but what can be got"""
        for _ in range(3):
            # what died lets go of what dies next
            core.collect()
            self.deaths()
        if self.kept:
            return
        wanted = {e.token for e in self.entries.values()} | {e.token for h, e in self.held}
        held = {h.data.number for h, e in self.held if h.data is not None}
        for number, ref in list(self.tokens.items()):
            if ref() is None:
                del self.tokens[number]
            else:
                self.ctx.check(number in wanted or number in held or any(e.loose for e in self.entries.values()), 'data-kept', 'token %d', number)


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    sim = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        sim.op(op)
        core.ADDRESSES.release()
        sim.verify()
        ctx.state(sorted((k, e.token is None, len(e.fields), len(e.needs)) for k, e in sim.entries.items()))
    sim.released()
    sim.verify()
    if core.ADDRESSES.reused:
        ctx.fault('address-reused', core.ADDRESSES.reused)
    ctx.nontrivial = len(ctx.states) > 2
