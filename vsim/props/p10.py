"""P10: a saved scene reads back as the same scene, whatever was edited before

Scenes are built, read from texts which an independent writer made, edited,
copied, saved and read again.  The oracle is a description of the objects of a
scene made by looking at them: that of the scene read back must equal that of
the scene which was written, and writing must not change the latter.
"""

import io

from vsim import core
from vsim.kit import *
from vsim.scenes import *

OPS = ['add', 'add', 'add', 'proto', 'set', 'set', 'set', 'del', 'use', 'remove', 'name', 'route', 'route', 'unroute', 'text', 'copy', 'whole', 'save', 'save', 'node', 'list', 'lost', 'order', 'restore', 'assign', 'inplace', 'gc']


def gen(rng, config, tier):
    chosen = [o for o in OPS if rng.random() < 0.8] + ['add', 'save']
    ops = []
    for _ in range(rng.randrange(3, 22)):
        name = rng.choice(chosen)
        op = [name, rng.randrange(1 << 30)]
        if name in ('save', 'node', 'list') and rng.random() < 0.25:
            op.append({'at': rng.randrange(1, 500), 'what': rng.choice(('memory', 'memory', 'gc'))})
        ops.append(op)
    ops.append(['save', rng.randrange(1 << 30)])
    return {'ops': ops, 'plain': rng.random() < 0.4, 'quiet': rng.random() < 0.5, 'policy': rng.choice(('lifo', 'fifo', 'never'))}


def reduce(case):
    if not case['plain']:
        yield dict(case, plain=True)
    for n, op in enumerate(case['ops']):
        for k in range(12):
            # other choices, likely to be smaller
            if op[1] > 11:
                yield dict(case, ops=case['ops'][:n] + [[op[0], k] + op[2:]] + case['ops'][n + 1 :])


def style(r):
    """How to write"""
    x = r.random()
    if x < 0.35:
        return linearise.defaults, {}
    if x < 0.5:
        return linearise.minimal1, {}
    made = {
        'subelspacer': r.choice((', ', ' ', '\n')),
        'courtesyspace': r.choice(('', ' ')),
        'curindent': '',
        'indent': r.choice(('', ' ', '\t', '    ')),
        'numsep': r.choice((',', ' ', ', ')),
        'full_element_separator': r.choice(('\n', '\n\n', '\r\n', ' \n')),
        'mffieldsep': r.choice((' ', '\n')),
    }
    if r.random() < 0.7:
        made['EndComments'] = r.choice((0, 1, 10))
    if x < 0.7:
        return made, {}
    return linearise.defaults, {k: v for k, v in made.items() if r.random() < 0.5}


class Run(object):
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.builder = Builder(case['plain'])
        self.builder.taken = self.names
        self.scene = scenegraph.SceneGraph()
        self.attic = []
        # what was saved last
        self.saved = HEADER
        self.known_when_saved = {}

    def names(self):
        here = reachable(list(self.scene.children) + self.attic)
        return {i.DEF for i in here} | set(self.scene.defNames), [protofunctions.protoName(i) for i in here]

    def nodes(self):
        return reachable(self.scene.children)

    def pick(self, r, wanted=lambda item: True):
        found = [i for i in self.nodes() if wanted(i)]
        return r.choice(found) if found else None

    def node_fields(self, item):
        return [f for f in fields_of(type(item)) if f.typeName() in NODES]

    def value_fields(self, item):
        return [f for f in fields_of(type(item)) if f.typeName() in PARSED]

    def place(self, r, item):
        """Put the node somewhere in the scene"""
        parents = [p for p in self.nodes() if self.node_fields(p)]
        below = {id(i) for i in reachable([item])}
        parents = [p for p in parents if id(p) not in below]
        if not parents or r.random() < 0.3:
            how = r.randrange(5)
            children = self.scene.children
            if how == 0:
                children.append(item)
            elif how == 1:
                children.insert(r.randrange(len(children) + 1), item)
            elif how == 2:
                children.extend([item])
            elif how == 3:
                self.scene.children = list(children) + [item]
            else:
                children += [item]
            return
        parent = r.choice(parents)
        f = r.choice(self.node_fields(parent))
        if f.typeName() == 'SFNode':
            self.builder.put(r, parent, f, item)
            return
        current = list(parent.__dict__.get(f.name, ())) if not is_default(parent, f) else []
        if r.random() < 0.5 or f.name not in parent.__dict__ or is_default(parent, f):
            current.insert(r.randrange(len(current) + 1), item)
            self.builder.put(r, parent, f, current)
        else:
            getattr(parent, f.name).append(item)

    def counts(self):
        """How often each node occurs in the fields of others"""
        counts = {}
        for item in self.scene.children:
            counts[id(item)] = counts.get(id(item), 0) + 1
        for item in self.nodes():
            for child in children_of(item):
                counts[id(child)] = counts.get(id(child), 0) + 1
        return counts

    def operate(self, op):
        name, seed = op[:2]
        r = random.Random(seed)
        getattr(self, 'op_' + name)(r, op)

    # -- edits
    def op_add(self, r, op):
        if len(self.nodes()) < 60:
            self.place(r, self.builder.node(r, 2, []))

    def op_proto(self, r, op):
        if len(self.builder.known) < 6:
            cls = self.builder.proto(r)
            if r.random() < 0.7:
                self.scene.addProto(cls)
            if r.random() < 0.7:
                item = cls()
                self.builder.fill(r, item, 1, [])
                self.place(r, item)

    def op_set(self, r, op):
        item = self.pick(r, self.value_fields)
        if item is not None:
            f = r.choice(self.value_fields(item))
            v = self.builder.value(r, f.typeName()) if r.random() < 0.8 else f.getDefault()
            self.builder.put(r, item, f, v)

    def op_del(self, r, op):
        item = self.pick(r)
        if item is not None:
            found = [f for f in fields_of(type(item)) if f.name in item.__dict__ and f.typeName() in TYPENAMES]
            if found:
                f = r.choice(found)
                self.keep_removed(item, f)
                if r.random() < 0.7:
                    delattr(item, f.name)
                else:
                    f.fdel(item, notify=0)

    def keep_removed(self, item, f):
        if f.typeName() in NODES and not is_default(item, f):
            v = item.__dict__[f.name]
            self.attic += [i for i in (v if isinstance(v, list) else [v]) if not is_null(i)]
            del self.attic[:-4]

    def op_use(self, r, op):
        item = self.pick(r)
        if item is not None:
            if not item.DEF:
                item.DEF = self.builder.fresh(r, DEFS)
            self.place(r, item)

    def op_restore(self, r, op):
        if self.attic:
            item = self.attic.pop(r.randrange(len(self.attic)))
            # what it holds may be in the scene already
            here = {id(i) for i in self.nodes()}
            for part in reachable([item]):
                if id(part) in here and not part.DEF:
                    part.DEF = self.builder.fresh(r, DEFS)
            if not here & {id(i) for i in reachable([item])} or True:
                self.place(r, item)

    def op_remove(self, r, op):
        how = r.random()
        children = self.scene.children
        if how < 0.4 and children:
            n = r.randrange(len(children))
            self.attic.append(children[n])
            if r.random() < 0.5:
                del children[n]
            else:
                children.pop(n)
        else:
            item = self.pick(r, lambda i: list(children_of(i)))
            if item is None:
                return
            f = r.choice([f for f in self.node_fields(item) if f.name in item.__dict__])
            self.keep_removed(item, f)
            if f.typeName() == 'SFNode':
                self.builder.put(r, item, f, r.choice((None, NULL)))
            elif is_default(item, f):
                self.builder.put(r, item, f, [])
            else:
                current = getattr(item, f.name)
                if len(current):
                    current.pop(r.randrange(len(current)))
        del self.attic[:-4]

    def op_order(self, r, op):
        children = self.scene.children
        how = r.randrange(3)
        if how == 0:
            self.scene.children = list(children)[::-1]
        elif how == 1 and children:
            children[r.randrange(len(children))] = self.builder.node(r, 1, [])
        else:
            children[:] = sorted(children, key=lambda i: protofunctions.protoName(i))

    def op_name(self, r, op):
        item = self.pick(r)
        if item is None:
            return
        how = r.randrange(4)
        if how == 0:
            item.DEF = self.builder.fresh(r, DEFS)
        elif how == 1:
            self.scene.regDefName(self.builder.fresh(r, DEFS), item)
        elif how == 2:
            protofunctions.defName(item, self.builder.fresh(r, DEFS))
        elif self.counts().get(id(item)) == 1:
            # its routes need a name, and get one when it is saved
            item.DEF = ''

    def op_route(self, r, op):
        for made in self.builder.routes(r, self.scene.children, 1, needs_names=r.random() < 0.5):
            how = r.randrange(3)
            if how == 0:
                self.scene.addRoute(made)
            elif how == 1:
                self.scene.routes.append(made)
            else:
                self.scene.routes = list(self.scene.routes) + [made]

    def op_unroute(self, r, op):
        if self.scene.routes:
            self.scene.routes.pop(r.randrange(len(self.scene.routes)))

    def op_assign(self, r, op):
        item = self.pick(r, self.node_fields)
        if item is not None and len(self.nodes()) < 60:
            f = r.choice(self.node_fields(item))
            self.keep_removed(item, f)
            pool = []
            self.builder.put(r, item, f, self.builder.nodes(r, 1, pool) if f.typeName() == 'MFNode' else self.builder.node(r, 1, pool))

    def op_inplace(self, r, op):
        def arrays_of(item):
            return [f for f in self.value_fields(item) if f.name in item.__dict__ and isinstance(item.__dict__[f.name], np.ndarray) and item.__dict__[f.name].size]

        item = self.pick(r, arrays_of)
        if item is not None:
            v = item.__dict__[r.choice(arrays_of(item)).name]
            v.flat[r.randrange(v.size)] = r.choice((0, 1))

    def op_text(self, r, op):
        """What an independent writer wrote is read, and joins the scene"""
        if len(self.nodes()) > 60:
            return
        before = dict(self.builder.known)
        for _ in range(r.randrange(3)):
            self.builder.proto(r)
        pool = []
        roots = self.builder.nodes(r, 2, pool, r.randrange(1, 4))
        routes = self.builder.routes(r, roots, r.choice((0, 1, 2)))
        new = [c for n, c in self.builder.known.items() if n not in before]
        text = Writer(r, before).scene(roots, routes, new)
        known = before
        if r.random() < 0.3:
            known = None
            text = Writer(r).scene(roots, routes, self.builder.known.values())
        made = parse(text, known)
        wanted = describe(roots, routes, self.builder.known)
        got = describe_scene(made)
        if known:
            for n in known:
                got['protos'].setdefault(n, wanted['protos'].get(n))
        self.equal(wanted, got, 'read-differs', text)
        if known is None:
            for n in list(self.builder.known):
                # instances of another prototype of the same name are in the scene already
                if n in before:
                    continue
                self.builder.known[n] = made.getProto(n)
            roots_ok = not (reachable(made.children) and any(protofunctions.protoName(i) in before for i in reachable(made.children)))
        else:
            for n in list(self.builder.known):
                if n not in before:
                    self.builder.known[n] = made.getProto(n)
            roots_ok = True
        for n, c in self.builder.known.items():
            if n not in before and known is not None:
                self.scene.addProto(c)
        if known is None:
            for n in list(self.builder.known):
                if n not in before:
                    del self.builder.known[n]
            self.ctx.probe('text-read')
            return
        self.ctx.probe('text-joined')
        children = self.scene.children
        if r.random() < 0.5:
            children.extend(list(made.children))
        else:
            self.scene.children = list(children) + list(made.children)
        for one in list(made.routes):
            self.scene.addRoute(one)

    def op_copy(self, r, op):
        item = self.pick(r)
        if item is not None and len(self.nodes()) < 40:
            made = item.copy()
            for part in reachable([made]):
                if part.DEF:
                    part.DEF = self.builder.fresh(r, DEFS)
            self.place(r, made)

    def op_whole(self, r, op):
        self.scene = self.scene.copy()
        # copies of defaults are named like these
        taken = {i.DEF for c in own_protos(self.scene).values() for i in default_nodes(c)}
        taken |= {i.DEF for part in self.nodes() for i in default_nodes(type(part))}
        # and shared by instances
        counts = self.counts()
        for part in self.nodes():
            if part.DEF and part.DEF in taken or counts.get(id(part), 0) > 1 and not part.DEF:
                self.scene.regDefName(self.builder.fresh(r, DEFS), part)
        self.attic = []
        self.ctx.probe('scene-copied')

    def op_gc(self, r, op):
        core.collect(self.ctx)

    def op_lost(self, r, op):
        """A crash: only what was saved last is left"""
        self.ctx.fault('crash')
        self.attic = []
        self.load(parse(self.saved))

    def load(self, scene):
        self.scene = scene
        self.builder.known = {n: c for n, c in own_protos(scene).items()}

    # -- saving
    def anonymous(self):
        return {id(end) for r in self.scene.routes for end in (r.source, r.destination) if end.__dict__.get(' DEF', '') == ''}

    def write(self, op, action):
        """Write, maybe with a fault first; the text"""
        if len(op) > 2:
            fault = op[2]
            fired = []

            def point(n, code, line):
                if n == fault['at']:
                    fired.append(1)
                    core.POINTS.busy = True
                    try:
                        if fault['what'] == 'gc':
                            core.collect(self.ctx)
                            return
                    finally:
                        core.POINTS.busy = False
                    self.ctx.fault('allocation-failed')
                    raise MemoryError('injected')

            try:
                with core.POINTS.run(point):
                    text = action()
                if not fired or fault['what'] == 'gc':
                    return text
                self.ctx.fail('failure-hidden', 'the allocation which failed is not reported')
            except MemoryError:
                if not fired:
                    raise
        return action()

    def equal(self, wanted, got, cls, text):
        found = difference(wanted, got)
        self.ctx.check(found is None, cls, '%s\n%s', found, text if isinstance(text, str) else '')

    def op_save(self, r, op):
        ctx = self.ctx
        anonymous = self.anonymous()
        unused = r.random() < 0.9
        before = describe_scene(self.scene, True, anonymous)
        values, named = style(r)
        how = r.randrange(4)

        def action():
            if not unused:
                return linearise.Lineariser(values, **named).linear(self.scene, skipUnusedProtos=1)
            if how == 0:
                return linearise.linearise(self.scene, values, **named)
            if how == 1:
                return self.scene.toString(**named)
            if how == 2:
                return linearise.Lineariser(values, **named).linear(self.scene, io.StringIO())
            return linearise.Lineariser(dict(values, **named)).linear(self.scene)

        text = self.write(op, action)
        self.equal(before, describe_scene(self.scene, True, anonymous), 'writing-changed-scene', text)
        wanted = describe_scene(self.scene, unused)
        made = parse(text)
        self.equal(wanted, describe_scene(made), 'scene-differs', text)
        # nodes which are defaults have names too
        again = {i.DEF for c in own_protos(made).values() for i in default_nodes(c)}
        for item in reachable(made.children):
            if item.DEF and item.DEF not in again:
                ctx.check(made.getDEF(item.DEF) is item, 'name-lost', '%s\n%s', item.DEF, text)
        again = made.toString()
        self.equal(wanted, describe_scene(made), 'second-writing-changed-scene', again)
        self.equal(wanted, describe_scene(parse(again)), 'second-scene-differs', again)
        ctx.log('saved', len(wanted['children']), sorted(wanted['protos']), len(wanted['routes']), len(text))
        ctx.state(repr(wanted))
        ctx.nontrivial += len(self.nodes()) > 2
        self.saved = text
        if wanted['routes']:
            ctx.probe('routes-saved')
        if wanted['protos']:
            ctx.probe('prototypes-saved')
        if 'USE' in text:
            ctx.probe('shared-saved')
        if unused and r.random() < 0.5:
            self.attic = []
            self.load(made)
            ctx.probe('continued-with-read-scene')

    def op_node(self, r, op):
        item = self.pick(r)
        if item is None:
            return
        before = describe([item])
        values, named = style(r)
        text = self.write(op, lambda: linearise.linearise(item, values, **named) if r.random() < 2 else None)
        self.equal(before, describe([item]), 'writing-changed-node', text)
        made = parse(text)
        self.ctx.check(len(made.children) == 1, 'node-differs', '%d nodes\n%s', len(made.children), text)
        self.equal(before, describe_scene(made), 'node-differs', text)
        self.ctx.probe('node-saved')

    def op_list(self, r, op):
        items = list(self.scene.children)
        if not items:
            return
        before = describe(items)
        values, named = style(r)
        text = self.write(op, lambda: linearise.linearise(r.choice((tuple, list))(items), values, **named))
        self.equal(before, describe(items), 'writing-changed-node', text)
        self.equal(before, describe_scene(parse(text)), 'list-differs', text)
        self.ctx.probe('list-saved')


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    state = Run(case, ctx)
    for op in case['ops']:
        ctx.step()
        ctx.log(op[0], op[1])
        state.operate(op)
        if not case['quiet']:
            core.collect()
        core.ADDRESSES.release()
