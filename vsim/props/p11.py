"""P11: sessions of reading and writing do not disturb one another

Sessions, each a simulated thread, build, read and write scenes; the schedule
switches between them at lines of the code under test.  Some are abandoned,
lack memory, read broken texts or write to outputs which fail.  What each
gives must be what it gives alone, in a fork of the state before; afterwards
every session is repeated, and must give the same again.
"""

import io
import json
import os
import random
import traceback

from vsim import core, threads
from vsim.kit import *
from vsim.scenes import *
from vsim.props.p10 import style

KINDS_ = ['read', 'read', 'read', 'write', 'write', 'write', 'build', 'broken', 'broken', 'sink', 'copy']


def gen(rng, config, tier):
    sessions = []
    for n in range(rng.choice((2, 2, 2, 3, 4))):
        one = {'kind': rng.choice(KINDS_), 'seed': rng.randrange(1 << 30), 'same': rng.random() < 0.35, 'parser': rng.random() < 0.25, 'style': rng.randrange(1 << 30)}
        if n and rng.random() < 0.35:
            # of the same scene, or the same text
            one['seed'] = sessions[0]['seed']
        if rng.random() < 0.25:
            one['fault'] = {'at': rng.randrange(1, rng.choice((100, 1500))), 'what': rng.choice(('abandoned', 'allocation-failed'))}
        sessions.append(one)
    longest = rng.choice((3, 30, 300))
    schedule = [[rng.randrange(4), rng.randrange(1, longest)] for _ in range(rng.randrange(4, 60))]
    collections = [[rng.randrange(len(sessions)), rng.randrange(1, 1500)] for _ in range(rng.choice((0, 0, 1, 3)))]
    return {'sessions': sessions, 'schedule': schedule, 'gc': collections, 'policy': rng.choice(('lifo', 'fifo', 'never'))}


def simplify_session(one):
    if 'fault' in one:
        yield {k: v for k, v in one.items() if k != 'fault'}
    if one['parser']:
        yield dict(one, parser=False)
    for k in range(6):
        if one['seed'] > 5:
            yield dict(one, seed=k)
        if one['style'] > 5:
            yield dict(one, style=k)


def reduce(case):
    for n, one in enumerate(case['sessions']):
        for other in simplify_session(one):
            yield dict(case, sessions=case['sessions'][:n] + [other] + case['sessions'][n + 1 :])
    if len(case['sessions']) > 2:
        for n in range(len(case['sessions'])):
            yield dict(case, sessions=case['sessions'][:n] + case['sessions'][n + 1 :], gc=[])
    for n, (which, lines) in enumerate(case['schedule']):
        if lines > 1:
            yield dict(case, schedule=case['schedule'][:n] + [[which, lines // 2]] + case['schedule'][n + 1 :])
        if which:
            yield dict(case, schedule=case['schedule'][:n] + [[0, lines]] + case['schedule'][n + 1 :])


class Sink(io.StringIO):
    """An output which fails, or accepts only a part of what is written"""

    def __init__(self, after, how):
        io.StringIO.__init__(self)
        self.after, self.how = after, how
        self.fired = False

    def write(self, text):
        self.after -= len(text)
        if self.after >= 0:
            return io.StringIO.write(self, text)
        self.fired = True
        if self.how == 'short':
            kept = text[: len(text) // 2]
            return io.StringIO.write(self, kept)
        raise OSError(28, 'No space left on device')


def outcome(error):
    return ['failed', type(error).__name__, str(error)[:300]]


class Session(object):
    def __init__(self, spec, run):
        self.spec, self.run = spec, run
        self.kind = spec['kind']
        r = random.Random(spec['seed'])
        # all of them count from one, so names are those of others as well
        builder = Builder(r.random() < 0.7)
        self.builder = builder
        self.sink_how = None
        if self.kind == 'build':
            return
        if self.kind in ('write', 'sink', 'copy') and (spec['seed'], 'scene') in run.made:
            self.scene, self.text = run.made[spec['seed'], 'scene']
            return
        for _ in range(r.randrange(3)):
            builder.proto(r)
        roots = builder.nodes(r, 2, [], r.randrange(1, 4))
        routes = builder.routes(r, roots, r.choice((0, 1, 2)))
        self.text = Writer(r).scene(roots, routes, list(builder.known.values()))
        if self.kind == 'broken':
            self.text = self.break_(r, self.text)
        elif self.kind in ('write', 'sink', 'copy'):
            if r.random() < 0.5:
                self.scene = parse(self.text)
            else:
                self.scene = scenegraph.SceneGraph()
                self.scene.children = roots
                for c in builder.known.values():
                    self.scene.addProto(c)
                for one in routes:
                    self.scene.addRoute(one)
            # as of now all which need names have them
            self.scene.toString()
            run.made[spec['seed'], 'scene'] = self.scene, self.text

    def break_(self, r, text):
        how = r.randrange(5)
        at = r.randrange(len(HEADER), len(text) + 1)
        if how == 0:
            return text[:at]
        if how == 1:
            return text[:at] + r.choice(('}', ']', '{', '"', 'USE nothing', 'ROUTE a.b TO c.d', 'Unknown { }', 'DEF', '\x00')) + text[at:]
        if how == 2:
            return text + r.choice(('Unknown { }', 'USE nothing', 'ROUTE a.b TO c.d', 'Group { unknown 3 }', 'Group { children [', 'Script { field SFNone a 1 }', 'PROTO Cut [ field SFNode a Group {', 'Sphere { radius "x" }'))
        if how == 3:
            return text[:at] + text[at + r.randrange(1, 10) :]
        return text[:at].replace('\n', ' ', 1) + ' PROTO P1 [ field SFInt32 f1 "x" ] { Group { children IS'

    def act(self):
        """What the session does; the outcome can be compared"""
        self.result = None
        try:
            return getattr(self, 'act_' + self.kind)()
        except core.SimFault:
            raise
        except MemoryError:
            raise
        except Exception as err:
            if os.environ.get('VSIM_DEBUG'):
                traceback.print_exc()
            return outcome(err)

    def parse(self):
        reader = self.run.reader if self.spec['parser'] else parser.buildParser()
        return reader.parse(self.text)[1][1]

    def act_read(self):
        self.result = self.parse()
        return ['scene']

    act_broken = act_read

    def act_build(self):
        r = random.Random(self.spec['seed'])
        builder = Builder(r.random() < 0.7)
        for _ in range(r.randrange(3)):
            builder.proto(r)
        scene = scenegraph.SceneGraph()
        scene.children = builder.nodes(r, 2, [], r.randrange(1, 3))
        for one in builder.routes(r, scene.children, r.choice((0, 1, 2))):
            scene.addRoute(one)
        self.result = scene
        return ['text', scene.toString()]

    def act_write(self):
        values, named = style(random.Random(self.spec['style']))
        return ['text', linearise.linearise(self.scene, values, **named)]

    def act_sink(self):
        r = random.Random(self.spec['style'])
        values, named = style(r)
        sink = Sink(r.choice((0, 20, 200, 500, 2000)), r.choice(('short', 'full')))
        made = linearise.Lineariser(values, **named).linear(self.scene, sink)
        if sink.fired:
            self.run.ctx.fault('output-accepted-part')
        return ['text', made]

    def act_copy(self):
        self.result = self.scene.copy()
        return ['scene']

    def judge(self, got):
        """The outcome, with the scene which came of it"""
        if self.result is not None and self.kind == 'broken':
            # may have defaults which are no values of the type
            try:
                return got + [describe_scene(self.result)]
            except ValueError:
                return got
        if self.result is not None:
            return got + [describe_scene(self.result), sorted(n for n, v in self.result.defNames.items() if v is not None)]
        return got


def alone(session):
    """The outcome of the session in a fork, where there was no other"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                made = session.judge(session.act())
            except BaseException:
                made = {'error': traceback.format_exc()}
            with os.fdopen(w, 'w') as f:
                json.dump(made, f)
            os._exit(0)
        except BaseException:
            os._exit(1)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise core.HarnessError('a session alone: %s' % (status,))
    made = json.loads(text)
    if isinstance(made, dict):
        raise ValueError(made['error'])
    return made


class Run(object):
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.made = {}
        self.reader = parser.buildParser()
        self.sessions = [Session(s, self) for s in case['sessions']]

    def compare(self, n, wanted, got, when):
        session = self.sessions[n]
        got = json.loads(json.dumps(got))
        if wanted != got:
            self.ctx.fail('%s-%s' % (session.kind, when), 'session %d: %s', n, difference(wanted, got))

    def run(self):
        ctx = self.ctx
        expected = [alone(s) for s in self.sessions]
        fired = {}

        def fault(n, what):
            def action():
                fired[n] = what
                ctx.fault(what)
                raise (MemoryError if what == 'allocation-failed' else core.SimFault)('injected')

            return action

        def collect():
            core.POINTS.busy = True
            try:
                core.collect(ctx)
            finally:
                core.POINTS.busy = False

        points = {(n, at): collect for n, at in self.case['gc']}
        for n, s in enumerate(self.case['sessions']):
            if 'fault' in s:
                points[n, s['fault']['at']] = fault(n, s['fault']['what'])
        simulation = threads.Simulation(ctx, [s.act for s in self.sessions], self.case['schedule'], points)
        try:
            done = simulation.run()
        except threads.Deadlock as err:
            ctx.fail('deadlock', '%s', err)
        ctx.step()
        ctx.fault('switched', simulation.switches)
        outcomes = []
        for n, thread in enumerate(done):
            if n in fired:
                self.sessions[n].result = None
                if thread.error is not None and not isinstance(thread.error, (MemoryError, core.SimFault)):
                    raise thread.error
            elif thread.error is not None:
                raise thread.error
            else:
                outcomes.append((n, thread.result))
        for n, result in outcomes:
            got = self.sessions[n].judge(result)
            self.compare(n, expected[n], got, 'disturbed')
            ctx.log(n, self.sessions[n].kind, result[0], len(json.dumps(got)))
            if result[0] == 'failed':
                ctx.fault('broken-text' if self.sessions[n].kind == 'broken' else 'output-failed')
        keep = [s.result for s in self.sessions]
        core.ADDRESSES.release()
        for n, session in enumerate(self.sessions):
            self.compare(n, expected[n], session.judge(session.act()), 'disturbed-afterwards')
        # and what was made before is as it was
        for n, result in outcomes:
            session = self.sessions[n]
            session.result = keep[n]
            self.compare(n, expected[n], session.judge(result), 'result-disturbed')
        ctx.nontrivial += simulation.switches > len(self.sessions)
        ctx.state(tuple(t.lines for t in done), simulation.switches)


def run(case, ctx):
    core.ADDRESSES.reset()
    core.ADDRESSES.policy = case['policy']
    core.ADDRESSES.active = True
    Run(case, ctx).run()
