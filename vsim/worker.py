"""One simulation process: runs cases, each in its own fork of a pristine state

Talks JSON lines on the descriptors it was given.  The code under test is
imported once, from the working tree of the repository; every run is a fork of
that state, so that a run depends on its case and on nothing which ran before.
"""

import gc
import importlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get('VSIM_REPO', '/repo')


def setup(config, accel_path):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for path in (REPO, here):
        while path in sys.path:
            sys.path.remove(path)
    sys.path.insert(0, here)
    sys.path.insert(0, REPO)
    if config == 'accel':
        sys.path.insert(0, accel_path)
    else:
        # the extensions may be installed, but are not what is asked for
        sys.modules['vrml_accelerate'] = None
    from vsim import core

    core.install_addresses()
    from vsim import threads

    threads.install_locks()
    import vrml

    if not os.path.abspath(vrml.__file__).startswith(REPO + os.sep):
        raise core.HarnessError('vrml was imported from %s' % (vrml.__file__,))
    if config == 'accel':
        import vrml_accelerate

        if not os.path.abspath(vrml_accelerate.__file__).startswith(accel_path):
            raise core.HarnessError(
                'vrml_accelerate was imported from %s' % (vrml_accelerate.__file__,)
            )


def in_repo(tb):
    """Whether the exception was raised within (or below) the code under test

    Not by our own code called back from it: the innermost frame which is
    either ours or the repository's says whose it is.
    """
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    owner = None
    for frame, line in traceback.walk_tb(tb):
        filename = os.path.abspath(frame.f_code.co_filename)
        if filename.startswith(here):
            owner = 'harness'
        elif filename.startswith(REPO + os.sep) or filename.startswith('src/'):
            owner = 'repo'
    return owner == 'repo'


def execute(prop, case, keep_log):
    from vsim import core

    ctx = core.Ctx(keep_log)
    result = {'status': 'ok'}
    try:
        prop.run(case, ctx)
    except core.Violation as err:
        result = {'status': 'violation', 'cls': err.cls, 'msg': err.msg}
    except BaseException as err:
        text = traceback.format_exc()
        if in_repo(err.__traceback__):
            result = {
                'status': 'violation',
                'cls': 'unexpected-%s' % (type(err).__name__,),
                'msg': text[-1500:],
            }
        elif isinstance(err, Exception) and not isinstance(err, OSError):
            # what the code under test gave us is not what it should be
            result = {'status': 'violation', 'cls': 'unusable-%s' % (type(err).__name__,), 'msg': text[-1500:]}
        else:
            result = {'status': 'error', 'msg': text[-3000:]}
    result['digest'] = ctx.digest.hexdigest()
    result['counts'] = dict(ctx.counts)
    result['states'] = sorted(ctx.states)
    result['steps'] = ctx.steps
    result['nontrivial'] = int(bool(ctx.nontrivial))
    if keep_log:
        result['log'] = ctx.lines[-400:]
    return result


def forked(prop, case, keep_log=False, timeout=20):
    """Execute the case in a fork, giving the result"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get('VSIM_DEBUG'):
                os.dup2(null, 1)
                os.dup2(null, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            # what does not end must not use up the machine
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            gc.disable()
            data = json.dumps(execute(prop, case, keep_log)).encode('utf8')
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            os._exit(0)
        except BaseException:
            os._exit(77)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    timed_out = False
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                timed_out = True
                break
            data = os.read(r, 1 << 16)
            if not data:
                break
            chunks.append(data)
    finally:
        os.close(r)
        if timed_out:
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
    if timed_out:
        return {'status': 'timeout'}
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGKILL:
            # somebody else's doing: out of memory, most likely
            return {'status': 'killed'}
        return {
            'status': 'violation',
            'cls': 'crash-signal-%d' % (os.WTERMSIG(status),),
            'msg': 'the process running the code under test died',
        }
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {
            'status': 'error',
            'msg': 'no result, exit status %d' % (os.WEXITSTATUS(status),),
        }


def patient(prop, case, keep_log=False):
    """As forked, but with a second and longer try before saying it hangs"""
    result = forked(prop, case, keep_log)
    if result['status'] in ('timeout', 'killed'):
        result = forked(prop, case, keep_log, timeout=100)
        if result['status'] == 'timeout':
            result = {
                'status': 'violation',
                'cls': 'no-progress',
                'msg': 'the run had not ended after 100 s',
            }
        elif result['status'] == 'killed':
            result = {'status': 'error', 'msg': 'the run was killed, twice'}
    return result


def main():
    name, config, accel_path, seed, tier = sys.argv[1:6]
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    try:
        setup(config, accel_path)
        from vsim import core

        prop = importlib.import_module('vsim.props.' + name.lower())
        prepare = getattr(prop, 'prepare', None)
        if prepare is not None:
            prepare(config, accel_path)
        gc.collect()
        gc.freeze()
    except BaseException:
        out.write(json.dumps({'fatal': traceback.format_exc()[-3000:]}) + '\n')
        out.flush()
        return 1
    out.write(json.dumps({'ready': 1}) + '\n')
    out.flush()
    for line in sys.stdin:
        command = json.loads(line)
        if command['cmd'] == 'explore':
            results = []
            for index in command['indices']:
                rng = core.rng_for(seed, name, config, index)
                try:
                    case = core.jsonable(prop.gen(rng, config, tier))
                except BaseException:
                    results.append(
                        {
                            'status': 'error',
                            'msg': traceback.format_exc()[-3000:],
                            'index': index,
                        }
                    )
                    break
                result = patient(prop, case)
                result['index'] = index
                if result['status'] != 'ok' or index in command.get('show', ()):
                    result['case'] = case
                results.append(result)
                if result['status'] != 'ok':
                    break
                if time.time() > command['until']:
                    break
            answer = {'results': results}
        elif command['cmd'] == 'run':
            answer = {'result': patient(prop, command['case'], command.get('log'))}
        elif command['cmd'] == 'simplify':
            simplify = getattr(prop, 'simplify', None)
            answer = {'ops': list(simplify(command['op'])) if simplify else []}
        elif command['cmd'] == 'reduce':
            reduce = getattr(prop, 'reduce', None)
            answer = {'cases': list(reduce(command['case'])) if reduce else []}
        else:
            answer = {'fatal': 'unknown command'}
        out.write(json.dumps(answer) + '\n')
        out.flush()
    return 0


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.exit(main())
