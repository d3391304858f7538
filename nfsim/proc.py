"""Forked children: simulated lives and the inspector that loads snapshots with the real code."""
import os
import pickle
import select
import shutil
import signal
import tempfile

_SCRATCH = None


class TooSlow(Exception):
    """The machine did not get through a life in time: nothing is known about it."""


class HarnessError(Exception):
    pass


class Died(Exception):
    """The interpreter was ended by a signal: a crash in native code."""


def scratch_base():
    """Scratch directory of this process tree (created by the check, removed by the check)."""
    global _SCRATCH
    if _SCRATCH is None:
        for cand in ('/dev/shm', tempfile.gettempdir()):
            try:
                _SCRATCH = tempfile.mkdtemp(prefix='nfsim-', dir=cand)
                break
            except OSError:
                continue
    return _SCRATCH


def set_scratch(path):
    global _SCRATCH
    _SCRATCH = path


def remove_scratch():
    global _SCRATCH
    if _SCRATCH is not None and os.path.basename(_SCRATCH).startswith('nfsim-'):
        shutil.rmtree(_SCRATCH, ignore_errors=True)
    _SCRATCH = None


def fork_wait(fn, timeout):
    """Run fn() in a forked child; return its exit status (int) or None if it had to be killed."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            null = os.open('/dev/null', os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            if not os.environ.get('NFSIM_STDERR'):
                os.dup2(null, 2)
            fn()
            code = 0
        except BaseException:
            if os.environ.get('NFSIM_STDERR'):
                import traceback
                traceback.print_exc()
        finally:
            os._exit(code)
    fd = os.pidfd_open(pid)
    try:
        p = select.poll()
        p.register(fd, select.POLLIN)
        if not p.poll(timeout * 1000):
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None
    finally:
        os.close(fd)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)


def run_life(life, root, timeout=120):
    """One life in a child. Returns its history."""
    out = os.path.join(os.path.dirname(root), 'history.pkl')
    try:
        os.unlink(out)
    except OSError:
        pass
    from . import life as lifemod
    code = fork_wait(lambda: lifemod.run_life(life, root, out), timeout)
    if code is None:
        raise TooSlow('life stopped after %d s' % timeout)
    if not os.path.exists(out) and code in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL):
        raise Died('%s' % signal.Signals(-code).name)
    if not os.path.exists(out):
        raise HarnessError('life left no history (exit %r)' % (code, ))
    with open(out, 'rb') as f:
        h = pickle.load(f)
    if h['exit'] == 'harness_error':
        raise HarnessError(h['harness_error'])
    h['code'] = code
    return h


def call_in_child(fn, timeout=120):
    """fn() in a child; its (picklable) result, or raises HarnessError."""
    base = scratch_base()
    fd, path = tempfile.mkstemp(dir=base)
    os.close(fd)

    def body():
        try:
            res = ('ok', fn())
        except BaseException:
            import traceback
            res = ('err', traceback.format_exc())
        with open(path, 'wb') as f:
            pickle.dump(res, f, protocol=4)
    try:
        code = fork_wait(body, timeout)
        try:
            with open(path, 'rb') as f:
                kind, res = pickle.load(f)
        except EOFError:
            return ('died', code)
        if kind == 'err':
            raise HarnessError(res)
        return ('ok', res)
    finally:
        os.unlink(path)


def inspect(blobs, full=False, timeout=120):
    """Load each blob as a file with the real io.load. [(ok, dump or error string)]"""
    base = scratch_base()
    path = os.path.join(base, 'inspect%d.hdf5' % os.getpid())

    def one(data):
        import nodefinder as nf
        from .life import dump_state, dump_container
        with open(path, 'wb') as f:
            f.write(data)
        try:
            obj = nf.io.load(path)
            if hasattr(obj, 'simplex_queue'):
                return True, dump_state(obj, full)
            return True, {'other': type(obj).__name__}
        except Exception as exc:
            return False, '%s: %s' % (type(exc).__name__, str(exc)[:200])

    import resource

    def limit(seconds):
        resource.setrlimit(resource.RLIMIT_CPU, (seconds, seconds + 1))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def allof():
        limit(6 + len(blobs) // 4)
        return [one(b) for b in blobs]

    def alone(b):
        limit(5)
        return one(b)
    kind, res = call_in_child(allof, timeout + 4 * len(blobs))
    if kind == 'ok':
        out = res
    else:
        # a file that kills the reader: find which
        out = []
        for b in blobs:
            kind, res = call_in_child(lambda: alone(b), timeout)
            out.append(res if kind == 'ok' else (False, 'the reader hangs or dies (%r)' % (res, )))
    try:
        os.unlink(path)
    except OSError:
        pass
    return out
