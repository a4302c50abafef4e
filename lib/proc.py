"""Runs programs under test with limits on time, memory and output."""
import os, resource, signal, subprocess, threading, time

MEM = 3 << 30
RUNNING = set()
timeouts = 0


def limit(timeout):
    """Time limit of a run. Once programs did not end in time, the others get less, to come to a verdict soon; what
    happens in the main thread, as the confirmation of suspects, keeps its limit."""
    if timeouts < 2 or threading.current_thread() is threading.main_thread():
        return timeout
    return min(timeout, 10 if timeouts < 16 else 3 if timeouts < 40 else 1)


def kill_all():
    for p in list(RUNNING):
        try:
            os.killpg(p, signal.SIGKILL)
        except ProcessLookupError:
            pass


class Result:
    def __init__(self, rc, out, err, timed_out, wall):
        self.rc, self.out, self.err, self.timed_out, self.wall = rc, out, err, timed_out, wall

    @property
    def died(self):
        """ended by a signal or by the time limit"""
        return self.timed_out or self.rc < 0 or self.rc >= 128


def run(cmd, cwd=None, env=None, timeout=60, stdin=None, mem=MEM, fsize=1 << 30):
    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    global timeouts
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits)
    RUNNING.add(p.pid)
    try:
        out, err = p.communicate(stdin, timeout=limit(timeout))
        to = False
    except subprocess.TimeoutExpired:
        to = True
        timeouts += 1
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    finally:
        RUNNING.discard(p.pid)
    return Result(p.returncode, out, err, to, time.time() - t0)
