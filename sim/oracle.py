"""Pristine processes that execute single calls: the reference for everything that
must not depend on history, process, hash seed or neighbours.

A `Zygote` never executes a call itself: every request is executed by a fork of it.
With `hashseed` it is a new interpreter with another hash seed instead of a fork."""
import os
import pickle
import struct
import subprocess
import sys


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _exact(fd, n):
    buf = b""
    while len(buf) < n:
        part = os.read(fd, n - len(buf))
        if not part:
            return None
        buf += part
    return buf


def _recv(fd):
    head = _exact(fd, 8)
    return None if head is None else _exact(fd, struct.unpack("<Q", head)[0])


def execute(req):
    """one request: (case spec, seed of the generator) -> outcome and generator state"""
    from . import catalog, seams, simpool
    spec, seed = req
    seams.HUB.reset(17)
    simpool.reset_policy()
    seams.HUB.default.seed(seed)
    case = catalog.Case(*spec)
    out, _ = catalog.outcome(case.call)
    return out, seams.HUB.cur().get_state()


def serve(rfd, wfd):
    while True:
        msg = _recv(rfd)
        if msg is None:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                res = pickle.dumps(execute(pickle.loads(msg)))
            except BaseException:
                import traceback
                res = pickle.dumps(("harness", traceback.format_exc()))
            try:
                _send(wfd, res)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


class Zygote:
    def __init__(self, hashseed=None, cpu=4):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        if hashseed is None:
            self.pid = os.fork()
            if self.pid == 0:
                try:
                    os.close(w1)
                    os.close(r2)
                    serve(r1, w2)
                finally:
                    os._exit(1)
        else:
            env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
            self.proc = subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-m", "sim.oracle", str(r1), str(w2), str(cpu)],
                                         pass_fds=[r1, w2], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def ask(self, spec, seed):
        from .core import HarnessError
        _send(self.w, pickle.dumps((spec, seed)))
        msg = _recv(self.r)
        if msg is None:
            raise HarnessError("oracle process ended while executing %r" % (spec,))
        res = pickle.loads(msg)
        if res[0] == "harness":
            raise HarnessError(res[1])
        return res


if __name__ == "__main__":
    from sim import main
    main.setup_process(int(sys.argv[3]))
    serve(int(sys.argv[1]), int(sys.argv[2]))
