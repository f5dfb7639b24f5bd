"""A process forked before the first optimization; runs every request in a fresh child.

Gives reference runs that cannot have seen any state left behind by earlier runs.
"""
import os
import pickle
import signal
import struct


def _read(fd, n):
    b = b''
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack('<q', _read(fd, 8))[0]))


class Zygote:
    def __init__(self, fn, limit=15):
        self.fn, self.limit = fn, limit
        self.pid = None

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.owner = os.getpid()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def serve(self, r, w):
        while True:
            arg = _recv(r)
            cr, cw = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(cr)
                signal.setitimer(signal.ITIMER_REAL, self.limit)
                try:
                    try:
                        out = ('ok', self.fn(arg))
                    except Exception as e:  # noqa: BLE001
                        out = ('error', repr(e))
                    _send(cw, out)
                finally:
                    os._exit(0)
            os.close(cw)
            try:
                out = _recv(cr)
            except (EOFError, struct.error):
                out = ('lost', None)
            os.close(cr)
            os.waitpid(pid, 0)
            _send(w, out)

    def call(self, arg):
        """-> ('ok', result) | ('error', text) | ('lost', None)"""
        if self.pid is None or self.owner != os.getpid():
            self.start()
        done = False
        try:
            _send(self.w, arg)
            out = _recv(self.r)
            done = True
            return out
        finally:
            if not done:
                self.stop()

    def stop(self):
        if self.pid is not None and self.owner == os.getpid():
            os.close(self.w)
            os.close(self.r)
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass
        self.pid = None
