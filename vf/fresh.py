"""Run a function in a process whose copy of the library has executed no call yet.

A worker forks one 'zygote' before its first call into the library; the zygote forks a child per
request.  Results come back pickled; an exception comes back as ('raised', text).
"""
import gc
import os
import pickle
import signal
import struct

_Z = None


def _read(fd, n):
    buf = b''
    while len(buf) < n:
        part = os.read(fd, min(1 << 20, n - len(buf)))
        if not part:
            raise EOFError
        buf += part
    return buf


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack('>Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack('>Q', _read(fd, 8))[0]))


def _serve(rd, wr):
    try:
        while True:
            fn, args = _recv(rd)
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        res = ('ok', fn(*args))
                    except Exception as e:
                        res = ('raised', f'{type(e).__name__}: {e}')
                    _send(wr, res)
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status != 0:
                _send(wr, ('raised', f'process ended with status {status}'))
    except (EOFError, OSError):
        pass
    finally:
        os._exit(0)


def start():
    """To be called before the first library call of the process."""
    global _Z
    if _Z is not None and _Z[0] == os.getpid():
        return
    a, b = os.pipe(), os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.alarm(0)
        gc.disable()
        gc.freeze()
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        os.close(a[1])
        os.close(b[0])
        _serve(a[0], b[1])
    os.close(a[0])
    os.close(b[1])
    _Z = (os.getpid(), pid, a[1], b[0])


def run(fn, *args):
    """fn (module-level) applied in a fresh process: ('ok', result) or ('raised', text)."""
    global _Z
    try:
        _send(_Z[2], (fn, args))
        return _recv(_Z[3])
    except BaseException:
        os.kill(_Z[1], signal.SIGKILL)
        raise
