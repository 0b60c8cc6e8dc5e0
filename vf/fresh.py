"""Results computed in a process in which nothing has happened before.

The first request forks a keeper process. The keeper runs nothing of the code
under test itself; for every request it forks a child that computes one
result, sends it back and ends. State that the code keeps at class or module
level can so never reach a later result."""

import atexit
import os
import pickle
import struct

_KEEPER = {}


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            raise EOFError
        out += part
    return out


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data) :]


def _receive(fd):
    return _read(fd, struct.unpack("<Q", _read(fd, 8))[0])


def _keep(work, rin, wout):
    while True:
        try:
            request = _receive(rin)
        except EOFError:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                try:
                    answer = ("ok", work(*pickle.loads(request)))
                except BaseException as e:
                    answer = ("error", f"{type(e).__name__}: {e}")
                _send(w, pickle.dumps(answer))
            finally:
                os._exit(0)
        os.close(w)
        try:
            answer = _receive(r)
        except EOFError:
            answer = pickle.dumps(("error", "the process ended"))
        os.close(r)
        os.waitpid(pid, 0)
        _send(wout, answer)


def running():
    return _KEEPER.get("pid") == os.getpid()


def start(work):
    """Forks the keeper of this process, before anything has run in it."""
    rin, win = os.pipe()
    rout, wout = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(win)
            os.close(rout)
            _keep(work, rin, wout)
        finally:
            os._exit(0)
    os.close(rin)
    os.close(wout)
    _KEEPER.update(pid=os.getpid(), child=pid, win=win, rout=rout)
    atexit.register(stop)


def stop():
    if running():
        os.close(_KEEPER["win"])
        os.close(_KEEPER["rout"])
        os.waitpid(_KEEPER["child"], 0)
        _KEEPER.clear()


def ask(*request):
    """(status, result) of work(*request) in a pristine process."""
    _send(_KEEPER["win"], pickle.dumps(request))
    return pickle.loads(_receive(_KEEPER["rout"]))
