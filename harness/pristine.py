"""Runs a function in a process that has not run anything before: a server forked at
import forks one child per call."""
import importlib
import json
import os
import struct
import sys

from boot import silent
from core import Violation, through_sut


def _read(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def _recv(fd):
    h = _read(fd, 4)
    if h is None:
        return None
    b = _read(fd, struct.unpack('<I', h)[0])
    return None if b is None else json.loads(b.decode())


def _send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack('<I', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _answer(req):
    mod, func, args = req
    try:
        with silent():
            return {'value': getattr(importlib.import_module(mod), func)(*args)}
    except Violation as e:
        return {'violation': str(e)}
    except Exception as e:
        kind = 'violation' if through_sut(e) else 'error'
        return {kind: '%s: %s' % (type(e).__name__, str(e)[:300])}


def _serve(rin, wout):
    while True:
        req = _recv(rin)
        if req is None:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _send(w, _answer(req))
            finally:
                os._exit(0)
        os.close(w)
        ans = _recv(r)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        _send(wout, ans or {'violation': 'a fresh process running only this ended with '
                            'status %d' % st})


class Server:
    def __init__(self):
        rin, self.w = os.pipe()
        self.r, wout = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.w)
            os.close(self.r)
            try:
                _serve(rin, wout)
            finally:
                os._exit(1)
        os.close(rin)
        os.close(wout)

    def call(self, func, *args):
        """func: a module level function, JSON arguments and result."""
        _send(self.w, [func.__module__, func.__name__, args])
        ans = _recv(self.r)
        if ans is None:
            raise RuntimeError('server of fresh processes ended')
        if 'violation' in ans:
            raise Violation('in a fresh process: ' + ans['violation'])
        if 'error' in ans:
            raise RuntimeError(ans['error'])
        return ans['value']
