"""A second planner process: same code, own hash seed, always fresh.

A zygote boots the planner once and forks one child per request, so every answer
comes from a process in which nothing was run before.  Requests and answers are
length-prefixed JSON on a pair of pipes.
"""
from __future__ import annotations

import json
import os
import signal
import subprocess
import sys
import time as _t

_alarm = 150


def _read(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def send(fd, o):
    b = json.dumps(o, default=str).encode()
    b = len(b).to_bytes(8, "big") + b
    while b:
        b = b[os.write(fd, b):]


def recv(fd):
    return json.loads(_read(fd, int.from_bytes(_read(fd, 8), "big")))


class Twin:
    _all = {}

    @classmethod
    def get(cls, hashseed, base):
        t = cls._all.get(hashseed)
        if t is None or t.p.poll() is not None:
            t = cls._all[hashseed] = cls(hashseed, base)
        return t

    def __init__(self, hashseed, base):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-m", "dst.twin", base, str(r1), str(w2)], env=env, pass_fds=(r1, w2),
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        os.close(r1), os.close(w2)
        self.w, self.r = w1, r2

    def ask(self, req):
        send(self.w, req)
        a = recv(self.r)
        if "failed" in a:
            raise RuntimeError("twin: " + a["failed"])
        return a["result"]


def main():
    base, r, w = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    from .worker import contain

    contain()
    from . import sim

    sim.boot()
    from .scenarios import jobs, load

    load()
    jobs.warm()
    while True:
        try:
            req = recv(r)
        except EOFError:
            return
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(a)
                contain()
                signal.alarm(_alarm)
                send(b, {"result": jobs.serve(req, base)})
                code = 0
            except BaseException as e:
                import traceback

                try:
                    send(b, {"failed": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]})
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(b)
        try:
            ans = recv(a)
        except EOFError:
            ans = {"failed": "the child died"}
        os.close(a)
        os.waitpid(pid, 0)
        send(w, ans)


if __name__ == "__main__":
    main()
