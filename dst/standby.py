"""A second interpreter that takes over a set of orbits from its serialised form.

The process running a simulation starts one standby (a fresh interpreter: other hash seed, nothing of
what the first one did so far), sends it pickled orbits, and then drives the restored set over a
pipe, one operation per message.  Whatever did not travel with the pickle is gone, as after a crash."""
import os
import pickle
import struct
import subprocess
import sys

from . import ops

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_child = None


def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack('<Q', len(b)) + b)
    f.flush()


def _exactly(f, n):
    out = b''
    while len(out) < n:
        b = f.read(n - len(out))
        if not b:
            raise EOFError('the other side is gone')
        out += b
    return out


def _receive(f):
    return pickle.loads(_exactly(f, struct.unpack('<Q', _exactly(f, 8))[0]))


class Restored:
    """stands for the set of orbits living in the standby"""

    def __init__(self, orb, poison):
        global _child
        blob = pickle.dumps(orb)
        if _child is None or _child[0] != os.getpid():
            env = dict(os.environ, PYTHONHASHSEED='4242')
            p = subprocess.Popen([sys.executable, '-B', '-m', 'dst.standby'], cwd=HERE, env=env,
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE)
            _child = (os.getpid(), p)
        self.p = _child[1]
        self.ask(('load', poison, blob))

    def ask(self, msg):
        global _child
        try:
            _send(self.p.stdin, msg)
            ok, what = _receive(self.p.stdout)
        except BaseException:
            # the answer may still be on its way: never use this process again
            _child = None
            self.p.kill()
            self.p.wait()
            raise
        if not ok:
            raise ops.Malformed(what)
        return what

    def apply(self, op):
        """(result, name of the exception)"""
        return self.ask(('op', op))

    def plain(self):
        return self.ask(('plain',))

    def observe(self):
        return self.ask(('observe',))


def main():
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    from . import seams
    from .worlds import twins
    seams.load()
    orb = None
    while True:
        try:
            msg = _receive(inp)
        except EOFError:
            return
        try:
            if msg[0] == 'load':
                seams.set_poison(msg[1])
                orb = pickle.loads(msg[2])
                res = None
            elif msg[0] == 'op':
                orb, r, exc = twins.attempt(orb, msg[1])
                res = (r, twins.name(exc))
            elif msg[0] == 'plain':
                res = twins.plain(orb)
            else:
                res = twins.direct_obs(orb)
            ans = (True, res)
        except Exception as exc:
            ans = (False, f'{type(exc).__name__}: {exc}')
        _send(out, ans)


if __name__ == '__main__':
    main()
