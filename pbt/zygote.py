"""Runs histories of calls in processes which have seen nothing else.

`python -m pbt.zygote` imports everything and then only forks: each history it is sent is run in a child of its own.
"""
import os
import pickle
import struct
import subprocess
import sys

_proc = None


def _read(f, n):
    out = b""
    while len(out) < n:
        part = f.read(n - len(out))
        if not part:
            raise EOFError
        out += part
    return out


def receive(f):
    return pickle.loads(_read(f, struct.unpack(">I", _read(f, 4))[0]))


def send(f, thing):
    blob = pickle.dumps(thing)
    f.write(struct.pack(">I", len(blob)) + blob)
    f.flush()


def run(histories):
    """[[verdict of each call] of each history], every history in a new process."""
    global _proc
    if _proc is None or _proc[0] != os.getpid():
        _proc = (os.getpid(), subprocess.Popen([sys.executable, "-m", "pbt.zygote"], stdin=subprocess.PIPE, stdout=subprocess.PIPE))
    p = _proc[1]
    try:
        send(p.stdin, histories)
        return receive(p.stdout)
    except BaseException:  # interrupted half way: the next one gets a new process
        p.kill()
        p.wait()
        _proc = None
        raise


def _child(histories, index, w):
    from .props.c23 import outcome

    out = [outcome(c) for c in histories[index]]
    with os.fdopen(w, "wb") as f:
        send(f, out)


def main():
    from . import props  # noqa
    from .props import c23  # noqa

    source, sink = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        try:
            histories = receive(source)
        except EOFError:
            return
        out = []
        for i in range(len(histories)):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    _child(histories, i, w)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                try:
                    out.append(receive(f))
                except EOFError:
                    out.append(None)
            os.waitpid(pid, 0)
        send(sink, out)


if __name__ == "__main__":
    main()
