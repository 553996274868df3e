"""Run a function in a forked child process and return its (picklable) result."""

import os
import pickle
import signal
import sys


class ChildDied(Exception):
    """The child ended without answering."""


def run(fn, *args, seconds=120):
    """('ok', value) or ('exc', type name, message)."""
    sys.stdout.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                out = ("exc", type(e).__name__, str(e)[:2000])
            data = pickle.dumps(out)
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        chunks = []
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            chunks.append(b)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not chunks:
        raise ChildDied(f"child process {pid} ended without a result")
    return pickle.loads(b"".join(chunks))
