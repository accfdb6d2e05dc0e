"""Run a function in a forked copy of this (pristine) process."""
import os
import pickle
import select
import signal
import struct
import time
import traceback


class ChildFailed(Exception):
    """The forked run ended without an answer (`how` says why)."""

    def __init__(self, how):
        super().__init__(how)
        self.how = how


def call(fn, timeout=120.0):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                out = (True, fn())
            except BaseException:
                out = (False, traceback.format_exc())
            data = pickle.dumps(out, protocol=4)
            data = struct.pack("<Q", len(data)) + data
            mv = memoryview(data)
            while mv:
                mv = mv[os.write(w, mv[:1 << 20]):]
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    need = None
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise ChildFailed("timeout after %.0f s" % timeout)
            if not select.select([r], [], [], left)[0]:
                continue
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
            if need is None and len(buf) >= 8:
                need = struct.unpack("<Q", bytes(buf[:8]))[0] + 8
            if need is not None and len(buf) >= need:
                break
    finally:
        os.close(r)
        try:
            _, st = os.waitpid(pid, 0)
        except ChildProcessError:
            st = None
    if need is None or len(buf) < need:
        raise ChildFailed("child died with status %r" % (st,))
    ok, val = pickle.loads(bytes(buf[8:need]))
    if not ok:
        raise ChildFailed("exception in child:\n" + val)
    return val


def pmap(fn, items, width=None):
    """[fn(x)] by forked children, a few at a time; ChildFailed where one
    failed.  The children must not share anything but files."""
    width = width or min(8, os.cpu_count() or 1)
    items = list(items)
    out = [None]*len(items)
    width = max(1, min(width, len(items)))
    pids = []
    for w in range(width):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(wr, "wb") as f:
                    for i in range(w, len(items), width):
                        try:
                            v = (i, True, call(lambda: fn(items[i])))
                        except ChildFailed as e:
                            v = (i, False, e.how)
                        pickle.dump(v, f, protocol=4)
                        f.flush()
            finally:
                os._exit(0)
        os.close(wr)
        pids.append((pid, r))
    for pid, r in pids:
        with os.fdopen(r, "rb") as f:
            while True:
                try:
                    i, ok, v = pickle.load(f)
                except EOFError:
                    break
                out[i] = v if ok else ChildFailed(v)
        os.waitpid(pid, 0)
    return [ChildFailed("lost") if v is None else v for v in out]
