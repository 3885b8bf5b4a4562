"""Calls with every buffer flush against unreadable pages, run in a forked child: a stray access is a SIGSEGV, and the
call that was running is the failing input."""
import ctypes
import mmap
import os
import signal
import struct
import time

PAGE = mmap.PAGESIZE
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
libc.memset.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_size_t]


class Arena:
    """pieces of memory with an unreadable page directly before (low) or after (high) them"""

    def __init__(self):
        self.maps = []

    def put(self, data, high=True, readonly=True):
        n = len(data)
        body = (n + PAGE - 1) // PAGE * PAGE
        m = libc.mmap(None, body + 2 * PAGE, 3, 0x22, -1, 0)
        if m in (None, ctypes.c_void_p(-1).value):
            raise MemoryError
        self.maps.append((m, body + 2 * PAGE))
        libc.mprotect(m, PAGE, 0)
        libc.mprotect(m + PAGE + body, PAGE, 0)
        a = m + PAGE + (body - n if high else 0)
        ctypes.memmove(a, bytes(data), n)
        if readonly and body:
            libc.mprotect(m + PAGE, body, 1)
        return ctypes.c_void_p(a)

    def free(self):
        for m, n in self.maps:
            libc.munmap(m, n)
        self.maps = []


def read(p, n):
    return ctypes.string_at(p, n) if n else b''


def run(cases, limit=60):
    """cases: iterable of (description, thunk(arena) -> None | failure dict).
    Runs all of them in one forked child. -> number run, [failures]"""
    cases = list(cases)
    pos = mmap.mmap(-1, 64)
    rp, wp = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import json
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            for s in (signal.SIGSEGV, signal.SIGBUS):
                signal.signal(s, signal.SIG_DFL)
            import faulthandler
            faulthandler.disable()
            os.close(rp)
            for i, (d, f) in enumerate(cases):
                pos[:8] = struct.pack('<q', i)
                a = Arena()
                r = f(a)
                a.free()
                if r is not None:
                    os.write(wp, json.dumps(dict(d, **r), default=repr).encode()[:3000])
                    break
            pos[:8] = struct.pack('<q', len(cases))
            os._exit(0)
        except BaseException as e:
            os.write(wp, ('!' + repr(e)).encode()[:2000])
            os._exit(7)
    os.close(wp)
    end = time.time() + limit
    status = None
    while time.time() < end:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            status = s
            break
        time.sleep(.01)
    if status is None:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
    out = b''
    while True:
        b = os.read(rp, 4096)
        if not b:
            break
        out += b
    os.close(rp)
    i = struct.unpack('<q', pos[:8])[0]
    pos.close()
    if status is None:
        return i, []                # too slow: nothing learned about the rest
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGBUS):
        return i, [dict(cases[i][0], observed='signal %d: an access outside the buffers given' % os.WTERMSIG(status))]
    if out[:1] == b'!':
        raise RuntimeError('guard: ' + out.decode(errors='replace'))
    if os.WIFSIGNALED(status):
        return i, [dict(cases[i][0], observed='signal %d' % os.WTERMSIG(status))]
    if out:
        import json
        return i, [json.loads(out)]
    return len(cases), []
