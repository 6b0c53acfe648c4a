"""Runs one harness call natively (the analysed IR compiled by llc) in a child
process; panics are exit status 77, crashes are signals."""
import ctypes
import os
import pickle
import signal

GUARD = 64
CAN = 0xA7


def call(so, fn, args, ret_bits, timeout=60):
    """args: ints or ('buf', bytes, align, skew) -> (kind, ret, [bytes])"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(timeout)
            lib = ctypes.CDLL(so)
            f = getattr(lib, fn)
            f.restype = ctypes.c_uint64 if ret_bits else None
            cargs = []
            bufs = []
            for a in args:
                if isinstance(a, tuple):
                    _, data, align, skew = a
                    n = len(data)
                    raw = ctypes.create_string_buffer(n + 2 * GUARD + 2 * align + 64)
                    base = ctypes.addressof(raw)
                    p = (base + GUARD + align - 1) // align * align + skew
                    ctypes.memset(base, CAN, len(raw))
                    ctypes.memmove(p, bytes(data), n)
                    bufs.append((raw, base, p, n))
                    cargs.append(ctypes.c_void_p(p))
                else:
                    cargs.append(ctypes.c_uint64(a))
            rv = f(*cargs)
            outs = []
            ok = True
            for raw, base, p, n in bufs:
                outs.append(ctypes.string_at(p, n))
                pre = ctypes.string_at(base, p - base)
                post = ctypes.string_at(p + n, base + len(raw) - p - n)
                if set(pre) - {CAN} or set(post) - {CAN}:
                    ok = False
            if ret_bits:
                rv &= (1 << ret_bits) - 1
            with os.fdopen(w, "wb") as fh:
                pickle.dump(("ok" if ok else "overrun", rv if ret_bits else None, outs), fh)
        except BaseException:
            code = 79
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "signal %d" % os.WTERMSIG(st), None, []
    code = os.WEXITSTATUS(st)
    if code == 77:
        return "panic", None, []
    if code:
        return "exit %d" % code, None, []
    return pickle.loads(data)
