"""Faults inside a call: an exception before any line of the code under test, a failing
allocation of NumPy (LD_PRELOAD shim), a failing write to stdout."""
import ast
import ctypes
import os
import sys

import numpy as np

from .threads import traced

_protected = {}


def protected_lines(filename):
    """lines at which no exception is injected: clean-up code that the language itself
    cannot protect (bodies of finally and except, and the lines of try and with)"""
    got = _protected.get(filename)
    if got is None:
        got = set()
        try:
            tree = ast.parse(open(filename).read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for node in ast.walk(tree):
            blocks = []
            if isinstance(node, ast.Try):
                got.add(node.lineno)
                blocks = list(node.finalbody)
            elif isinstance(node, ast.With):
                got.update(range(node.lineno, node.body[0].lineno))
                got.add(node.lineno)
            for b in blocks:
                got.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
        _protected[filename] = got
    return got


_handled = {}


def handled_lines(filename):
    """lines inside try statements that handle MemoryError"""
    got = _handled.get(filename)
    if got is None:
        got = set()
        try:
            tree = ast.parse(open(filename).read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for node in ast.walk(tree):
            if isinstance(node, ast.Try) and any(h.type is not None and "MemoryError" in ast.dump(h.type)
                                                 for h in node.handlers):
                for b in node.body:
                    got.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
        _handled[filename] = got
    return got


class Lines:
    """records the lines executed, or raises before the n-th execution of one"""

    def __init__(self, at=None, exc=None):
        self.at, self.exc = at, exc
        self.seen = {}
        self.order = []
        self.function = {}
        self.hit = False

    def tracer(self, frame, event, arg):
        code = frame.f_code
        if not traced(code):
            return None
        if event == "line":
            f = code.co_filename
            k = (f, frame.f_lineno)
            if frame.f_lineno not in protected_lines(f):
                n = self.seen.get(k, 0) + 1
                self.seen[k] = n
                if n == 1:
                    self.order.append(k)
                    self.function[k] = (f, code.co_firstlineno)
                if self.at is not None and not self.hit and k == self.at[0] and n == self.at[1]:
                    self.hit = True
                    raise self.exc
        return self.tracer

    def run(self, fn):
        sys.settrace(self.tracer)
        try:
            return fn()
        finally:
            sys.settrace(None)


class Alloc:
    """the allocator shim; only allocations NumPy's core makes for arrays count"""

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        try:
            self.arm_ = self.lib.shim_arm
        except AttributeError:
            self.lib = None
            return
        self.arm_.argtypes = [ctypes.c_size_t, ctypes.c_size_t, ctypes.c_long, ctypes.c_int]
        self.lib.shim_seen.restype = ctypes.c_long
        self.lib.shim_disarm.restype = ctypes.c_long
        self.lib.shim_learn.argtypes = [ctypes.c_size_t]
        n = 34567
        self.lib.shim_learn(8 * n)
        a = np.empty(n)
        a = a + 1.0
        b = np.zeros(n)
        c = np.empty(5)
        c.resize(n, refcheck=False)
        self.lib.shim_learn(0)
        self.sites = self.lib.shim_sites()

    def arm(self, n, sticky=0, lo=1024, hi=1 << 60):
        self.arm_(lo, hi, n, sticky)

    def disarm(self):
        return self.lib.shim_disarm()

    def count(self, fn, lo=1024, hi=1 << 60):
        self.arm(1 << 40, 0, lo, hi)
        try:
            fn()
        finally:
            self.disarm()
        return self.lib.shim_seen()


def in_fork(fn):
    """execute fn in a fork; returns its (picklable) value, or None if the process died
    in native code (NumPy and the C layer of PyPy do not survive every failed allocation)"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            try:
                data = pickle.dumps((True, fn()))
            except BaseException as e:
                import traceback
                data = pickle.dumps((False, traceback.format_exc()))
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        part = os.read(r, 1 << 20)
        if not part:
            break
        buf += part
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return None
    try:
        ok, val = pickle.loads(buf)
    except Exception:
        return None
    if not ok:
        from .core import HarnessError
        raise HarnessError(val)
    return val


def join_blocks(out, ref):
    """replaces a covariance that was returned as blocks (A, B, C) by the matrix
    [[A, B], [B^T, C]], which the documentation of the DFT functions offers if memory is short"""
    if out[0] != "returned" or ref[0] != "returned":
        return out
    o, r = out[1], ref[1]
    try:
        if o[0] == "tuple" and r[0] == "tuple" and len(o[1]) == len(r[1]) >= 2 and o[1][1][0] == "tuple" \
                and r[1][1][0] != "tuple" and len(o[1][1][1]) == 3:
            A, B, C = (x[2] for x in o[1][1][1])
            U = np.block([[A, B], [B.T, C]])
            want = r[1][1]
            return (out[0], (o[0], [o[1][0], (want[0], want[1], U)] + list(o[1][2:])))
    except Exception:
        pass
    return out
