"""Faults of memory, user, terminal and hardware probes.

They act where they can happen in a real process: an interrupt after a call into C or
on entry of a function, an allocation failure inside a torch operation or a C call,
output on a broken terminal, a memory probe that lies or fails.
"""
import contextlib
import errno
import io
import os
import sys

import torch
from torch.overrides import TorchFunctionMode

PKG = "/xrd_simulator/"
SIM = os.path.dirname(os.path.abspath(__file__)) + os.sep


class Injected:
    """Counts the places where a fault of one kind may strike and strikes at one of them."""

    def __init__(self, at, stats, name):
        self.at = at  # None only counts
        self.count = 0
        self.fired = False
        self.where = None
        self.stats = stats
        self.name = name

    def hit(self):
        k = self.count
        self.count += 1
        if self.at is not None and k == self.at and not self.fired:
            self.fired = True
            self.stats.fault(self.name)
            return True
        return False


def _inside(frame):
    """Whether the frame belongs to the package, or was called from it."""
    for _ in range(40):
        if frame is None:
            return False
        if SIM in frame.f_code.co_filename:
            return False
        if PKG in frame.f_code.co_filename:
            return True
        frame = frame.f_back
    return False


@contextlib.contextmanager
def interrupt(point, deep=False):
    """KeyboardInterrupt at the `point.at`-th opportunity.

    CPython delivers signals on entry of a function and after calls into C. With `deep`
    the opportunities inside libraries called by the package count as well.
    """
    def prof(frame, event, arg):
        if event != "call" and event != "c_return":
            return
        if PKG not in frame.f_code.co_filename and not (deep and _inside(frame)):
            return
        if point.hit():
            point.where = f"{frame.f_code.co_name}:{event}:{getattr(arg, '__name__', '')}"
            sys.setprofile(None)
            raise KeyboardInterrupt()

    sys.setprofile(prof)
    try:
        yield point
    finally:
        sys.setprofile(None)


@contextlib.contextmanager
def c_memory(point):
    """MemoryError out of the `point.at`-th call into C made by the package."""
    skip = ("isinstance", "len", "getattr", "hasattr", "callable", "endswith", "dim", "size",
            "get_ident", "id", "remove", "unlink", "fspath")

    def prof(frame, event, arg):
        if event != "c_call" or PKG not in frame.f_code.co_filename:
            return
        name = getattr(arg, "__name__", "")
        if name in skip or name.startswith("__"):
            return
        if point.hit():
            point.where = f"{frame.f_code.co_name}:{name}"
            sys.setprofile(None)
            raise MemoryError()

    sys.setprofile(prof)
    try:
        yield point
    finally:
        sys.setprofile(None)


class TorchMemory(TorchFunctionMode):
    """The `point.at`-th torch operation cannot allocate its result."""

    NO_ALLOC = ("__get__", "__set__", "dim", "size", "numel", "is_floating_point", "reshape",
                "view", "unsqueeze", "squeeze", "item", "__len__", "type", "is_complex",
                "get_default_dtype", "detach", "requires_grad_", "element_size", "__format__",
                "__repr__", "stride", "is_contiguous", "data_ptr", "transpose", "__hash__")

    def __init__(self, point):
        super().__init__()
        self.point = point

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", "")
        if name not in self.NO_ALLOC and self.point.hit():
            self.point.where = f"torch:{name}"
            raise RuntimeError("[enforce fail at alloc_cpu.cpp:118] err == 0. DefaultCPUAllocator: "
                               "can't allocate memory: you tried to allocate 1234 bytes. Error code "
                               "12 (Cannot allocate memory)")
        return func(*args, **(kwargs or {}))


class BrokenOut(io.StringIO):
    """A terminal that fails at the `point.at`-th write."""

    KINDS = {
        "EPIPE": lambda: BrokenPipeError(errno.EPIPE, "Broken pipe"),
        "EIO": lambda: OSError(errno.EIO, "Input/output error"),
        "ENOSPC": lambda: OSError(errno.ENOSPC, "No space left on device"),
        "closed": lambda: ValueError("I/O operation on closed file."),
        "encoding": lambda: UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range(128)"),
    }

    def __init__(self, point, kind):
        super().__init__()
        self.point, self.kind = point, kind

    def write(self, s):
        if self.point.hit():
            self.point.where = f"stdout:{self.kind}"
            raise self.KINDS[self.kind]()
        return len(s)

    def flush(self):
        self.write("")


@contextlib.contextmanager
def terminal(point, kind):
    before = sys.stdout
    sys.stdout = BrokenOut(point, kind)
    try:
        yield point
    finally:
        sys.stdout = before


def point(kind, at, stats):
    return Injected(at, stats, kind)


@contextlib.contextmanager
def inject(kind, p):
    """Run the block under fault `kind` ('interrupt', 'c_memory', 'torch_memory', 'terminal:X', 'none')."""
    if kind == "interrupt":
        with interrupt(p):
            yield p
    elif kind == "deep_interrupt":
        with interrupt(p, deep=True):
            yield p
    elif kind == "c_memory":
        with c_memory(p):
            yield p
    elif kind == "torch_memory":
        with TorchMemory(p):
            yield p
    elif kind.startswith("terminal:"):
        with terminal(p, kind.split(":")[1]):
            yield p
    else:
        yield p


@contextlib.contextmanager
def patched(obj, name, value):
    before = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, before)
