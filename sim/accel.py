"""A simulated accelerator: CPU arithmetic behind the rules of a second device.

Tensors carry the device they would live on. Operations that mix devices, and numpy views of
tensors on the accelerator, fail as they do on real hardware. Availability and the selection of
the default device follow a script, faults included. A tensor whose origin is not known (made by
functions that torch does not show to modes) goes with every device.
"""
import contextlib
import types

import torch
from torch.overrides import TorchFunctionMode
from torch.utils import _device

from . import faults

CPU, GPU = torch.device("cpu"), torch.device("cuda", 0)
MAKERS = ("tensor", "as_tensor", "asarray")
FREE = ("copy_", "__setitem__", "set_", "__repr__", "__format__", "is_same_size", "equal", "allclose", "result_type", "broadcast_tensors",
        "broadcast_shapes", "can_cast", "promote_types")


def tag(t):
    return getattr(t, "_sim_device", None)


def put(x, name):
    if torch.is_tensor(x):
        x._sim_device = name
    elif isinstance(x, (list, tuple)):
        for y in x:
            put(y, name)
    return x


def tensors(x, out):
    if torch.is_tensor(x):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            tensors(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            tensors(y, out)
    return out


def kind(d):
    return str(d).split(":")[0] if not isinstance(d, int) else "cuda"


def default():
    return kind(_device.CURRENT_DEVICE or CPU)


class Devices(TorchFunctionMode):
    """Keeps track of where tensors live."""

    def __torch_function__(self, func, types_, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        name = getattr(func, "__name__", "")
        with torch._C.DisableTorchFunction():
            return self.run(func, name, args, kwargs)

    def run(self, func, name, args, kwargs):
        found = tensors((args, kwargs), [])
        home = default()
        dev = kwargs.get("device")
        if func in _device._device_constructors() or name in MAKERS:
            where = kind(dev) if dev is not None else home
            kwargs["device"] = CPU
            res = func(*args, **kwargs)
            if any(res is t for t in found) and tag(res) not in (None, where):
                res = res.clone()
            return put(res, where)
        if name == "to":
            where, rest = None, []
            for a in args[1:]:
                if isinstance(a, (torch.device, str)):
                    where = kind(a)
                elif torch.is_tensor(a):
                    where = tag(a)
                    rest.append(a.dtype)
                else:
                    rest.append(a)
            if dev is not None:
                where = kind(kwargs["device"])
            kwargs.pop("device", None)
            where = where or tag(args[0])
            res = func(args[0], *rest, **kwargs) if rest or kwargs else args[0]
            if res is args[0] and tag(res) != where:
                res = res.clone()
            return put(res, where)
        if name in ("cpu", "cuda"):
            return args[0] if tag(args[0]) == name else put(args[0].clone(), name)
        if name == "__get__":
            res = func(*args, **kwargs)
            mine = tag(args[0]) or home
            if isinstance(res, torch.device):
                return GPU if mine == "cuda" else res if res.type != "cpu" else CPU
            if isinstance(res, bool) and getattr(func, "__self__", None) is torch.Tensor.is_cuda:
                return mine == "cuda"
            return put(res, tag(args[0])) if torch.is_tensor(res) else res
        if name in ("numpy", "__array__") and tag(args[0]) == "cuda":
            raise TypeError("can't convert cuda:0 device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first.")
        if name == "__iter__":
            return iter(put(args[0].unbind(0), tag(args[0])))
        if dev is not None:
            kwargs["device"] = CPU
        big = {tag(t) for t in found if t.dim()} - {None}
        if name == "__getitem__":
            if tag(args[0]) == "cpu" and "cuda" in big:
                raise RuntimeError("indices should be either on cpu or on the same device as the indexed tensor (cpu)")
            res = func(*args, **kwargs)
            return put(res, tag(args[0]))
        if len(big) > 1 and name not in FREE:
            raise RuntimeError(f"Expected all tensors to be on the same device, but found at least two devices, cuda:0 and cpu! ({name})")
        res = func(*args, **kwargs)
        if dev is not None:
            return put(res, kind(dev))
        if name.startswith("__set") or name == "copy_":
            return res
        small = {tag(t) for t in found if not t.dim()} - {None}
        where = next(iter(big)) if len(big) == 1 else "cuda" if "cuda" in small and not big else "cpu" if small and not big else None
        if not found:
            return res
        return put(res, where) if not any(res is t for t in found) or tag(res) is None else res


class Accelerator:
    """The driver of the accelerator and its script."""

    def __init__(self, stats):
        self.stats = stats
        self.there = [False]  # answers of the driver, the last one for good
        self.asked = 0
        self.given = None  # what it had answered when something was selected
        self.fault = None  # what the next selection meets
        self.memory = 8 << 30

    def available(self):
        v = self.there[min(self.asked, len(self.there) - 1)]
        self.asked += 1
        if v == "error":
            self.stats.fault("probe of the accelerator fails")
            raise RuntimeError("Can't initialize NVML")
        return v

    def select(self, device):
        self.given = [self.there[min(k, len(self.there) - 1)] for k in range(self.asked)]
        f, self.fault = self.fault, None
        real = self.real
        if f is None:
            return real(device)
        self.stats.fault(f"selection: {f}")
        if f == "rejected":
            raise RuntimeError("CUDA error: all CUDA-capable devices are busy or unavailable")
        if f == "rejected late":  # the old selection is gone already
            real(None)
            raise RuntimeError("CUDA driver initialization failed, you might not have a CUDA gpu.")
        if f == "interrupted early":
            raise KeyboardInterrupt()
        if f == "interrupted half":
            real(None)
            raise KeyboardInterrupt()
        real(device)
        raise KeyboardInterrupt()

    @contextlib.contextmanager
    def installed(self):
        self.real = torch.set_default_device
        real_from = torch.from_numpy
        props = types.SimpleNamespace(total_memory=self.memory, name="simulated", major=8, minor=0)
        with contextlib.ExitStack() as s:
            for obj, name, value in (
                    (torch, "set_default_device", self.select), (torch, "from_numpy", lambda a: put(real_from(a), "cpu")),
                    (torch.cuda, "is_available", self.available), (torch.cuda, "device_count", lambda: 1 if self.there[-1] is True else 0),
                    (torch.cuda, "current_device", lambda: 0), (torch.cuda, "set_device", lambda d: None),
                    (torch.cuda, "get_device_properties", lambda d=0: props), (torch.cuda, "get_device_name", lambda d=0: "simulated"),
                    (torch.cuda, "memory_allocated", lambda d=0: self.memory // 8), (torch.cuda, "memory_reserved", lambda d=0: self.memory // 4),
                    (torch.cuda, "mem_get_info", lambda d=0: (self.memory * 3 // 4, self.memory)),
                    (torch.cuda, "empty_cache", lambda: None), (torch.cuda, "synchronize", lambda d=None: None)):
                s.enter_context(faults.patched(obj, name, value))
            s.enter_context(Devices())
            try:
                yield self
            finally:
                self.fault = None
                self.real("cpu")
