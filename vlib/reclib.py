"""A small array library, installed as module `reclib`, that records every operation it performs and can be gated.

opt_einsum sees it as any other library: arrays are of class reclib.Arr, functions are reclib.tensordot, transpose, einsum.
Every array has a serial number; every executed operation is logged with the serials of its operands and of its result.
`install(names=...)` makes further libraries (e.g. one without einsum) under other module names.
"""
import sys, threading, types
import numpy as np


class Gate:
    """what happens around an operation; the default does nothing"""
    def begin(self, op):
        pass

    def end(self, op):
        pass


class Lib:
    def __init__(self, name, funcs=("tensordot", "transpose", "einsum"), like=None, cls_module=None, lenient=False):
        """like: another Lib whose array class this one works on"""
        self.name = name
        self.log = []
        self.serial = 100
        self.gate = Gate()
        lib = self

        class Arr:
            __slots__ = ("a", "serial", "__weakref__")
            __array_ufunc__ = None

            def __init__(self, a, serial=None):
                self.a = np.asarray(a)
                if serial is None:
                    lib.serial += 1
                    serial = lib.serial
                self.serial = serial

            shape = property(lambda s: s.a.shape)
            ndim = property(lambda s: s.a.ndim)
            dtype = property(lambda s: s.a.dtype)

            def transpose(self, axes):
                return lib.do("transpose", {"axes": [int(x) for x in axes], "method": True}, (self,), lambda: self.a.transpose(axes))

            if lenient:              # NumPy can take them as well
                def __array__(self, dtype=None, copy=None):
                    return np.array(self.a, dtype=dtype)

            def __setitem__(self, where, what):
                self.a[where] = getattr(what, "a", what)
                if isinstance(what, Arr) and what.a.shape == self.a.shape:
                    self.serial = what.serial            # holds that result now

            def __repr__(self):
                return "Arr(%d)" % self.serial
        self.lenient = lenient
        Arr.__module__ = cls_module or name
        Arr.__qualname__ = "Arr"
        self.Arr = Arr = like.Arr if like else Arr
        m = types.ModuleType(name)
        m.Arr = Arr
        if "tensordot" in funcs:
            def tensordot(x, y, axes=2):
                if isinstance(axes, int):
                    axes = (list(range(x.ndim - axes, x.ndim)), list(range(axes)))
                ax = [[int(i) for i in axes[0]], [int(i) for i in axes[1]]]
                return lib.do("tensordot", {"l": ax[0], "r": ax[1]}, (x, y), lambda: np.tensordot(x.a, y.a, axes=ax))
            m.tensordot = tensordot
        if "transpose" in funcs:
            def transpose(x, axes):
                return lib.do("transpose", {"axes": [int(i) for i in axes]}, (x,), lambda: np.transpose(x.a, axes))
            m.transpose = transpose
        if "einsum" in funcs:
            def einsum(eq, *ops, **kw):
                lhs, out = eq.split("->")
                ins = lhs.split(",")
                names = {}
                num = lambda s: [names.setdefault(ch, len(names) + 1) for ch in s]
                spec = {"ins": [num(t) for t in ins], "out": num(out)}
                if kw:
                    spec["kw"] = sorted(kw)
                return lib.do("einsum", spec, ops, lambda: np.einsum(eq, *[o.a for o in ops], **kw))
            m.einsum = einsum
        sys.modules[name] = m
        self.module = m

    def do(self, kind, spec, ops, fn):
        for o in ops:
            if not (hasattr(o, "serial") if self.lenient else isinstance(o, self.Arr)):
                raise TypeError("%s got %r" % (kind, type(o)))
        op = {"kind": kind, "args": [o.serial for o in ops], "spec": spec, "thread": threading.get_ident(), "res": None}
        self.log.append(op)
        self.gate.begin(op)
        r = self.Arr(fn())
        op["res"] = r.serial
        self.gate.end(op)
        return r

    def array(self, a):
        return self.Arr(a)
