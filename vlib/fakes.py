"""Stand-ins for array libraries that are not installed here, with the part of their interface that opt_einsum's converters
rely on: cupy (arrays that NumPy cannot see into, fetched with .get()) and theano (symbolic graphs compiled by theano.function)."""
import sys, types
import numpy as np


def _module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    return m


def cupy():
    class ndarray:
        __slots__ = ("_d", "__weakref__")

        def __init__(self, d):
            self._d = d
        shape = property(lambda s: s._d.shape)
        ndim = property(lambda s: s._d.ndim)
        dtype = property(lambda s: s._d.dtype)

        def get(self):
            return self._d.copy()

        def __array__(self, *a, **k):
            raise TypeError("Implicit conversion to a NumPy array is not allowed.")
    ndarray.__module__ = "cupy.core.core"

    def own(a):
        if not isinstance(a, ndarray):
            raise TypeError("Unsupported type %s" % type(a))
        return a._d

    def asarray(a):
        return a if isinstance(a, ndarray) else ndarray(np.array(a))

    def tensordot(a, b, axes=2):
        return ndarray(np.array(np.tensordot(own(a), own(b), axes)))

    def transpose(a, axes=None):
        return ndarray(np.array(np.transpose(own(a), axes)))

    def einsum(*ops):
        return ndarray(np.array(np.einsum(ops[0], *[own(a) for a in ops[1:]])))
    return _module("cupy", ndarray=ndarray, asarray=asarray, tensordot=tensordot, transpose=transpose, einsum=einsum)


def theano():
    class TensorVariable:
        def __init__(self, ndim, dtype, fn=None, ins=()):
            self.ndim, self.dtype, self._fn, self._ins = ndim, dtype, fn, tuple(ins)

        def _value(self, env):
            if self in env:
                return env[self]
            if self._fn is None:
                raise MissingInputError("Undeclared input")
            env[self] = r = self._fn(*[i._value(env) for i in self._ins])
            return r

        def _free(self):
            if self._fn is None:
                return {self}
            return set().union(*[i._free() for i in self._ins]) if self._ins else set()

        def eval(self):
            return np.asarray(self._value({}))

    class TensorConstant(TensorVariable):
        def __init__(self, a):
            data = np.array(a)
            TensorVariable.__init__(self, data.ndim, data.dtype, lambda: data)

    class MissingInputError(Exception):
        pass

    class UnusedInputError(Exception):
        pass

    class TensorType:
        def __init__(self, dtype, broadcastable):
            self.dtype, self.ndim = np.dtype(dtype), len(broadcastable)

        def __call__(self):
            return TensorVariable(self.ndim, self.dtype)
    for cl in (TensorVariable, TensorConstant, TensorType):
        cl.__module__ = "theano.tensor.var"

    def var(a):
        if not isinstance(a, TensorVariable):
            raise TypeError("Cannot convert %s to TensorType" % type(a))
        return a

    def tensordot(a, b, axes=2):
        a, b = var(a), var(b)
        k = axes if isinstance(axes, int) else len(axes[0])
        return TensorVariable(a.ndim + b.ndim - 2 * k, np.result_type(a.dtype, b.dtype), lambda x, y: np.tensordot(x, y, axes), (a, b))

    def transpose(x, axes=None):
        x = var(x)
        return TensorVariable(x.ndim, x.dtype, lambda v: np.transpose(v, axes), (x,))

    def function(inputs, outputs):
        inputs = list(inputs)
        if len(set(inputs)) < len(inputs):
            raise UnusedInputError("Variable is used twice in inputs to theano.function. This would result in values provided for it being ignored.")
        free = outputs._free()
        if not free <= set(inputs):
            raise MissingInputError("a variable the graph needs is not an input")
        if not set(inputs) <= free:
            raise UnusedInputError("an input is not part of the graph")

        def f(*args):
            if len(args) != len(inputs):
                raise TypeError("Missing required input")
            env = {}
            for v, a in zip(inputs, args):
                a = np.asarray(a)
                if a.ndim != v.ndim or a.dtype != v.dtype:
                    raise TypeError("Bad input argument to theano function")
                env[v] = a
            return np.asarray(outputs._value(env))
        return f
    t = _module("theano.tensor", TensorVariable=TensorVariable, TensorConstant=TensorConstant, TensorType=TensorType, constant=TensorConstant, tensordot=tensordot, transpose=transpose)
    return _module("theano", tensor=t, function=function)
