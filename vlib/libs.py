"""Array libraries as test subjects: conversion to native arrays and back to NumPy."""
import numpy as np


def load(names):
    out = {}
    for n in names:
        if n == "torch":
            import torch
            torch.set_num_threads(1)
            out[n] = (lambda a: torch.from_numpy(np.array(a)), lambda r: r.numpy())
        elif n == "tensorflow":
            import tensorflow as tf
            tf.config.threading.set_intra_op_parallelism_threads(1)
            tf.config.threading.set_inter_op_parallelism_threads(1)
            out[n] = (lambda a: tf.convert_to_tensor(a), lambda r: r.numpy())
        elif n == "jax":
            import jax
            jax.config.update("jax_enable_x64", True)
            import jax.numpy as jnp
            out[n] = (lambda a: jnp.asarray(a), lambda r: np.asarray(r))
        elif n == "dask":
            import dask.array as da
            out[n] = (lambda a: da.from_array(np.array(a), chunks=-1 if a.size == 0 else 2), lambda r: np.asarray(r))
        elif n == "sparse":
            import sparse
            out[n] = (lambda a: sparse.COO.from_numpy(np.asarray(a)), lambda r: r.todense() if hasattr(r, "todense") else np.asarray(r))
        elif n == "autograd":
            out[n] = (lambda a: a, lambda r: np.asarray(r))
        elif n == "numpy":
            out[n] = (lambda a: a, lambda r: np.asarray(r))
    return out


def typename(r):
    return type(r).__module__.split(".")[0] + "." + type(r).__name__
