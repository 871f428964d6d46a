"""helpers shared by the checks: run one spec on the implementation and on the reference."""
from __future__ import annotations

import numpy as np
import torch

from qadence import QuantumCircuit, QuantumModel
from qadence.types import Endianness

from . import ref
from .build import Builder, t2n

VALS = {"a": 0.37, "b": 1.21, "c": -0.83, "d": 2.05, "x": 0.61, "y": -1.37, "z": 0.9}
for _i, _n in enumerate(("beta", "gamma", "E", "S", "I", "N", "Q", "pi", "zeta", "lamda", "x_1",
                         "theta_0", "w0")):
    VALS[_n] = 0.3 + 0.17 * _i
BATCH = {"x": (0.61, -0.4, 1.9, 0.2, -2.3, 1.1, 2.7, -0.9), "y": (-1.37, 0.25, 0.7, 1.2, -0.2, 2.1, -0.8, 0.4),
         "z": (0.9, 0.1, -0.6, 1.4, -1.8, 0.5, 2.2, -0.3)}


def close(a, b, tol=1e-6):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    if a.size and not np.all(np.isfinite(a)):
        return "non-finite values"
    d = float(np.max(np.abs(a - b))) if a.size else 0.0
    if d > tol:
        return f"differs from the reference by {d:.3g}"
    return None


def envs(vs, batch: int, vals=None):
    """list of reference environments, and the values dict for the implementation."""
    vals = vals or VALS
    feats = sorted({n for k, n in vs if k == "f"})
    if not feats:
        batch = 0
    values = {}
    out = []
    for i in range(max(batch, 1)):
        e = dict(vals)
        for f in feats:
            e[f] = BATCH[f][i] if batch else vals[f]
        out.append(e)
    for f in feats:
        if batch:
            values[f] = torch.tensor([BATCH[f][i] for i in range(batch)], dtype=torch.float64)
        else:
            values[f] = torch.tensor(vals[f], dtype=torch.float64)
    return out, values


def model_of(spec, n, vals=None, observable=None, **kw):
    b = Builder(vals or VALS)
    c = QuantumCircuit(n, b.block(spec))
    obs = None
    if observable is not None:
        obs = [b.block(o) for o in observable]
    return QuantumModel(c, observable=obs, **kw)


def ref_states(spec, n, es, state=None):
    """(batch, 2**n) expected wavefunctions; state: (2**n,) or (batch, 2**n) or None."""
    out = []
    for i, e in enumerate(es):
        s = ref.zero_state(n) if state is None else (state if state.ndim == 1 else state[i % len(state)])
        out.append(ref.mat(spec, n, e) @ s)
    return np.array(out)


def torch_state(v):
    v = np.atleast_2d(v)
    return torch.tensor(v, dtype=torch.complex128)


__all__ = ["close", "envs", "model_of", "ref_states", "torch_state", "VALS", "BATCH", "t2n",
           "Endianness", "Builder", "ref"]


def op_by_run(block, n, values=None):
    """operator denoted by `block` on n qubits, as simulated: columns are images of basis states."""
    import qadence as Q
    eye = torch.eye(2 ** n, dtype=torch.complex128)
    got = Q.run(Q.QuantumCircuit(n, block), values=values or {}, state=eye)
    return t2n(got).T


def op_by_tensor(block, n, values=None):
    from qadence import block_to_tensor
    m = t2n(block_to_tensor(block, values or {}, qubit_support=tuple(range(n))))
    return m[0] if m.ndim == 3 and len(m) == 1 else m
