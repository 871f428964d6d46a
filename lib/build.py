"""spec -> objects of the code under test (public API only)."""
from __future__ import annotations

import torch
import sympy

import qadence as Q
from qadence import blocks as QB  # noqa: F401
from qadence.blocks import MatrixBlock
from qadence.operations import (  # noqa: F401
    CNOT, CPHASE, CRX, CRY, CRZ, CSWAP, CZ, H, HamEvo, I, MCPHASE, MCRX, MCRY, MCRZ, MCZ, N,
    PHASE, RX, RY, RZ, S, SDagger, SWAP, T, TDagger, Toffoli, U, X, Y, Z, Zero, Projector)
from qadence.parameters import FeatureParameter, VariationalParameter

from . import ref

G1 = {"I": I, "X": X, "Y": Y, "Z": Z, "H": H, "S": S, "SDagger": SDagger, "T": T,
      "TDagger": TDagger, "N": N, "Zero": Zero}
P1 = {"RX": RX, "RY": RY, "RZ": RZ, "PHASE": PHASE, "U": U}
C2 = {"CRX": CRX, "CRY": CRY, "CRZ": CRZ, "CPHASE": CPHASE}
CM = {"MCRX": MCRX, "MCRY": MCRY, "MCRZ": MCRZ, "MCPHASE": MCPHASE}

_SF = {"sin": sympy.sin, "cos": sympy.cos, "exp": sympy.exp, "sqrt": sympy.sqrt,
       "acos": sympy.acos, "tan": sympy.tan, "abs": sympy.Abs}


class Builder:
    """one Builder = one set of parameter objects; values = initial values of variationals."""

    def __init__(self, values: dict | None = None, share: bool = True):
        self.values = values or {}
        self.share = share
        self.cache: dict = {}

    def var(self, kind: str, name: str):
        key = (kind, name)
        if self.share and key in self.cache:
            return self.cache[key]
        if kind == "v":
            p = VariationalParameter(name, value=float(self.values.get(name, 0.5)))
        else:
            p = FeatureParameter(name)
        self.cache[key] = p
        return p

    def expr(self, e):
        if not isinstance(e, tuple):
            return e
        k = e[0]
        if k in ("v", "f"):
            return self.var(k, e[1])
        a = [self.expr(x) for x in e[1:]]
        if k == "add":
            return a[0] + a[1]
        if k == "sub":
            return a[0] - a[1]
        if k == "mul":
            return a[0] * a[1]
        if k == "div":
            return a[0] / a[1]
        if k == "pow":
            return a[0] ** a[1]
        if k == "neg":
            return -a[0]
        return _SF[k](a[0])

    def block(self, spec):
        k = spec[0]
        if k == "chain":
            return Q.chain(*[self.block(b) for b in spec[1:]])
        if k == "kron":
            return Q.kron(*[self.block(b) for b in spec[1:]])
        if k == "add":
            return Q.add(*[self.block(b) for b in spec[1:]])
        if k == "scale":
            return self.expr(spec[1]) * self.block(spec[2])
        if k == "pow":
            return self.block(spec[1]) ** spec[2]
        if k == "HamEvo":
            return HamEvo(self.block(spec[1]), self.expr(spec[2]))
        if k == "HamMat":
            return HamEvo(torch.tensor(ref.MATS[spec[1]]), self.expr(spec[3]),
                          qubit_support=tuple(spec[2]))
        if k == "Zero":
            return Zero()
        if k == "N0":
            return N(spec[1][0], state="0")
        if k in G1:
            return G1[k](spec[1][0])
        if k in P1:
            return P1[k](spec[1][0], *[self.expr(e) for e in spec[2:]])
        s = spec[1]
        if k == "SWAP":
            return SWAP(*s)
        if k == "CNOT":
            return CNOT(*s)
        if k == "CZ":
            return CZ(*s)
        if k == "MCZ":
            return MCZ(tuple(s[:-1]), s[-1])
        if k == "Toffoli":
            return Toffoli(tuple(s[:-1]), s[-1])
        if k in C2:
            return C2[k](s[0], s[1], self.expr(spec[2]))
        if k in CM:
            return CM[k](tuple(s[:-1]), s[-1], self.expr(spec[2]))
        if k == "CSWAP":
            c = tuple(s[:-2])
            return CSWAP(c if len(c) > 1 else c[0], s[-2], s[-1])
        if k == "Proj":
            return Projector(spec[2], spec[3], tuple(s) if len(s) > 1 else s[0])
        if k == "Mat":
            return MatrixBlock(torch.tensor(ref.MATS[spec[2]]), tuple(s))
        raise KeyError(k)


def block(spec, values=None):
    return Builder(values).block(spec)


def t2n(t):
    return t.detach().cpu().resolve_conj().numpy()
