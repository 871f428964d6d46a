"""Reference semantics: plain numpy, no import of the code under test.

Circuits / operators are *specs*: nested tuples of plain data.
  ("X",(q,)) ... fixed gates          ("RX",(q,),e) parametric gates
  ("U",(q,),e1,e2,e3)                 ("CNOT",(c,t)) ("CZ",(c,t)) ("SWAP",(a,b))
  ("CRX",(c,t),e) ("MCRX",(c..,t),e) ("MCZ",(c..,t)) ("Toffoli",(c..,t)) ("CSWAP",(c..,t1,t2))
  ("N",(q,)) ("Zero",(q,)) ("Proj",(q..),ket,bra) ("Mat",(q..),key)
  ("chain",s1,s2,..) ("kron",...) ("add",...) ("scale",e,s) ("HamEvo",gen,e) ("pow", s, k)
Parameter expressions e: number | ("v",name) | ("f",name) | (op, e1, e2..) op in
  add sub mul div pow sin cos exp sqrt neg ...
Qubit 0 is the most significant bit (big endian).
"""
from __future__ import annotations

import cmath
import math
from functools import reduce

import numpy as np

C = np.complex128
I2 = np.eye(2, dtype=C)
X = np.array([[0, 1], [1, 0]], dtype=C)
Y = np.array([[0, -1j], [1j, 0]], dtype=C)
Z = np.array([[1, 0], [0, -1]], dtype=C)
N = np.array([[0, 0], [0, 1]], dtype=C)
S = np.diag([1, 1j]).astype(C)
T = np.diag([1, cmath.exp(1j * math.pi / 4)]).astype(C)
H = np.array([[1, 1], [1, -1]], dtype=C) / math.sqrt(2)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=C)
ZERO = np.zeros((2, 2), dtype=C)

FIXED1 = {
    "I": I2, "X": X, "Y": Y, "Z": Z, "H": H, "S": S, "SDagger": S.conj().T,
    "T": T, "TDagger": T.conj().T, "N": N, "Zero": ZERO, "N0": np.diag([1, 0]).astype(C),
}

# named matrices for ("Mat", support, key)
_rng = np.random.RandomState(7)


def _unitary(d: int, seed: int) -> np.ndarray:
    r = np.random.RandomState(seed)
    q, _ = np.linalg.qr(r.randn(d, d) + 1j * r.randn(d, d))
    return q.astype(C)


def _herm(d: int, seed: int) -> np.ndarray:
    r = np.random.RandomState(seed)
    m = r.randn(d, d) + 1j * r.randn(d, d)
    return ((m + m.conj().T) / 2).astype(C)


MATS = {
    "u1": _unitary(2, 11), "u2": _unitary(4, 12), "u3": _unitary(8, 13),
    "h1": _herm(2, 21), "h2": _herm(4, 22), "h3": _herm(8, 23),
}


def is_var(e) -> bool:
    return isinstance(e, tuple) and e and e[0] in ("v", "f")


_FUN = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "div": lambda a, b: a / b, "pow": lambda a, b: a ** b, "neg": lambda a: -a,
    "sin": cmath.sin, "cos": cmath.cos, "exp": cmath.exp, "sqrt": cmath.sqrt,
    "acos": cmath.acos, "tan": cmath.tan, "abs": abs,
}


def ev(e, env: dict):
    """value of a parameter expression (python number; real when real)."""
    if isinstance(e, tuple):
        if e[0] in ("v", "f"):
            return env[e[1]]
        r = _FUN[e[0]](*(ev(a, env) for a in e[1:]))
        if isinstance(r, complex) and abs(r.imag) < 1e-15:
            return r.real
        return r
    return e


def evars(e) -> set:
    if isinstance(e, tuple):
        if e[0] in ("v", "f"):
            return {e}
        out = set()
        for a in e[1:]:
            out |= evars(a)
        return out
    return set()


def expm_h(h: np.ndarray, t) -> np.ndarray:
    """exp(-i h t), general matrix (scipy), fast path for hermitian."""
    if np.allclose(h, h.conj().T, atol=1e-14) and not isinstance(t, complex):
        w, v = np.linalg.eigh(h)
        return (v * np.exp(-1j * w * t)) @ v.conj().T
    from scipy.linalg import expm
    return expm(-1j * h * t)


def rot(p: np.ndarray, th) -> np.ndarray:
    return cmath.cos(th / 2) * I2 - 1j * cmath.sin(th / 2) * p


def param1(name: str, vals) -> np.ndarray:
    if name == "RX":
        return rot(X, vals[0])
    if name == "RY":
        return rot(Y, vals[0])
    if name == "RZ":
        return rot(Z, vals[0])
    if name == "PHASE":
        return np.diag([1, cmath.exp(1j * vals[0])]).astype(C)
    if name == "U":
        phi, theta, omega = vals
        return rot(Z, omega) @ rot(Y, theta) @ rot(Z, phi)
    raise KeyError(name)


PARAM1 = ("RX", "RY", "RZ", "PHASE", "U")
CTRL_FIXED = {"CNOT": X, "CZ": Z, "MCZ": Z, "Toffoli": X}
CTRL_PARAM = {"CRX": "RX", "CRY": "RY", "CRZ": "RZ", "CPHASE": "PHASE",
              "MCRX": "RX", "MCRY": "RY", "MCRZ": "RZ", "MCPHASE": "PHASE"}


def controlled(u: np.ndarray, nc: int) -> np.ndarray:
    d = u.shape[0]
    full = np.eye((2 ** nc) * d, dtype=C)
    full[-d:, -d:] = u
    return full


def embed(m: np.ndarray, support, n: int) -> np.ndarray:
    """place m (first support entry = most significant) on `support` of n qubits."""
    k = len(support)
    dim = 2 ** n
    if tuple(support) == tuple(range(n)):
        return m.astype(C)
    t = m.reshape((2,) * (2 * k))
    full = np.zeros((dim, dim), dtype=C)
    rest = [q for q in range(n) if q not in support]
    # build by tensor: eye on rest (x) m on support, then permute
    big = np.kron(m, np.eye(2 ** len(rest), dtype=C)).reshape((2,) * (2 * n))
    order = list(support) + rest  # axis i of big corresponds to qubit order[i]
    perm = [order.index(q) for q in range(n)]
    big = big.transpose(perm + [n + p for p in perm])
    full = big.reshape(dim, dim)
    del t
    return full


def local(spec, env):
    """(matrix, support) of a primitive spec."""
    k = spec[0]
    if k in FIXED1:
        return FIXED1[k], spec[1]
    if k in PARAM1:
        return param1(k, [ev(e, env) for e in spec[2:]]), spec[1]
    if k == "SWAP":
        return SWAP, spec[1]
    if k in CTRL_FIXED:
        return controlled(CTRL_FIXED[k], len(spec[1]) - 1), spec[1]
    if k in CTRL_PARAM:
        return controlled(param1(CTRL_PARAM[k], [ev(spec[2], env)]), len(spec[1]) - 1), spec[1]
    if k == "CSWAP":
        return controlled(SWAP, len(spec[1]) - 2), spec[1]
    if k == "Proj":
        ket, bra = spec[2], spec[3]
        d = 2 ** len(spec[1])
        m = np.zeros((d, d), dtype=C)
        m[int(ket, 2), int(bra, 2)] = 1
        return m, spec[1]
    if k == "Mat":
        return MATS[spec[2]], spec[1]
    return None


COMPOSITE = ("chain", "kron", "add")


def support(spec) -> tuple:
    k = spec[0]
    if k in COMPOSITE:
        s = set()
        for b in spec[1:]:
            s |= set(support(b))
        return tuple(sorted(s))
    if k == "scale":
        return support(spec[2])
    if k == "pow":
        return support(spec[1])
    if k == "HamEvo":
        return support(spec[1])
    if k == "HamMat":
        return tuple(spec[2])
    if k == "wait" or k.startswith("Analog"):
        return spec[1]
    return tuple(spec[1])


def mat(spec, n: int, env: dict | None = None) -> np.ndarray:
    """full matrix on n qubits."""
    env = env or {}
    k = spec[0]
    if k in ("chain", "kron"):
        m = np.eye(2 ** n, dtype=C)
        for b in spec[1:]:
            m = mat(b, n, env) @ m
        return m
    if k == "add":
        return sum((mat(b, n, env) for b in spec[1:]), np.zeros((2 ** n, 2 ** n), dtype=C))
    if k == "scale":
        return ev(spec[1], env) * mat(spec[2], n, env)
    if k == "pow":
        return np.linalg.matrix_power(mat(spec[1], n, env), spec[2])
    if k == "HamEvo":
        return expm_h(mat(spec[1], n, env), ev(spec[2], env))
    if k == "HamMat":  # evolution under an explicit matrix
        return embed(expm_h(MATS[spec[1]], ev(spec[3], env)), spec[2], n)
    m, s = local(spec, env)
    return embed(m, s, n)


def zero_state(n: int) -> np.ndarray:
    v = np.zeros(2 ** n, dtype=C)
    v[0] = 1
    return v


def product(bits: str) -> np.ndarray:
    v = np.zeros(2 ** len(bits), dtype=C)
    v[int(bits, 2)] = 1
    return v


def rand_state(n: int, seed: int) -> np.ndarray:
    r = np.random.RandomState(1000 + seed)
    v = r.randn(2 ** n) + 1j * r.randn(2 ** n)
    return v / np.linalg.norm(v)


def bitrev_vec(v: np.ndarray) -> np.ndarray:
    n = int(round(math.log2(v.shape[-1])))
    idx = [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(2 ** n)]
    return v[..., idx]


def bitrev_mat(m: np.ndarray) -> np.ndarray:
    n = int(round(math.log2(m.shape[-1])))
    idx = [int(format(i, f"0{n}b")[::-1], 2) for i in range(2 ** n)]
    return m[..., idx, :][..., :, idx]


def variables(spec) -> set:
    """set of ("v"/"f", name) leaves in a spec."""
    k = spec[0]
    if k in COMPOSITE:
        out = set()
        for b in spec[1:]:
            out |= variables(b)
        return out
    if k == "scale":
        return evars(spec[1]) | variables(spec[2])
    if k == "pow":
        return variables(spec[1])
    if k == "HamEvo":
        return variables(spec[1]) | evars(spec[2])
    if k == "HamMat":
        return evars(spec[3])
    out = set()
    for e in spec[2:]:
        out |= evars(e)
    return out


# ---------------------------------------------------------------- channels
def kraus(name: str, p) -> list[np.ndarray]:
    if name == "Bitflip":
        return [math.sqrt(1 - p) * I2, math.sqrt(p) * X]
    if name == "Phaseflip":
        return [math.sqrt(1 - p) * I2, math.sqrt(p) * Z]
    if name == "Depolarizing":
        return [math.sqrt(1 - p) * I2] + [math.sqrt(p / 3) * g for g in (X, Y, Z)]
    if name == "PauliChannel":
        px, py, pz = p
        return [math.sqrt(1 - px - py - pz) * I2, math.sqrt(px) * X, math.sqrt(py) * Y,
                math.sqrt(pz) * Z]
    if name == "AmplitudeDamping":
        return [np.array([[1, 0], [0, math.sqrt(1 - p)]], dtype=C),
                np.array([[0, math.sqrt(p)], [0, 0]], dtype=C)]
    if name == "PhaseDamping":
        return [np.array([[1, 0], [0, math.sqrt(1 - p)]], dtype=C),
                np.array([[0, 0], [0, math.sqrt(p)]], dtype=C)]
    if name == "GeneralizedAmplitudeDamping":
        pr, rate = p
        return [
            math.sqrt(pr) * np.array([[1, 0], [0, math.sqrt(1 - rate)]], dtype=C),
            math.sqrt(pr) * np.array([[0, math.sqrt(rate)], [0, 0]], dtype=C),
            math.sqrt(1 - pr) * np.array([[math.sqrt(1 - rate), 0], [0, 1]], dtype=C),
            math.sqrt(1 - pr) * np.array([[0, 0], [math.sqrt(rate), 0]], dtype=C),
        ]
    raise KeyError(name)


def apply_channel(rho: np.ndarray, ks, q: int, n: int) -> np.ndarray:
    out = np.zeros_like(rho)
    for k in ks:
        f = embed(k, (q,), n)
        out = out + f @ rho @ f.conj().T
    return out


def expval(v: np.ndarray, o: np.ndarray):
    if v.ndim == 1:
        return v.conj() @ o @ v
    return np.trace(o @ v)


def kron_all(ms):
    return reduce(np.kron, ms)
