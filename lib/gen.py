"""Exhaustive enumeration of programs over small alphabets (simplest first)."""
from __future__ import annotations

from itertools import permutations, product

F1 = ("I", "X", "Y", "Z", "H", "S", "SDagger", "T", "TDagger", "N")
R1 = ("RX", "RY", "RZ", "PHASE")
A, B, G = 0.37, 1.21, 2.05


def ones(n, names=F1):
    return [(g, (q,)) for g in names for q in range(n)]


def rots(n, e=A, names=R1):
    return [(g, (q,), e) for g in names for q in range(n)]


def us(n, e=(0.3, 0.7, 1.1)):
    return [("U", (q,), *e) for q in range(n)]


def twos(n, e=A):
    out = []
    for s in permutations(range(n), 2):
        out += [("CNOT", s), ("CZ", s), ("SWAP", s)]
        out += [(g, s, e) for g in ("CRX", "CRY", "CRZ", "CPHASE")]
    return out


def multis(n, e=A):
    out = []
    for k in range(3, min(n, 4) + 1):
        for s in permutations(range(n), k):
            out += [("Toffoli", s), ("MCZ", s)]
            out += [(g, s, e) for g in ("MCRX", "MCRY", "MCRZ", "MCPHASE")]
            if k == 3:
                out.append(("CSWAP", s))
    return out


def gates(n, e=A):
    return ones(n) + rots(n, e) + us(n) + twos(n, e) + multis(n, e)


def unitary_gates(n, e=A):
    return [g for g in gates(n, e) if g[0] not in ("N", "Zero")]


def paulis(n):
    return ones(n, ("I", "X", "Y", "Z", "N"))


def subst(spec, fn):
    """rewrite numeric parameters of a spec with fn(position, value) -> expression."""
    cnt = [0]

    def go(s):
        k = s[0]
        if k in ("chain", "kron", "add"):
            return (k,) + tuple(go(b) for b in s[1:])
        if k == "scale":
            return (k, s[1], go(s[2]))
        if k == "HamEvo":
            return (k, go(s[1]), s[2])
        if len(s) > 2 and k not in ("Proj", "Mat", "HamMat"):
            r = []
            for v in s[2:]:
                r.append(fn(cnt[0], v))
                cnt[0] += 1
            return (k, s[1]) + tuple(r)
        return s

    return go(spec)


def seqs(alphabet, depth):
    return product(alphabet, repeat=depth)
