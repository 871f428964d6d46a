"""P12: states, bit-order conversions and density-matrix utilities match their definitions."""
from collections import Counter
from itertools import permutations, product, combinations

from lib.harness import Check, guard_main, THOROUGH
from lib import ref

NMAX = 6 if THOROUGH else 5


def make():
    import numpy as np
    import random
    import torch
    import qadence as Q
    from qadence import states as S
    from qadence import utils as U
    from qadence.transpile import invert_endianness
    from qadence.types import Endianness, ResultType
    from scipy.linalg import sqrtm
    from lib.common import close, t2n

    BIG, LIT = Endianness.BIG, Endianness.LITTLE
    END = {"big": BIG, "little": LIT}

    def rev(n):
        return [int(format(i, f"0{n}b")[::-1], 2) for i in range(2 ** n)]

    # ------------------------------------------------------------------ integers and bit strings
    def conv(case, out):
        n, k = case
        b = format(k, f"0{n}b")
        out.feed(n, k)
        for e, want in ((BIG, b), (LIT, b[::-1])):
            out.step(4)
            got = U.int_to_basis(k, n, e)
            if got != want:
                return f"int_to_basis({k},{n},{e}) = {got}"
            if U.basis_to_int(want, e) != k:
                return f"basis_to_int({want},{e}) = {U.basis_to_int(want, e)}"
            if U.samples_to_integers(Counter({want: 3}), e) != Counter({k: 3}):
                return "samples_to_integers"
        if U.int_to_basis(k, n) != b or U.basis_to_int(b) != k or U.samples_to_integers(Counter({b: 2})) != Counter({k: 2}):
            return "default endianness is not big"
        if k > 0 or n == 1:
            w = U.int_to_basis(k)
            if w != (format(k, "b")):
                return f"int_to_basis({k}) = {w}"

    def wide(case, out):
        k, = case
        out.feed(k)
        if U.int_to_basis(k) != format(k, "b") or U.int_to_basis(k, endianness=LIT) != format(k, "b")[::-1]:
            return f"int_to_basis({k}) = {U.int_to_basis(k)}"
        if U.basis_to_int(U.int_to_basis(k)) != k:
            return "not inverse"

    def toolarge(case, out):
        k, n, e = case
        try:
            r = U.int_to_basis(k, n, END[e])
        except Exception:  # noqa: BLE001
            return None
        return f"int_to_basis({k}, {n}) = {r}"

    def basis(case, out):
        n, rt, e = case
        r = U.nqubits_to_basis(n, getattr(ResultType, rt), END[e])
        ws = [format(k, f"0{n}b") for k in range(2 ** n)]
        if e == "little":
            ws = [w[::-1] for w in ws]
        out.step(len(ws))
        out.feed(n, rt, e)
        if rt == "STRING":
            return None if list(r) == ws else f"{r}"
        if (rt == "TORCH") != isinstance(r, torch.Tensor):
            return f"type {type(r)}"
        r = t2n(r) if rt == "TORCH" else np.asarray(r)
        return close(r.astype(float), np.array([[int(c) for c in w] for w in ws], dtype=float))

    def counts(case, out):
        n, sub = case
        c = Counter({format(k, f"0{n}b"): i + 1 for i, k in enumerate(sub)})
        before = dict(c)
        r = invert_endianness(c)
        out.feed(n, sub)
        if dict(r) != {k[::-1]: v for k, v in c.items()} or not isinstance(r, Counter):
            return f"{dict(c)} becomes {dict(r)}"
        if dict(invert_endianness(r)) != before or dict(c) != before:
            return "not an involution"
        l = invert_endianness([c, r])
        if [dict(x) for x in l] != [dict(r), dict(c)]:
            return "list of counters"
        if sum(U.samples_to_integers(c).values()) != sum(c.values()) or U.samples_to_integers(c) != U.samples_to_integers(r, LIT):
            return "integer counts"

    def vecs(case, out):
        n, b, typ = case
        v = np.array([ref.rand_state(n, i) for i in range(b)])
        x = torch.tensor(v) if typ == "torch" else v.copy()
        if typ == "real":
            v = v.real.copy()
            x = torch.tensor(v)
        r = invert_endianness(x)
        out.step()
        if isinstance(r, torch.Tensor) != isinstance(x, torch.Tensor):
            return f"type {type(r)}"
        r2 = invert_endianness(r)
        g, g2 = (t2n(r), t2n(r2)) if isinstance(r, torch.Tensor) else (r, r2)
        out.feed(g)
        return close(g, v[:, rev(n)], 1e-12) or close(g2, v, 1e-12) or close(t2n(x) if typ != "numpy" else x, v, 0)

    # ------------------------------------------------------------------ constructors
    def named(case, out):
        kind, n, b = case
        want = np.zeros((b, 2 ** n), dtype=complex)
        if kind == "zero":
            got = S.zero_state(n, b)
            want[:, 0] = 1
        elif kind == "one":
            got = S.one_state(n, b)
            want[:, -1] = 1
        elif kind == "uniform":
            got = S.uniform_state(n, b)
            want[:] = 2 ** (-n / 2)
        else:
            got = S.ghz_state(n, b)
            want[:, 0] = want[:, -1] = 2 ** -0.5
        out.step()
        out.feed(kind, got)
        if got.dtype != torch.complex128:
            return f"dtype {got.dtype}"
        r = close(t2n(got), want, 1e-12)
        if r:
            return r
        if b == 1:
            blk = {"zero": S.zero_block, "one": S.one_block, "uniform": S.uniform_block, "ghz": S.ghz_block}[kind](n)
            out.step()
            return close(t2n(Q.run(n, blk)), want, 1e-9) or close(t2n(Q.run(blk)), want, 1e-9)
        d = {"zero": S.zero_state, "one": S.one_state, "uniform": S.uniform_state, "ghz": S.ghz_state}[kind](n)
        return close(t2n(d), want[:1], 1e-12)

    def prods(case, out):
        bits, e = case
        n = len(bits)
        want = ref.product(bits if e == "big" else bits[::-1])[None]
        got = S.product_state(bits, endianness=END[e])
        out.step(3)
        out.feed(got)
        r = close(t2n(got), want, 1e-12)
        if r:
            return r
        if e == "big":
            blk = S.product_block(bits)
            return close(t2n(S.product_state(bits)), want, 1e-12) or close(t2n(Q.run(blk)), want, 1e-12) or \
                close(t2n(Q.run(n + 1, blk)), np.kron(want, [[1, 0]]), 1e-12)

    def plist(case, out):
        got = S.product_state(list(case))
        out.feed(got)
        return close(t2n(got), np.array([ref.product(b) for b in case]), 1e-12)

    def jaxs(case, out):
        bits, = case
        got = np.asarray(S.product_state(bits, backend="horqrux")).reshape(-1)
        out.feed(got)
        return close(got, ref.product(bits), 1e-6)

    def rands(case, out):
        """every sequence of the random source: the named random states are what they say."""
        kind, n, seq = case
        if kind == "bitstring":
            it = iter(seq)
            old = random.randint
            random.randint = lambda a, b: a + next(it)
            try:
                s = S.rand_bitstring(n)
            except StopIteration:
                return "draws more than one random bit per position"
            finally:
                random.randint = old
            out.feed(s)
            if len(s) != n or set(s) - set("01"):
                return f"rand_bitstring({n}) = {s!r}"
            used = next(it, None) is None and n > 0
            if used and s != "".join(map(str, seq)) and s != "".join(map(str, seq))[::-1]:
                return f"random bits {seq} give {s}"
            blk = None
            it = iter(seq)
            random.randint = lambda a, b: a + next(it)
            try:
                blk = S.rand_product_block(n)
            finally:
                random.randint = old
            v = t2n(Q.run(n, blk))
            if not (np.isclose(np.abs(v).max(), 1) and np.isclose(np.abs(v).sum(), 1)):
                return "rand_product_block does not prepare a basis state"
            return None
        old = torch.randint
        called = []

        def ri(lo, hi, size, **kw):
            called.append((lo, hi, tuple(size)))
            return torch.tensor(seq).reshape(size)
        torch.randint = ri
        try:
            s = S.rand_product_state(n, len(seq))
        finally:
            torch.randint = old
        out.feed(s)
        g = t2n(s)
        if g.shape != (len(seq), 2 ** n):
            return f"shape {g.shape}"
        if called and called[0][:2] != (0, 2 ** n):
            return f"positions drawn from {called[0]}"
        if called:
            w = np.zeros_like(g)
            w[range(len(seq)), list(seq)] = 1
            return close(g, w, 1e-12)
        return None if np.allclose(np.sort(np.abs(g), 1)[:, -1], 1) and np.allclose(np.abs(g).sum(1), 1) else "not a basis state"

    def haar(case, out):
        typ, n, b, seed = case
        torch.manual_seed(seed)
        random.seed(seed)
        s = S.random_state(n, batch_size=b, type=typ)
        g = t2n(s)
        out.feed(g)
        if g.shape != (b, 2 ** n):
            return f"shape {g.shape}"
        if not np.allclose((np.abs(g) ** 2).sum(1), 1, atol=1e-10):
            return "not normalised"
        if b > 1 and np.allclose(g[0], g[1]):
            return "batch elements repeat each other"

    # ------------------------------------------------------------------ utilities
    def psi(n, i):
        return ref.rand_state(n, i)

    STS = {"z": lambda n: ref.zero_state(n), "a": lambda n: psi(n, 1), "b": lambda n: psi(n, 2),
           "ia": lambda n: 1j * psi(n, 1), "u": lambda n: np.ones(2 ** n) / 2 ** (n / 2), "one": lambda n: ref.product("1" * n)}

    def norm(case, out):
        k, n, scale, shape = case
        v = STS[k](n) * scale
        x = torch.tensor(v, dtype=torch.complex128)
        if shape == "batch":
            x = torch.stack([x, 2 * x, torch.tensor(STS["b"](n)) * 3j])
            want = np.stack([STS[k](n) * scale / abs(scale)] * 2 + [STS["b"](n) * 1j])
        elif shape == "row":
            x = x[None]
            want = (STS[k](n) * scale / abs(scale))[None]
        else:
            want = STS[k](n) * scale / abs(scale)
        x0 = x.clone()
        r = S.normalize(x)
        out.feed(r)
        out.step(3)
        if not torch.equal(x, x0):
            return "input changed"
        isn = S.is_normalized(x)
        true = bool(np.allclose((np.abs(np.atleast_2d(t2n(x))) ** 2).sum(1), 1, rtol=0, atol=1e-14))
        near = bool(np.allclose((np.abs(np.atleast_2d(t2n(x))) ** 2).sum(1), 1, rtol=0, atol=1e-12))
        if isn and not near or (true and not isn and not near):
            return f"is_normalized says {isn}"
        if not S.is_normalized(r, atol=1e-12):
            return "normalised state is not normalised"
        if not true and abs(abs(scale) - 1) < 0.3 and not S.is_normalized(x, atol=20.0):
            return "tolerance ignored"
        p = S.pmf(x).probs
        w = np.abs(np.atleast_2d(want)) ** 2
        return close(t2n(r), want, 1e-12) or close(np.atleast_2d(t2n(p)), w / w.sum(1, keepdims=True), 1e-10)

    def ovl(case, out):
        a, b, n = case
        x, y = ([torch.tensor(np.array([STS[k](n) for k in ks]), dtype=torch.complex128) for ks in (a, b)])
        want = np.array([abs(np.vdot(STS[p](n), STS[q](n))) ** 2 for p, q in zip(a * (len(b) if len(a) == 1 else 1), b * (len(a) if len(b) == 1 else 1))])
        got = S.overlap(x, y)
        from qadence.overlap import overlap_exact, fidelity
        out.feed(got)
        out.step(4)
        r = close(t2n(got), want, 1e-12) or close(t2n(overlap_exact(x, y)), want, 1e-12) or close(t2n(fidelity(x, y)), want, 1e-12)
        if r:
            return r
        eq = bool(np.allclose(want, 1, rtol=0, atol=1e-14))
        if S.equivalent_state(x, y) and not np.allclose(want, 1, rtol=0, atol=1e-12):
            return "different states called equivalent"
        if eq and not S.equivalent_state(x, y, atol=1e-12):
            return "equal states told apart"

    def dms(n):
        p = [STS[k](n) for k in ("z", "a", "b", "u", "one")]
        P = [np.outer(v, v.conj()) for v in p]
        d = 2 ** n
        return {"pure": P[1], "pure2": P[2], "zero": P[0], "mixed": np.eye(d) / d, "half": 0.5 * P[1] + 0.5 * P[2],
                "three": 0.2 * P[0] + 0.3 * P[1] + 0.5 * P[3], "diag": np.diag(np.arange(1, d + 1) / (d * (d + 1) / 2)).astype(complex),
                "deg": 0.5 * P[0] + 0.5 * P[4]}

    def T(ms):
        return S.DensityMatrix(torch.tensor(np.array(ms), dtype=torch.complex128))

    def ent(case, out):
        n, ks = case
        ms = [dms(n)[k] for k in ks]
        rho = T(ms)
        out.step(6)
        ev = [np.clip(np.linalg.eigvalsh(m), 0, None) for m in ms]
        h = np.array([-sum(x * np.log2(x) for x in e if x > 1e-15) for e in ev])
        got = t2n(S.von_neumann_entropy(rho))
        out.feed(got)
        r = close(got, h, 1e-8)
        if r:
            return "entropy " + r
        for order in (1, 2, 3, 4):
            want = np.array([np.trace(np.linalg.matrix_power(m, order)).real for m in ms])
            r = close(t2n(S.purity(rho, order)), want, 1e-10)
            if r:
                return f"purity {order} {r}"
        return close(t2n(S.purity(rho)), np.array([np.trace(m @ m).real for m in ms]), 1e-10)

    def fid(case, out):
        n, a, b = case
        A, B = [dms(n)[k] for k in a], [dms(n)[k] for k in b]
        got = t2n(S.fidelity(T(A), T(B)))
        out.feed(got)
        want = np.array([np.sqrt(np.clip(np.linalg.eigvals(sq(x) @ y @ sq(x)).real, 0, None)).sum() for x, y in zip(A, B)])
        return close(got, want, 1e-6)

    def sq(m):
        w, v = np.linalg.eigh(m)
        return (v * np.sqrt(np.clip(w, 0, None))) @ v.conj().T

    def ptrace(case, out):
        n, keep, ks = case
        ms = [dms(n)[k] if k != "rnd" else np.outer(psi(n, 5), psi(n, 5).conj()) for k in ks]
        got = t2n(S.partial_trace(T(ms), list(keep)))
        out.feed(got)
        want = []
        for m in ms:
            t = m.reshape((2,) * (2 * n))
            rest = [q for q in range(n) if q not in keep]
            t = t.transpose(list(keep) + rest + [n + q for q in keep] + [n + q for q in rest])
            k = 2 ** len(keep)
            r = 2 ** len(rest)
            want.append(np.einsum("arbr->ab", t.reshape(k, r, k, r)))
        return close(got, np.array(want), 1e-12)

    def dmat(case, out):
        n, ks = case
        x = torch.tensor(np.array([STS[k](n) for k in ks]), dtype=torch.complex128)
        d = S.density_mat(x)
        out.feed(d)
        if not isinstance(d, S.DensityMatrix):
            return f"type {type(d)}"
        want = np.array([np.outer(STS[k](n), np.conj(STS[k](n))) for k in ks])
        d2 = S.density_mat(d)
        return close(t2n(d), want, 1e-12) or close(t2n(d2), want, 1e-12)

    def proj(case, out):
        s, q = case
        want = np.diag([1, 0] if s == "0" else [0, 1]).astype(complex)
        out.feed(s, q)
        from qadence import block_to_tensor
        b = U.one_qubit_projector(s, q)
        c = (U.P0 if s == "0" else U.P1)(q)
        if tuple(b.qubit_support) != (q,) or tuple(c.qubit_support) != (q,):
            return "support"
        return close(t2n(U.one_qubit_projector_matrix(s)), want, 1e-12) or close(t2n(block_to_tensor(b)).squeeze(), want, 1e-12) \
            or close(t2n(block_to_tensor(c)).squeeze(), want, 1e-12)

    chk = Check("P12", rule="every bit string, batch size, subset, permutation and state pair within the bounds against the "
                "definition; non-trivial = distinct result",
                bounds=f"bit strings up to {NMAX} qubits (integers up to 2**40), density matrices up to 3 qubits, batches 1-3",
                assumptions=["product_state documents its batch size as ignored: it is not varied"])
    chk.family("conversions", [(n, k) for n in range(1, NMAX + 2) for k in range(2 ** n)], conv)
    chk.family("integers", [(max(0, 2 ** m + d),) for m in range(0, 40) for d in (-2, -1, 0, 1)], wide)
    chk.family("too_large", [(2 ** n + d, n, e) for n in range(1, NMAX) for d in (0, 1, 5) for e in END], toolarge)
    chk.family("bases", [(n, r, e) for n in range(1, NMAX) for r in ("STRING", "TORCH", "NUMPY") for e in END], basis)
    chk.family("counts", [(n, sub) for n in (1, 2, 3) for k in range(1, 2 ** n + 1) for sub in combinations(range(2 ** n), k)], counts)
    chk.family("vectors", [(n, b, t) for n in range(1, NMAX + 1) for b in (1, 2, 3) for t in ("torch", "numpy", "real")], vecs)
    chk.family("named", [(k, n, b) for k in ("zero", "one", "uniform", "ghz") for n in range(1, NMAX + 1) for b in (1, 2, 3)], named)
    chk.family("product", [("".join(b), e) for n in range(1, NMAX) for b in product("01", repeat=n) for e in END], prods)
    chk.family("product_lists", [t for n in (1, 2, 3) for k in (1, 2, 3) for t in product(["".join(b) for b in product("01", repeat=n)], repeat=k)
                                 if k < 3 or n < 3], plist)
    chk.family("product_jax", [("".join(b),) for n in (1, 2, 3) for b in product("01", repeat=n)], jaxs)
    chk.family("random", [("bitstring", n, s) for n in (1, 2, 3, 4) for s in product((0, 1), repeat=n)] +
               [("state", n, s) for n in (1, 2) for b in (1, 2, 3) for s in product(range(2 ** n), repeat=b)], rands)
    chk.family("haar", [(t, n, b, s) for t in ("HaarMeasureFast", "HaarMeasureSlow", "RandomRotations") for n in (1, 2, 3)
                        for b in (1, 2, 3) for s in range(3)], haar)
    chk.family("normalise", [(k, n, s, sh) for k in STS for n in (1, 2, 3) for s in (1.0, 2.0, 0.5, -1.0, 1j, 1 + 1e-10, 1 - 1e-9) for sh in ("flat", "row", "batch")], norm)
    ks = list(STS)
    prs = [((a,), (b,)) for a in ks for b in ks] + [((a, b), (c, d)) for a in ks[:4] for b in ks[1:5] for c in ks[:3] for d in ks[:3]] + \
        [((a,), (b, c)) for a in ks for b in ks for c in ks] + [((b, c), (a,)) for a in ks for b in ks[:2] for c in ks]
    chk.family("overlap", [(a, b, n) for a, b in prs for n in (1, 2)], ovl)
    dk = ("pure", "pure2", "zero", "mixed", "half", "three", "diag", "deg")
    chk.family("entropy", [(n, k) for n in (1, 2, 3) for k in [(a,) for a in dk] + [(a, b) for a in dk for b in dk]], ent)
    chk.family("fidelity", [(n, (a,), (b,)) for n in (1, 2, 3) for a in dk for b in dk] +
               [(2, (a, b), (c, a)) for a in dk for b in dk for c in dk], fid)
    chk.family("partial_trace", [(n, kp, k) for n in (1, 2, 3) for m in range(1, n + 1) for kp in permutations(range(n), m)
                                 for k in (("rnd",), ("three",), ("rnd", "half", "zero"))], ptrace)
    chk.family("density", [(n, k) for n in (1, 2, 3) for k in [(a,) for a in ks] + [(a, b) for a in ks for b in ks]], dmat)
    chk.family("projectors", [(s, q) for s in "01" for q in range(4)], proj)
    return chk


guard_main(("P12", make))
