"""P21: readout mitigation inverts readout noise."""
from itertools import product

from lib.harness import Check, Skip, guard_main, THOROUGH
from lib import ref

# error rates of a qubit: probability of reading 1 when it is 0, of reading 0 when it is 1
RATES = ((0.0, 0.0), (0.1, 0.2), (0.3, 0.1), (0.0, 0.3), (0.2, 0.0), (0.9, 0.8))
HARD = ((0.4, 0.4), (0.5, 0.5), (0.4, 0.6))          # nearly or entirely uninformative
METHODS = (None, "mle", "constrained")
GUESSES = ("zeros", "ones", "ramp", "corner", "high")
PROGS = {
    "00": (2, ("I", (0,))), "01": (2, ("X", (1,))), "10": (2, ("X", (0,))), "11": (2, ("chain", ("X", (0,)), ("X", (1,)))),
    "h": (2, ("H", (0,))), "h1": (2, ("chain", ("X", (0,)), ("H", (1,)))), "bell": (2, ("chain", ("H", (0,)), ("CNOT", (0, 1)))),
    "100": (3, ("X", (0,))), "011": (3, ("chain", ("X", (1,)), ("X", (2,)))), "ghz": (3, ("chain", ("H", (0,)), ("CNOT", (0, 1)), ("CNOT", (1, 2)))),
    "part": (3, ("chain", ("H", (1,)), ("CNOT", (1, 2)))),
    "feat": (2, ("chain", ("RX", (0,), ("f", "x")), ("CNOT", (0, 1)))),
    "feat2": (3, ("chain", ("RX", (1,), ("f", "x")), ("X", (2,)))),
}


def tables(k, total):
    if k == 1:
        yield (total,)
        return
    for i in range(total + 1):
        for r in tables(k - 1, total - i):
            yield (i,) + r


def make():
    import math
    import numpy as np
    import torch
    from collections import Counter
    import qadence as Q
    from qadence.mitigations import Mitigations
    from qadence.mitigations.readout import mitigate
    from qadence.noise import NoiseHandler
    from qadence.serialization import serialize, deserialize
    from qadence.types import Endianness, NoiseProtocol
    from lib.common import Builder

    real, real_rand = torch.multinomial, np.random.rand

    def frequencies(input, num_samples, replacement=False, **kw):  # noqa: A002
        p = input.detach().double()
        one = p.dim() == 1
        rows = []
        for r in (p[None] if one else p):
            r = (r / r.sum()).numpy()
            c = np.floor(r * num_samples + 1e-9).astype(int)
            rest = np.argsort(-(r * num_samples - c), kind="stable")[: num_samples - c.sum()]
            c[rest] += 1
            rows.append(np.repeat(np.arange(len(r)), c))
        out = torch.as_tensor(np.stack(rows))
        return out[0] if one else out

    class Exact:
        def __enter__(self):
            torch.multinomial = frequencies

        def __exit__(self, *a):
            torch.multinomial = real

    class Guess:
        """the starting point of the minimisation is one of these instead of a random one."""

        def __init__(self, name):
            self.name = name

        def __call__(self, *shape):
            n = int(np.prod(shape)) if shape else 1
            v = {"zeros": np.zeros(n), "ones": np.ones(n), "ramp": np.arange(n) / max(n, 1),
                 "corner": np.eye(n)[0], "high": np.eye(n)[-1]}[self.name]
            return v.reshape(shape) if shape else float(v[0])

        def __enter__(self):
            np.random.rand = self

        def __exit__(self, *a):
            np.random.rand = real_rand

    def conf(rates):
        return [np.array([[1 - a, b], [a, 1 - b]]) for a, b in rates]

    def handler(rates):
        return NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT,
                            {"error_probability": torch.tensor(np.array(conf(rates)), dtype=torch.float64)})

    def mitigation(method):
        return Mitigations(Mitigations.READOUT, {"optimization_type": method}) if method else Mitigations(Mitigations.READOUT)

    def counter(c):
        n = int(math.log2(len(c)))
        return Counter({format(i, f"0{n}b"): int(x) for i, x in enumerate(c) if x})

    def table(c, n):
        if any(len(k) != n or set(k) - {"0", "1"} for k in c):
            raise AssertionError(f"outcomes {sorted(c)} are not bit strings of length {n}")
        return np.array([int(c.get(format(i, f"0{n}b"), 0)) for i in range(2 ** n)])

    def valid(a, total):
        if (a < 0).any():
            return f"negative counts {a.tolist()}"
        if a.sum() != total:
            return f"{a.sum()} counts instead of {total}"

    def kron(rates):
        return ref.kron_all(conf(rates))

    def simplex(v):
        u = np.sort(v)[::-1]
        css = np.cumsum(u)
        r = max(i for i in range(len(v)) if u[i] + (1 - css[i]) / (i + 1) > 0)
        return np.maximum(v + (1 - css[r]) / (r + 1), 0)

    def least_squares(T, q):
        """closest physical distribution, by going through all supports."""
        d = len(q)
        best = None
        for m in range(1, 2 ** d):
            s = [i for i in range(d) if m >> i & 1]
            A = T[:, s]
            k = len(s)
            K = np.block([[2 * A.T @ A, np.ones((k, 1))], [np.ones((1, k)), np.zeros((1, 1))]])
            x = np.linalg.lstsq(K, np.concatenate([2 * A.T @ q, [1.0]]), rcond=None)[0][:k]
            if (x < -1e-9).any() or abs(x.sum() - 1) > 1e-8:
                continue
            o = np.linalg.norm(A @ x - q)
            if best is None or o < best:
                best = o
        return best

    chk = Check("P21", "mitigated counts are the recovered distribution", bounds={
        "qubits": "1-3", "confusion matrices": f"all assignments of {len(RATES)} rate pairs (2 qubits), 3 hard ones",
        "counts": "all tables of up to 6 shots (2 qubits), all distributions in quarters at exact frequencies",
        "optimiser starts": GUESSES})

    def run(rates, method, counters, guess="ramp"):
        nz, mt = handler(rates), mitigation(method)
        before = nz.options[0]["error_probability"].clone()
        given = [Counter(c) for c in counters]
        with Guess(guess):
            res = mitigate(noise=nz, mitigation=mt, samples=given)
        if given != counters:
            raise AssertionError("the given samples were changed")
        if not torch.equal(before, nz.options[0]["error_probability"]):
            raise AssertionError("the given noise was changed")
        if len(res) != len(counters):
            raise AssertionError(f"{len(res)} counters for {len(counters)} samples")
        return res

    # --- distributions whose noisy frequencies are known exactly are recovered
    def recover(case, out):
        rates, method, guess = case
        n = len(rates)
        T = kron(rates)
        total = 4 * 10 ** n
        for quarters in tables(2 ** n, 4):
            p = np.array(quarters) / 4
            noisy = np.rint(T @ p * total).astype(int)
            assert noisy.sum() == total and np.allclose(noisy, T @ p * total, atol=1e-6)
            a = table(run(rates, method, [counter(noisy)], guess)[0], n)
            out.step()
            out.feed(a.tolist())
            e = valid(a, total)
            if e:
                return f"{quarters}: {e}"
            tol = 1e-9 if method != "constrained" else 1 + 0.02 * total
            if np.abs(a - p * total).max() > tol:
                return f"{quarters}: recovered {a.tolist()} instead of {(p * total).tolist()}"

    # start points only matter for the minimisation
    starts = [(m, g) for m in METHODS for g in (GUESSES if m == "constrained" else ("ramp",))]
    cases = [((r,), m, g) for r in RATES for m, g in starts]
    cases += [(r, m, g) for r in product(RATES, repeat=2) for m, g in starts if THOROUGH or m != "constrained" or g in ("ramp", "corner")]
    cases += [(r, m, "ramp") for r in (((0.1, 0.2), (0.3, 0.1), (0.0, 0.3)), ((0.0, 0.0), (0.2, 0.0), (0.1, 0.2)))
              for m in (METHODS if THOROUGH else ("mle",))]
    chk.family("recover", cases, recover)

    # --- every table of few shots gives a valid one next to the closest physical distribution
    def small(case, out):
        rates, method, total = case
        n = len(rates)
        T = kron(rates)
        singular = np.linalg.matrix_rank(T) < 2 ** n
        for t in tables(2 ** n, total):
            a = table(run(rates, method, [counter(t)])[0], n)
            out.step()
            out.feed(a.tolist())
            e = valid(a, total)
            if e:
                return f"{t}: {e}"
            q = np.array(t) / total
            if method != "constrained":
                if not singular:
                    w = simplex(np.linalg.solve(T, q)) * total
                    if np.abs(a - w).max() > 1 + 1e-6:
                        return f"{t}: {a.tolist()} instead of about {np.round(w, 3).tolist()}"
            else:
                o, w = np.linalg.norm(T @ a / total - q), least_squares(T, q)
                if o > w + math.sqrt(2 ** n) / total * np.linalg.norm(T, 2) + 0.01:
                    return f"{t}: {a.tolist()} explains the counts up to {o:.3f}, the best distribution up to {w:.3f}"

    top = 8 if THOROUGH else 6
    cases = [((r,), m, k) for r in RATES + HARD for m in METHODS for k in (1, 2, 3, 5, 9, 20)]
    pairs = list(product(RATES[1:4], repeat=2)) + [(RATES[0], RATES[1]), (RATES[5], RATES[1])] + [(h, r) for h in HARD for r in (RATES[1], HARD[0])]
    cases += [(r, m, k) for r in pairs for m in METHODS for k in range(1, top + 1) if THOROUGH or m != "constrained" or k in (1, 3, 4)]
    cases += [(((0.1, 0.2), (0.3, 0.1), (0.0, 0.3)), "mle", k) for k in (1, 2, 3)]
    cases += [(((0.3, 0.1), (0.5, 0.5), (0.4, 0.4)), "mle", k) for k in (1, 2, 3)]
    chk.family("small", cases, small)

    # --- without noise nothing changes
    def noiseless(case, out):
        n, method, total = case
        for t in tables(2 ** n, total):
            a = table(run(((0.0, 0.0),) * n, method, [counter(t)])[0], n)
            out.step()
            if a.tolist() != list(t):
                return f"{t} became {a.tolist()}"

    chk.family("noiseless", [(n, m, k) for n in (1, 2) for m in METHODS for k in (1, 2, 3, 4, 5, 7, 10)
                             if THOROUGH or m != "constrained" or k in (1, 4)] + [(3, "mle", k) for k in (1, 2, 3)], noiseless)

    # --- every batch element on its own, whatever its neighbours and number of shots
    def batch(case, out):
        rates, method, ts = case
        n = len(rates)
        together = run(rates, method, [counter(t) for t in ts])
        for t, c in zip(ts, together):
            out.step()
            a, one = table(c, n), table(run(rates, method, [counter(t)])[0], n)
            e = valid(a, sum(t))
            if e:
                return e
            if np.abs(a - one).max() > 0:
                return f"{t} gives {a.tolist()} in a batch, {one.tolist()} alone"

    quads = ((40, 0, 0, 0), (10, 20, 6, 4), (0, 0, 1, 39), (13, 9, 11, 7))
    chk.family("batch", [(r, m, ts) for r in pairs[:6] for m in METHODS for k in (2, 3) for ts in product(quads, repeat=k)
                         if m != "constrained" or len(set(ts)) == k], batch)

    # --- sampling from models and through the functional interface
    def probs(name, x=None):
        n, spec = PROGS[name]
        v = ref.mat(spec, n, {"x": x} if x is not None else {}) @ ref.zero_state(n)
        return np.abs(v) ** 2

    ANGLES = (0.0, math.pi / 2, math.pi)

    def sampled(case, out):
        name, rates, method, level, little, nb, via = case
        n, spec = PROGS[name]
        rates = rates[:n]
        shots = 4 * 10 ** n
        nz, mt = handler(rates), mitigation(method)
        kw = {}
        if "n" in level:
            kw["noise"] = nz
        if "m" in level:
            kw["mitigation"] = mt
        block = Builder({}).block(spec)
        model = Q.QuantumModel(Q.QuantumCircuit(n, block), **kw)
        if via == "serial":
            model = deserialize(serialize(model))
        call = {}
        if "n" not in level:
            call["noise"] = nz
        if "m" not in level:
            call["mitigation"] = mt
        feat = name.startswith("feat")
        values = {}
        if feat:
            values = {"x": torch.tensor(ANGLES[:nb] if nb else [ANGLES[1]], dtype=torch.float64)}
        if little:
            call["endianness"] = Endianness.LITTLE
        with Exact(), Guess("ramp"):
            res = model.sample(values, n_shots=shots, **call)
            plain = None
            if level == "":
                plain = model.sample(values, n_shots=shots)
        xs = (ANGLES[:nb] if nb else (ANGLES[1],)) if feat else (None,)
        if len(res) != len(xs):
            return f"{len(res)} counters instead of {len(xs)}"
        for i, x in enumerate(xs):
            out.step()
            want = probs(name, x) * shots
            if plain is not None and np.abs(table(plain[i], n) - want).max() > 1e-6:
                return "sampling without noise afterwards was affected"
            if little:
                want = want[[int(format(j, f"0{n}b")[::-1], 2) for j in range(2 ** n)]]
            a = table(res[i], n)
            out.feed(a.tolist())
            e = valid(a, shots)
            if e:
                return e
            if np.abs(a - want).max() > (1e-6 if method != "constrained" else 1 + 0.02 * shots):
                return f"sampled {a.tolist()} instead of {want.tolist()}"

    R3 = ((0.1, 0.2), (0.3, 0.1), (0.0, 0.3))
    R3b = ((0.0, 0.0), (0.2, 0.0), (0.3, 0.3))
    cases = []
    for name in PROGS:
        feat = name.startswith("feat")
        for r in (R3, R3b, (R3[1], R3b[0], R3[0])):
            for m in METHODS:
                for level in ("", "n", "m", "nm"):
                    for little in (False, True):
                        for nb in ((0, 1, 3) if feat else (0,)):
                            for via in ("direct", "serial") if level == "nm" else ("direct",):
                                if THOROUGH or m != "constrained" or (r is R3 and PROGS[name][0] == 2):
                                    cases.append((name, r, m, level, little, nb, via))
    chk.family("sampled", cases, sampled)

    # --- noise given by an error probability: its confusion matrices are drawn, the same ones for a seed
    def probability(case, out):
        name, p, seed, method = case
        n, _ = PROGS[name]
        shots = 2000
        opts = {} if p is None else {"error_probability": p}
        if seed is not None:
            opts["seed"] = seed
        nz = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, opts)
        model = Q.QuantumModel(Q.QuantumCircuit(n, Builder({}).block(PROGS[name][1])))
        torch.manual_seed(5)
        with Exact(), Guess("ramp"):
            res = model.sample(n_shots=shots, noise=nz, mitigation=mitigation(method))
        a = table(res[0], n)
        out.step()
        e = valid(a, shots)
        if e:
            return e
        w = probs(name) * shots
        # drawing the matrices twice changes them by a few per cent, with a seed only rounding is left
        tol = 0.08 * shots if seed is None else 2 * 2 ** n + (0.02 * shots if method == "constrained" else 0)
        if np.abs(a - w).max() > tol:
            return f"{a.tolist()} instead of about {w.tolist()}"

    chk.family("probability", [(nm, p, s, m) for nm in ("00", "10", "h", "bell", "100", "ghz") for p in (None, 0.05, 0.1, 0.3, 0.5)
                               for s in (None, 0, 7) for m in (METHODS if THOROUGH else (None, "constrained"))], probability)

    # --- what cannot be mitigated is reported
    def refused(case, out):
        nz = {"none": None, "digital": NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": 0.1}), "readout": handler(R3[:2])}[case[0]]
        mt = Mitigations(Mitigations.READOUT, {"optimization_type": "other"}) if case[1] else Mitigations(Mitigations.READOUT)
        model = Q.QuantumModel(Q.QuantumCircuit(2, Q.X(0)))
        out.step()
        try:
            res = model.sample(n_shots=10, noise=nz, mitigation=mt)
        except Exception as e:  # noqa: BLE001
            out.feed(type(e).__name__)
            return None
        return f"no error but {res}"

    chk.family("refused", [("none", False), ("digital", False), ("readout", True)], refused)
    return chk


guard_main(("P21", make))
