"""P20: measurement protocols estimate the observable they are given."""
from itertools import product, permutations

from lib.harness import Check, Skip, guard_main, THOROUGH
from lib import gen, ref

# circuits: name -> (qubits, program)
STATES = {
    "gen2": (2, ("chain", ("RX", (0,), 0.7), ("RY", (1,), 1.1), ("CNOT", (0, 1)), ("RZ", (0,), 0.6), ("RX", (0,), 0.3))),
    "gen3": (3, ("chain", ("RX", (0,), 0.7), ("RY", (1,), 1.1), ("CNOT", (0, 1)), ("RX", (2,), 0.4), ("CRY", (1, 2), 0.8),
                 ("RZ", (0,), 0.6), ("RX", (0,), 0.3), ("RZ", (2,), 0.9))),
    "feat": (2, ("chain", ("RX", (0,), ("f", "x")), ("CNOT", (0, 1)), ("RY", (1,), ("v", "a")), ("RX", (1,), 0.4))),
    "two": (3, ("chain", ("RY", (0,), ("mul", ("v", "a"), ("f", "x"))), ("RX", (2,), ("f", "y")), ("CRX", (0, 1), 0.9), ("RZ", (2,), 0.5), ("RY", (2,), 0.3))),
    "evo": (2, ("chain", ("RY", (0,), 0.8), ("H", (1,)), ("HamEvo", ("add", ("kron", ("Z", (0,)), ("Z", (1,))), ("X", (1,))), ("f", "x")))),
    "part": (3, ("RX", (1,), 0.8)),
}
CLIFF = {
    "zero": ("I", (0,)),
    "plus": ("chain", ("H", (0,))),
    "bell": ("chain", ("H", (0,)), ("CNOT", (0, 1))),
    "ybell": ("chain", ("H", (1,)), ("S", (1,)), ("CNOT", (1, 0))),
    "prod": ("chain", ("H", (0,)), ("S", (0,)), ("X", (1,))),
    "mix": ("chain", ("H", (1,)), ("CZ", (0, 1)), ("H", (0,)), ("S", (1,)), ("X", (0,))),
}
VARS = {"a": 0.7, "w": 1.5}
X0, Y1, Z0, Z1, N0, N1, I0, I1 = (("X", (0,)), ("Y", (1,)), ("Z", (0,)), ("Z", (1,)), ("N", (0,)), ("N", (1,)), ("I", (0,)), ("I", (1,)))
# observables built in every way the library offers
SHAPES = {
    "rev": ("kron", ("X", (1,)), Z0),
    "revY": ("kron", Y1, ("X", (0,))),
    "nested": ("kron", ("kron", Z0, ("X", (1,))), ("Y", (2,))),
    "nested2": ("kron", ("Y", (2,)), ("kron", ("X", (1,)), Z0)),
    "scale": ("scale", 2.0, ("scale", 3.0, Z0)),
    "kscale": ("kron", ("scale", 2.0, Z0), ("scale", -0.5, ("X", (1,)))),
    "sumscale": ("scale", 2.0, ("add", Z0, ("scale", 3.0, ("X", (1,))))),
    "sub": ("add", Z0, ("scale", -2.0, ("kron", Z1, ("X", (0,))))),
    "id": I0,
    "id2": ("kron", I0, I1),
    "idsum": ("add", I0, ("scale", 2.0, Z1)),
    "scaledid": ("scale", 2.0, I1),
    "square": ("chain", Z0, Z0),
    "xsquare": ("chain", ("X", (0,)), ("X", (0,))),
    "chain": ("chain", Z0, ("X", (1,))),
    "chainrev": ("chain", ("X", (1,)), Z0),
    "kronadd": ("kron", ("add", Z0, ("X", (0,))), Y1),
    "kronadd2": ("kron", ("add", Z0, ("scale", 0.5, ("X", (0,)))), ("add", Y1, N1)),
    "addnest": ("add", Z0, ("add", ("X", (1,)), ("scale", 2.0, ("Y", (0,))))),
    "chainkron": ("chain", ("kron", Z0, Z1), ("kron", I0, Z1)),
    "anti": ("add", ("chain", X0, ("Y", (0,))), ("chain", ("Y", (0,)), X0)),
    "xyz": ("chain", ("kron", X0, ("X", (1,))), ("kron", Z0, Z1)),
    "sumsq": ("chain", ("add", X0, Z0), ("add", X0, Z0)),
    "numsq": ("chain", N0, ("scale", 2.0, N0)),
    "sumsq2": ("chain", ("add", ("kron", X0, Z1), ("scale", 0.5, Z0), Y1), ("add", ("kron", X0, Z1), ("scale", 0.5, Z0), Y1)),
    "numbers": ("add", N0, ("scale", 0.5, ("kron", N0, N1))),
    "merge": ("add", Z0, Z0, ("scale", -1.5, Z0)),
    "cancel": ("add", ("kron", Z0, X0[0:1] + ((1,),)), ("scale", -1.0, ("kron", Z0, ("X", (1,))))),
    "deep": ("scale", 0.5, ("add", ("scale", 2.0, ("kron", ("add", Z0, I0), N1)), ("scale", -1.0, ("chain", Y1, Y1)))),
}
PARAM = {
    "vscale": ("scale", ("v", "w"), Z0),
    "fscale": ("scale", ("f", "x"), ("kron", Z0, ("X", (1,)))),
    "mixed": ("add", ("scale", ("v", "w"), ("Y", (0,))), ("scale", ("f", "x"), N1), ("scale", 0.5, Z0)),
    "prod": ("scale", ("f", "x"), ("add", Z0, ("scale", ("v", "w"), ("X", (1,))))),
    "expr": ("scale", ("mul", ("v", "w"), ("f", "x")), ("kron", Y1, ("X", (0,)))),
}
PAULI = ("I", "X", "Y", "Z", "N")


def words(n):
    for ops in product(PAULI, repeat=n):
        yield ("kron",) + tuple((o, (q,)) for q, o in enumerate(ops)) if n > 1 else (ops[0], (0,))


def make():
    import numpy as np
    import torch
    import qadence as Q
    from collections import Counter
    from qadence.measurements import Measurements
    from lib.common import Builder, t2n, torch_state

    real, real_int = torch.multinomial, np.random.randint

    def quantile(p, j, m):
        c = np.cumsum(p / p.sum())
        return int(min(np.searchsorted(c, (j + 0.5) / m), len(p) - 1))

    class Frequencies:
        """every outcome exactly as often as its probability says."""

        def __init__(self):
            self.calls = 0

        def __call__(self, input, num_samples, replacement=False, **kw):  # noqa: A002
            self.calls += 1
            p = input.detach().double()
            one = p.dim() == 1
            rows = []
            for r in (p[None] if one else p):
                r = (r / r.sum()).numpy()
                c = np.floor(r * num_samples + 1e-9).astype(int)
                rest = np.argsort(-(r * num_samples - c), kind="stable")[: num_samples - c.sum()]
                c[rest] += 1
                rows.append(np.repeat(np.arange(len(r)), c))
            out = torch.as_tensor(np.stack(rows))
            return out[0] if one else out

        def __enter__(self):
            torch.multinomial = self
            return self

        def __exit__(self, *a):
            torch.multinomial = real

    class AllBases:
        """every basis, m times each, k times over; outcomes of a basis at exact frequencies."""

        def __init__(self, n, m, k, batch):
            self.ids = np.array([b for _ in range(k) for b in product(range(3), repeat=n) for _ in range(m)])
            self.m, self.batch, self.calls, self.used = m, batch, 0, 0

        def randint(self, low, high=None, size=None, **kw):
            self.used += 1
            if (low, high) != (0, 3) or tuple(size) != self.ids.shape:
                raise Skip(f"bases drawn as ({low},{high},{size})")
            return self.ids.copy()

        def __call__(self, input, num_samples, replacement=False, **kw):  # noqa: A002
            p = input.detach().double()
            rows = p[None] if p.dim() == 1 else p
            out = []
            for r in rows:
                j = (self.calls // self.batch) % self.m
                self.calls += 1
                out.append([quantile(r.numpy(), j, self.m)] * num_samples)
            out = torch.as_tensor(out)
            return out[0] if p.dim() == 1 else out

        def __enter__(self):
            torch.multinomial, np.random.randint = self, self.randint
            return self

        def __exit__(self, *a):
            torch.multinomial, np.random.randint = real, real_int

    SHOTS = 1 << 14
    FEATS = {"x": (0.5, 1.3), "y": (1.1, 0.2)}

    def needs(*specs):
        out = set()
        for s in specs:
            out |= ref.variables(s)
        return {k for k in FEATS if any(k == v or k in str(v) for v in out)}

    def values(fs, nb):
        return {k: torch.tensor(FEATS[k][:nb]) for k in sorted(fs)}

    def exact(cs, n, obs, fs, nb, init=None):
        m = nb if fs else 1
        rows = []
        for i in range(m):
            env = {**VARS, **{k: FEATS[k][i] for k in fs}}
            v = ref.mat(cs, n, env) @ (ref.zero_state(n) if init is None else init)
            rows.append([float(np.real(np.vdot(v, ref.mat(o, n, env) @ v))) for o in obs])
        return np.array(rows)

    seen = []   # what the last estimates were, for the count of distinct outcomes

    def compare(got, want, tol):
        g = t2n(got)
        seen.append(np.round(want, 3).tobytes())
        if g.shape != want.shape:
            return f"shape {g.shape} instead of {want.shape}"
        if not np.allclose(g, want, atol=tol):
            return f"estimate {g.round(4).tolist()} instead of {want.round(4).tolist()}"

    def estimate(entry, cs, n, obs, vals, meas, **kw):
        b = Builder(VARS)
        blk = b.block(cs)
        os = [b.block(o) for o in obs]
        c = Q.QuantumCircuit(n, blk)
        before = repr(c), [repr(o) for o in os]
        if entry == "expectation":
            r = Q.expectation(c, os, values=vals, measurement=meas, **kw)
        elif entry == "model":
            r = Q.QuantumModel(c, os, diff_mode="ad").expectation(vals, measurement=meas, **kw)
        elif entry == "gpsr":
            r = Q.QuantumModel(c, os, diff_mode="gpsr").expectation(vals, measurement=meas, **kw)
        elif entry == "default":
            r = Q.QuantumModel(c, os, diff_mode="gpsr", measurement=meas).expectation(vals, **kw)
        else:
            from qadence.ml_tools.models import QNN
            r = QNN(c, os, inputs=sorted(vals), measurement=meas)(vals, **kw)
        if (repr(c), [repr(o) for o in os]) != before:
            raise AssertionError("measuring changed the circuit or the observables")
        return r

    def tomo(entry, sname, obs, nb=1, init=None, **kw):
        n, cs = STATES[sname]
        n = max([n] + [max(ref.support(o)) + 1 for o in obs])
        fs = needs(cs, *obs)
        want = exact(cs, n, obs, fs, nb, init)
        if init is not None:
            kw["state"] = torch_state([init])
        with Frequencies():
            got = estimate(entry, cs, n, obs, values(fs, nb), Measurements("tomography", {"n_shots": SHOTS}), **kw)
        return compare(got, want, 6e-3)

    # 1. every Pauli word, on every state
    wcases = [(s, w) for s in ("gen2", "feat") for w in words(2)]
    wcases += [("gen3", w) for w in words(3) if THOROUGH or sum(o[0] == "N" for o in w[1:]) <= 1 and sum(o[0] == "I" for o in w[1:]) <= 1]

    def f_words(case, out):
        s, w = case
        return tomo("model", s, [w], 1)

    # 2. every way of writing an observable x entry points
    ENTRIES = ("expectation", "model", "gpsr", "default", "qnn")
    scases = [(e, s, k) for e in ENTRIES for s in ("gen2", "gen3", "feat", "two", "evo", "part") for k in SHAPES
              if (e != "qnn" or s in ("feat", "two"))]
    if not THOROUGH:
        scases = [c for i, c in enumerate(scases) if c[0] in ("expectation", "model") and c[1] in ("gen3", "two") or i % 2 == 0]

    def f_shapes(case, out):
        e, s, k = case
        return tomo(e, s, [SHAPES[k]], 2)

    # 3. batches, lists of observables, initial states, parametric observables
    lists = [(e, s, os, nb, st) for e in ("expectation", "model", "gpsr") for s in ("gen2", "feat", "evo", "two")
             for os in (("rev", "id"), ("numbers", "kronadd", "sub"), ("idsum",)) for nb in (1, 2) for st in (None, 3)]

    def f_lists(case, out):
        e, s, os, nb, st = case
        n = STATES[s][0]
        return tomo(e, s, [SHAPES[o] for o in os], nb, None if st is None else ref.rand_state(n, st))

    params = [(e, s, k, nb) for e in ("expectation", "model", "gpsr", "default") for s in ("gen2", "feat", "evo") for k in PARAM for nb in (1, 2)]

    def f_params(case, out):
        e, s, k, nb = case
        return tomo(e, s, [PARAM[k]], nb)

    # 4. gradients of measured expectation values (parameter shift)
    grads = [(s, k) for s in ("feat", "two", "evo") for k in ("rev", "numbers", "kronadd2", "sub", "idsum")]

    def f_grads(case, out):
        s, k = case
        n, cs = STATES[s]
        o = SHAPES[k]
        fs = needs(cs, o)
        b = Builder(VARS)
        c = Q.QuantumCircuit(n, b.block(cs))
        mod = Q.QuantumModel(c, b.block(o), diff_mode="gpsr")
        vals = {q: torch.tensor([FEATS[q][0]], requires_grad=True) for q in sorted(fs)}
        with Frequencies():
            r = mod.expectation(vals, measurement=Measurements("tomography", {"n_shots": SHOTS}))
            g = torch.autograd.grad(r.sum(), list(vals.values()))
        e = 1e-5
        for q, gq in zip(vals, g):
            env = {**VARS, **{z: FEATS[z][0] for z in fs}}

            def at(d):
                v = ref.mat(cs, n, {**env, q: env[q] + d}) @ ref.zero_state(n)
                return float(np.real(np.vdot(v, ref.mat(o, n, env) @ v)))

            w = (at(e) - at(-e)) / (2 * e)
            if abs(float(gq) - w) > 2e-2:
                return f"derivative by {q}: {float(gq):.4f} instead of {w:.4f}"
            out.step()

    # 5. shadows: all bases and outcomes
    def shadow(entry, n, cs, obs, fs, nb, m, tol, **kw):
        want = kw.pop("want", None)
        want = exact(cs, n, obs, fs, nb) if want is None else want
        conf = 0.5
        K = round(2.0 * np.log(2.0 * len(obs) / conf))
        N = K * 3 ** n * m
        with AllBases(n, m, K, len(want)) as seam:
            got = estimate(entry, cs, n, obs, values(fs, nb), Measurements("shadow", {"shadow_size": N, "confidence": conf}), **kw)
        if not seam.used:
            raise Skip("bases are not drawn with numpy.random.randint")
        return compare(got, want, tol)

    def needs_ok(o):
        return max(ref.support(o)) < 2

    shadows = [("model", s, w) for s in CLIFF for w in words(2)]
    shadows += [("expectation", s, ("name", k)) for s in CLIFF for k in SHAPES if needs_ok(SHAPES[k])]
    shadows += [("gpsr", s, ("name", k)) for s in ("ybell",) for k in SHAPES if needs_ok(SHAPES[k])]
    if not THOROUGH:
        shadows = [c for i, c in enumerate(shadows) if c[1] in ("ybell", "mix") or i % 4 == 0]

    def f_shadow(case, out):
        e, s, w = case
        o = SHAPES[w[1]] if w[0] == "name" else w
        return shadow(e, 2, CLIFF[s], [o], set(), 1, 4, 1e-6)

    shadow3 = [(s, k) for s in ("gen3", "two", "feat", "evo") for k in ("nested", "rev", "sub", "mixed", "numbers", "prod")
               if THOROUGH or s in ("feat", "evo")]

    def f_shadow3(case, out):
        s, k = case
        n, cs = STATES[s]
        o = SHAPES.get(k) or PARAM[k]
        n = max(n, max(ref.support(o)) + 1)
        fs = needs(cs, o)
        return shadow("model", n, cs, [o], fs, 2, 32, 0.35 if k in ("numbers",) else 0.2)

    # 5b. the order in which bits are shown is no matter of an expectation value
    from qadence.types import Endianness
    orders = [(e, "tomography", s, os, nb, st) for e in ("expectation", "model", "gpsr", "default") for s in ("gen2", "gen3", "feat", "two", "part")
              for os in (("rev", "id"), ("numbers", "kronadd", "sub"), ("idsum",)) for nb in (1, 2) for st in (None, 3)]
    orders += [("model", "shadow", s, (k,), 1, None) for s in ("ybell", "prod", "mix") for k in ("rev", "sub", "idsum", "deep", "numbers")]

    def f_orders(case, out):
        e, proto, s, os, nb, st = case
        kw = {"endianness": Endianness.LITTLE}
        if proto == "shadow":
            return shadow(e, 2, CLIFF[s], [SHAPES[o] for o in os], set(), 1, 4, 1e-6, **kw)
        n = STATES[s][0]
        return tomo(e, s, [SHAPES[o] for o in os], nb, None if st is None else ref.rand_state(n, st), **kw)

    # 5c. readout errors bias the estimate as the errors of the bits say
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol
    PM = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
    HAD = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    ROT = {"I": np.eye(2), "Z": np.eye(2), "X": HAD, "Y": HAD @ np.diag([1, -1j])}

    def transfer(kind, n):
        if kind == "indep":
            m = np.array([[[1 - a, b], [a, 1 - b]] for a, b in ((0.1, 0.25), (0.3, 0.05), (0.15, 0.4))[:n]])
            return m, ref.kron_all(list(m))
        m = np.random.RandomState(4).rand(2 ** n, 2 ** n) + 2 * np.eye(2 ** n)
        m = m / m.sum(axis=0, keepdims=True)
        return m, m

    def f_readout(case, out):
        e, s, k, kind, nb, little = case
        n, cs = STATES[s]
        o = SHAPES[k] if isinstance(k, str) else k
        n = max(n, max(ref.support(o)) + 1)
        opt, T = transfer(kind, n)
        noise = (NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": torch.tensor(opt)}) if kind == "indep"
                 else NoiseHandler(NoiseProtocol.READOUT.CORRELATED, {"confusion_matrix": torch.tensor(opt)}))
        fs = needs(cs, o)
        want = []
        for i in range(nb if fs else 1):
            env = {**VARS, **{q: FEATS[q][i] for q in fs}}
            v, M, t = ref.mat(cs, n, env) @ ref.zero_state(n), ref.mat(o, n, env), 0.0
            for w in product("IXYZ", repeat=n):
                c = np.trace(ref.kron_all([PM[q] for q in w]) @ M).real / 2 ** n
                if abs(c) < 1e-9:
                    continue
                if set(w) == {"I"}:     # nothing is measured
                    t += c
                    continue
                pr = T @ np.abs(ref.kron_all([ROT[q] for q in w]) @ v) ** 2
                t += c * sum(pr[b] * (-1) ** sum(int(x) for x, q in zip(format(b, f"0{n}b"), w) if q != "I") for b in range(2 ** n))
            want.append([t])
        kw = {"endianness": Endianness.LITTLE} if little else {}
        with Frequencies():
            got = estimate(e, cs, n, [o], values(fs, nb), Measurements("tomography", {"n_shots": SHOTS}), noise=noise, **kw)
        return compare(got, np.array(want), 1e-2)

    rcases = [(e, s, k, kind, nb, lit) for e in ("expectation", "model", "gpsr") for s in ("gen2", "feat", "two")
              for k in ("rev", "revY", "sub", "idsum", "kronadd", "nested", "numbers", "chainrev") for kind in ("indep", "corr") for nb in (1, 2)
              for lit in (False, True)]

    # 5d. shadows of wrongly read bits: each qubit's errors bias the words that measure it
    def f_noisy_shadow(case, out):
        e, s, w, little = case
        cs, o = CLIFF[s], (SHAPES[w[1]] if w[0] == "name" else w)
        m = np.array([[[0.5, 0.0], [0.5, 1.0]], [[1.0, 0.5], [0.0, 0.5]]])
        T, t = ref.kron_all(list(m)), 0.0
        v, M = ref.mat(cs, 2, VARS) @ ref.zero_state(2), ref.mat(o, 2, VARS)
        for q in product("IXYZ", repeat=2):
            c = np.trace(ref.kron_all([PM[x] for x in q]) @ M).real / 4
            pr = T @ np.abs(ref.kron_all([ROT[x] for x in q]) @ v) ** 2
            t += c * sum(pr[b] * (-1) ** sum(int(x) for x, y in zip(format(b, "02b"), q) if y != "I") for b in range(4))
        noise = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": torch.tensor(m)})
        kw = {"endianness": Endianness.LITTLE} if little else {}
        return shadow(e, 2, cs, [o], set(), 1, 16, 1e-6, want=np.array([[t]]), noise=noise, **kw)

    nshadows = [(e, s, w, lit) for e in ("expectation", "model", "gpsr") for s in (CLIFF if THOROUGH else ("ybell", "mix"))
                for w in list(words(2)) + [("name", k) for k in SHAPES if needs_ok(SHAPES[k])] for lit in (False, True)]
    if not THOROUGH:
        nshadows = [c for i, c in enumerate(nshadows) if i % 8 == 0]

    # 6. the shadow budget: at least the published one for the observable's locality
    ocases = list(SHAPES) + [w for w in words(2)] + [w for w in words(3)]

    def f_budget(case, out):
        from qadence.measurements.shadow import number_of_samples
        o = SHAPES[case] if isinstance(case, str) else case
        n = max(ref.support(o)) + 1
        M = ref.mat(o, n, {})
        P = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
        wt = 0
        for ops in product("IXYZ", repeat=n):
            if abs(np.trace(ref.kron_all([P[q] for q in ops]) @ M)) > 1e-9:
                wt = max(wt, sum(q != "I" for q in ops))
        blk = Builder(VARS).block(o)
        for acc, conf in product((0.1, 0.5), (0.05, 0.3)):
            for L in (1, 3):
                N, K = number_of_samples([blk] * L, acc, conf)
                if N < round(34.0 * 3 ** wt / acc ** 2):
                    return f"{N} samples for weight {wt} at accuracy {acc}"
                if K != round(2 * np.log(2 * L / conf)):
                    return f"{K} partitions for {L} observables at confidence {conf}"
                out.step()

    # 7. expectation values from given counts
    DIAG = {"zz": ("kron", Z0, Z1), "z1": Z1, "zi": ("kron", Z0, I1), "sum": ("add", Z0, ("scale", 2.0, Z1), ("scale", -0.5, ("kron", Z0, Z1))),
            "shift": ("add", ("scale", 3.0, I0), Z1), "sq": ("add", ("chain", Z0, Z0), Z1), "ks": ("kron", ("scale", 2.0, Z0), ("scale", 3.0, Z1)),
            "rev": ("kron", Z1, Z0), "sum2": ("scale", 2.0, ("add", Z0, ("scale", 3.0, Z1)))}
    tables = [(k, t) for k in DIAG for t in list(product(range(4 if THOROUGH else 3), repeat=4))[1:]]

    def f_samples(case, out):
        from qadence.measurements.samples import compute_expectation
        k, t = case
        keys = ("00", "01", "10", "11")
        o = np.diag(ref.mat(DIAG[k], 2, {})).real
        got = compute_expectation([Builder(VARS).block(DIAG[k])], [Counter({q: c for q, c in zip(keys, t) if c})])
        want = float(np.dot(o, np.array(t)) / sum(t))
        g = float(got[0].reshape(-1)[0])
        if len(got) != 1 or abs(g - want) > 1e-9:
            return f"{g} instead of {want}"

    def f_several(case, out):
        """counts of several circuits, of as many shots each as it happened"""
        from qadence.measurements.samples import compute_expectation
        k, ts = case
        keys = ("00", "01", "10", "11")
        names = (k,) if isinstance(k, str) else k
        got = compute_expectation([Builder(VARS).block(DIAG[q]) for q in names],
                                  [Counter({q: c for q, c in zip(keys, t) if c}) for t in ts])
        if len(got) != len(names):
            return f"{len(got)} results for {len(names)} observables"
        for q, g in zip(names, got):
            o = np.diag(ref.mat(DIAG[q], 2, {})).real
            want = [float(np.dot(o, np.array(t)) / sum(t)) for t in ts]
            out.step(len(ts))
            if len(g) != len(ts) or np.abs(g.numpy() - want).max() > 1e-9:
                return f"{g.tolist()} instead of {want}"

    tabs = ((1, 0, 0, 0), (0, 3, 0, 2), (1, 2, 3, 4), (0, 0, 7, 0), (5, 5, 5, 5))
    several = [(k, ts) for k in (*DIAG, ("zz", "shift"), ("sum", "z1", "ks")) for m in (2, 3) for ts in product(tabs, repeat=m)]

    # 8. protocol selection and options
    opts = [("tomography", {}), ("shadow", {}), ("shadow", {"accuracy": 0.4}), ("shadow", {"confidence": 0.4}), ("nope", {"n_shots": 3})]
    ocfg = [(e, p, tuple(o.items())) for e in ("expectation", "model", "gpsr") for p, o in opts]

    def f_options(case, out):
        e, p, o = case
        n, cs = STATES["gen2"]
        try:
            estimate(e, cs, n, [Z0], {}, Measurements(p, dict(o)))
        except Exception:
            return None
        return "an incomplete or unknown protocol was accepted"

    chk = Check("P20", "estimate from exact outcome frequencies = exact expectation value of the reference state",
                bounds={"words": len(wcases), "shapes": len(scases), "shadow": len(shadows), "shots": SHOTS})

    def family(name, cases, fn):
        def fed(case, out):
            del seen[:]
            message = fn(case, out)
            for o in seen:
                out.feed(o)
            return message
        chk.family(name, cases, fed)

    family("words", wcases, f_words)
    family("shapes", scases, f_shapes)
    family("lists", lists, f_lists)
    family("parametric", params, f_params)
    family("gradients", grads, f_grads)
    family("shadow", shadows, f_shadow)
    family("shadow_general", shadow3, f_shadow3)
    family("orders", orders, f_orders)
    family("readout", rcases, f_readout)
    family("shadow_readout", nshadows, f_noisy_shadow)
    family("budget", ocases, f_budget)
    family("counts", tables, f_samples)
    family("several_counts", several, f_several)
    family("options", ocfg, f_options)
    return chk


guard_main(("P20", make))
