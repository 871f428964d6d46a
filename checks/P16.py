"""P16: digital and readout noise act as the specified channels, only where requested."""
from itertools import permutations, product

from lib.harness import Check, guard_main, THOROUGH
from lib import ref
from lib.ref import kraus

CH = {"BITFLIP": ("Bitflip", 0.15), "PHASEFLIP": ("Phaseflip", 0.2), "DEPOLARIZING": ("Depolarizing", 0.3),
      "PAULI_CHANNEL": ("PauliChannel", (0.1, 0.05, 0.2)), "AMPLITUDE_DAMPING": ("AmplitudeDamping", 0.35),
      "PHASE_DAMPING": ("PhaseDamping", 0.25), "GENERALIZED_AMPLITUDE_DAMPING": ("GeneralizedAmplitudeDamping", (0.3, 0.4))}
NAMES = tuple(CH)

# gate: (name, qubits, params); the channels act on the qubit at TARGET(name)
G1 = ("X", "Y", "Z", "H", "S", "SDagger", "T", "I", "N")
P1 = ("RX", "RY", "RZ", "PHASE", "U")
C2 = ("CNOT", "CZ", "SWAP")
CP = ("CRX", "CRY", "CRZ", "CPHASE")
C3 = ("Toffoli", "CSWAP", "MCRX", "MCRZ", "MCPHASE", "MCZ")
ANG = 0.83
UANG = (0.4, 1.1, -0.7)


def make():
    import numpy as np
    import torch
    import qadence as Q
    from qadence import FeatureParameter, NoiseHandler, QuantumCircuit, QuantumModel, VariationalParameter, chain, kron, set_noise
    from qadence.types import Endianness, NoiseProtocol
    from lib.common import close, t2n
    from qadence.blocks import MatrixBlock
    real_multinomial = torch.multinomial

    M1 = {"X": ref.X, "Y": ref.Y, "Z": ref.Z, "H": np.array([[1, 1], [1, -1]]) / np.sqrt(2), "S": np.diag([1, 1j]), "SDagger": np.diag([1, -1j]),
          "T": np.diag([1, np.exp(0.25j * np.pi)]), "I": np.eye(2), "N": np.diag([0, 1]).astype(complex)}

    # ------------------------------------------------------------------ reference
    def gate_matrix(g, n, env):
        name, qs, p = g
        if p is not None:
            p = [env[x] if isinstance(x, str) else x for x in p]
        if name in M1:
            return ref.embed(M1[name], qs, n)
        if name in P1:
            return ref.embed(ref.param1(name, p), qs, n)
        if name == "CNOT":
            return ref.embed(ref.controlled(ref.X, 1), qs, n)
        if name in ("CZ", "MCZ"):
            return ref.embed(ref.controlled(ref.Z, len(qs) - 1), qs, n)
        if name == "Toffoli":
            return ref.embed(ref.controlled(ref.X, 2), qs, n)
        if name in ("SWAP", "CSWAP"):
            sw = np.eye(4)[[0, 2, 1, 3]]
            return ref.embed(ref.controlled(sw, 1) if name == "CSWAP" else sw, qs, n)
        if name in CP:
            return ref.embed(ref.controlled(ref.param1({"CPHASE": "PHASE"}.get(name, name[1:]), p), 1), qs, n)
        if name.startswith("MC"):
            return ref.embed(ref.controlled(ref.param1({"MCPHASE": "PHASE"}.get(name, name[2:]), p), len(qs) - 1), qs, n)
        if name == "MAT":
            return ref.embed(MAT, qs, n)
        raise KeyError(name)

    MAT = ref._unitary(2, 3)

    def target(g):
        name, qs, _ = g
        return qs[-2] if name == "CSWAP" else qs[0] if name == "SWAP" else qs[-1]

    def density(prog, n, env=None, rho=None):
        """prog: sequence of (gate, noise) with noise = tuple of channel names (or (name, p) pairs)"""
        env = env or {}
        if rho is None:
            v = ref.zero_state(n)
            rho = np.outer(v, v.conj())
        for g, noise in prog:
            u = gate_matrix(g, n, env)
            rho = u @ rho @ u.conj().T
            for c in noise or ():
                nm, p = (CH[c] if isinstance(c, str) else (CH[c[0]][0], c[1]))
                rho = ref.apply_channel(rho, kraus(nm, p), target(g), n)
        return rho

    # ------------------------------------------------------------------ implementation
    def handler(noise):
        if not noise:
            return None
        ps = [getattr(NoiseProtocol.DIGITAL, c if isinstance(c, str) else c[0]) for c in noise]
        os_ = [{"error_probability": CH[c][1] if isinstance(c, str) else c[1]} for c in noise]
        return NoiseHandler(ps, os_) if len(ps) > 1 else NoiseHandler(ps[0], os_[0])

    def block(g, noise=None, params=None):
        name, qs, p = g
        nh = handler(noise) if not isinstance(noise, NoiseHandler) else noise
        if p is not None:
            p = [params[x] if isinstance(x, str) else x for x in p]
        if name in M1:
            return getattr(Q, name)(qs[0], noise=nh)
        if name == "MAT":
            return MatrixBlock(torch.tensor(MAT), qs, noise=nh)
        fn = getattr(Q, name)
        if name in P1:
            return fn(qs[0], *p, noise=nh)
        if name in ("CNOT", "CZ", "SWAP"):
            return fn(*qs, noise=nh)
        if name in CP:
            return fn(*qs, *p, noise=nh)
        if name in ("Toffoli", "MCZ"):
            return fn(qs[:-1], qs[-1], noise=nh)
        if name == "CSWAP":
            return fn(*qs, noise=nh)
        return fn(qs[:-1], qs[-1], *p, noise=nh)

    def rand_rho(n):
        v = ref.rand_state(n, 11)
        return np.outer(v, v.conj()), torch.tensor(v[None], dtype=torch.complex128)

    def one(case, out):
        """a noisy gate, on any qubits, from an entangled state"""
        n, g, noise, end = case
        rho, st = rand_rho(n)
        want = density([(g, noise)], n, rho=rho)
        kw = {} if end == "big" else {"endianness": Endianness.LITTLE}
        got = t2n(Q.run(QuantumCircuit(n, block(g, noise)), state=st, **kw))
        out.step(1 + len(noise))
        out.feed(got)
        if end != "big":
            want = ref.bitrev_mat(want)
        return close(got, want[None])

    PREP = ((("H", (0,), None), None), (("CNOT", (0, 1), None), None), (("RY", (1,), (0.7,)), None))

    def programs(case, out):
        n, prog = case
        want = density(prog, n)
        bs = [block(g, nz) for g, nz in prog]
        got = t2n(Q.run(QuantumCircuit(n, chain(*bs))))
        out.step(len(prog))
        out.feed(got)
        if all(not nz for _, nz in prog):
            return close(np.outer(got[0], got[0].conj()), want)
        return close(got, want[None])

    OBS = ("Z0", "X1", "ZZ", "sum")

    def obs(name, n):
        if name == "Z0":
            return Q.Z(0), ref.embed(ref.Z, (0,), n)
        if name == "X1":
            return Q.X(1), ref.embed(ref.X, (1,), n)
        if name == "ZZ":
            return kron(Q.Z(0), Q.Z(1)), ref.embed(ref.Z, (0,), n) @ ref.embed(ref.Z, (1,), n)
        return 0.5 * Q.Y(1) + 2 * Q.Z(0), 0.5 * ref.embed(ref.Y, (1,), n) + 2 * ref.embed(ref.Z, (0,), n)

    def targets_all(prog, noise, cls=None):
        return [(g, noise if cls is None or g[0] == cls else nz) for g, nz in prog]

    BASE = (("H", (0,), None), ("CNOT", (0, 1), None), ("RY", (1,), ("x",)), ("X", (0,), None), ("RX", (0,), ("v",)))

    def entry(case, out):
        """all ways of asking for noise, all ways of reading the result"""
        how, noise, mode, batch, what = case
        n = 2
        little, what = what.endswith("_little"), what.replace("_little", "")
        xs = [0.3, 1.7, -0.6][:max(1, batch)]
        env = {"v": 0.45}
        par = {"x": FeatureParameter("x"), "v": VariationalParameter("v", value=0.45)}
        values = {"x": torch.tensor(xs, dtype=torch.float64)}
        prog = [(g, None) for g in BASE]
        noisy = targets_all(prog, noise)
        bs = [block(g, noise if how == "gate" else None, par) for g in BASE]
        if how == "shared_gate":         # one handler object for all gates
            h = handler(noise)
            bs = [block(g, h, par) for g in BASE]
        c = QuantumCircuit(n, chain(*bs))
        if how == "set_circuit":
            set_noise(c, handler(noise))
        elif how == "set_block":
            b = chain(*bs)
            set_noise(b, handler(noise))
            c = QuantumCircuit(n, b)
        elif how == "nested":
            b = chain(bs[0], chain(bs[1], kron(bs[2], bs[3])), bs[4])
            set_noise(b, handler(noise))
            c = QuantumCircuit(n, b)
        cfg = {"noise": handler(noise)} if how == "config" else None
        call = {"noise": handler(noise)} if how == "call" else {}
        if little:  # the order of the bits shown is no matter of an expectation value
            call["endianness"] = Endianness.LITTLE
        model_kw = {"noise": handler(noise)} if how == "model" else {}
        rhos = [density(noisy, n, {**env, "x": x}) for x in xs]
        os_, ms = zip(*(obs(o, n) for o in OBS))
        want = np.array([[np.trace(m @ r).real for m in ms] for r in rhos])
        out.step(len(xs) * len(OBS))
        if what == "run":
            if how in ("call", "model"):
                return None
            got = t2n(Q.run(c, values=values, configuration=cfg))
            out.feed(got)
            return close(got, np.array(rhos))
        if what == "func":
            if how == "model":
                return None
            got = t2n(Q.expectation(c, list(os_), values=values, diff_mode=mode, configuration=cfg, **call))
        elif what == "model":
            m = QuantumModel(c, observable=list(os_), diff_mode=mode, configuration=cfg, **model_kw)
            got = t2n(m.expectation(values, **call))
        elif what == "grad":
            m = QuantumModel(c, observable=list(os_), diff_mode=mode, configuration=cfg, **model_kw)
            x = torch.tensor(xs, dtype=torch.float64, requires_grad=True)
            m.expectation({"x": x}, **call).sum().backward()
            got = x.grad.numpy()
            e = 1e-4
            f = lambda y: sum(np.trace(mm @ density(noisy, n, {**env, "x": y})).real for mm in ms)
            want = np.array([(f(y + e) - f(y - e)) / (2 * e) for y in xs])
            out.feed(got)
            return close(got, want, 1e-5)
        elif what == "sample":
            seen = []

            def seam(input, num_samples, *a, **kw):  # noqa: A002
                p, k = input, num_samples
                for row in (p if p.dim() == 2 else p[None]):
                    seen.append((row / row.sum()).detach().double().numpy())
                return real_multinomial(p, k, *a, **kw)
            torch.multinomial = seam
            try:
                if how == "model":
                    QuantumModel(c, **model_kw).sample(values, n_shots=50)
                else:
                    Q.sample(c, values=values, n_shots=50, configuration=cfg, **call)
            finally:
                torch.multinomial = real_multinomial
            if not seen:
                return None
            got = np.array(seen)
            out.feed(got)
            return close(got, np.array([np.real(np.diag(r)) for r in rhos]))
        out.feed(got)
        return close(got, want)

    CLS = {"H": Q.H, "CNOT": Q.CNOT, "RY": Q.RY, "X": Q.X, "RX": Q.RX, "Y": Q.Y}

    def filters(case, out):
        """set_noise on one kind of gate, sequences of set_noise, removal"""
        steps, on = case
        env, par = {"x": 0.3, "v": 0.45}, {"x": 0.3, "v": 0.45}
        prog = [(g, None) for g in BASE]
        bs = [block(g, None, par) for g in BASE]
        nest = chain(bs[0], chain(bs[1], kron(bs[2], bs[3])), bs[4])
        obj = QuantumCircuit(2, nest) if on == "circuit" else nest
        for cls, noise in steps:
            prog = [(g, noise if cls is None or g[0] == cls else nz) for g, nz in prog]
            r = set_noise(obj, handler(noise), target_class=None if cls is None else CLS[cls])
            if r is not obj:
                return "set_noise returned another object"
        for b, (g, nz) in zip(bs, prog):
            if (b.noise is None) != (not nz) or (nz and b.noise != handler(nz)):
                return f"noise of {g[0]} is {b.noise!r} instead of {nz}"
        got = t2n(Q.run(obj if on == "circuit" else QuantumCircuit(2, obj)))
        out.step(len(steps))
        out.feed(got)
        want = density(prog, 2, env)
        if all(not nz for _, nz in prog):
            return close(np.outer(got[0], got[0].conj()), want)
        return close(got, want[None])

    # ------------------------------------------------------------------ readout
    def conf(kind, n):
        if kind == "indep":
            return np.array([[[1 - a, b], [a, 1 - b]] for a, b in ((0.1, 0.25), (0.3, 0.05), (0.15, 0.4))[:n]])
        r = np.random.RandomState(4)
        m = r.rand(2 ** n, 2 ** n) + 2 * np.eye(2 ** n)
        return m / m.sum(axis=0, keepdims=True)

    def transfer(kind, n):
        c = conf(kind, n)
        return ref.kron_all(list(c)) if kind == "indep" else c

    def readout_handler(kind, n, digital=None):
        t = torch.tensor(conf(kind, n))
        p = NoiseProtocol.READOUT.INDEPENDENT if kind == "indep" else NoiseProtocol.READOUT.CORRELATED
        o = {"error_probability": t} if kind == "indep" else {"confusion_matrix": t}
        if digital:
            d = handler(digital)
            d.append(NoiseHandler(p, o))
            return d
        return NoiseHandler(p, o)

    def readout(case, out):
        kind, n, basis, digital, how, end = case
        gs = [("X", (i,), None) for i in range(n) if basis >> i & 1] or [("I", (0,), None)]
        if basis == 2 ** n:
            gs = [("H", (0,), None), ("RY", (n - 1,), (0.9,))] + ([("CNOT", (0, n - 1), None)] if n > 1 else [])
        prog = [(g, digital) for g in gs]
        want = transfer(kind, n) @ np.real(np.diag(density(prog, n)))
        c = QuantumCircuit(n, chain(*[block(g) for g in gs]))
        h = readout_handler(kind, n, digital)
        seen = []

        def seam(input, num_samples, *a, **kw):  # noqa: A002
            p, k = input, num_samples
            for row in (p if p.dim() == 2 else p[None]):
                seen.append((row / row.sum()).detach().double().numpy())
            return real_multinomial(p, k, *a, **kw)
        torch.multinomial = seam
        kw = {} if end == "big" else {"endianness": Endianness.LITTLE}
        try:
            if how == "func":
                r = Q.sample(c, n_shots=40, noise=h, **kw)
            elif how == "model":
                r = QuantumModel(c, noise=h).sample(n_shots=40, **kw)
            elif how == "call":
                r = QuantumModel(c).sample(n_shots=40, noise=h, **kw)
            else:
                r = QuantumModel(c, configuration={"noise": h}).sample(n_shots=40, **kw)
        finally:
            torch.multinomial = real_multinomial
        if any(sum(x.values()) != 40 for x in r) or any(len(k) != n for x in r for k in x):
            return f"counts {r}"
        if not seen:
            return None
        out.feed(np.array(seen))
        return close(np.array(seen), want[None])

    def zero_readout(case, out):
        """readout errors of probability 0 leave every bit string as it is"""
        n, basis, shots = case
        gs = [Q.X(i) for i in range(n) if basis >> (n - 1 - i) & 1] or [Q.I(0)]
        h = NoiseHandler(NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": 0.0})
        r = Q.sample(QuantumCircuit(n, chain(*gs)), n_shots=shots, noise=h)
        out.feed(r)
        return None if dict(r[0]) == {format(basis, f"0{n}b"): shots} else f"{r}"

    # ------------------------------------------------------------------ histories of calls
    A, B = ("BITFLIP",), ("AMPLITUDE_DAMPING", "PHASEFLIP")
    HOPS = ("exp", "expA", "expB", "expR", "run", "smp", "smpA", "smpR", "fexp", "fexpA", "fsmpR", "new", "newA", "cfgA", "other")

    def histories(case, out):
        """whatever happened before, noiseless calls are noiseless and noisy ones have exactly their own noise"""
        start, hist = case
        n = 2
        env = {"x": 0.3, "v": 0.45}
        par = {"x": 0.3, "v": VariationalParameter("v", value=0.45)}
        own = {0: None} if start != "gate_noise" else {0: ("PHASEFLIP",)}
        prog = [(g, own.get(i)) for i, g in enumerate(BASE)]
        bs = [block(g, own.get(i), par) for i, g in enumerate(BASE)]
        c = QuantumCircuit(n, chain(*bs))
        O, M = obs("sum", n)
        base = A if start == "model_noise" else None     # noise the model was given
        m = QuantumModel(c, observable=O, noise=handler(base))
        hA, hB, hR = handler(A), handler(B), readout_handler("indep", n)

        def want_rho(noise):
            return density(prog if noise is None else targets_all(prog, noise), n, env)

        def ev(noise):
            return np.array([[np.trace(M @ want_rho(noise)).real]])

        seen = []

        def seam(input, num_samples, *a, **kw):  # noqa: A002
            p, k = input, num_samples
            seen.append((p / p.sum()).detach().double().numpy().reshape(-1))
            return real_multinomial(p, k, *a, **kw)
        T = transfer("indep", n)
        for i, op in enumerate(hist):
            del seen[:]
            msg = None
            torch.multinomial = seam
            try:
                if op in ("exp", "expA", "expB"):
                    nz = {"exp": base, "expA": A, "expB": B}[op]
                    kw = {} if op == "exp" else {"noise": {"expA": hA, "expB": hB}[op]}
                    msg = close(t2n(m.expectation({}, **kw)), ev(nz))
                elif op == "expR":
                    m.expectation({}, noise=hR)
                elif op == "run":
                    r = t2n(m.run({}))
                    w = want_rho(None)
                    msg = close(np.outer(r[0], r[0].conj()) if r.ndim == 2 else r[0], w)
                elif op in ("smp", "smpA"):
                    m.sample({}, n_shots=20, **({} if op == "smp" else {"noise": hA}))
                    if seen:
                        msg = close(seen[0], np.real(np.diag(want_rho(base if op == "smp" else A))))
                elif op == "smpR":
                    m.sample({}, n_shots=20, noise=hR)
                    if seen:      # a call's noise replaces the noise of the gates
                        pr = [(g, None) for g, _ in prog]
                        msg = close(seen[0], T @ np.real(np.diag(density(pr, n, env))))
                elif op == "fexp":
                    msg = close(t2n(Q.expectation(c, O)), ev(None))
                elif op == "fexpA":
                    msg = close(t2n(Q.expectation(c, O, noise=hA)), ev(A))
                elif op == "fsmpR":
                    Q.sample(c, n_shots=20, noise=hR)
                    if seen:
                        pr = [(g, None) for g, _ in prog]
                        msg = close(seen[0], T @ np.real(np.diag(density(pr, n, env))))
                elif op == "new":
                    msg = close(t2n(QuantumModel(c, observable=O).expectation({})), ev(None))
                elif op == "newA":
                    msg = close(t2n(QuantumModel(c, observable=O, noise=hA).expectation({})), ev(A))
                elif op == "cfgA":
                    msg = close(t2n(QuantumModel(c, observable=O, configuration={"noise": hA}).expectation({})), ev(A))
                elif op == "other":      # the same gates in another circuit
                    c2 = QuantumCircuit(n, chain(*bs))
                    msg = close(t2n(Q.expectation(c2, O)), ev(None))
            finally:
                torch.multinomial = real_multinomial
            out.step(1)
            if msg:
                return f"step {i} ({op}) after {hist[:i]}: {msg}"
            if hA != handler(A) or hB != handler(B) or hR != readout_handler("indep", n):
                return f"step {i} ({op}) changed a noise handler"
            if any((b.noise is None) != (own.get(j) is None) for j, b in enumerate(bs)):
                return f"step {i} ({op}) changed the noise of the caller's gates"
        return None

    def independent(case, out):
        """set_noise on one object does not reach equal objects built separately"""
        g, h, noise = case
        a, b = block(g), block(g)
        other = block(h)
        set_noise(a, handler(noise))
        if b.noise is not None or other.noise is not None:
            return "noise on another block"
        n = 3
        got = t2n(Q.run(QuantumCircuit(n, chain(other, b))))
        out.feed(got)
        w = gate_matrix(g, n, {}) @ gate_matrix(h, n, {}) @ ref.zero_state(n)
        return close(got, w[None])

    chk = Check("P16", "density matrices, expectation values, gradients and outcome distributions of noisy programs equal those of the "
                "Kraus-operator reference; noise reaches exactly the requested gates and calls",
                bounds="7 channels and pairs of them; all gates and placements on 2-3 qubits; all histories of 2 (3 thorough) calls "
                "on shared circuits, models and gates; distributions read at torch.multinomial",
                assumptions=["a channel acts on the gate's (first) target qubit", "scaled gates, evolutions and the adjoint mode, for "
                             "which digital noise is not defined, are excluded",
                             "noise passed directly to the low-level backend interface is set on the circuit given to it (an existing test relies on it)"])
    gates2 = [(g, (q,), None) for g in G1 for q in range(2)] + [(g, (q,), UANG if g == "U" else (ANG,)) for g in P1 for q in range(2)]
    gates2 += [(g, p, None) for g in C2 for p in permutations(range(2))] + [(g, p, (ANG,)) for g in CP for p in permutations(range(2))]
    gates2 += [("MAT", (q,), None) for q in range(2)]
    gates3 = [(g, p, None) for g in C2 for p in permutations(range(3), 2)] + [(g, p, (ANG,)) for g in CP for p in permutations(range(3), 2)]
    gates3 += [(g, p, (ANG,) if g not in ("Toffoli", "CSWAP", "MCZ") else None) for g in C3 for p in permutations(range(3))]
    gates3 += [(g, (2,), None) for g in G1]
    pairs = [(a, b) for a in NAMES for b in NAMES if a != b]
    cases = [(2, g, (c,), e) for g in gates2 for c in NAMES for e in ("big",)]
    cases += [(2, g, (c,), "little") for g in gates2[::3] for c in NAMES]
    cases += [(3, g, (c,), e) for g in gates3 for c in (NAMES if THOROUGH else ("DEPOLARIZING", "AMPLITUDE_DAMPING")) for e in ("big", "little")]
    cases += [(2, g, p, "big") for g in (("H", (1,), None), ("CNOT", (0, 1), None)) for p in pairs]
    cases += [(2, ("X", (0,), None), ((c, 0.0),), "big") for c in ("BITFLIP", "PHASEFLIP", "DEPOLARIZING", "AMPLITUDE_DAMPING", "PHASE_DAMPING")]
    cases += [(2, ("X", (0,), None), ((c, 1.0),), "big") for c in ("BITFLIP", "PHASEFLIP", "AMPLITUDE_DAMPING", "PHASE_DAMPING")]
    chk.family("single_gates", cases, one)
    some = [("H", (0,), None), ("CNOT", (0, 1), None), ("RY", (1,), (0.9,)), ("SWAP", (1, 0), None), ("CRX", (1, 0), (1.3,))]
    nz = (None, ("BITFLIP",), ("AMPLITUDE_DAMPING",), ("PHASEFLIP", "AMPLITUDE_DAMPING"))
    progs = [(2, PREP + ((g, a), (h, b))) for g, h in product(some, repeat=2) for a, b in product(nz, repeat=2)]
    if THOROUGH:
        progs += [(2, PREP[:1] + ((g, a), (h, b), (k, c))) for g, h, k in product(some, repeat=3) for a, b, c in product(nz, repeat=3)]
    chk.family("programs", progs, programs)
    hows = ("gate", "shared_gate", "set_circuit", "set_block", "nested", "config", "call", "model")
    chans = [(c,) for c in NAMES] + [("BITFLIP", "AMPLITUDE_DAMPING"), ("AMPLITUDE_DAMPING", "BITFLIP")]
    cases = [(h, c, m, b, w) for h in hows for c in chans for m in ("ad", "gpsr") for b in (1, 3)
             for w in ("run", "func", "model", "grad", "sample") if not (w in ("run", "sample") and m != "ad")]
    cases += [(h, c, m, b, w + "_little") for h in hows for c in chans[::3] for m in ("ad", "gpsr") for b in (1, 2, 3) for w in ("func", "model")]
    chk.family("entry_points", cases, entry)
    steps1 = [(cls, z) for cls in (None, "H", "CNOT", "RY", "X", "Y") for z in (A, B, None)]
    chk.family("filters", [((s,), o) for s in steps1 for o in ("block", "circuit")]
               + [(s, o) for s in product(steps1, repeat=2) for o in ("block", "circuit")], filters)
    cases = [(k, n, b, d, h, "big") for k in ("indep", "corr") for n in (1, 2, 3) for b in range(2 ** n + 1)
             for d in (None, ("BITFLIP",)) for h in ("func", "model", "call", "config")]
    cases += [(k, 2, b, None, h, "little") for k in ("indep", "corr") for b in range(5) for h in ("func", "model")]
    chk.family("readout", cases, readout)
    chk.family("readout_zero", [(n, b, s) for n in (1, 2, 3) for b in range(2 ** n) for s in (1, 100)], zero_readout)
    hh = list(product(HOPS, repeat=2)) if not THOROUGH else list(product(HOPS, repeat=3))
    hh += [(a, b, c) for a in ("expA", "smpA", "fexpA", "newA", "cfgA", "smpR") for b in ("expB", "smpR", "cfgA") for c in HOPS]
    chk.family("call_histories", [(s, h) for s in ("plain", "model_noise", "gate_noise") for h in hh], histories)
    chk.family("independence", [(g, h, z) for g in gates2[::2] for h in gates2[1::5] for z in (A, B)], independent)
    return chk


guard_main(("P16", make))
