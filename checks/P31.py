"""P31: the Pulser backend computes what the program says, up to the resolution of its pulses."""
from itertools import combinations, product

from lib.harness import Check, Skip, guard_main, THOROUGH

C6 = {50: 96120.72, 60: 865723.02, 70: 5420158.53}
REG = {
    "one": ((0.0, 0.0),),
    "pair": ((0.0, 0.0), (9.0, 0.0)),
    "tight": ((0.0, 0.0), (7.0, 0.0)),
    "fpair": ((-15.0, 0.0), (15.0, 0.0)),
    "ftri": ((-15.0, 0.0), (15.0, 0.0), (0.0, 30.0)),
    "tri": ((0.0, 0.0), (9.0, 0.0), (3.0, 10.0)),
}
ANGLES = (-9.0, -4.0, -3.141592653589793, -1.5707963267948966, -1.0, -0.3, -0.05, 0.0, 0.02, 0.05, 0.3, 1.0,
          1.5707963267948966, 2.5, 3.141592653589793, 4.0, 6.283185307179586, 9.0)
# words are made of these; every letter is (kind, arguments, qubits)
DIGITAL = (
    ("RX", (0.7,), (0,)), ("RX", (-1.3,), (1,)), ("RY", (1.9,), (0,)), ("RY", (-0.6,), (1,)), ("RZ", (2.2,), (0,)),
    ("RZ", (-0.8,), (1,)), ("rx", (1.1,), "g"), ("ry", (-0.9,), "g"), ("rz", (0.8,), "g"), ("ry", (0.7,), (1,)),
    ("rot", (300.0, 2.1, 1.3, 0.4), "g"), ("wait", (200.0,), "g"),
    ("kron", (("RX", (0.5,), (0,)), ("RY", (-0.7,), (1,))), None),
    ("kron", (("rx", (0.8,), (0,)), ("ry", (0.8,), (1,))), None),
)
ANALOG = (
    ("rx", (1.1,), "g"), ("ry", (0.9,), "g"), ("rz", (0.8,), "g"), ("rz", (-0.8,), "g"), ("rot", (300.0, 2.1, 0.0, 0.0), "g"),
    ("rot", (400.0, 3.0, -1.5, 0.9), "g"), ("rot", (250.0, 1.5, 2.0, -2.0), "g"), ("wait", (300.0,), "g"),
    ("rx", (0.8,), (0,)), ("rot", (300.0, 2.0, 1.0, 0.5), (1,)),
)
# observables: (terms) = ((coefficient, ((pauli, qubit), ...)), ...)
OBS = (
    ((1.0, (("Z", 0),)),),
    ((1.0, (("X", 1),)),),
    ((0.5, (("Z", 0), ("Y", 1))), (-1.5, (("N", 1),))),
)


def make():
    import contextlib
    import logging
    import math
    import warnings
    import numpy as np
    import torch
    warnings.filterwarnings("ignore")
    import qadence as Q
    from qadence import (AnalogInteraction, AnalogRot, AnalogRX, AnalogRY, AnalogRZ, BackendName, FeatureParameter,
                         NoiseHandler, QuantumCircuit, QuantumModel, Register, VariationalParameter, add, chain, kron)
    from qadence.analog import AddressingPattern, RydbergDevice
    from qadence.types import DeviceType, Endianness, Interaction, NoiseProtocol
    from lib import ref

    logging.disable(logging.WARNING)
    PAULI = {"X": np.array([[0, 1], [1, 0]], complex), "Y": np.array([[0, -1j], [1j, 0]]),
             "Z": np.diag([1, -1]).astype(complex), "N": np.diag([0, 1]).astype(complex), "I": np.eye(2, dtype=complex)}
    GEN = {"RX": "X", "RY": "Y", "RZ": "Z"}
    RES = {"ideal": 0.02, "default": 0.02, "realistic": 0.06}    # half a clock period at the largest amplitude

    # ------------------------------------------------------------------ reference
    def h_int(co, level=60):
        n = len(co)
        h = np.zeros((2 ** n, 2 ** n), complex)
        for i, j in combinations(range(n), 2):
            h += C6[level] / math.dist(co[i], co[j]) ** 6 * ref.embed(PAULI["N"], (i,), n) @ ref.embed(PAULI["N"], (j,), n)
        return h

    def h_pat(co, pat):
        n = len(co)
        h = np.zeros((2 ** n, 2 ** n), complex)
        if pat:
            amp, det, wa, wd = pat
            for i in range(n):
                h += 0.5 * amp * wa[i] * ref.embed(PAULI["X"], (i,), n) - det * wd[i] * ref.embed(PAULI["N"], (i,), n)
        return h

    def terms(kind, a):
        if kind == "rot":
            return a
        if kind == "wait":
            return a[0], 0.0, 0.0, 0.0
        t = a[0] / math.pi * 1000
        return {"rx": (t, math.pi, 0.0, 0.0), "ry": (t, math.pi, 0.0, -math.pi / 2), "rz": (t, 0.0, math.pi, 0.0)}[kind]

    def drive(co, qs, o, d, p):
        n = len(co)
        h = np.zeros((2 ** n, 2 ** n), complex)
        for i in range(n) if qs == "g" else qs:
            h += o / 2 * (math.cos(p) * ref.embed(PAULI["X"], (i,), n) - math.sin(p) * ref.embed(PAULI["Y"], (i,), n))
            h -= d * ref.embed(PAULI["N"], (i,), n)
        return h

    def uni(co, letter, level=60, pat=None):
        kind, a, qs = letter
        n = len(co)
        if kind in GEN:
            return ref.embed(ref.expm_h(PAULI[GEN[kind]] / 2, a[0]), qs, n)
        if kind in ("kron", "chain"):
            u = np.eye(2 ** n, dtype=complex)
            for x in a:
                u = uni(co, x, level, pat) @ u
            return u
        t, o, d, p = terms(kind, a)
        if t < 0:       # the opposite rotation, under the same interaction
            t, o, d = -t, -o, -d
        return ref.expm_h(h_int(co, level) + h_pat(co, pat) + drive(co, qs, o, d, p), t / 1000)

    def word_u(co, word, **kw):
        u = np.eye(2 ** len(co), dtype=complex)
        for x in word:
            u = uni(co, x, **kw) @ u
        return u

    def omat(obs, n, th=1.0):
        m = np.zeros((2 ** n, 2 ** n), complex)
        for c, ps in obs:
            k = np.eye(2 ** n, dtype=complex)
            for p, q in ps:
                k = k @ ref.embed(PAULI[p], (q,), n)
            m += c * k
        return th * m

    # ------------------------------------------------------------------ implementation
    def device(name, **kw):
        if name != "default":
            kw["type"] = {"ideal": DeviceType.IDEALIZED, "realistic": DeviceType.REALISTIC}[name]
        return RydbergDevice(**kw)

    def register(rname, dev="ideal", **kw):
        return Register.from_coordinates(list(REG[rname]), device_specs=device(dev, **kw))

    def blk(letter, over=None):
        kind, a, qs = letter
        a = list(a)
        for i, v in (over or {}).items():
            a[i] = v
        if kind in GEN:
            return getattr(Q, kind)(qs[0], a[0])
        if kind in ("kron", "chain"):
            return (kron if kind == "kron" else chain)(*(blk(x) for x in a))
        sup = "global" if qs == "g" else tuple(qs)
        if kind == "rot":
            return AnalogRot(duration=a[0], omega=a[1], delta=a[2], phase=a[3], qubit_support=sup)
        if kind == "wait":
            return AnalogInteraction(a[0], qubit_support=sup)
        return {"rx": AnalogRX, "ry": AnalogRY, "rz": AnalogRZ}[kind](a[0], qubit_support=sup)

    def oblk(obs, par=None):
        b = add(*(c * kron(*(getattr(Q, p)(q) for p, q in ps)) for c, ps in obs))
        return b if par is None else par * b

    def model(reg, block, **kw):
        return QuantumModel(QuantumCircuit(reg, block), backend=BackendName.PULSER, diff_mode="gpsr", **kw)

    def init(name, n):
        if name == "none":
            return None
        v = np.zeros(2 ** n, complex)
        if name == "basis":
            v[min(1, 2 ** n - 1)] = 1
        else:
            v = ref.rand_state(n, 11)
        return v

    def tst(v):
        return None if v is None else torch.tensor(v[None], dtype=torch.complex128)

    def dist(got, want):
        """distance of the state vectors up to a global phase"""
        o = np.vdot(got, want)
        ph = o / abs(o) if abs(o) > 1e-9 else 1.0
        return float(np.linalg.norm(got * ph - want))

    def cmp(got, want, tol):
        got = got.detach().numpy()
        if got.shape != want.shape:
            return f"shape {got.shape}, expected {want.shape}"
        for i, (g, w) in enumerate(zip(got, want)):
            e = dist(g, w)
            if not e <= tol:
                return f"state {i}: {np.round(g, 3).tolist()}, expected (up to a phase) {np.round(w, 3).tolist()}: off by {e:.3f}"
        return None

    def z(n):
        v = np.zeros(2 ** n, complex)
        v[0] = 1
        return v

    # ------------------------------------------------------------------ families
    def gates(case, out):
        """one rotation of one qubit: any angle, device, target and initial state"""
        kind, ang, rname, q, dev, st = case
        co = REG[rname]
        n = len(co)
        s = init(st, n)
        if dev != "realistic" and abs(ang) < 0.12:
            raise Skip          # shorter than what the simulator of pulses accepts
        letter = (kind, (ang,), (q,))
        got = model(register(rname, dev), blk(letter)).run({}, state=tst(s))
        out.step(1)
        out.feed(np.round(got.numpy(), 2))
        return cmp(got, (uni(co, letter) @ (z(n) if s is None else s))[None], RES[dev])

    def rotations(case, out):
        """one analog block on interacting registers"""
        letter, rname, dev, st, level = case
        co = REG[rname]
        n = len(co)
        if letter[2] != "g" and max(letter[2]) >= n:
            raise Skip
        s = init(st, n)
        got = model(register(rname, dev, rydberg_level=level), blk(letter)).run({}, state=tst(s))
        out.step(1)
        out.feed(np.round(got.numpy(), 2))
        return cmp(got, (uni(co, letter, level) @ (z(n) if s is None else s))[None], RES[dev])

    def whole(letter, n):
        """local analog blocks can be chained once the other qubits wait for them"""
        kind, a, qs = letter
        if kind not in ("rx", "ry", "rz", "rot") or qs == "g":
            return blk(letter)
        t = a[0] if kind == "rot" else abs(a[0]) * 1000 / math.pi
        return kron(blk(letter), *(AnalogInteraction(t, qubit_support=(i,)) for i in range(n) if i not in qs))

    def words(case, out):
        rname, word, dev, st, nest = case
        co = REG[rname]
        n = len(co)
        s = init(st, n)
        bs = [whole(x, n) for x in word]
        b = chain(*bs) if not nest or len(bs) < 3 else chain(bs[0], chain(*bs[1:]))
        got = model(register(rname, dev), b).run({}, state=tst(s))
        out.step(len(word))
        out.feed(np.round(got.numpy(), 2))
        return cmp(got, (word_u(co, word) @ (z(n) if s is None else s))[None], RES[dev] * 1.3 * (len(word) + 1))

    def params(case, out):
        """numbers replaced by parameters, with values of both signs, in batches"""
        rname, letter, arg, kind, vals = case
        co = REG[rname]
        par = {"f": lambda: FeatureParameter("t"), "v": lambda: VariationalParameter("t", value=vals[0]),
               "e": lambda: 0.5 * FeatureParameter("t") - 1.0}[kind]()
        if kind == "v":
            vals = vals[:1]
        m = model(register(rname), blk(letter, {arg: par}))
        given = {}
        if kind != "v":
            given = {"t": torch.tensor(vals if kind == "f" else [(v + 1.0) / 0.5 for v in vals], dtype=torch.float64)}
        want = []
        for v in vals:
            a = list(letter[1])
            a[arg] = v
            want.append(uni(co, (letter[0], tuple(a), letter[2])) @ z(len(co)))
        got = m.run(given)
        out.step(len(vals))
        out.feed(np.round(got.detach().numpy(), 2))
        return cmp(got, np.array(want), 0.03)

    def shared(case, out):
        """several gates sharing a parameter, several parameters, and numbers among them"""
        form, vals = case
        a, b = FeatureParameter("a"), FeatureParameter("b")
        L = {
            "twice": (lambda a, b: (("RX", (a,), (0,)), ("RY", (a,), (1,)))),
            "opposite": (lambda a, b: (("RX", (a,), (0,)), ("RX", (-a,), (0,)))),
            "two": (lambda a, b: (("RX", (a,), (0,)), ("RZ", (b,), (0,)), ("RY", (a,), (0,)))),
            "mixed": (lambda a, b: (("RX", (a,), (0,)), ("RY", (0.7,), (0,)), ("rx", (b,), "g"))),
            "product": (lambda a, b: (("RX", (a * b,), (1,)), ("RY", (a + b,), (0,)))),
        }[form]
        co = REG["fpair"]
        m = model(register("fpair"), chain(*(blk(x) for x in L(a, b))))
        used = {"a": torch.tensor([v[0] for v in vals], dtype=torch.float64)}
        if form in ("two", "mixed", "product"):
            used["b"] = torch.tensor([v[1] for v in vals], dtype=torch.float64)
        got = m.run(used)
        out.step(len(vals))
        out.feed(np.round(got.detach().numpy(), 2))
        return cmp(got, np.array([word_u(co, L(*v)) @ z(2) for v in vals]), 0.08)

    def patterns(case, out):
        letter, rname, pat, how = case
        co = REG[rname]
        n = len(co)
        amp, det, wa, wd = pat
        p = AddressingPattern(n_qubits=n, amp=amp, det=det, weights_amp={i: wa[i] for i in range(n)},
                              weights_det={i: wd[i] for i in range(n)})
        reg = register(rname, "ideal", pattern=p)
        b = blk(letter)
        u = uni(co, letter, pat=(amp, -abs(det), wa, wd))
        want = (u @ z(n))[None]
        m = model(reg, b, observable=[oblk(o) for o in OBS[:2]] if n > 1 else oblk(OBS[0]))
        out.step(1)
        if how == "run":
            got = m.run({})
            out.feed(np.round(got.numpy(), 2))
            return cmp(got, want, 0.03) or cmp(m.run({}), want, 0.03)
        if how == "noisy":
            nz = NoiseHandler(NoiseProtocol.ANALOG.DEPHASING, {"noise_probs": 1e-6})
            got = m.expectation({}, noise=nz).flatten().tolist()
        elif how == "expectation":
            got = m.expectation({}).flatten().tolist()
        else:
            w, smp = sampled(lambda: m.sample({}, n_shots=7))
            e = np.abs(w[0] - np.abs(want[0]) ** 2).max()
            return None if e < 0.03 else f"sampling weights {w[0].tolist()}"
        exp = [(want[0].conj() @ omat(o, n) @ want[0]).real for o in (OBS[:2] if n > 1 else OBS[:1])]
        return None if np.abs(np.array(got) - exp).max() < 0.04 else f"expectation {got}, expected {exp}"

    @contextlib.contextmanager
    def patched_multinomial(weights, draw):
        import pulser.result as pr
        real = pr.multinomial

        def mn(n, p):
            weights.append(np.asarray(p, float))
            return np.array(draw(n, len(p)))
        pr.multinomial = mn
        try:
            yield
        finally:
            pr.multinomial = real

    def sampled(fn, draw=None):
        w = []
        with patched_multinomial(w, draw or (lambda n, k: [0] * n)):
            s = fn()
        return w, s

    def readout(case, out):
        """states, samples and expectation values in both orders, from the same program"""
        word, rname, endian, batch, st = case
        co = REG[rname]
        n = len(co)
        big = endian == "Big"
        E = Endianness.BIG if big else Endianness.LITTLE
        x = FeatureParameter("x")
        vals = (0.6, -1.1, 2.0)[:batch]
        mk = lambda v: (("RX", (v,), (0,)),) + tuple(word)
        s = init(st, n)
        m = model(register(rname), chain(blk(("RX", (x,), (0,))), *(blk(w) for w in word)), observable=[oblk(o) for o in OBS])
        g = {"x": torch.tensor(vals, dtype=torch.float64)}
        psi = np.array([word_u(co, mk(v)) @ (z(n) if s is None else s) for v in vals])
        perm = [int(format(i, f"0{n}b")[::-1], 2) for i in range(2 ** n)]
        shown = psi if big else psi[:, perm]
        tol = 0.03 * (len(word) + 2)
        got = m.run(g, state=tst(s), endianness=E)
        out.step(3 * len(vals))
        e = cmp(got, shown, tol)
        if e:
            return "run: " + e
        # counts: shots dictated to land on outcome number k of pulser's list of weights
        for k in range(2 ** n):
            w, smp = sampled(lambda: m.sample(g, state=tst(s), n_shots=5, endianness=E),
                             lambda N, K: [k] * N)
            if len(w) != len(vals) or len(smp) != len(vals):
                return f"{len(w)} draws and {len(smp)} counters for {len(vals)} values"
            for i, (wi, c) in enumerate(zip(w, smp)):
                bits = next(iter(c))
                if sum(c.values()) != 5 or len(c) != 1 or len(bits) != n:
                    return f"counter {dict(c)} from 5 shots on one outcome"
                p = abs(shown[i][int(bits, 2)]) ** 2
                if abs(wi[k] - p) > tol:
                    return f"bitstring {bits} counted with weight {wi[k]:.3f}, its probability is {p:.3f}"
        out.feed(np.round(np.abs(psi) ** 2, 1))
        # the order of the bits shown is no matter of an expectation value
        ex = m.expectation(g, state=tst(s), endianness=E).detach().numpy()
        want = np.array([[(v.conj() @ omat(o, n) @ v).real for o in OBS] for v in psi])
        if ex.shape != want.shape:
            return f"expectation of shape {ex.shape}"
        return None if np.abs(ex - want).max() < 1.5 * tol else f"expectation {ex.tolist()}, expected {want.tolist()}"

    def observables(case, out):
        """observables with parameters, one or several, batched or not"""
        which, kinds, batch = case
        co = REG["fpair"]
        vals = (0.6, -1.1, 2.0)[:batch]
        ths = (1.5, -0.5, 0.25)[:batch]
        x = FeatureParameter("x")
        obs, want, given = [], [], {"x": torch.tensor(vals, dtype=torch.float64)}
        psi = [word_u(co, (("RX", (v,), (0,)), ("RY", (0.8,), (1,)))) @ z(2) for v in vals]
        for w, k in zip(which, kinds):
            th = {"n": [1.0] * batch, "v": [0.75] * batch, "f": list(ths), "t": [1.25] * batch}[k]
            par = {"n": None, "v": VariationalParameter("c", value=0.75), "f": FeatureParameter("w"),
                   "t": VariationalParameter("u", value=0.3)}[k]
            if k == "f":
                given["w"] = torch.tensor(ths, dtype=torch.float64)
            obs.append(oblk(OBS[w], par))
            want.append([(v.conj() @ omat(OBS[w], 2, t) @ v).real for v, t in zip(psi, th)])
        m = model(register("fpair"), chain(Q.RX(0, x), Q.RY(1, 0.8)), observable=obs if len(obs) > 1 else obs[0])
        for name, p in m.named_parameters():
            if name.split(".")[-1] == "u":
                p.data.fill_(1.25)      # as an optimiser does
        got = m.expectation(given).detach().numpy()
        want = np.array(want).T
        out.step(len(obs) * batch)
        out.feed(np.round(want, 1))
        if got.shape != want.shape:
            return f"shape {got.shape}, expected {want.shape}"
        return None if np.abs(got - want).max() < 0.08 else f"{got.tolist()}, expected {want.tolist()}"

    def lindblad(co, word, proto, rate, s):
        """density matrix after the analog blocks of a word under Markovian noise on every qubit"""
        n = len(co)
        rho = np.outer(s, s.conj())
        d = 2 ** n
        if proto == "deph":
            ls = [math.sqrt(2 * rate) * ref.embed(PAULI["N"], (i,), n) for i in range(n)]
        else:
            ls = [math.sqrt(rate / 4) * ref.embed(PAULI[p], (i,), n) for i in range(n) for p in "XYZ"]
        I = np.eye(d)
        D = sum((np.kron(l, l.conj()) - 0.5 * np.kron(l.conj().T @ l, I) - 0.5 * np.kron(I, (l.conj().T @ l).T)
                 for l in ls), np.zeros((d * d, d * d), complex))
        v = rho.reshape(-1)
        from scipy.linalg import expm
        for kind, a, qs in word:
            t, o, dl, p = terms(kind, a)
            h = h_int(co) + drive(co, qs, o, dl, p)
            L = -1j * (np.kron(h, I) - np.kron(I, h.T)) + D
            v = expm(L * t / 1000) @ v
        return v.reshape(d, d)

    PROTO = {"deph": NoiseProtocol.ANALOG.DEPHASING, "depo": NoiseProtocol.ANALOG.DEPOLARIZING}

    def noisy(case, out):
        """analog noise of one or several strengths, from any state"""
        word, rname, proto, probs, st, nobs, how = case
        co = REG[rname]
        n = len(co)
        s = init(st, n)
        s0 = z(n) if s is None else s
        nz = NoiseHandler(PROTO[proto], {"noise_probs": list(probs) if isinstance(probs, tuple) else probs})
        obs = OBS[:nobs]
        if n == 1:
            obs = OBS[:1]
        m = model(register(rname), chain(*(blk(x) for x in word)), observable=[oblk(o) for o in obs],
                  **({"noise": nz} if how == "model" else {}))
        got = m.expectation({}, state=tst(s), **({"noise": nz} if how == "call" else {})).detach().numpy()
        ps = probs if isinstance(probs, tuple) else (probs,)
        want = np.array([[np.trace(lindblad(co, word, proto, p, s0) @ omat(o, n)).real for p in ps] for o in obs])
        out.step(len(ps))
        out.feed(np.round(want, 1))
        if got.shape != want.shape:
            return f"shape {got.shape}, expected {want.shape}"
        return None if np.abs(got - want).max() < 0.05 else f"{got.tolist()}, expected {want.tolist()}"

    def noisy_states(case, out):
        """density matrices in both orders, of one or several programs and noise strengths"""
        word, rname, proto, probs, st, endian, batch = case
        from qadence import backend_factory
        co = REG[rname]
        n = len(co)
        s = init(st, n)
        vals = (0.6, 1.5, 2.0)[:batch]
        front = [blk(x) for x in word]
        if batch:
            front = [AnalogRX(FeatureParameter("x"))] + front
        bk = backend_factory(BackendName.PULSER, diff_mode=None)
        conv = bk.convert(QuantumCircuit(register(rname), chain(*front)))
        given = conv.embedding_fn(conv.params, {"x": torch.tensor(vals, dtype=torch.float64)}) if batch else {}
        nz = NoiseHandler(PROTO[proto], {"noise_probs": list(probs) if isinstance(probs, tuple) else probs})
        E = Endianness.BIG if endian == "Big" else Endianness.LITTLE
        got = bk.run(conv.circuit, given, state=tst(s), noise=nz, endianness=E).detach().numpy()
        perm = list(range(2 ** n)) if endian == "Big" else [int(format(i, f"0{n}b")[::-1], 2) for i in range(2 ** n)]
        progs = [(("rx", (v,), "g"),) + tuple(word) for v in vals] if batch else [tuple(word)]
        want = np.array([[lindblad(co, pr, proto, p, z(n) if s is None else s)[np.ix_(perm, perm)] for pr in progs]
                         for p in (probs if isinstance(probs, tuple) else (probs,))])
        if not batch:
            want = want[:, 0] if isinstance(probs, tuple) else want
        if not isinstance(probs, tuple):
            want = want[0]
        out.step(want.size // 4 ** n)
        out.feed(np.round(np.abs(want), 1))
        if got.shape != want.shape:
            return f"shape {got.shape}, expected {want.shape}"
        return None if np.abs(got - want).max() < 0.05 else f"off by {np.abs(got - want).max():.3f}: {np.round(got, 2).tolist()}, expected {np.round(want, 2).tolist()}"

    def histories(case, out):
        """any sequence of calls on one model gives what each call gives on a fresh one"""
        word, = case
        prog = (("rx", (1.0,), "g"), ("ry", (0.5,), "g"))
        nzs = {"D": NoiseHandler(PROTO["deph"], {"noise_probs": 0.3}), "P": NoiseHandler(PROTO["depo"], {"noise_probs": [0.2, 0.4]})}

        def new():
            x = FeatureParameter("x")
            return model(register("tight"), chain(AnalogRX(x), blk(prog[1])), observable=[oblk(o) for o in OBS[:2]])
        g = {"x": torch.tensor([1.0], dtype=torch.float64)}

        def call(m, op):
            if op == "r":
                return m.run(g).detach().numpy()
            if op == "e":
                return m.expectation(g).detach().numpy()
            if op == "n":
                return m.run({"x": torch.tensor([-0.5, 0.3], dtype=torch.float64)}).detach().numpy()
            if op == "s":
                w, smp = sampled(lambda: m.sample(g, n_shots=3))
                return np.concatenate([w[0], [sum(smp[0].values())]])
            return m.expectation(g, noise=nzs[op]).detach().numpy()
        m = new()
        for i, op in enumerate(word):
            if op not in fresh:
                fresh[op] = call(new(), op)
            try:
                got = call(m, op)
            except Exception as e:
                return f"call {i} of {word} ({op}): {type(e).__name__}: {e}"
            out.step(1)
            if got.shape != fresh[op].shape or np.abs(got - fresh[op]).max() > 1e-6:
                return f"call {i} of {word} ({op}) gave {np.round(got, 3).tolist()}, on a fresh model {np.round(fresh[op], 3).tolist()}"
        out.feed(len(word))
        return None

    fresh = {}

    def direct(case, out):
        """any sequence of calls on one circuit converted once by the backend itself, without a model around it"""
        word, pat, par = case
        from qadence import backend_factory
        co = REG["tight"]
        kw = {}
        p = None
        if pat:
            p = (1.5, -4.0, (0.3, 0.9), (0.8, 0.2))
            kw["pattern"] = AddressingPattern(n_qubits=2, amp=1.5, det=4.0, weights_amp={0: 0.3, 1: 0.9},
                                              weights_det={0: 0.8, 1: 0.2})
        prog = (("rx", (1.0,), "g"), ("ry", (0.5,), "g"))
        b = chain(AnalogRX(FeatureParameter("x") if par else 1.0), blk(prog[1]))
        bk = backend_factory(BackendName.PULSER, diff_mode=None)
        conv = bk.convert(QuantumCircuit(register("tight", "ideal", **kw), b), [oblk(o) for o in OBS[:2]])
        given = conv.embedding_fn(conv.params, {"x": torch.tensor([1.0], dtype=torch.float64)}) if par else {}
        nz = NoiseHandler(PROTO["deph"], {"noise_probs": 1e-6})
        psi = word_u(co, prog, pat=p) @ z(2)
        exp = np.array([(psi.conj() @ omat(o, 2) @ psi).real for o in OBS[:2]])
        for i, op in enumerate(word):
            out.step(1)
            try:
                if op == "r":
                    e = cmp(bk.run(conv.circuit, given), psi[None], 0.06)
                elif op == "s":
                    w, smp = sampled(lambda: bk.sample(conv.circuit, given, n_shots=3))
                    e = None if np.abs(w[0] - np.abs(psi) ** 2).max() < 0.06 else f"sampling weights {w[0].tolist()}"
                else:
                    got = bk.expectation(conv.circuit, conv.observable, given, noise=nz if op == "n" else None)
                    got = got.detach().numpy().flatten()
                    e = None if np.abs(got - exp).max() < 0.1 else f"{got.tolist()}, expected {exp.tolist()}"
            except Exception as ex:
                e = f"{type(ex).__name__}: {str(ex)[:150]}"
            if e:
                return f"call {i} of {word} ({op}): {e}"
        out.feed(np.round(exp, 2))
        return None

    def gradients(case, out):
        """parameter-shift gradients of digital rotations, through the real pulses"""
        kinds, vals, o = case
        co = REG["fpair"]
        a, b = VariationalParameter("a", value=vals[0]), VariationalParameter("b", value=vals[1])
        L = lambda a, b: ((kinds[0], (a,), (0,)), ("RY", (0.9,), (1,)), (kinds[1], (b,), (1,)), ("RX", (-0.4,), (0,)))
        m = model(register("fpair"), chain(*(blk(x) for x in L(a, b))), observable=oblk(OBS[o]))
        y = m.expectation({}).sum()
        prm = {k: p for k, p in m.named_parameters() if p.requires_grad}
        gr = torch.autograd.grad(y, list(prm.values()))
        f = lambda v: (lambda s: (s.conj() @ omat(OBS[o], 2) @ s).real)(word_u(co, L(*v)) @ z(2))
        h = 1e-5
        want = {}
        for i, k in enumerate("ab"):
            up, dn = list(vals), list(vals)
            up[i] += h
            dn[i] -= h
            want[k] = (f(up) - f(dn)) / (2 * h)
        out.step(5)
        for (k, _), g in zip(prm.items(), gr):
            name = k.split(".")[-1]
            out.feed(round(want[name], 1))
            if abs(float(g) - want[name]) > 0.1:
                return f"d/d{name} = {float(g):.3f}, expected {want[name]:.3f}"
        return None

    def configs(case, out):
        """pulse amplitudes chosen by the configuration change the pulses, not the rotations"""
        kind, ang, cfg = case
        co = REG["fpair"]
        letter = (kind, (ang,), (0,))
        m = model(register("fpair"), blk(letter), configuration=dict(cfg))
        got = m.run({})
        out.step(1)
        out.feed(np.round(got.numpy(), 2))
        return cmp(got, (uni(co, letter) @ z(2))[None], 0.03)

    def refused(case, out):
        """blocks the backend cannot realise are refused, never dropped"""
        name, pos = case
        b = {
            "X": lambda: Q.X(0), "H": lambda: Q.H(1), "CNOT": lambda: Q.CNOT(0, 1), "PHASE": lambda: Q.PHASE(0, 0.3),
            "SWAP": lambda: Q.SWAP(0, 1), "U": lambda: Q.U(0, 0.1, 0.2, 0.3), "CRX": lambda: Q.CRX(0, 1, 0.4),
            "S": lambda: Q.S(0), "T": lambda: Q.T(0), "HamEvo": lambda: Q.HamEvo(Q.Z(0) @ Q.Z(1), 0.5),
            "MCRX": lambda: Q.MCRX((0,), 1, 0.5), "add": lambda: Q.X(0) + Q.Y(0), "scale": lambda: 2.0 * Q.RX(0, 0.1),
            "Toffoli": lambda: Q.Toffoli((0,), 1),
        }[name]()
        blocks = [Q.RX(0, 0.3), b] if pos else [b, Q.RX(0, 0.3)]
        if pos == 2:
            blocks = [chain(Q.RY(1, 0.2), chain(b))]
        out.step(1)
        try:
            got = model(register("fpair"), chain(*blocks)).run({})
        except Exception as e:
            out.feed(type(e).__name__)
            return None
        return f"{name} was accepted and gave {np.round(got.numpy(), 3).tolist()}"

    def limits(case, out):
        """what the pulses of the backend cannot express is refused"""
        what, = case
        out.step(1)
        x = FeatureParameter("x")
        try:
            if what == "xy":
                model(register("fpair", "ideal", interaction=Interaction.XY), AnalogRX(1.0)).run({})
            elif what == "missing":
                model(register("fpair"), Q.RX(0, x)).run({})
            elif what == "batched_state":
                model(register("fpair"), Q.RX(0, 0.5)).run({}, state=torch.eye(4, dtype=torch.complex128))
            elif what == "shots0":
                model(register("fpair"), Q.RX(0, 0.5)).sample({}, n_shots=0)
            elif what == "outside":
                model(register("fpair"), AnalogInteraction(100, qubit_support=(5,))).run({})
            elif what == "amp":
                model(register("fpair"), AnalogRot(duration=300, omega=1000.0)).run({})
            elif what == "det":
                model(register("fpair"), AnalogRot(duration=300, delta=1000.0)).run({})
            elif what == "digital_noise":
                model(register("fpair"), Q.RX(0, 0.5), observable=Q.Z(0)).expectation(
                    {}, noise=NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": 0.1}))
            elif what == "pattern_par":
                p = AddressingPattern(n_qubits=2, amp=1.0, det=2.0, weights_amp={0: x, 1: 0.5}, weights_det={0: 0.5, 1: 0.5})
                model(register("fpair", "ideal", pattern=p), AnalogRX(1.0)).run({"x": torch.tensor([0.3])})
        except Exception as e:
            out.feed(type(e).__name__)
            return None
        return f"{what} was accepted"

    # ------------------------------------------------------------------ cases
    devs = ("ideal", "realistic", "default") if THOROUGH else ("ideal", "realistic")
    sts = ("none", "basis", "rand")
    c_gates = [(k, a, r, q, d, s) for k in GEN for a in ANGLES for d in devs for s in sts
               for r, q in (("one", 0), ("fpair", 0), ("fpair", 1), ("ftri", 1), ("ftri", 2))
               if THOROUGH or (s == "rand" and r in ("one", "fpair")) or (s != "rand" and d == "ideal" and r == "fpair")]
    rots = [("rot", (t, o, d, p), qs) for t in (150.0, 320.0) for o in (0.0, 2.0, 5.5) for d in (-3.0, 0.0, 2.5)
            for p in (-2.2, 0.0, 0.8) for qs in ("g", (0,), (1,)) if (o or d)]
    rots += [(k, (a,), qs) for k in ("rx", "ry", "rz") for a in (-2.0, -0.4, 0.1, 0.7, 3.141592653589793, 5.0)
             for qs in ("g", (0,), (1,))]
    rots += [("wait", (t,), "g") for t in (50.0, 300.0, 1000.0)]
    c_rot = [(l, r, d, s, lv) for l in rots for r in ("one", "pair", "fpair", "tri") for d in ("ideal", "realistic")
             for s in ("none", "rand") for lv in (60, 70)
             if (THOROUGH or (d == "ideal" and s == "rand" and lv == 60 and r in ("pair", "tri"))
                 or (d == "realistic" and r == "pair" and lv == 60 and s == "none") or (lv == 70 and r == "pair" and l[2] == "g"
                     and d == "ideal" and s == "none"))]
    depth = 3 if THOROUGH else 2
    c_words = [("fpair", w, "ideal", "rand", False) for w in product(DIGITAL, repeat=2)]
    c_words += [("pair", w, "ideal", "none", False) for w in product(ANALOG, repeat=2)]
    c_words += [("tight", w, "realistic", "none", False) for w in product(ANALOG[:8], repeat=2)]
    c_words += [("tri", w, "ideal", "none", True) for w in product(ANALOG, repeat=2)]
    if THOROUGH:
        c_words += [("fpair", w, "ideal", "none", True) for w in product(DIGITAL, repeat=3)]
        c_words += [("tight", w, "ideal", "rand", True) for w in product(ANALOG, repeat=3)]
    else:
        c_words += [("fpair", w, "ideal", "none", True) for w in product(DIGITAL[2:10:2], repeat=3)]
        c_words += [("tight", w, "ideal", "rand", True) for w in product(ANALOG[1:9:2], repeat=3)]
    V = ((0.6,), (-1.2, 0.4, 2.0), (1.0, -1.0))
    c_par = [(r, l, 0, k, v) for r in ("fpair", "one") for l in (("RX", (0.0,), (0,)), ("RY", (0.0,), (0,)), ("RZ", (0.0,), (0,)),
             ("rx", (0.0,), "g"), ("ry", (0.0,), "g"), ("rz", (0.0,), "g"), ("rx", (0.0,), (0,))) for k in "fve" for v in V]
    c_par += [("pair", ("rot", (300.0, 2.0, 1.0, 0.4), "g"), i, k, v) for k in "fve" for i, v in
              ((0, (200.0, 350.0)), (1, (1.0, 3.0, 0.5)), (2, (-2.0, 1.5)), (3, (-1.0, 0.3, 2.5)))]
    c_par += [("pair", ("wait", (100.0,), "g"), 0, k, (300.0, 100.0)) for k in "fve"]
    c_sh = [(f, v) for f in ("twice", "opposite", "two", "mixed", "product")
            for v in (((0.7, 1.2),), ((-0.7, 1.2), (0.4, -0.9)), ((1.3, -0.2), (-2.0, 0.8), (0.5, 0.5)))]
    pats = ((1.5, 4.0, (0.3, 0.9, 0.5), (0.8, 0.2, 0.4)), (1.0, -3.0, (0.0, 0.6, 0.0), (0.5, 1.0, 0.3)),
            (0.0, 5.0, (0.4, 0.4, 0.4), (0.1, 0.9, 0.5)), (2.0, 0.0, (1.0, 0.5, 0.2), (0.5, 0.5, 0.5)))
    c_pat = [(l, r, p, h) for l in ANALOG[:8] + (("rx", (0.8,), (0,)),) for r in ("pair", "tri") for p in pats
             for h in ("run", "expectation", "sample", "noisy") if THOROUGH or r == "pair" or h == "run"]
    rw = [(DIGITAL[3],), (DIGITAL[6], DIGITAL[3]), (DIGITAL[12],)]
    c_read = [(w, r, e, b, s) for w in rw for r in ("fpair", "ftri") for e in ("Big", "Little") for b in (1, 3)
              for s in ("none", "rand") if THOROUGH or r == "fpair" or b == 1]
    c_obs = [(w, k, b) for b in (1, 2, 3) for w in ((0,), (2,), (0, 1), (2, 0), (0, 1, 2)) for k in product("nvft", repeat=len(w))
             if THOROUGH or len(w) < 3 or (b == 2 and "f" in k)]
    nw = [(ANALOG[0],), (ANALOG[5],), (ANALOG[0], ANALOG[1]), (ANALOG[7], ANALOG[4])]
    c_noise = [(w, r, p, pr, s, no, h) for w in nw for r in ("one", "pair") for p in ("deph", "depo")
               for pr in (0.0, 0.3, (0.2, 0.6), (0.0, 0.5), (0.1, 0.2, 0.3)) for s in ("none", "rand") for no in (1, 2, 3)
               for h in ("model", "call") if no <= (1 if r == "one" else 3)
               and (THOROUGH or (no + (h == "call") + len(w)) % 3 == 0 or pr == 0.3)]
    c_ns = [(w, r, p, pr, s, e, b) for w in nw[::2] for r in ("one", "pair", "tri") for p in ("deph", "depo")
            for pr in (0.3, (0.2, 0.6), (0.1, 0.2, 0.3)) for s in ("none", "rand") for e in ("Big", "Little") for b in (0, 1, 2)
            if THOROUGH or r == "pair" or (b == 0 and s == "rand")]
    ops = "rensDP"
    c_hist = [("".join(w),) for k in range(1, depth + 1) for w in product(ops, repeat=k)]
    if not THOROUGH:
        c_hist += [(w,) for w in ("Drs", "PDr", "esD", "rDe", "nPn", "sDs", "DnP", "PrP")]
    c_dir = [("".join(w), pt, pr) for k in range(1, depth + 1) for w in product("rens", repeat=k) for pt in (False, True)
             for pr in (False, True)]
    c_grad = [(k, v, o) for k in product(GEN, repeat=2) for v in ((0.4, 1.3), (-0.8, 0.5), (2.6, -1.7)) for o in range(3)]
    c_cfg = [(k, a, c) for k in GEN for a in (-2.0, -0.3, 0.3, 1.0, 4.0)
             for c in ((), (("amplitude_local", 5.0),), (("amplitude_local", 12.0),), (("detuning", 10.0),),
                       (("amplitude_local", 3.0), ("detuning", 20.0)))]
    c_ref = [(n, p) for n in ("X", "H", "CNOT", "PHASE", "SWAP", "U", "CRX", "S", "T", "HamEvo", "MCRX", "add", "scale", "Toffoli")
             for p in (0, 1, 2)]
    c_lim = [(w,) for w in ("xy", "missing", "batched_state", "shots0", "outside", "amp", "det", "digital_noise", "pattern_par")]

    chk = Check("P31", "programs run through the pulses of the Pulser backend and are compared, up to a global phase and the "
                "resolution of the pulses, with matrix exponentials of the Hamiltonians the blocks describe (and with the Lindblad "
                "equation for analog noise)",
                bounds={"angles": len(ANGLES), "analog blocks": len(rots), "word length": depth, "history length": depth,
                        "qubits": 3, "batch": 3})
    for name, cases, fn in (("gates", c_gates, gates), ("rotations", c_rot, rotations), ("words", c_words, words),
                            ("params", c_par, params), ("shared", c_sh, shared), ("patterns", c_pat, patterns),
                            ("readout", c_read, readout), ("observables", c_obs, observables), ("noisy", c_noise, noisy), ("noisy_states", c_ns, noisy_states),
                            ("histories", c_hist, histories), ("direct", c_dir, direct), ("gradients", c_grad, gradients), ("configs", c_cfg, configs),
                            ("refused", c_ref, refused), ("limits", c_lim, limits)):
        chk.family(name, cases, fn)
    return chk


guard_main(("P31", make))
