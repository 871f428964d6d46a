"""P11: sampling draws bit strings from the squared amplitudes of the final state."""
from itertools import permutations, product

from lib.harness import Check, guard_main, THOROUGH
from lib import gen, ref

zz = ("kron", ("Z", (0,)), ("Z", (1,)))
CIRCS = {
    "plain": ("chain", ("RY", (0,), 0.8), ("CNOT", (0, 1)), ("T", (1,)), ("RX", (1,), 0.3)),
    "feat": ("chain", ("RX", (0,), ("f", "x")), ("CNOT", (0, 1)), ("RY", (2,), ("f", "x")), ("RX", (1,), ("v", "a"))),
    "two": ("chain", ("RY", (0,), ("mul", ("v", "a"), ("f", "x"))), ("CRX", (0, 1), ("f", "y")), ("CZ", (2, 1)), ("RX", (2,), 0.5)),
    "evo": ("chain", ("RY", (0,), 0.8), ("H", (1,)), ("HamEvo", ("add", zz, ("X", (2,))), ("f", "x"))),
    "small": ("chain", ("RX", (1,), ("f", "x")),),
    "ghz": ("chain", ("H", (2,)), ("CNOT", (2, 0)), ("CNOT", (0, 1))),
    "x0": ("X", (0,)),
    "id": ("I", (1,)),
}


def make():
    import numpy as np
    import torch
    import qadence as Q
    from qadence.types import Endianness
    from lib.common import Builder, envs, t2n, torch_state, VALS

    real = torch.multinomial

    class Seam:
        """stands in for the random choice: records the distribution, optionally dictates the outcome."""

        def __init__(self, pick=None):
            self.probs, self.pick = [], pick

        def __call__(self, input, num_samples, replacement=False, **kw):  # noqa: A002
            p = input.detach().clone()
            for row in (p if p.dim() == 2 else p[None]):
                self.probs.append((row / row.sum()).double().numpy())
            if self.pick is None:
                return real(input, num_samples, replacement, **kw)
            k = torch.full((num_samples,), self.pick, dtype=torch.int64)
            return k if p.dim() == 1 else k.repeat(len(p), 1)

        def __enter__(self):
            torch.multinomial = self
            return self

        def __exit__(self, *a):
            torch.multinomial = real

    END = {"big": Endianness.BIG, "little": Endianness.LITTLE}

    def bits(k, n, end):
        s = format(k, f"0{n}b")
        return s if end == "big" else s[::-1]

    def draw(entry, cs, n, values, end, shots, states):
        b = Builder(VALS)
        blk = b.block(cs)
        kw = {}
        if end != "default":
            kw["endianness"] = END[end]
        if shots is not None:
            kw["n_shots"] = shots
        if states is not None:
            kw["state"] = torch_state(states)
        if entry == "circuit":
            return Q.sample(Q.QuantumCircuit(n, blk), values=values, **kw)
        if entry == "register":
            return Q.sample(Q.Register.line(n), blk, values=values, **kw)
        if entry == "n":
            return Q.sample(n, blk, values=values, **kw)
        if entry == "block":
            return Q.sample(blk, values=values, **kw)
        if entry == "composed":
            return Q.sample(Q.QuantumCircuit(n, blk), values=values, configuration={"use_single_qubit_composition": True}, **kw)
        dm = {"model": "ad", "model_gpsr": "gpsr", "model_adjoint": "adjoint"}[entry]
        return Q.QuantumModel(Q.QuantumCircuit(n, blk), diff_mode=dm).sample(values=values, **kw)

    def expected(cs, n, es, states):
        nb = len(es) if states is None or states.ndim == 1 else max(len(es), len(states))
        out = []
        for i in range(nb):
            s = ref.zero_state(n) if states is None else (states if states.ndim == 1 else states[i % len(states)])
            out.append(np.abs(ref.mat(cs, n, es[i % len(es)] if len(es) > 1 else es[0]) @ s) ** 2)
        return np.array(out)

    def judge(res, want, seam, shots, end, n, out, pick=None):
        if end == "default":
            end = "big"
        if len(res) == 1 and len(want) > 1 and np.allclose(want, want[:1]):
            want = want[:1]
        if not isinstance(res, list) or len(res) != len(want):
            return f"{len(res)} tables of counts for {len(want)} batch elements"
        for i, c in enumerate(res):
            out.step()
            if sum(c.values()) != shots:
                return f"counts add up to {sum(c.values())}, {shots} shots asked"
            for k, v in c.items():
                if not isinstance(k, str) or len(k) != n or set(k) - set("01"):
                    return f"outcome {k!r} on {n} qubits"
                if v < 1:
                    return f"outcome {k} listed with count {v}"
                if pick is None and want[i][int(k if end == "big" else k[::-1], 2)] < 1e-9:
                    return f"outcome {k} of zero probability"
            if pick is not None:
                if dict(c) != {bits(pick, n, end): shots}:
                    return f"drawing outcome {pick} reports {dict(c)} ({end} endian)"
        if len(seam.probs) == len(want):
            got = np.array(seam.probs)
            out.feed(got)
            d = np.abs(got - want).max()
            if d > 1e-6:
                return f"distribution drawn from differs by {d:.3g}"
        else:   # the random choice was not made by torch.multinomial: judge the counts themselves
            for i, c in enumerate(res):
                f = np.zeros(2 ** n)
                for k, v in c.items():
                    f[int(k if end == "big" else k[::-1], 2)] += v / shots
                if shots >= 20000 and np.abs(f - want[i]).max() > 0.05:
                    return "frequencies far from the distribution"
            out.feed(want)
        return None

    def f(case, out):
        ck, n, batch, entry, end, shots, st, pick = case
        cs = CIRCS[ck] if isinstance(ck, str) else ck
        es, values = envs(sorted(ref.variables(cs)), batch)
        states = None
        if st == "one":
            states = ref.rand_state(n, 1)
        elif st == "many":
            states = np.array([ref.rand_state(n, i) for i in range(batch or 3)])
        elif st is not None:
            states = ref.product(st)
        want = expected(cs, n, es, states)
        with Seam(pick) as seam:
            res = draw(entry, cs, n, values, end, shots, states)
        if not seam.probs:
            if pick is not None:
                return None
            shots = 20000
            res = draw(entry, cs, n, values, end, shots, states)
        r = judge(res, want, seam, shots if shots is not None else sum(res[0].values()), end, n, out, pick)
        if r is None and shots is None and sum(res[0].values()) != (1000 if entry.startswith("model") else 100):
            return f"default number of shots {sum(res[0].values())}"
        return r

    PERM = [("X", (q,)) for q in range(3)] + [("CNOT", s) for s in permutations(range(3), 2)] + \
        [("SWAP", s) for s in ((0, 1), (0, 2), (1, 2))] + [("Toffoli", s) for s in ((0, 1, 2), (2, 1, 0), (0, 2, 1))] + \
        [("CSWAP", s) for s in ((0, 1, 2), (1, 0, 2), (2, 0, 1))] + [("Y", (1,)), ("I", (0,))]

    def basis(case, out):
        """permutation programs: every shot reports the one reachable bit string (real random source)."""
        seq, init, end, shots, entry = case
        v = ref.product(init)
        for g in seq:
            v = ref.mat(g, 3, {}) @ v
        k = int(np.argmax(np.abs(v)))
        cs = ("chain",) + seq
        res = draw(entry, cs, 3, {}, end, shots, ref.product(init) if init != "000" else None)
        out.step()
        out.feed(k, end)
        if [dict(c) for c in res] != [{bits(k, 3, end): shots}]:
            return f"{[dict(c) for c in res]} instead of {shots} times {bits(k, 3, end)}"

    def reject(case, out):
        ck, shots, entry = case
        try:
            draw(entry, CIRCS[ck], 3, {}, "big", shots, None)
        except Exception:  # noqa: BLE001
            return None
        return f"{shots} shots accepted"

    def missing(case, out):
        ck, entry = case
        try:
            draw(entry, CIRCS[ck], 3, {}, "big", 10, None)
        except Exception:  # noqa: BLE001
            return None
        return "a missing feature value was accepted"

    def history(case, out):
        """sampling one model repeatedly: each answer is from its own call's distribution."""
        ops = case
        b = Builder(VALS)
        cs = CIRCS["feat"]
        m = Q.QuantumModel(Q.QuantumCircuit(3, b.block(cs)))
        env = dict(VALS)
        for op in ops:
            if op[0] == "set":
                m.reset_vparams([op[1]])
                env["a"] = op[1]
                continue
            if op[0] == "run":
                m.run({"x": torch.tensor([0.3, 0.4])})
                continue
            _, xs, end, shots = op
            want = expected(cs, 3, [dict(env, x=x) for x in xs], None)
            with Seam() as seam:
                res = m.sample({"x": torch.tensor(xs, dtype=torch.float64)}, n_shots=shots, endianness=END[end])
            if not seam.probs:
                return None
            r = judge(res, want, seam, shots, end, 3, out)
            if r:
                return r

    chk = Check("P11", rule="every program x batch x endianness x shots x initial state x entry point; the distribution "
                "handed to the random generator is compared with the reference, every possible outcome of the random "
                "choice is dictated in turn, and permutation programs are sampled with the real generator; "
                "non-trivial = distinct distribution or outcome",
                bounds="3 qubits (2 to 4 for placements), gates on all placements, permutation programs up to depth "
                + ("3" if THOROUGH else "2") + ", batches 0-3, shots 1,7,100,1000",
                assumptions=["the random choice itself (torch.multinomial) is trusted"])
    allg = []
    for g in gen.unitary_gates(3):
        if g[0] == "TDagger":
            continue
        allg.append(("chain", ("RY", (0,), 0.7), ("RX", (1,), 1.1), ("RY", (2,), -0.4), g, ("H", (1,)), ("RX", (0,), 0.4)))
    chk.family("gates", [(g, 3, 0, e, end, 7, None, None) for g in allg for e, end in (("circuit", "big"), ("model", "little"))], f)
    ent = ["circuit", "register", "n", "model", "model_gpsr", "model_adjoint", "composed"]
    cases = []
    for ck in CIRCS:
        fe = any(k == "f" for k, _ in ref.variables(CIRCS[ck]))
        for e in ent:
            for b in ((0, 1, 2, 3) if fe else (0,)):
                for st in (None, "one", "many", "101"):
                    for end, sh in (("big", 1), ("little", 7), ("default", 100)) + ((("little", 1000),) if THOROUGH else ()):
                        if st == "many" and b == 1:
                            continue
                        cases.append((ck, 3, b, e, end, sh, st, None))
    chk.family("options", cases, f)
    chk.family("wide", [(ck, n, b, e, end, 9, None, None) for ck in ("x0", "plain", "feat", "ghz") for n in (3, 4, 5)
                        for b in (0, 2) for e in ("circuit", "n", "model") for end in ("big", "little")], f)
    chk.family("block_entry", [(c, nn, b, "block", end, 9, None, None) for c, nn in (
        (CIRCS["plain"], 2), (CIRCS["feat"], 3), (CIRCS["ghz"], 3), (("X", (0,)), 1), (("kron", ("X", (0,)), ("RX", (1,), ("f", "x"))), 2))
        for b in (0, 2) for end in ("big", "little")], f)
    chk.family("outcomes", [(ck, n, b, e, end, 5, None, k) for ck, n in (("ghz", 3), ("feat", 3), ("plain", 2), ("plain", 4), (("H", (0,)), 1))
                            for k in range(2 ** n) for b in (0, 2) for e in ("circuit", "model") for end in ("big", "little")], f)
    chk.family("defaults", [(ck, 3, 0, e, "default", None, None, None) for ck in CIRCS for e in ent + ["circuit"]], f)
    seqs = [()] + [s for d in range(1, 4 if THOROUGH else 3) for s in product(PERM, repeat=d)]
    seqs = [s or (("I", (0,)),) for s in seqs]
    chk.family("permutations", [(s, i, end, sh, e) for s in seqs for i, end, sh, e in (
        ("000", "big", 7, "circuit"), ("011", "little", 1, "model"), ("100", "little", 100, "circuit"))], basis)
    chk.family("products", [((("I", (1,)),), format(k, "03b"), end, sh, e) for k in range(8) for end in ("big", "little")
                            for sh in (1, 2, 100) for e in ("circuit", "model", "n", "register")], basis)
    chk.family("rejected", [(ck, s, e) for ck in ("plain", "x0") for s in (0, -1) for e in ("circuit", "model")], reject)
    chk.family("missing", [(ck, e) for ck in ("feat", "two", "evo") for e in ("circuit", "model", "model_gpsr")], missing)
    H = [("set", 0.2), ("set", 1.4), ("run",), ("s", (0.3,), "big", 5), ("s", (1.0, -0.4), "little", 3), ("s", (0.1, 0.2, 2.0), "big", 1)]
    chk.family("histories", [h + (("s", (0.6, 1.7), "little", 4),) for d in (1, 2, 3) for h in product(H, repeat=d)], history)
    return chk


guard_main(("P11", make))
