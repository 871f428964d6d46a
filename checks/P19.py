"""P19: all overlap methods measure the fidelity of the two circuits' final states."""
from itertools import product

from lib.harness import Check, guard_main, THOROUGH
from lib import gen, ref

METHODS = ("exact", "compute_uncompute", "swap_test", "hadamard_test")
ZZ = ("kron", ("Z", (0,)), ("Z", (1,)))


def body(kind, p):
    """a two-qubit program driven by the expression p (a number when it has none)."""
    return {
        "rx": ("RX", (0,), p),
        "rx1": ("RX", (1,), p),
        "ent": ("chain", ("RY", (0,), p), ("CNOT", (0, 1)), ("S", (1,))),
        "phase": ("chain", ("H", (0,)), ("PHASE", (0,), p), ("CRX", (0, 1), 0.9), ("S", (0,))),
        "kron": ("kron", ("RX", (0,), p), ("RY", (1,), ("mul", 2.0, p))),
        "evo": ("chain", ("H", (0,)), ("RX", (1,), 0.4), ("HamEvo", ("add", ZZ, ("X", (1,))), p)),
        "var": ("chain", ("RX", (0,), p), ("RY", (1,), ("v", "a")), ("CZ", (0, 1)), ("RZ", (0,), ("v", "b"))),
        "u": ("chain", ("U", (1,), 0.3, p, 1.1), ("CNOT", (1, 0)), ("RZ", (1,), 0.6)),
        "swap": ("chain", ("RX", (0,), p), ("SWAP", (0, 1)), ("RY", (0,), 0.5), ("CPHASE", (0, 1), 1.3)),
    }[kind]


KINDS = ("rx", "rx1", "ent", "phase", "kron", "evo", "var", "u", "swap")
MODES = ("xy", "x-", "-y", "xx", "--")
BV, KV = (0.31, 1.27, 2.2), (0.55, 0.93, 1.7)
VARS = {"a": 0.7, "b": 1.9}


def make():
    import copy
    import numpy as np
    import torch
    import qadence as Q
    from qadence.overlap import Overlap
    from qadence.divergences import js_divergence
    from collections import Counter
    from lib.common import Builder, t2n, torch_state

    real = torch.multinomial

    class Frequencies:
        """random source that returns every outcome exactly as often as its probability says."""

        def __call__(self, input, num_samples, replacement=False, **kw):  # noqa: A002
            p = input.detach().double()
            one = p.dim() == 1
            rows = []
            for r in (p[None] if one else p):
                r = (r / r.sum()).numpy()
                c = np.floor(r * num_samples + 1e-9).astype(int)
                rest = np.argsort(-(r * num_samples - c), kind="stable")[: num_samples - c.sum()]
                c[rest] += 1
                rows.append(np.repeat(np.arange(len(r)), c))
            out = torch.as_tensor(np.stack(rows))
            return out[0] if one else out

        def __enter__(self):
            torch.multinomial = self

        def __exit__(self, *a):
            torch.multinomial = real

    def setup(bk, kk, mode, n=2, extra=None):
        bp = ("f", "x") if mode[0] == "x" else 0.81
        kp = {"y": ("f", "y"), "x": ("f", "x"), "-": 1.37}[mode[1]]
        return body(bk, bp), body(kk, kp)

    def feats(mode, nb, nk):
        b = {"x": list(BV[:nb])} if mode[0] == "x" else {}
        k = {"y": list(KV[:nk])} if mode[1] == "y" else {}
        if mode[1] == "x":
            k = {"x": list(BV[:nb])}
        return b, k

    def states(spec, n, vals, init=None, vs=VARS):
        m = max([len(v) for v in vals.values()] + [1])
        v0 = ref.zero_state(n) if init is None else init
        return [ref.mat(spec, n, {**vs, **{k: v[i] for k, v in vals.items()}}) @ v0 for i in range(m)]

    def fidelities(bs, ks, two):
        if two:
            return np.array([[abs(np.vdot(b, k)) ** 2 for k in ks] for b in bs])
        m = max(len(bs), len(ks))
        return np.array([[abs(np.vdot(bs[i % len(bs)], ks[i % len(ks)])) ** 2] for i in range(m)])

    def tv(d, zero_d=False):
        return {k: torch.tensor(v[0] if zero_d else v) for k, v in d.items()}

    def build(bs, ks, n, method, **kw):
        b = Builder(VARS)
        return Overlap(Q.QuantumCircuit(n, b.block(bs)), Q.QuantumCircuit(n, b.block(ks)), method=method, **kw)

    def compare(got, want, tol=1e-6):
        g = t2n(got)
        if g.shape != want.shape:
            return f"shape {g.shape} instead of {want.shape}"
        if not np.allclose(g, want, atol=tol):
            return f"overlap {g.round(6).tolist()} instead of {want.round(6).tolist()}"

    # every pair of programs, with the features on either side, both or none
    pairs = list(product(KINDS, KINDS, MODES, METHODS))
    if not THOROUGH:
        pairs = [c for c in pairs if c[2] == "xy" or (KINDS.index(c[0]) + KINDS.index(c[1])) % 3 == 0]

    def f_pairs(case, out):
        bk, kk, mode, method = case
        bs, ks = setup(bk, kk, mode)
        bv, kv = feats(mode, 2, 3 if mode == "xy" else 2)
        want = fidelities(states(bs, 2, bv), states(ks, 2, kv), mode == "xy")
        o = build(bs, ks, 2, method)
        bt, kt = tv(bv), tv(kv)
        msg = compare(o(bt, kt), want)
        if msg:
            return msg
        if any(not torch.equal(t, torch.tensor(s)) for d, r in ((bt, bv), (kt, kv)) for (t, s) in zip(d.values(), r.values())):
            return "the caller's values were changed"
        out.feed(want.round(6).tolist())
        out.step(want.size)

    # every pair of gates that need not commute, on up to three qubits and partial supports
    alpha3 = [g for g in gen.unitary_gates(3) if g[0] not in ("T", "TDagger", "MCZ", "MCRX", "MCRY", "MCPHASE", "CSWAP")]
    pre = tuple(("RY", (q,), 0.4 + 0.3 * q) for q in range(3))
    gates = [(g, m) for g in alpha3 for m in METHODS]

    def f_gates(case, out):
        g, method = case
        bs = ("chain", *pre, g)
        ks = ("chain", ("RX", (1,), 0.3), ("H", (0,)), ("CNOT", (0, 2)), ("S", (2,)))
        for a, b in ((bs, ks), (ks, bs)):
            want = fidelities(states(a, 3, {}), states(b, 3, {}), False)
            msg = compare(build(a, b, 3, method)(), want)
            if msg:
                return msg
        # the gate alone: supports that do not cover the register
        want = fidelities(states(g, 3, {}), states(("RY", (1,), 0.4), 3, {}), False)
        return compare(build(g, ("RY", (1,), 0.4), 3, method)(), want)

    # batch shapes
    shapes = [(nb, nk, mode, m, z) for nb, nk in product((1, 2, 3), repeat=2) for mode in MODES[:4]
              for m in METHODS for z in (False, True)
              if (mode == "xy" or nb == nk) and not (z and (nb, nk) != (1, 1))]

    def f_shapes(case, out):
        nb, nk, mode, method, z = case
        bs, ks = setup("ent", "var", mode)
        bv, kv = feats(mode, nb, nk)
        want = fidelities(states(bs, 2, bv), states(ks, 2, kv), mode == "xy")
        if z and mode == "xy":
            bt, kt = {"x": torch.tensor([BV[0]])}, {"y": torch.tensor([KV[0]])}
        else:
            bt, kt = tv(bv, z), tv(kv, z)
        return compare(build(bs, ks, 2, method)(bt, kt), want)

    # estimates from outcome frequencies
    N = 1 << 16
    shots = list(product(KINDS, KINDS if THOROUGH else KINDS[2:7:2], MODES, METHODS[1:] + ("jensen_shannon",)))
    if not THOROUGH:
        shots = [c for c in shots if c[2] in ("xy", "-y") or (c[0], c[1]) in (("ent", "ent"), ("var", "phase"), ("u", "kron"))]

    def js(p, q):
        h = lambda d: -sum(v * np.log(v) for v in d if v > 1e-15)  # noqa: E731
        return h((p + q) / 2) - (h(p) + h(q)) / 2

    def f_shots(case, out):
        bk, kk, mode, method = case
        bs, ks = setup(bk, kk, mode)
        bv, kv = feats(mode, 2, 3 if mode == "xy" else 2)
        b, k = states(bs, 2, bv), states(ks, 2, kv)
        if method == "jensen_shannon":
            pb, pk = [abs(v) ** 2 for v in b], [abs(v) ** 2 for v in k]
            if mode == "xy":
                want = np.array([[1 - js(p, q) for q in pk] for p in pb])
            else:
                m = max(len(pb), len(pk))
                want = np.array([[1 - js(pb[i % len(pb)], pk[i % len(pk)])] for i in range(m)])
        else:
            want = fidelities(b, k, mode == "xy")
        with Frequencies():
            got = build(bs, ks, 2, method)(tv(bv), tv(kv), n_shots=N)
        out.step(want.size)
        return compare(got, want, 5e-3)

    # initial states
    inits = [(bk, kk, m, b, k) for bk, kk in product(KINDS[2:7], repeat=2) for m, b, k in
             (("exact", 1, 2), ("exact", 3, None), ("exact", None, 4), ("compute_uncompute", 5, None))]

    def f_init(case, out):
        bk, kk, method, b, k = case
        bs, ks = setup(bk, kk, "xy")
        bv, kv = feats("xy", 1, 1)
        ib = None if b is None else ref.rand_state(2, b)
        ik = None if k is None else ref.rand_state(2, k)
        want = fidelities(states(bs, 2, bv, ib), states(ks, 2, kv, ik), True)
        kw = {}
        if ib is not None:
            kw["bra_state"] = torch_state([ib])
        if ik is not None:
            kw["ket_state"] = torch_state([ik])
        return compare(build(bs, ks, 2, method)(tv(bv), tv(kv), **kw), want)

    # histories: the answer always is the fidelity at the current parameter values
    OPS = ("reset", "sgd", "eval", "copy", "state")
    hist = [(h, m, dm) for d in range(1, 4 if THOROUGH else 3) for h in product(OPS, repeat=d) for m in METHODS
            for dm in ("ad", "gpsr")]

    def f_hist(case, out):
        h, method, dm = case
        bs = ("chain", ("RX", (0,), ("f", "x")), ("RY", (1,), ("v", "a")), ("CNOT", (0, 1)), ("RX", (1,), ("v", "b")))
        ks = ("chain", ("RY", (1,), ("f", "y")), ("RX", (0,), ("v", "b")), ("CNOT", (1, 0)), ("RZ", (0,), ("v", "a")))
        o = build(bs, ks, 2, method, diff_mode=dm)
        bv, kv = feats("xy", 2, 1)
        cur = dict(VARS)
        saved = None

        def fid(vs):
            return fidelities(states(bs, 2, bv, vs=vs), states(ks, 2, kv, vs=vs), True)

        for i, op in enumerate(h):
            if op == "reset":
                names = list(o.vparams)
                new = [0.2 + 0.5 * i + 0.9 * j for j in range(len(names))]
                o.reset_vparams(torch.tensor(new))
                cur = dict(zip(names, new))
            elif op == "sgd":
                opt = torch.optim.SGD(o.parameters(), lr=0.4)
                o(tv(bv), tv(kv)).sum().backward()
                opt.step()
                opt.zero_grad()
                e = 1e-6
                g = {k: (fid({**cur, k: v + e}).sum() - fid({**cur, k: v - e}).sum()) / (2 * e) for k, v in cur.items()}
                cur = {k: v - 0.4 * g[k] for k, v in cur.items()}
            elif op == "eval":
                o(tv(bv), tv(kv))
            elif op == "copy":
                o = copy.deepcopy(o)
            else:
                sd = {k: v.clone() for k, v in o.state_dict().items()}
                o2 = build(bs, ks, 2, method, diff_mode=dm)
                o2.reset_vparams(torch.tensor([0.01, 0.02]))
                nn_load = torch.nn.Module.load_state_dict
                nn_load(o2, sd)
                o = o2
            msg = compare(o(tv(bv), tv(kv)), fid(cur), 1e-5)
            if msg:
                return f"after {h[:i + 1]}: {msg}"
            out.step()

    # the same feature name in both circuits
    shared = [(bk, kk, m, same) for bk, kk in (("ent", "rx"), ("ent", "kron")) for m in METHODS for same in (True, False)]

    def f_shared(case, out):
        bk, kk, method, same = case
        bs, ks = setup(bk, kk, "xx")
        bv = {"x": list(BV[:2])}
        kv = bv if same else {"x": list(KV[:2])}
        want = fidelities(states(bs, 2, bv), states(ks, 2, kv), False)
        return compare(build(bs, ks, 2, method)(tv(bv), tv(kv)), want)

    # the divergence itself on every pair of small count tables
    tables = list(product(range(4 if THOROUGH else 3), repeat=4))[1:]

    def f_js(case, out):
        p = np.array(case, float)
        keys = ("00", "01", "10", "11")
        for q in tables:
            qq = np.array(q, float)
            got = js_divergence(Counter({k: v for k, v in zip(keys, case) if v}), Counter({k: v for k, v in zip(keys, q) if v}))
            w = js(p / p.sum(), qq / qq.sum())
            if abs(got - w) > 1e-9:
                return f"divergence of {case} and {q}: {got} instead of {w}"
            out.step()

    chk = Check("P19", "overlap = squared inner product of the reference final states for every pair of batch elements",
                bounds={"pairs": len(pairs), "gates": len(gates), "shots": len(shots), "histories": len(hist)})
    chk.family("pairs", pairs, f_pairs)
    chk.family("gates", gates, f_gates)
    chk.family("shapes", shapes, f_shapes)
    chk.family("shots", shots, f_shots)
    chk.family("initial", inits, f_init)
    chk.family("histories", hist, f_hist)
    chk.family("shared_names", shared, f_shared)
    chk.family("divergence", tables, f_js)
    return chk


guard_main(("P19", make))
