"""P10: the JAX simulator agrees with the reference semantics."""
from itertools import product

from lib.harness import Check, guard_main, THOROUGH, Skip
from lib import gen, ref

a, b, x, y = ("v", "a"), ("v", "b"), ("f", "x"), ("f", "y")
zz = ("kron", ("Z", (0,)), ("Z", (1,)))
PRE = (("RY", (0,), 0.7), ("RX", (1,), 1.1), ("RY", (2,), 0.3), ("CNOT", (0, 1)), ("RZ", (2,), 0.4), ("CNOT", (1, 2)))
POST = (("RX", (1,), 0.6), ("CNOT", (1, 2)), ("RX", (0,), 0.3))
GEN = {"x": ("X", (0,)), "zz": ("kron", ("Z", (0,)), ("Z", (2,))), "ising": ("add", zz, ("kron", ("Z", (1,)), ("Z", (2,))), ("scale", 0.7, ("X", (0,))), ("X", (1,))),
       "rev": ("kron", ("X", (2,)), ("Y", (0,))), "n": ("N", (1,)), "nn": ("kron", ("N", (0,)), ("N", (2,))), "prod": ("chain", ("X", (0,)), ("Z", (1,)), ("Y", (2,))), "p1": ("Proj", (2,), "1", "1"),
       "p2": ("Proj", (0, 1), "01", "01"), "p2n": ("Proj", (0, 2), "01", "01"), "p2r": ("Proj", (2, 0), "01", "01"), "id": ("add", ("I", (0,)), ("X", (1,))), "pmix": ("add", ("Proj", (0, 2), "10", "10"), ("X", (1,))), "flip": ("add", ("Proj", (0, 2), "10", "01"), ("Proj", (0, 2), "01", "10"), ("Z", (1,))),
       "scaled": ("scale", -1.3, ("add", ("Z", (2,)), ("scale", 0.5, ("kron", ("Y", (1,)), ("X", (2,)))))), "par": ("add", ("scale", b, ("Z", (0,))), ("X", (1,))), "parf": ("add", ("scale", x, ("kron", ("Z", (0,)), ("Z", (1,)))), ("Y", (2,)))}
OBS = {"Z0": ("Z", (0,)), "zz": zz, "xyz": ("kron", ("X", (2,)), ("Y", (0,)), ("Z", (1,))), "sum": ("add", ("scale", 2.0, ("Z", (0,))), ("scale", -0.5, ("kron", ("X", (1,)), ("Y", (2,))))),
       "nest": ("scale", 3.0, ("add", ("Z", (0,)), ("scale", 0.5, ("X", (1,))))), "I": ("add", ("I", (0,)), ("Z", (1,))), "chain": ("chain", ("X", (0,)), ("Z", (1,)), ("X", (0,))),
       "pv": ("scale", b, ("Z", (0,))), "pf": ("scale", y, ("X", (2,))), "pe": ("add", ("scale", ("add", a, x), zz), ("Y", (2,)))}
EX = {"a": a, "x": x, "-a": ("neg", a), "2x": ("mul", 2, x), "a*x": ("mul", a, x), "sin": ("sin", x), "x+y": ("add", x, y), "0.4": 0.4, "a**2": ("pow", a, 2)}


def supported(n=3, e=a):
    names = ("X", "Y", "Z", "H", "I", "RX", "RY", "RZ", "CNOT", "CZ", "SWAP", "CRX", "CRY", "CRZ", "MCRX", "MCRY", "MCRZ", "MCZ")
    return [g for g in gen.gates(n, e) if g[0] in names]


def make():
    import numpy as np
    import torch
    import qadence as Q
    from lib.common import Builder, VALS, close, envs
    from qadence.types import Endianness

    n = 3

    def jx():
        import jax
        import jax.numpy as jnp
        from qadence.backends import backend_factory
        return jax, jnp, backend_factory

    def setup(spec, obs, batch, mode):
        jax, jnp, bf = jx()
        bld = Builder(VALS)
        bk = bf("horqrux", diff_mode=mode)
        circ = Q.QuantumCircuit(n, bld.block(spec))
        conv = bk.convert(circ, [bld.block(o) for o in obs]) if obs else bk.convert(circ)
        vs = set(ref.variables(spec))
        for o in obs:
            vs |= ref.variables(o)
        es, values = envs(sorted(vs), batch)
        return bk, conv, {k: jnp.array(v.numpy()) for k, v in values.items()}, es, vs, circ

    def f_run(case, out):
        mid, batch, st, end, entry = case
        jax, jnp, _ = jx()
        spec = ("chain",) + PRE + mid
        bk, conv, vals, es, vs, circ = setup(spec, [], batch, "ad")
        s = ref.rand_state(n, 3) if st else ref.zero_state(n)
        kw = {"state": jnp.array(s[None])} if st else {}
        if end:
            kw["endianness"] = Endianness.LITTLE
        if entry == "fn":
            got = Q.run(circ, values=vals, backend="horqrux", **kw)
            got = np.asarray(got)
        else:
            got = np.asarray(bk.run(conv.circuit, conv.embedding_fn(conv.params, vals), **kw))
        want = np.array([ref.mat(spec, n, e) @ s for e in es])
        if end:
            want = ref.bitrev_vec(want)
        got = got.reshape(-1, 2 ** n)
        if len(got) == 1 and len(want) > 1 and np.allclose(want, want[:1]):
            want = want[:1]
        out.feed(got)
        return close(got, want, 1e-6)

    def E(spec, obs, e, s):
        psi = ref.mat(spec, n, e) @ s
        return np.array([np.real(np.vdot(psi, ref.mat(o, n, e) @ psi)) for o in obs])

    def f_exp(case, out):
        mid, oks, batch, mode, st, entry = case
        jax, jnp, _ = jx()
        spec = ("chain",) + (PRE if mid is not None else (("H", (0,)), ("CNOT", (0, 1)))) + (mid or ())
        obs = [OBS[o] for o in oks]
        bk, conv, vals, es, vs, circ = setup(spec, obs, batch, mode)
        s = ref.rand_state(n, 3) if st else ref.zero_state(n)
        kw = {"state": jnp.array(s[None])} if st else {}
        if entry.endswith("_little"):  # the order of the bits shown is no matter of an expectation value
            entry = entry[:-7]
            kw["endianness"] = Endianness.LITTLE
        if entry == "fn":
            bld = Builder(VALS)
            got = Q.expectation(circ, [bld.block(o) for o in obs], values=vals, backend="horqrux", diff_mode=mode, **kw)
        else:
            one = bk.backend if entry == "raw" else bk
            got = one.expectation(conv.circuit, conv.observable, conv.embedding_fn(conv.params, vals), **kw)
        got = np.asarray(got)
        want = np.array([E(spec, obs, e, s) for e in es])
        if got.size != want.size and np.allclose(want, want[:1]):
            want = want[:1]
        if want.size == 1:
            got = got.reshape(-1)[:1].reshape(1, 1)
        out.feed(got)
        return close(got, want, 1e-5)

    def f_grad(case, out):
        mid, oks, batch, mode = case
        jax, jnp, _ = jx()
        spec = ("chain",) + PRE + mid + POST
        obs = [OBS[o] for o in oks]
        bk, conv, vals, es, vs, circ = setup(spec, obs, batch, mode)
        w8 = np.array([[1.0 + 0.3 * i - 0.7 * j for j in range(len(obs))] for i in range(len(es))])
        def loss(params, vals):
            r = bk.expectation(conv.circuit, conv.observable, conv.embedding_fn(params, vals))
            ww = jnp.array(w8)
            r = r.reshape(-1, len(obs))
            return jnp.sum(r * (ww if r.shape == ww.shape else ww.sum(0, keepdims=True)))
        gp, gv = jax.grad(loss, argnums=(0, 1))(conv.params, vals)
        h = 1e-4
        for k, w in sorted(vs):
            D = np.array([((E(spec, obs, dict(e, **{w: e[w] + h}), ref.zero_state(n)) - E(spec, obs, dict(e, **{w: e[w] - h}), ref.zero_state(n))) * w8[i]).sum() / (2 * h) for i, e in enumerate(es)])
            g = np.asarray((gp if k == "v" else gv)[w]).reshape(-1)
            if g.size == 1:
                D = np.array([D.sum()])
            out.feed(np.round(g, 4))
            out.step()
            msg = close(g, D, 1e-4 * max(1, np.abs(D).max()))
            if msg:
                return f"d/d{w}: {msg}"
        return None

    def f_limits(case, out):
        """the shift rule may reject a program (an error), but a gradient it returns has to be right."""
        try:
            return f_grad(case, out)
        except Exception as e:  # noqa: BLE001
            out.feed("rejected", type(e).__name__)
            return None

    def f_mat(case, out):
        spec, qs, end = case
        jx()
        from qadence.backends.jax_utils import block_to_jax
        got = np.asarray(block_to_jax(Builder(VALS).block(spec), qubit_support=qs, endianness=Endianness.LITTLE if end else Endianness.BIG))
        pos = {q: i for i, q in enumerate(qs)}
        def rel(s):
            if s[0] in ("chain", "kron", "add"):
                return (s[0],) + tuple(rel(t) for t in s[1:])
            if s[0] == "scale":
                return (s[0], s[1], rel(s[2]))
            return (s[0], tuple(pos[q] for q in s[1])) + tuple(s[2:])
        want = ref.mat(rel(spec), len(qs), VALS)
        if end:
            want = ref.bitrev_mat(want)
        out.feed(got)
        return close(got.reshape(want.shape), want, 1e-6)

    def f_sample(case, out):
        mid, batch, end, shots = case
        jax, jnp, _ = jx()
        spec = ("chain",) + mid
        bk, conv, vals, es, vs, circ = setup(spec, [], batch, "ad")
        kw = {"endianness": Endianness.LITTLE} if end else {}
        res = bk.sample(conv.circuit, conv.embedding_fn(conv.params, vals), n_shots=shots, **kw)
        want = np.array([np.abs(ref.mat(spec, n, e) @ ref.zero_state(n)) ** 2 for e in es])
        if len(res) != len(want) and not (len(res) == 1 and np.allclose(want, want[:1])):
            return f"{len(res)} counters for {len(want)} elements"
        for r, p in zip(res, want):
            out.step()
            out.feed(sorted(r.items()))
            if sum(r.values()) != shots:
                return "counts do not add up"
            for bits, cnt in r.items():
                if len(bits) != n:
                    return "length of a bit string"
                i = int(bits[::-1] if end else bits, 2)
                if p[i] < 1e-12:
                    return f"impossible outcome {bits}"
        return None

    chk = Check("P10", rule="every supported gate on every placement, pairs of gates, generators, observables, batches, modes and "
                "initial states on the JAX backend; compared with the numpy reference; non-trivial = distinct results",
                bounds="3 qubits, 1-2 gates after an entangling layer, batches 0,1,2,3, both endiannesses",
                assumptions=["programs the backend rejects (S, T, PHASE, U, Toffoli, matrices) are outside its domain"])
    gs = supported()
    chk.family("gates", [((g,), 0, st, e, "bk") for g in gs for st, e in ((0, 0), (1, 1))], f_run)
    gx = supported(3, x)
    pick = gs if THOROUGH else [g for g in gs if g[0] in ("CRX", "SWAP", "H", "CNOT", "MCRY")][::2]
    chk.family("pairs", [((g, h), 0, 0, 0, "bk") for g in pick for h in pick[::2 if not THOROUGH else 1]], f_run)
    chk.family("batches", [((g[:-1] + (EX[k],) if len(g) > 2 and not isinstance(g[-1], str) else g, ("RY", (1,), EX[k2])), bt, 0, e, en) for g in (("RX", (0,), a), ("CRZ", (2, 0), a), ("MCRX", (0, 2, 1), a))
                           for k in EX for k2 in ("a", "x", "0.4") for bt, e, en in ((0, 0, "fn"), (1, 1, "bk"), (2, 0, "bk"), (3, 1, "fn"))], f_run)
    chk.family("evolution", [((("HamEvo", GEN[g], EX[k]),), bt, st, 0, "bk") for g in GEN if g != "p2r" for k in ("a", "x", "0.4") for bt in ((0, 2) if g != "parf" else (0, 2)) for st in (0, 1)]
               + [((("scale", EX[k], h),), bt, 0, 0, "bk") for k in ("a", "x", "0.4") for h in (("X", (0,)), ("add", ("X", (0,)), ("Z", (1,))), ("chain", ("RX", (0,), a), ("H", (1,)))) for bt in (0, 2)], f_run)
    mids = [(), (("RX", (0,), a),), (("RX", (0,), x), ("CRY", (1, 0), ("mul", a, x))), (("RX", (0,), x), ("RZ", (1,), y), ("H", (1,))), (("HamEvo", GEN["ising"], x),), None]
    osets = [(o,) for o in OBS] + [("Z0", "xyz"), ("sum", "Z0", "nest"), ("pf", "Z0"), ("pv", "pe")]
    chk.family("expectation", [(m, o, bt, md, st, en) for m in mids for o in osets for bt, md, st, en in ((0, "ad", 0, "bk"), (2, "ad", 0, "fn"), (3, "gpsr", 0, "bk"), (1, "gpsr", 1, "bk"), (2, "ad", 1, "bk"), (2, "ad", 0, "bk_little"), (0, "gpsr", 1, "bk_little"), (3, "ad", 0, "fn_little"), (2, "ad", 0, "raw_little"), (0, "ad", 1, "raw"))
                               if not (m is None and "pf" in o)], f_exp)
    chk.family("gradients", [((g,), o, bt, "ad") for g in [q + (EX[k],) for q in (("RX", (0,)), ("CRY", (2, 0)), ("MCRZ", (0, 1, 2))) for k in ("a", "x", "a*x", "sin", "a**2")] + [("HamEvo", GEN[k], e) for k in ("x", "ising", "par", "parf") for e in (a, x)]
                             for o in (("sum",), ("Z0", "xyz"), ("pv", "pe")) for bt in (0, 2)], f_grad)
    chk.family("shift_rule", [((g, h), o, bt, "gpsr") for g in [(q, (w,), EX[k]) for q in ("RX", "RY", "RZ") for w in (0, 2) for k in ("a", "x", "a*x", "sin")] for h in (("H", (1,)), ("RX", (1,), a)) for o in (("sum",), ("Z0", "xyz")) for bt in (0, 2)], f_limits)
    chk.family("gpsr_limits", [((g,), o, 0, "gpsr") for g in (("CRY", (2, 0), a), ("MCRX", (0, 1, 2), x), ("HamEvo", GEN["x"], a), ("HamEvo", GEN["ising"], x)) for o in (("sum",), ("Z0", "xyz"))]
               + [((("RX", (0,), a),), ("pv", "Z0"), 0, "gpsr")], f_limits)
    blocks = [("Proj", (0, 1), "01", "10"), ("Proj", (2,), "1", "0"), ("Proj", (1, 2), "00", "11")] + [p for p in gen.ones(3, ("X", "Y", "Z", "I", "N"))] + [g for k, g in GEN.items() if k not in ("par", "parf")] + [("kron", p, q) for p in gen.ones(3, ("X", "N")) for q in gen.ones(3, ("Y", "Z")) if p[1] != q[1]]
    chk.family("matrices", [(s, qs, e) for s in blocks for qs in ((0, 1, 2), (0, 1, 2, 3)) for e in (0, 1)], f_mat)
    chk.family("sampling", [(m, bt, e, sh) for m in ((("X", (0,)),), (("X", (0,)), ("CNOT", (0, 2))), (("H", (1,)),), (("H", (0,)), ("CNOT", (0, 2))), (("RX", (1,), x),), (("SWAP", (0, 2)), ("X", (2,)), ("H", (0,)))) for bt in (0, 1, 2, 3) for e in (0, 1) for sh in (1, 7, 50)], f_sample)
    return chk


guard_main(("P10", make))
