"""P07: expectation values equal <psi|O|psi>, per batch element and observable, at every entry point."""
from itertools import product, permutations

from lib.harness import Check, guard_main, THOROUGH
from lib import gen, ref

zz = ("kron", ("Z", (0,)), ("Z", (1,)))
CIRCS = {
    "plain": ("chain", ("RY", (0,), 0.8), ("CNOT", (0, 1)), ("T", (1,)), ("RX", (1,), 0.3), ("H", (2,))),
    "var": ("chain", ("RX", (0,), ("v", "a")), ("CRY", (0, 2), ("v", "b")), ("RZ", (1,), ("v", "a"))),
    "feat": ("chain", ("RX", (0,), ("f", "x")), ("CNOT", (0, 1)), ("RY", (2,), ("f", "x")), ("RX", (1,), ("v", "a"))),
    "two": ("chain", ("RY", (0,), ("mul", ("v", "a"), ("f", "x"))), ("CRX", (0, 1), ("f", "y")), ("H", (2,)), ("CZ", (2, 1))),
    "evo": ("chain", ("RY", (0,), 0.8), ("H", (1,)), ("HamEvo", ("add", zz, ("X", (2,))), ("f", "x"))),
    "mat": ("chain", ("H", (0,)), ("HamMat", "h2", (0, 1), ("v", "a")), ("RX", (2,), ("f", "x"))),
    "small": ("chain", ("RX", (1,), ("f", "x")),),
}
OBS = {
    "Z0": ("Z", (0,)), "Y1": ("Y", (1,)), "X2": ("X", (2,)), "N1": ("N", (1,)), "I0": ("I", (0,)),
    "zz": zz, "xyz": ("kron", ("X", (2,)), ("Y", (0,)), ("Z", (1,))), "far": ("kron", ("Y", (0,)), ("Y", (2,))),
    "sum": ("add", ("Z", (0,)), ("X", (1,))), "three": ("scale", 3.0, ("Z", (1,))),
    "neg": ("scale", -0.5, ("add", ("X", (0,)), zz)), "zero": ("scale", 0.0, ("Z", (2,))),
    "nest": ("add", ("scale", 2.0, ("add", ("Z", (0,)), ("scale", -0.3, ("kron", ("X", (0,)), ("N", (2,)))))), ("I", (1,))),
    "nn": ("kron", ("N", (2,)), ("N", (0,))), "xzx": ("chain", ("X", (0,)), ("Z", (0,)), ("X", (0,))),
    "pv": ("scale", ("v", "b"), ("Z", (0,))), "pf": ("scale", ("f", "y"), ("X", (2,))),
    "pe": ("add", ("scale", ("add", ("v", "a"), ("f", "x")), zz), ("scale", ("f", "y"), ("Y", (1,)))),
    "shared": ("add", ("scale", ("v", "a"), ("Z", (0,))), ("scale", ("v", "a"), ("X", (1,)))),
    "nestp": ("scale", ("f", "x"), ("add", ("scale", ("v", "b"), ("Z", (2,))), ("kron", ("X", (0,)), ("scale", 2.0, ("Z", (1,)))))),
    "sq": ("chain", ("X", (0,)), ("scale", 0.5, ("X", (0,)))),
}


def make():
    import numpy as np
    import torch
    import qadence as Q
    from lib.common import Builder, close, envs, t2n, torch_state, VALS

    n = 3

    def want_of(cs, os_, es, states=None):
        rows = []
        nb = len(es) if states is None or states.ndim == 1 else max(len(es), len(states))
        for i in range(nb):
            e = es[i % len(es)] if len(es) > 1 else es[0]
            s = ref.zero_state(n) if states is None else (states if states.ndim == 1 else states[i % len(states)])
            psi = ref.mat(cs, n, e) @ s
            rows.append([np.real(np.vdot(psi, ref.mat(o, n, e) @ psi)) for o in os_])
        return np.array(rows)

    def judge(got, want, out):
        got = t2n(got)
        out.feed(got)
        if len(got) == 1 and len(want) > 1 and np.allclose(want, want[:1]):
            want = want[:1]
        if np.iscomplexobj(got):
            return "complex expectation value"
        return close(got, want, 1e-5 * max(1.0, np.abs(want).max()))

    def f(case, out):
        ck, oks, batch, entry, st = case
        cs, os_ = CIRCS[ck] if isinstance(ck, str) else ck, [OBS[o] if isinstance(o, str) else o for o in oks]
        vs = set(ref.variables(cs))
        for o in os_:
            vs |= set(ref.variables(o))
        es, values = envs(sorted(vs), batch)
        b = Builder(VALS)
        circ = Q.QuantumCircuit(n, b.block(cs))
        obs = [b.block(o) for o in os_]
        states, kw = None, {}
        if st == "one":
            states = ref.rand_state(n, 1)
        elif st == "many":
            states = np.array([ref.rand_state(n, i) for i in range(batch or 3)])
        if states is not None:
            kw["state"] = torch_state(states)
        want = want_of(cs, os_, es, states)
        out.step(len(want) * len(os_))
        if entry.endswith("_little"):  # the order of the bits shown is no matter of the quadratic form
            entry = entry[:-7]
            kw["endianness"] = Q.types.Endianness.LITTLE
        loop = {"loop_expectation": True}
        if entry == "fn":
            got = Q.expectation(circ, obs, values=values, **kw)
        elif entry == "fn_single":
            got = Q.expectation(circ, obs[0], values=values, **kw)
            want = want[:, :1]
        elif entry == "fn_block":
            got = Q.expectation(n, circ.block, obs, values=values, **kw)
        elif entry == "fn_register":
            got = Q.expectation(Q.Register.line(n), circ.block, obs, values=values, **kw)
        elif entry == "fn_loop":
            got = Q.expectation(circ, obs, values=values, configuration=loop, **kw)
        elif entry == "fn_composed":
            got = Q.expectation(circ, obs, values=values, configuration={"use_single_qubit_composition": True}, **kw)
        elif entry == "fn_ad":
            got = Q.expectation(circ, obs, values=values, diff_mode="ad", **kw)
        elif entry == "direct":
            bk = Q.backend_factory("pyqtorch", diff_mode=None)
            conv = bk.convert(circ, obs)
            got = bk.expectation(conv.circuit, conv.observable, conv.embedding_fn(conv.params, values), **kw)
        elif entry == "model":
            got = Q.QuantumModel(circ, obs).expectation(values, **kw)
        elif entry == "model_loop":
            got = Q.QuantumModel(circ, obs, configuration=loop).expectation(values, **kw)
        elif entry == "model_single":
            got = Q.QuantumModel(circ, obs[0]).expectation(values, **kw)
            want = want[:, :1]
        elif entry == "model_given":
            m = Q.QuantumModel(circ, obs[0])
            got = m.expectation(values, observable=[m.observable(o, n) for o in obs[1:]] + [m._observable[0]], **kw)
            want = np.concatenate([want[:, 1:], want[:, :1]], 1)
        elif entry in ("separate", "separate_loop"):
            cf = {nm for k, nm in ref.variables(cs) if k == "f"}
            of = {nm for o in os_ for k, nm in ref.variables(o) if k == "f"}
            vals = {"circuit": {k: v for k, v in values.items() if k in cf},
                    "observables": {k: v for k, v in values.items() if k in of}}
            m = Q.QuantumModel(circ, obs, configuration=loop if entry.endswith("loop") else None)
            got = m.expectation(vals, **kw)
        return judge(got, want, out)

    chk = Check("P07", rule="every circuit x list of observables x batch x initial state x entry point; "
                "compared with <psi|O|psi> of the reference; non-trivial = distinct table of values",
                bounds="3 qubits, 7 circuits, 20 observables (+ all Pauli strings), batches 0,1,2,3, all entry points",
                assumptions=["variational parameters are single precision: agreement to 1e-5"])
    cases = [(c, (o,), b, e, s) for c in CIRCS for o in OBS for b in (0, 2)
             for e, s in (("fn", None), ("fn_loop", None), ("model", "one"), ("fn", "many"), ("model_loop", "one"), ("fn_composed", None))]
    chk.family("single", cases, f)
    few = ("plain", "feat", "two") if not THOROUGH else tuple(CIRCS)
    some = ("Z0", "xyz", "neg", "pv", "pf", "pe", "zero", "nestp", "nn") if not THOROUGH else tuple(OBS)
    cases = [(c, os_, b, e, None) for c in few for os_ in permutations(some, 2) if not (c == "mat" and "xzx" in os_) for b in (0, 3)
             for e in ("fn", "fn_loop", "model", "model_loop")]
    chk.family("pairs", cases, f)
    cases = [(c, os_, b, e, s) for c in CIRCS for os_ in (("Z0", "pf", "pe"), ("shared", "xyz", "Z0"), ("Z0", "Z0", "three"), ("pf", "pv"))
             for b in (0, 1, 2, 3) for e in ("fn_single", "fn_block", "fn_register", "fn_ad", "model_single", "separate", "separate_loop")
             for s in ((None, "one", "many") if "loop" not in e else (None, "one"))]
    cases += [(c, os_, b, "model_given", s) for c in CIRCS for os_ in (("Z0", "X2", "xyz"), ("neg", "zz", "N1"))
              for b in (0, 2) for s in (None, "one")]
    chk.family("entries", cases, f)
    cases = [(c, os_, b, e + "_little", s) for c in ("plain", "feat", "two") for os_ in (("Z0", "X2", "xyz"), ("pf", "Z0"), ("X2",))
             for b in (0, 1, 2, 3, 4, 8) for e in ("fn", "fn_loop", "fn_ad", "model", "model_loop", "fn_block", "direct")
             for s in (None, "one") if not (e == "direct" and s)]
    chk.family("orders", cases, f)
    strings = []
    for ps in product("IXYZN", repeat=3):
        bs = tuple((p, (q,)) for q, p in enumerate(ps) if p != "I")
        if bs:
            strings.append(bs[0] if len(bs) == 1 else ("kron",) + bs)
    cases = [(c, (s,), 2, "fn", None) for c in ("plain", "two") for s in strings]
    cases += [("two", (("add", ("scale", ("f", "x"), s), ("scale", -1.5, t)),), 2, "fn", None)
              for s in strings[:: 1 if THOROUGH else 5] for t in strings[:: 1 if THOROUGH else 7]]
    chk.family("strings", cases, f)
    # every gate acting on a state with an observable sensitive to it
    gs = gen.unitary_gates(3)
    cases = [(("chain", ("RY", (0,), 0.8), ("RX", (1,), 0.4), ("H", (2,)), g), ("xyz", "neg"), 0, e, None)
             for g in gs if g[0] != "TDagger" for e in ("fn", "fn_loop")]
    chk.family("gates", cases, f)

    def f_sep(case, out):
        """different batch sizes of circuit and observable features: size 1 pairs with every element."""
        bc, bo, entry = case
        b = Builder(VALS)
        cs, o1, o2 = CIRCS["feat"], ("scale", ("f", "y"), ("X", (2,))), ("Z", (0,))
        xs, ys = (0.61, -0.4, 1.9)[:bc], (-1.37, 0.25, 0.7)[:bo]
        vals = {"circuit": {"x": torch.tensor(xs, dtype=torch.float64)}, "observables": {"y": torch.tensor(ys, dtype=torch.float64)}}
        m = Q.QuantumModel(Q.QuantumCircuit(n, b.block(cs)), [b.block(o1), b.block(o2)],
                           configuration={"loop_expectation": True} if entry == "loop" else None)
        got = m.expectation(vals)
        nb = max(bc, bo)
        es = [dict(VALS, x=xs[i % bc], y=ys[i % bo]) for i in range(nb)]
        return judge(got, want_of(cs, [o1, o2], es), out)

    chk.family("separate_batches", [(a, b, e) for a, b in ((1, 1), (1, 3), (3, 1), (3, 3), (2, 2)) for e in ("batched", "loop")], f_sep)

    def f_one(case, out):
        """one-qubit programs, whose states are as long as two elements of a batch"""
        ck, oks, nb, entry = case
        cs = {"x": ("RX", (0,), ("f", "x")), "xy": ("chain", ("RX", (0,), ("f", "x")), ("RY", (0,), ("f", "y")))}[ck]
        os_ = [OBS[o] for o in oks]
        vs = set(ref.variables(cs))
        for o in os_:
            vs |= set(ref.variables(o))
        es, values = envs(sorted(vs), nb)
        b = Builder(VALS)
        circ, obs, kw = Q.QuantumCircuit(1, b.block(cs)), [b.block(o) for o in os_], {}
        if entry.endswith("_little"):
            entry = entry[:-7]
            kw["endianness"] = Q.types.Endianness.LITTLE
        cfg = {"loop_expectation": True} if entry.endswith("loop") else None
        if entry.startswith("fn"):
            got = Q.expectation(circ, obs, values=values, configuration=cfg, **kw)
        else:
            got = Q.QuantumModel(circ, obs, configuration=cfg).expectation(values, **kw)
        w = [[np.real(np.vdot(psi, ref.mat(o, 1, e) @ psi)) for o in os_] for e in es for psi in (ref.mat(cs, 1, e) @ ref.zero_state(1),)]
        out.step(len(w) * len(os_))
        return judge(got, np.array(w), out)

    chk.family("one_qubit", [(c, os_, nb, e + lit) for c in ("x", "xy") for os_ in (("Z0",), ("Z0", "I0"), ("pv", "Z0"), ("sq", "xzx", "I0"))
                             for nb in range(9) for e in ("fn", "fn_loop", "model", "model_loop") for lit in ("", "_little")], f_one)
    return chk


guard_main(("P07", make))
