"""P01: running a circuit yields the product of its gate unitaries applied to the initial state."""
from itertools import product, permutations

from lib.harness import Check, guard_main, THOROUGH
from lib import gen, ref

FEAT = {0: ("f", "x"), 1: ("f", "y"), 2: ("f", "z")}
NAMES = ("beta", "gamma", "E", "S", "I", "N", "Q", "pi", "zeta", "lamda", "x_1", "theta_0", "w0")
VARI = {0: ("v", "a"), 1: ("v", "b"), 2: ("v", "c")}
BACK1 = tuple(g for g in gen.F1 if g != "TDagger")


def alphabet(n, e=gen.A):
    return (gen.ones(n, BACK1) + gen.rots(n, e) + gen.us(n) + gen.twos(n, e) + gen.multis(n, e))


def variants(spec):
    """the numeric program, and the same with variational / feature / mixed expressions."""
    yield spec, 0
    v = gen.subst(spec, lambda i, x: VARI[i % 3])
    if v != spec:
        yield v, 0
        yield gen.subst(spec, lambda i, x: FEAT[i % 3]), 0
        yield gen.subst(spec, lambda i, x: FEAT[i % 3]), 2
        yield gen.subst(spec, lambda i, x: ("add", ("mul", 2, VARI[i % 3]), ("sin", FEAT[(i + 1) % 3]))), 3


def make():
    import numpy as np
    import torch
    import qadence as Q
    from lib.common import (Builder, Endianness, close, envs, model_of, ref_states, t2n,
                            torch_state, VALS)

    def judge(spec, n, batch, out, state=None, share=True):
        vs = ref.variables(spec)
        es, values = envs(vs, batch)
        m = model_of(spec, n)
        kw = {} if state is None else {"state": torch_state(state)}
        got = t2n(m.run(values, **kw))
        nb = max(len(es), 1 if state is None or state.ndim == 1 else len(state))
        if len(es) == 1:
            es = es * nb
        want = ref_states(spec, n, es, state)
        out.feed(got)
        out.step(len(es))
        if len(got) == 1 and len(want) > 1 and np.allclose(want, want[:1]):
            want = want[:1]  # the program does not depend on the batched value (e.g. 0 * x)
        return close(got, want)

    def f_prog(case, out):
        spec, n, batch, st = case
        state = None
        if st == "dense":
            state = ref.rand_state(n, 1)
        elif st == "batch":
            state = np.array([ref.rand_state(n, i) for i in range(3)])
        elif st != "zero":
            state = ref.product(st)
        return judge(spec, n, batch, out, state)

    chk = Check("P01", rule="every program of the alphabet up to the stated depth, run on the real "
                "backend and on the numpy reference; a case is non-trivial when the final state "
                "observed is distinct from that of every other case of the family",
                assumptions=["float64 simulation, agreement to 1e-6",
                             "TDagger is documented as unsupported by the simulator"],
                bounds="1..4 qubits, all single gates, all ordered pairs, depth-3 programs over a "
                       "reduced alphabet, all composition trees of 3 leaves")

    # 1. every gate, every placement, every kind of parameter, from a dense state
    cases = []
    for n in (1, 2, 3, 4):
        for g in alphabet(n):
            if n == 4 and len(g[1]) < 2 and not THOROUGH:
                continue
            for spec, b in variants(g):
                cases.append((spec, n, b, "dense"))
    chk.family("gates", cases, f_prog)

    # 2. every gate from every basis state (n=2,3)
    cases = []
    for n in (2, 3):
        for g in alphabet(n):
            for i in range(2 ** n):
                if n == 3 and not THOROUGH and i not in (3, 5, 6):
                    continue
                cases.append((g, n, 0, format(i, f"0{n}b")))
    chk.family("basis", cases, f_prog)

    # 3. ordered pairs
    cases = [(("chain", a, b), 2, 0, "dense") for a, b in product(alphabet(2), alphabet(2, gen.B))]
    small3 = ([("H", (q,)) for q in range(3)] + [("T", (q,)) for q in range(3)]
              + [("RY", (q,), 0.7) for q in range(3)]
              + [("CNOT", s) for s in permutations(range(3), 2)]
              + [("CRX", s, 0.9) for s in permutations(range(3), 2)]
              + [("SWAP", s) for s in permutations(range(3), 2)]
              + [("Toffoli", s) for s in permutations(range(3), 3)]
              + [("CSWAP", s) for s in permutations(range(3), 3)])
    al3 = alphabet(3) if THOROUGH else small3
    cases += [(("chain", a, b), 3, 0, "dense") for a, b in product(al3, al3)]
    chk.family("pairs", cases, f_prog)

    # 4. triples with parameters shared between gates, batched
    tri = [("RX", (0,), ("f", "x")), ("RY", (1,), ("f", "x")), ("CNOT", (0, 1)), ("CRZ", (1, 0), ("v", "a")),
           ("RY", (0,), ("add", ("v", "a"), ("f", "x"))), ("PHASE", (1,), ("mul", ("v", "a"), ("f", "y"))),
           ("SWAP", (0, 1)), ("U", (0,), ("v", "a"), ("f", "x"), ("f", "y"))]
    if THOROUGH:
        tri += [("H", (1,)), ("CPHASE", (0, 1), ("sin", ("f", "y"))), ("T", (0,)), ("RZ", (0,), ("v", "b"))]
    cases = [(("chain", *t), 2, b, s) for t in product(tri, repeat=3)
             for b, s in ((0, "zero"), (3, "dense"))]
    if THOROUGH:
        cases += [(("chain", *t), 2, 2, "zero") for t in product(tri[:8], repeat=4)]
    chk.family("triples", cases, f_prog)

    # 5. composition trees: nesting, kron, sums, scales, powers
    leaves = [("RX", (0,), ("v", "a")), ("CNOT", (1, 2)), ("H", (2,)), ("RZ", (1,), ("f", "x"))]
    trees = []
    ops = ("chain", "kron", "add")

    def ok_kron(*bs):
        s = [q for b in bs for q in ref.support(b)]
        return len(s) == len(set(s))

    for o1, o2 in product(ops, ops):
        for a, b, c in product(leaves, repeat=3):
            for l, r in (((o2, a, b), c), (a, (o2, b, c))):
                inner = l if l[0] == o2 and isinstance(l[1], tuple) and isinstance(l[1][0], str) else r
                if o2 == "kron" and not ok_kron(*inner[1:]):
                    continue
                if o1 == "kron" and not ok_kron(l, r):
                    continue
                trees.append((o1, l, r))
    cases = [(t, 3, b, "dense") for t in dict.fromkeys(trees) for b in (0, 2)]
    cases += [(("scale", k, t), 3, 0, "dense") for k in (2.5, -1, -1.5, 0, 2j, ("mul", 1 - 2j, ("v", "a")), ("v", "a"), ("f", "x"), ("add", ("v", "a"), ("f", "x")))
              for t in leaves + [("add", leaves[0], leaves[1]), ("chain", leaves[1], leaves[2])]]
    cases += [(("add", ("scale", ("v", "a"), x), ("scale", ("f", "y"), y)), 3, 2, "dense")
              for x in leaves for y in leaves]
    cases += [(("pow", t, k), 3, 0, "dense") for t in leaves[1:3] + [("chain", leaves[1], leaves[2])] for k in (1, 2, 3)]
    chk.family("trees", cases, f_prog)

    # 5b. nested scales: every pair of factors around every composite, any inner position
    fac = (0, 1, -1, 2.0, 0.5j, ("v", "a"), ("f", "x"), ("sub", ("v", "a"), ("v", "a")))
    inner = [("X", (0,)), ("RY", (1,), ("v", "b"))]
    cases = []
    for k1, k2 in product(fac, fac):
        for a, b in product(inner, inner):
            for o in ops:
                if o == "kron" and not ok_kron(a, b):
                    continue
                cases.append((("scale", k1, (o, ("scale", k2, a), b)), 2, 2, "dense"))
                cases.append((("add", ("Z", (1,)), ("scale", k1, (o, b, ("scale", k2, a)))), 2, 0, "dense"))
    for k1, k2, k3 in product(fac[:6], repeat=3):
        cases.append((("scale", k1, ("chain", ("scale", k2, ("add", ("scale", k3, ("X", (0,))), ("Z", (1,)))), ("H", (0,)))), 2, 0, "dense"))
        cases.append((("scale", k1, ("scale", k2, ("kron", ("scale", k3, ("X", (0,))), ("Z", (1,))))), 2, 0, "dense"))
    chk.family("scales", cases, f_prog)

    # 5c. deep nesting: all trees of chain/kron/add over 4 leaves in three association shapes
    lv = [("RX", (0,), ("v", "a")), ("S", (1,)), ("CNOT", (1, 0)), ("RY", (2,), ("f", "x"))]
    deep = []
    for o1, o2, o3 in product(ops, repeat=3):
        for a, b, c, d in product(lv, repeat=4) if THOROUGH else permutations(lv, 4):
            for t in ((o1, (o2, a, b), (o3, c, d)), (o1, a, (o2, b, (o3, c, d))), (o1, (o2, (o3, a, b), c), d)):
                def valid(s):
                    if s[0] not in ops:
                        return True
                    return (s[0] != "kron" or ok_kron(*s[1:])) and all(valid(x) for x in s[1:])
                if valid(t):
                    deep.append(t)
    chk.family("deep", [(t, 3, 2, "dense") for t in dict.fromkeys(deep)], f_prog)

    # 6. evolutions
    zz = ("kron", ("Z", (0,)), ("Z", (1,)))
    gens = [("X", (0,)), ("N", (1,)), zz, ("add", zz, ("X", (0,))), ("add", ("X", (0,)), ("X", (2,))),
            ("add", ("scale", 0.7, ("kron", ("X", (0,)), ("Y", (2,)))), ("scale", -0.4, ("N", (1,)))),
            ("add", ("kron", ("N", (0,)), ("N", (2,))), ("scale", 1.3, ("Y", (1,)))),
            ("scale", ("v", "b"), zz), ("add", ("scale", ("f", "x"), ("Z", (2,))), ("X", (2,))),
            ("add", ("scale", ("v", "a"), ("X", (1,))), ("scale", ("f", "y"), ("kron", ("Z", (1,)), ("Z", (0,)))))]
    times = (0.6, -1, ("v", "a"), ("f", "x"), ("add", ("v", "a"), ("f", "x")))
    pre = ("chain", ("RY", (0,), 0.4), ("CNOT", (0, 2)))
    cases = [(("chain", pre, ("HamEvo", g, t), ("RX", (1,), ("f", "x"))), 3, b, "dense")
             for g in gens for t in times for b in (0, 2)]
    cases += [(("HamMat", k, s, t), 3, b, st) for k, r in (("h1", 1), ("h2", 2), ("h3", 3))
              for s in permutations(range(3), r) for t in times[:4] for b in (0, 2) for st in ("dense", "zero")]
    cases += [(("chain", ("HamEvo", g, s), ("HamEvo", h, t)), 3, 0, "dense")
              for g in gens[:3] for h in gens[:3] for s, t in ((-1, -2), (-2, -1), (0.5, 1), (("v", "a"), -1.0))]
    chk.family("evolutions", cases, f_prog)

    # 6b. constants: which constant goes to which gate, for all pairs of constants
    consts = (0, 1, -1, -2, -1.0, -2.0, 0.5, -0.5, 2, 3.7, 1e-3, -7)
    cases = [(("chain", ("U", (0,), s, t, 0.3), ("scale", s, ("chain", ("RX", (1,), ("v", "a")), ("HamEvo", ("Y", (0,)), t)))), 2, 0, "dense")
             for s in consts for t in consts]
    cases += [(("chain", ("RX", (0,), s), ("CRY", (0, 1), t)), 2, 0, "dense") for s in consts for t in consts]
    # parameter names that mean something else to a symbolic engine
    cases += [(("chain", ("scale", ("v", p), ("RX", (0,), ("v", p))), ("scale", ("add", ("v", p), 0.5), ("add", ("X", (1,)), ("RY", (0,), ("f", q))))),
               2, 0, "dense") for p in NAMES for q in NAMES if p != q]
    chk.family("constants", cases, f_prog)

    # 7. matrices, projectors, arbitrary placement
    cases = [(("chain", ("H", (0,)), ("Mat", s, k)), 3, 0, "dense") for k, r in (("u1", 1), ("u2", 2), ("u3", 3))
             for s in permutations(range(3), r)]
    for r in (1, 2):
        for s in permutations(range(3), r):
            for ket, bra in product([format(i, f"0{r}b") for i in range(2 ** r)], repeat=2):
                cases.append((("Proj", s, ket, bra), 3, 0, "dense"))
    cases += [(("N0", (q,)), 2, 0, "dense") for q in (0, 1)]
    chk.family("matrices", cases, f_prog)

    # 8. entry points: run() of a block / circuit / register, endianness, batched states
    def f_entry(case, out):
        kind, spec, n, batch = case
        vs = ref.variables(spec)
        es, values = envs(vs, batch)
        blk = Builder(VALS).block(spec)
        want = ref_states(spec, n, es)
        if kind == "block":
            got = Q.run(blk, values=values)
            k = max(ref.support(spec)) + 1
            want = ref_states(spec, k, es)
        elif kind == "n_block":
            got = Q.run(n, blk, values=values)
        elif kind == "register":
            got = Q.run(Q.Register.all_to_all(n), blk, values=values)
        elif kind == "circuit":
            got = Q.run(Q.QuantumCircuit(n, blk), values=values)
        elif kind == "circuit_many":
            parts = [Builder(VALS).block(s) for s in spec[1:]]
            got = Q.run(Q.QuantumCircuit(n, *parts), values=values)
        elif kind == "little":
            got = Q.run(Q.QuantumCircuit(n, blk), values=values, endianness=Endianness.LITTLE)
            want = ref.bitrev_vec(want)
        elif kind == "little_state":
            st = np.array([ref.rand_state(n, i) for i in range(max(batch, 1))])
            got = Q.run(Q.QuantumCircuit(n, blk), values=values, state=torch_state(st),
                        endianness=Endianness.LITTLE)
            want = ref.bitrev_vec(ref_states(spec, n, es if len(es) == len(st) else es * len(st), st))
        elif kind == "batch_state":
            st = np.array([ref.rand_state(n, i) for i in range(max(batch, 3))])
            es2 = es if len(es) == len(st) else es * len(st)
            if len(es2) != len(st):
                es2 = es2[:len(st)]
            got = Q.run(Q.QuantumCircuit(n, blk), values=values, state=torch_state(st))
            want = ref_states(spec, n, es2, st)
        elif kind == "list":
            got = Q.run([Q.QuantumCircuit(n, blk), Q.QuantumCircuit(n, blk)], values=values)
            want = np.concatenate([want, want])
        elif kind == "override":
            # values given for variational parameters replace the stored ones
            o = {"a": 1.9, "b": -0.2}
            names = {nm for k, nm in vs if k == "v"}
            values = dict(values, **{k: torch.tensor([v], dtype=torch.float64) for k, v in o.items() if k in names})
            got = model_of(spec, n).run(values)
            want = ref_states(spec, n, [dict(e, **o) for e in es])
        elif kind in ("composed", "gpsr", "composed_gpsr"):
            kw = {"configuration": {"use_single_qubit_composition": True}} if "composed" in kind else {}
            if "gpsr" in kind:
                kw["diff_mode"] = "gpsr"
            got = model_of(spec, n, **kw).run(values)
        elif kind == "twice":
            m = model_of(spec, n)
            first = t2n(m.run(values))
            m.expectation if False else None
            got = m.run(values)
            if close(first, t2n(got)):
                return "second run differs"
        got = t2n(got)
        out.feed(got)
        return close(got, want)

    progs = [("chain", ("RX", (0,), ("v", "a")), ("CNOT", (0, 1)), ("RY", (1,), ("f", "x"))),
             ("chain", ("H", (1,)), ("CRX", (1, 0), ("f", "x")), ("T", (0,))),
             ("chain", ("CNOT", (1, 2)), ("RX", (1,), 0.5), ("CNOT", (1, 0))),
             ("chain", ("RY", (2,), 0.9), ("SWAP", (2, 0)), ("U", (1,), ("v", "a"), ("v", "b"), ("f", "x"))),
             ("chain", ("X", (1,)), ("HamEvo", zz, ("f", "x")), ("H", (0,)))]
    layer = ("kron", ("RX", (0,), ("v", "a")), ("RX", (1,), ("f", "x")), ("H", (2,)))
    layer2 = ("kron", ("RY", (0,), ("f", "x")), ("T", (1,)), ("RZ", (2,), ("v", "b")))
    layer3 = ("kron", ("RZ", (2,), ("v", "a")), ("RX", (1,), ("f", "x")), ("S", (0,)))
    progs += [("chain", layer, layer2), ("chain", layer, layer2, layer), ("chain", layer, layer3),
              ("chain", ("chain", layer, layer2), ("CNOT", (0, 2)), ("chain", layer2, layer)),
              ("chain", ("RX", (0,), ("v", "a")), ("H", (0,)), ("RY", (0,), ("f", "x"))),
              ("chain", ("kron", ("chain", ("H", (0,)), ("S", (0,)), ("RX", (0,), ("f", "x"))), ("chain", ("Y", (1,)), ("T", (1,)))), ("CZ", (0, 1)))]
    cases = [(k, p, n, b) for k in ("list", "override", "composed", "gpsr", "composed_gpsr", "block", "n_block", "register", "circuit", "circuit_many", "little",
                                    "little_state", "batch_state", "twice")
             for p in progs for n in (max(ref.support(p)) + 1, 4)
             for b in ((0, 1, 2, 3) if k != "batch_state" else (0, 3))]
    chk.family("entry", cases, f_entry)
    _ = torch
    return chk


guard_main(("P01", make))
