"""P04: dagger() is the adjoint."""
from itertools import permutations, product

from lib.harness import Check, guard_main, THOROUGH
from lib import gen, ref

VARI = {0: ("v", "a"), 1: ("v", "b"), 2: ("v", "c")}
FEAT = {0: ("f", "x"), 1: ("f", "y"), 2: ("f", "z")}
zz = ("kron", ("Z", (0,)), ("Z", (1,)))


def has(spec, names):
    if not isinstance(spec, tuple):
        return False
    if spec and spec[0] in names:
        return True
    return any(has(s, names) for s in spec)


def kinds(g):
    yield g
    v = gen.subst(g, lambda i, x: VARI[i])
    if v != g:
        yield v
        yield gen.subst(g, lambda i, x: FEAT[i])
        yield gen.subst(g, lambda i, x: ("add", ("mul", 2, VARI[i]), ("sin", FEAT[(i + 1) % 3])))


def make():
    import numpy as np
    import qadence as Q
    from lib.common import Builder, close, envs, op_by_run, op_by_tensor, VALS

    def f(case, out):
        spec, n = case
        es, values = envs(ref.variables(spec), 0)
        want = ref.mat(spec, n, es[0])
        blk = Builder(VALS).block(spec)
        names0 = sorted(str(p) for p in Q.blocks.parameters(blk)) if hasattr(Q.blocks, "parameters") else None
        dag = blk.dagger()
        tproj = has(spec, ("Proj",))
        nosim = has(spec, ("T", "TDagger"))
        msgs = []
        if not tproj:
            m = op_by_tensor(dag, n, values)
            msgs.append(("matrix of dagger", close(m, want.conj().T)))
            msgs.append(("matrix of dagger.dagger", close(op_by_tensor(dag.dagger(), n, values), want)))
            out.feed(m)
        if not nosim:
            m = op_by_run(dag, n, values)
            msgs.append(("simulated dagger", close(m, want.conj().T)))
            msgs.append(("simulated dagger.dagger", close(op_by_run(dag.dagger(), n, values), want)))
            out.feed(m)
            if np.allclose(want @ want.conj().T, np.eye(2 ** n)):
                msgs.append(("block then dagger", close(op_by_run(Q.chain(blk, dag), n, values), np.eye(2 ** n))))
        # the original block still means what it did
        again = op_by_tensor(blk, n, values) if not tproj else op_by_run(blk, n, values)
        msgs.append(("original block after dagger", close(again, want)))
        del names0
        out.step(len(msgs))
        bad = [f"{w}: {m}" for w, m in msgs if m]
        return "; ".join(bad)

    def f_circuit(case, out):
        spec, n = case
        es, values = envs(ref.variables(spec), 0)
        want = ref.mat(spec, n, es[0])
        c = Q.QuantumCircuit(n, Builder(VALS).block(spec))
        d = c.dagger()
        if d.n_qubits != n:
            return f"dagger circuit has {d.n_qubits} qubits"
        m = op_by_run(d.block, n, values)
        out.feed(m)
        return close(m, want.conj().T) or close(op_by_run(c.block, n, values), want)

    chk = Check("P04", rule="every block of the alphabet: dagger and double dagger as matrix and as simulated "
                "operator against the numpy adjoint; non-trivial = distinct adjoint",
                bounds="<= 3 qubits (4 for multi-controlled), all placements, all 3-leaf trees, constants, "
                       "variational and feature parameters, complex scales")
    cases = []
    for n in (1, 2, 3):
        for g in gen.gates(n) + gen.ones(n, ("N0",)):
            cases += [(s, n) for s in kinds(g)]
    cases += [(s, 4) for g in gen.multis(4) if len(g[1]) == 4 and (THOROUGH or g[1] in ((0, 1, 2, 3), (3, 1, 0, 2)))
              for s in kinds(g)]
    cases += [(("Mat", s, k), 3) for k, r in (("u1", 1), ("u2", 2), ("u3", 3), ("h2", 2)) for s in permutations(range(3), r)]
    cases += [(("Proj", s, k, b), 3) for r in (1, 2) for s in permutations(range(3), r)
              for k, b in product([format(i, f"0{r}b") for i in range(2 ** r)], repeat=2)]
    chk.family("gates", cases, f)

    leaves = [("RX", (0,), ("v", "a")), ("CRY", (2, 1), ("f", "x")), ("S", (2,)), ("U", (1,), ("v", "a"), 0.4, ("f", "y")),
              ("scale", 2 - 1j, ("T", (0,))), ("HamEvo", zz, ("v", "a"))]
    trees = []

    def ok(*bs):
        s = [q for b in bs for q in ref.support(b)]
        return len(s) == len(set(s))
    for o1, o2 in product(("chain", "kron", "add"), repeat=2):
        for a, b, c in product(leaves, repeat=3):
            for shape in (0, 1):
                inner = (o2, a, b) if shape == 0 else (o2, b, c)
                l, r = (inner, c) if shape == 0 else (a, inner)
                if (o2 == "kron" and not ok(*inner[1:])) or (o1 == "kron" and not ok(l, r)):
                    continue
                trees.append((o1, l, r))
    trees = list(dict.fromkeys(trees))
    if not THOROUGH:
        trees = [t for t in trees if t[0] != t[-1][0]]
    cases = [(t, 3) for t in trees]
    cases += [(("scale", k, t), 3) for k in (2.5, -1, 2j, 1 - 2j, ("v", "a"), ("f", "x"), ("mul", 2 + 1j, ("v", "a")),
                                             ("add", ("v", "a"), ("mul", 1j, ("f", "x"))))
              for t in leaves + [("add", leaves[0], leaves[1]), ("chain", leaves[1], leaves[3])]]
    chk.family("trees", cases, f)

    gens = [("X", (0,)), zz, ("add", zz, ("X", (2,))), ("add", ("scale", 0.7, ("kron", ("X", (0,)), ("Y", (2,)))), ("N", (1,))),
            ("add", ("scale", ("v", "b"), zz), ("scale", ("f", "y"), ("X", (2,))))]
    cases = [(("HamEvo", g, t), 3) for g in gens for t in (0.6, -1, ("v", "a"), ("f", "x"), ("mul", ("v", "a"), ("f", "x")))]
    cases += [(("HamMat", k, s, t), 3) for k, r in (("h1", 1), ("h2", 2), ("h3", 3)) for s in permutations(range(3), r)
              for t in (0.6, ("v", "a"), ("f", "x"))]
    chk.family("evolutions", cases, f)
    progs = [("chain", ("RX", (0,), ("v", "a")), ("CNOT", (0, 1)), ("U", (1,), 0.3, 0.4, ("f", "x"))),
             ("chain", ("H", (1,)), ("S", (1,)), ("HamEvo", zz, ("f", "x"))),
             ("kron", ("RY", (0,), 0.3), ("CRX", (2, 1), ("v", "b")))]
    chk.family("circuits", [(p, n) for p in progs for n in (3, 4)], f_circuit)
    return chk


guard_main(("P04", make))
