"""P02: block_to_tensor is the operator's matrix: any support, endianness, batch, tensor type."""
from itertools import permutations, product

from lib.harness import Check, guard_main, THOROUGH
from lib import gen, ref

FEAT = {0: ("f", "x"), 1: ("f", "y"), 2: ("f", "z")}
VARI = {0: ("v", "a"), 1: ("v", "b"), 2: ("v", "c")}
zz = ("kron", ("Z", (0,)), ("Z", (1,)))
LEAVES = [("RX", (0,), ("v", "a")), ("CNOT", (2, 1)), ("H", (2,)), ("RZ", (1,), ("f", "x")), ("SWAP", (2, 0))]


def relabel(spec, m):
    k = spec[0]
    if k in ("chain", "kron", "add"):
        return (k,) + tuple(relabel(b, m) for b in spec[1:])
    if k in ("scale",):
        return (k, spec[1], relabel(spec[2], m))
    if k in ("pow", "HamEvo"):
        return (k, relabel(spec[1], m), spec[2])
    if k == "HamMat":
        return (k, spec[1], tuple(m[q] for q in spec[2]), spec[3])
    return (k, tuple(m[q] for q in spec[1])) + tuple(spec[2:])


def expected(spec, sup, env, little):
    """matrix of spec on the (sorted) qubits sup."""
    sup = sorted(sup)
    m = ref.mat(relabel(spec, {q: i for i, q in enumerate(sup)}), len(sup), env)
    return ref.bitrev_mat(m) if little else m


def trees():
    out = []
    ops = ("chain", "kron", "add")

    def ok(*bs):
        s = [q for b in bs for q in ref.support(b)]
        return len(s) == len(set(s))
    for o1, o2 in product(ops, ops):
        for a, b, c in product(LEAVES, repeat=3):
            for shape in (0, 1):
                inner = (o2, a, b) if shape == 0 else (o2, b, c)
                l, r = (inner, c) if shape == 0 else (a, inner)
                if o2 == "kron" and not ok(*inner[1:]):
                    continue
                if o1 == "kron" and not ok(l, r):
                    continue
                out.append((o1, l, r))
    return list(dict.fromkeys(out))


def make():
    import numpy as np
    import torch
    from qadence import block_to_tensor
    from qadence.types import Endianness, TensorType
    from lib.common import Builder, close, envs, t2n, VALS

    def f(case, out):
        spec, sup, batch, little, how = case
        es, values = envs(ref.variables(spec), batch)
        blk = Builder(VALS).block(spec)
        kw = {"endianness": Endianness.LITTLE if little else Endianness.BIG}
        if how == "given":
            kw["qubit_support"] = sup
        elif how == "full":
            kw["use_full_support"] = True
        got = block_to_tensor(blk, values, **kw)
        want = np.array([expected(spec, sup, e, little) for e in es])
        got = t2n(got)
        if got.ndim == 2:
            got = got[None]
        if len(got) == 1 and len(want) > 1:
            got = np.repeat(got, len(want), 0)
        out.feed(got)
        out.step(len(es))
        return close(got, want)

    def f_sparse(case, out):
        spec, sup, little = case
        blk = Builder(VALS).block(spec)
        kw = {"endianness": Endianness.LITTLE if little else Endianness.BIG}
        if sup is not None:
            kw["qubit_support"] = sup
        es, values = envs(ref.variables(spec), 0)
        got = t2n(block_to_tensor(blk, values, tensor_type=TensorType.SPARSEDIAGONAL, **kw).to_dense())
        want = expected(spec, sup or ref.support(spec), es[0], little)
        out.feed(got)
        return close(got, want)

    def opts(spec, n, big):
        s = tuple(sorted(ref.support(spec)))
        yield s, "default"
        yield tuple(range(max(s) + 1)), "full"
        yield tuple(range(n)), "given"
        if big:
            yield tuple(sorted(set(s) | {n, n + 2})), "given"

    chk = Check("P02", rule="every operator of the alphabet, on every support/endianness/batch "
                "option, compared entry by entry with the numpy matrix; non-trivial = distinct matrix",
                bounds="supports inside 0..4 (plus gaps), all placements of every gate, all "
                       "3-leaf composition trees, batch sizes 0,2,3",
                assumptions=["matrices agree to 1e-6", "qubits appear in ascending order"])
    cases = []
    for n in (1, 2, 3, 4):
        for g in gen.gates(n) + gen.ones(n, ("N0",)):
            if n == 4 and len(g[1]) < (2 if THOROUGH else 3):
                continue
            if n == 4 and not THOROUGH and g[0] in ("MCRY", "MCRZ"):
                continue
            for sup, how in opts(g, n, n < 4):
                for little in (False, True):
                    cases.append((g, sup, 0, little, how))
            v = gen.subst(g, lambda i, x: VARI[i])
            if v != g:
                sup = tuple(range(n))
                cases.append((v, sup, 0, False, "given"))
                cases.append((gen.subst(g, lambda i, x: FEAT[i]), sup, 2, False, "given"))
                cases.append((gen.subst(g, lambda i, x: ("add", ("mul", 2, VARI[i]), ("sin", FEAT[(i + 1) % 3]))),
                              sup, 3, True, "given"))
    chk.family("gates", dict.fromkeys(cases), f)

    cases = [(t, (0, 1, 2), b, l, "given") for t in trees() for b, l in ((2, False), (0, True))]
    cases += [(("scale", k, t), (0, 1, 2), b, l, "given")
              for k in (2.5, -1, 2j, ("v", "a"), ("f", "x"), ("add", ("v", "a"), ("f", "x")))
              for t in LEAVES + [("add", LEAVES[0], LEAVES[1]), ("chain", LEAVES[1], LEAVES[3]), ("HamEvo", zz, ("f", "x"))]
              for b in (0, 2) for l in (False, True)]
    cases += [(("pow", t, k), (0, 1, 2), 2, False, "given") for t in LEAVES for k in (1, 2, 3)]
    chk.family("trees", cases, f)

    gens = [("X", (0,)), ("N", (1,)), zz, ("add", zz, ("X", (0,))), ("add", ("X", (0,)), ("X", (2,))),
            ("add", ("scale", 0.7, ("kron", ("X", (0,)), ("Y", (2,)))), ("scale", -0.4, ("N", (1,)))),
            ("add", ("kron", ("N", (0,)), ("N", (2,))), ("scale", 1.3, ("Y", (1,)))),
            ("kron", ("X", (3,)), ("Y", (1,)))]
    times = (0.6, -1, ("v", "a"), ("f", "x"), ("add", ("v", "a"), ("f", "x")))
    cases = [(("HamEvo", g, t), sup, b, l, how) for g in gens for t in times for b in (0, 2)
             for l in (False, True) for sup, how in opts(g, 4, True)]
    cases += [(("chain", ("HamEvo", g, t), ("RX", (1,), ("f", "x"))), (0, 1, 2, 3), 2, False, "given")
              for g in gens for t in times]
    cases += [(("HamMat", k, s, t), tuple(range(3)), b, l, "given") for k, r in (("h1", 1), ("h2", 2), ("h3", 3))
              for s in permutations(range(3), r) for t in times[:4] for b in (0, 2) for l in (False, True)]
    cases += [(("HamMat", k, s, 0.6), tuple(sorted(s)), 0, l, "default") for k, r in (("h1", 1), ("h2", 2))
              for s in permutations((0, 2, 3), r) for l in (False, True)]
    chk.family("evolutions", cases, f)

    pg = [("HamEvo", ("scale", ("v", "b"), zz), 0.6), ("HamEvo", ("add", ("scale", ("f", "x"), ("Z", (2,))), ("X", (2,))), ("v", "a")),
          ("HamEvo", ("add", ("scale", ("v", "a"), ("X", (1,))), ("scale", ("f", "y"), zz)), ("f", "x"))]
    cases = [(g, (0, 1, 2), b, l, "given") for g in pg for b in (0, 2) for l in (False, True)]
    chk.family("parametric_generators", cases, f)

    cases = [(("scale", k, g), sup, 2, l, how) for k in (2j, 1 - 2j, ("mul", 1j, ("v", "a")), ("mul", ("v", "a"), ("f", "x")))
             for g in LEAVES + [("add", LEAVES[0], LEAVES[3]), ("HamEvo", zz, ("f", "x")), ("N", (1,))]
             for l in (False, True) for sup, how in opts(g, 3, True)]
    chk.family("scales", cases, f)

    cases = [(("chain", ("H", (0,)), ("Mat", s, k)), (0, 1, 2), 0, l, "given") for k, r in (("u1", 1), ("u2", 2), ("u3", 3))
             for s in permutations(range(3), r) for l in (False, True)]
    cases += [(("Mat", s, k), sup, 0, l, how) for k, r in (("u1", 1), ("u2", 2), ("h2", 2), ("u3", 3))
              for s in permutations((0, 1, 3), r) for l in (False, True) for sup, how in opts(("Mat", s, k), 4, True)]
    for r in (1, 2, 3):
        for s in permutations((0, 1, 3), r):
            for b in (format(i, f"0{r}b") for i in range(2 ** r)):
                for l in (False, True):
                    cases.append((("Proj", s, b, b), (0, 1, 2, 3), 0, l, "given"))
    chk.family("matrices", cases, f)

    cases = [(("Proj", s, k, b), tuple(range(2)), 0, False, "given") for r in (1, 2) for s in permutations(range(2), r)
             for k, b in product([format(i, f"0{r}b") for i in range(2 ** r)], repeat=2) if k != b]
    chk.family("transition_projectors", cases, f)

    d1 = [(g, (q,)) for g in ("Z", "I") for q in (0, 1, 3)]
    ds = list(d1)
    ds += [("kron", a, b) for a, b in product(d1, d1) if a[1] != b[1]]
    ds += [("add", a, b) for a, b in product(d1, d1)]
    ds += [("chain", a, b) for a, b in product(d1[:5], d1[:5])]
    ds += [("scale", k, a) for k in (2.5, -1, 2j, 1 - 2j, ("mul", 1j, ("v", "a")), ("v", "a"), ("add", ("v", "a"), 1)) for a in d1 + ds[6:14]]
    ds += [("add", ("scale", 0.3, a), ("scale", ("v", "b"), ("kron", b, c))) for a, b, c in product(d1[::2], repeat=3) if b[1] != c[1]]
    ds += [("add", ("scale", 2.0, ("add", a, b)), ("kron", c, ("scale", -0.5, d)))
           for a, b, c, d in product(d1[1::3], repeat=4) if c[1] != d[1]]
    cases = [(s, sup, l) for s in dict.fromkeys(ds) for sup in (None, (0, 1, 2, 3)) for l in (False, True)]
    chk.family("sparse_diagonal", cases, f_sparse)
    return chk


guard_main(("P02", make))
