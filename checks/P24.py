"""P24: equality of blocks, circuits, registers and parameters."""
from itertools import combinations, permutations, product

from lib.harness import Check, guard_main, THOROUGH
from lib import gen, ref

zz = ("kron", ("Z", (0,)), ("Z", (1,)))
N = 3
ENVS = [{"a": 0.37, "b": 1.21, "c": -0.83, "x": 0.61, "y": -1.37, "z": 0.9},
        {"a": -0.9, "b": 0.4, "c": 2.2, "x": 1.7, "y": 0.3, "z": -0.2}]


def pool():
    P = []
    for g in gen.gates(2) + gen.ones(2, ("N0",)):
        P.append(g)
        if len(g) > 2:
            P.append(gen.subst(g, lambda i, x: ("v", "a")))
            if g[1] in ((0,), (0, 1)):
                for e in (("v", "b"), ("f", "x"), ("mul", 2, ("v", "a")), ("add", ("v", "a"), ("f", "x")), ("neg", ("v", "a")), 0.37000001, -0.37):
                    P.append(gen.subst(g, lambda i, x: e if i == len(g) - 3 else x))
    for s in ((0, 1, 2), (1, 0, 2), (2, 1, 0)):
        P += [g for g in gen.multis(3) if g[1] == s]
        P += [gen.subst(g, lambda i, x: ("v", "a")) for g in gen.multis(3) if g[1] == s and len(g) > 2]
    P += [("U", (0,), a, b, c) for a, b, c in permutations((0.1, 0.2, 0.3))] + [("U", (0,), ("v", "a"), 0.2, 0.3), ("U", (0,), 0.1, 0.2, ("v", "a"))]
    P += [("Mat", s, k) for k, r in (("u1", 1), ("h1", 1), ("u2", 2), ("h2", 2)) for s in permutations(range(2), r)]
    P += [("Proj", (q,), k, b) for q in (0, 1) for k, b in product("01", repeat=2)]
    P += [("Proj", s, "01", b) for s in ((0, 1), (1, 0)) for b in ("01", "10", "11")]
    gs = [("X", (0,)), ("Z", (0,)), zz, ("kron", ("X", (0,)), ("Y", (1,))), ("add", ("X", (0,)), ("Z", (1,))), ("scale", ("v", "b"), zz), ("scale", 2, zz)]
    P += [("HamEvo", g, t) for g in gs for t in (0.37, ("v", "a"), ("f", "x"))]
    P += [("HamMat", k, s, 0.37) for k, r in (("h1", 1), ("h2", 2)) for s in permutations(range(2), r)]
    L = [("X", (0,)), ("Y", (1,)), ("RX", (0,), ("v", "a")), ("RX", (0,), ("v", "b")), ("CNOT", (0, 1)), ("Z", (2,)), ("scale", 2, ("X", (0,)))]
    for o in ("chain", "add", "kron"):
        for r in (1, 2, 3):
            for c in product(L, repeat=r):
                if o == "kron" and len({q for b in c for q in ref.support(b)}) != sum(len(ref.support(b)) for b in c):
                    continue
                if r == 3 and (o == "chain" or not THOROUGH) and len(set(c)) == 3:
                    continue
                P.append((o,) + c)
    P += [("chain", ("chain", L[0], L[1]), L[2]), ("chain", L[0], ("chain", L[1], L[2])), ("add", ("add", L[0], L[0]), L[1]),
          ("add", ("add", L[0], L[1]), L[0]), ("add", ("add", L[0], L[1]), L[1]), ("kron", ("kron", L[0], L[1]), L[5]),
          ("kron", ("chain", L[0], L[0]), L[1]), ("kron", ("chain", L[0], L[2]), L[1])]
    for k in (2, 3, -1, 0.5, 2j, ("v", "a"), ("v", "b"), ("mul", 2, ("v", "a")), ("add", ("v", "a"), ("v", "b")), ("mul", ("v", "a"), ("f", "x")), ("f", "x")):
        P += [("scale", k, b) for b in (L[0], L[1], ("chain", L[0], L[1]), ("add", L[0], L[1]))]
    return list(dict.fromkeys(P))


def make():
    import numpy as np
    import qadence as Q
    from qadence.analog import RealisticDevice, RydbergDevice
    AnalogDevice = RealisticDevice()
    from qadence.noise import NoiseHandler
    from qadence.types import NoiseProtocol
    from qadence.parameters import FeatureParameter, Parameter, VariationalParameter
    from lib.common import Builder
    P = pool()
    CACHE = {}

    def init():
        if not CACHE:
            CACHE["B"] = [Builder(ENVS[0]).block(s) for s in P]
            CACHE["C"] = [Builder(ENVS[0]).block(s) for s in P]
            CACHE["M"] = [np.array([ref.mat(s, N, e) for e in ENVS]) for s in P]
        return CACHE

    def f_row(case, out):
        i = P.index(case[0])
        c = init()
        a, a2 = c["B"][i], c["C"][i]
        ra = repr(a)
        if not (a == a):
            return "not equal to itself"
        if not (a == a2) or not (a2 == a) or (a != a2):
            return "not equal to a block built the same way"
        eqs = 0
        for j, b in enumerate(c["B"]):
            if j < i:
                continue
            out.step()
            e1 = a == b
            e2 = b == a
            if e1 is not True and e1 is not False:
                return f"comparison with {P[j]} returns {e1!r}"
            if e1 != e2:
                return f"comparison with {P[j]} is not symmetric ({e1}, {e2})"
            if (a != b) == e1:
                return f"!= disagrees with == for {P[j]}"
            if e1:
                eqs += 1
                if not np.allclose(c["M"][i], c["M"][j], atol=1e-9):
                    return f"equal to {P[j]}, which is a different operator"
            elif P[i] == P[j]:
                return "identical block not equal"
        out.feed(i, eqs)
        if repr(a) != ra:
            return "comparison changed the block"
        return None

    def f_member(case, out):
        spec, probes = case
        b = Builder(ENVS[0]).block(spec)
        kids = spec[1:]

        def desc(s):
            r = [s]
            if s[0] in ("chain", "kron", "add"):
                for k in s[1:]:
                    r += desc(k)
            elif s[0] == "scale":
                r += desc(s[2])
            return r
        alls = [d for k in kids for d in desc(k)]
        for p in probes:
            pb = Builder(ENVS[0]).block(p)
            got = pb in b
            out.step()
            if p in kids and not got:
                return f"direct member {p} not found"
            if got and p not in alls and not any(pb == Builder(ENVS[0]).block(d) for d in alls):
                return f"{p} reported as a member"
            cg = pb in Q.QuantumCircuit(3, b)
            if cg != got:
                return f"circuit membership of {p} differs"
        vs = {n for _, n in ref.variables(spec)}
        bd = Builder(ENVS[0])
        for kind, name in (("v", "a"), ("v", "b"), ("f", "x")):
            p = bd.var(kind, name)
            if (p in b) != (name in vs):
                return f"parameter {name} membership is {p in b}"
            if (p in Q.QuantumCircuit(3, b)) != (name in vs):
                return f"parameter {name} circuit membership wrong"
        out.feed(repr(spec))
        return None

    # ------------------------------------------------------------- circuits, registers
    R = Q.Register
    import networkx as nx

    def graph(n, edges):
        g = nx.Graph()
        g.add_nodes_from(range(n))
        g.add_edges_from(edges)
        return g
    REGS = {"2": lambda: R(2), "3": lambda: R(3), "line3": lambda: R.line(3), "line3s": lambda: R.line(3, spacing=4.0),
            "sq": lambda: R.square(2), "circ4": lambda: R.circle(4), "tri": lambda: R.triangular_lattice(1, 1),
            "c1": lambda: R.from_coordinates([(0.0, 0.0), (0.0, 5.0), (5.0, 0.0)]),
            "c2": lambda: R.from_coordinates([(0.0, 0.0), (5.0, 0.0), (0.0, 5.0)]),
            "c3": lambda: R.from_coordinates([(0.0, 0.0), (0.0, 5.0), (5.0, 0.1)]),
            "g01": lambda: R(graph(3, [(0, 1)])), "g12": lambda: R(graph(3, [(1, 2)])), "g02": lambda: R(graph(3, [(0, 2)])),
            "g0112": lambda: R(graph(3, [(0, 1), (1, 2)])), "g0102": lambda: R(graph(3, [(0, 1), (0, 2)])), "g0": lambda: R(graph(3, [])),
            "dev": lambda: R.line(3, device_specs=AnalogDevice), "dev2": lambda: R.line(3, device_specs=RydbergDevice(rydberg_level=70)),
            "all3": lambda: R.all_to_all(3), "line2": lambda: R.line(2), "coordsE": lambda: R.from_coordinates([(0.0, 0.0), (0.0, 5.0), (5.0, 0.0)], lattice="line")}

    def rdata(r):
        return (r.n_qubits, tuple(sorted((k, tuple(v)) for k, v in r.coords.items())), frozenset(frozenset(e) for e in r.edges), repr(r.device_specs))

    def f_reg(case, out):
        a, a2 = REGS[case[0]](), REGS[case[0]]()
        if not (a == a and a == a2):
            return "not equal to a register built the same way"
        for k, mk in REGS.items():
            b = mk()
            out.step()
            e1, e2 = a == b, b == a
            if e1 != e2:
                return f"not symmetric with {k}"
            if e1 and rdata(a) != rdata(b):
                return f"equal to {k}: {rdata(a)} vs {rdata(b)}"
        if a == 3:
            return "equal to a number"
        out.feed(case)
        return None
    cspecs = [("X", (0,)), ("chain", ("X", (0,)), ("H", (1,))), ("RX", (0,), ("v", "a")), ("scale", 2, zz), ("scale", 3, zz), zz]
    ckeys = [(s, r) for s in cspecs for r in ("2", "3", "line3", "line3s", "g01", "g12", "dev")]

    def f_circ(case, out):
        mk = lambda k: Q.QuantumCircuit(REGS[k[1]](), Builder(ENVS[0]).block(k[0]))  # noqa: E731
        a, a2 = mk(case), mk(case)
        if not (a == a2) or not (a == a):
            return "not equal to a circuit built the same way"
        for k in ckeys:
            b = mk(k)
            out.step()
            e1, e2 = a == b, b == a
            if e1 != e2:
                return f"not symmetric with {k}"
            if e1 and (k[0] != case[0] or rdata(a.register) != rdata(b.register)):
                return f"equal to {k}"
        out.feed(case)
        return None

    # ------------------------------------------------------------- noise on blocks
    NO = {"none": None, "bf1": (NoiseProtocol.DIGITAL.BITFLIP, 0.1), "bf2": (NoiseProtocol.DIGITAL.BITFLIP, 0.2),
          "pf1": (NoiseProtocol.DIGITAL.PHASEFLIP, 0.1)}
    GN = {"X": lambda n: Q.X(0, noise=n), "RX": lambda n: Q.RX(0, 0.3, noise=n), "CNOT": lambda n: Q.CNOT(0, 1, noise=n),
          "CRX": lambda n: Q.CRX(0, 1, 0.3, noise=n), "SWAP": lambda n: Q.SWAP(0, 1, noise=n), "U": lambda n: Q.U(0, 0.1, 0.2, 0.3, noise=n),
          "PHASE": lambda n: Q.PHASE(0, 0.2, noise=n), "H": lambda n: Q.H(0, noise=n), "chain": lambda n: Q.chain(Q.X(0, noise=n), Q.Y(1)),
          "add": lambda n: Q.add(Q.X(0, noise=n), Q.Y(1)), "scale": lambda n: 2 * Q.X(0, noise=n)}

    def mkn(k):
        return None if NO[k] is None else NoiseHandler(NO[k][0], {"error_probability": NO[k][1]})

    def f_noise(case, out):
        g, k1, k2 = case
        a, b = GN[g](mkn(k1)), GN[g](mkn(k2))
        e = a == b
        if e != (b == a):
            return "not symmetric"
        out.feed(case, e)
        if e != (k1 == k2):
            return f"== is {e} for noise {k1} and {k2}"
        return None

    # ------------------------------------------------------------- parameters
    PK = [("v", n, v) for n in ("a1", "b1") for v in (0.3, 0.8)] + [("f", n, 0.3) for n in ("c1", "d1")] + \
         [("e2", "a1", 0.3), ("e+", "a1", 0.3), ("n", 0.5, None), ("n", 2, None)]

    def mkp(k):
        if k[0] == "v":
            return VariationalParameter(k[1] + f"_{k[2]}", value=k[2])
        if k[0] == "f":
            return FeatureParameter(k[1])
        if k[0] == "e2":
            return 2 * VariationalParameter(k[1] + f"_{k[2]}", value=k[2])
        if k[0] == "e+":
            return VariationalParameter(k[1] + f"_{k[2]}", value=k[2]) + FeatureParameter("c1")
        return Parameter(k[1])

    def f_par(case, out):
        k1, k2 = case
        a, b = mkp(k1), mkp(k2)
        e = bool(a == b)
        if e != bool(b == a):
            return f"not symmetric: {e}"
        if e != (k1 == k2):
            return f"== is {e}"
        if bool(a != b) == e:
            return "!= disagrees"
        out.feed(case, e)
        return None

    chk = Check("P24", rule="every ordered pair of the pool: symmetric, reflexive, equal only if the numpy operators agree at two "
                "parameter assignments, identical specs equal; membership of every probe; non-trivial = distinct rows",
                bounds=f"pool of {len(P)} blocks (all pairs), {len(REGS)} registers, {len(ckeys)} circuits, noise and parameter pairs")
    chk.family("pairs", [(s,) for s in P], f_row)
    comps = [s for s in P if s[0] in ("chain", "kron", "add")]
    comps = comps if THOROUGH else comps[::3] + comps[-8:]
    probes = tuple(P[::9]) + tuple(comps[:6]) + (("X", (0,)), ("Y", (1,)), ("RX", (0,), ("v", "a")), ("CNOT", (0, 1)), ("scale", 2, ("X", (0,))), ("Z", (2,)))
    chk.family("membership", [(s, probes) for s in comps], f_member)
    chk.family("registers", [(k,) for k in REGS], f_reg)
    chk.family("circuits", ckeys, f_circ)
    chk.family("noise", [(g, a, b) for g in GN for a, b in product(NO, repeat=2)], f_noise)
    chk.family("parameters", list(product(PK, repeat=2)), f_par)
    _ = combinations
    return chk


guard_main(("P24", make))
