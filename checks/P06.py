"""P06: serialisation round trips."""
from itertools import permutations, product

from lib.harness import Check, guard_main, THOROUGH
from lib import gen, ref

N = 3
ENVS = [{"a": 0.37, "b": 1.21, "c": -0.83, "x": 0.61, "y": -1.37}, {"a": -0.9, "b": 0.4, "c": 2.2, "x": 0.7, "y": 0.3}]
zz = ("kron", ("Z", (0,)), ("Z", (1,)))
TRANSPORTS = ("dict", "json", "file.json", "file.pt")
X0, Y1, RXa, CN, Z2 = ("X", (0,)), ("Y", (1,)), ("RX", (0,), ("v", "a")), ("CNOT", (0, 1)), ("Z", (2,))
RYx, CPab = ("RY", (1,), ("mul", 2, ("f", "x"))), ("CPHASE", (2, 0), ("add", ("v", "a"), ("v", "b")))
PEX = (0.37, -2, 1e-7, 1e-12, 25.6, ("v", "a"), ("f", "x"), ("mul", 2, ("v", "a")), ("mul", 1e-5, ("v", "a")), ("add", ("v", "a"), ("f", "x")),
       ("mul", ("v", "a"), ("f", "x")), ("neg", ("v", "a")), ("sin", ("f", "x")), ("pow", ("v", "a"), 2), ("div", ("v", "a"), 3))


def blocks():
    P = []
    for g in gen.gates(2) + gen.ones(2, ("N0",)):
        P.append(g)
        if len(g) > 2:
            for e in PEX if g[1] in ((0,), (1, 0)) else (("v", "a"),):
                P.append(gen.subst(g, lambda i, x: e if i == len(g) - 3 else x))
    for g in gen.multis(3):
        P.append(g)
        if len(g) > 2:
            P.append(gen.subst(g, lambda i, x: ("mul", ("v", "a"), ("f", "x"))))
    P += [("Toffoli", (0, 1)), ("MCZ", (1, 0))] + [(g, (1, 0), ("v", "a")) for g in ("MCRX", "MCRY", "MCRZ", "MCPHASE")]
    P += [("U", (1,), *e) for e in permutations((("v", "a"), 0.2, ("f", "x")))]
    P += [("Mat", s, k) for k, r in (("u1", 1), ("h1", 1), ("u2", 2), ("h2", 2)) for s in permutations(range(3), r)]
    P += [("Proj", (q,), k, k) for q in (0, 1) for k in "01"]
    P += [("Proj", s, k, k) for s in ((0, 1), (2, 0)) for k in ("01", "10", "11")]
    gs = [X0, zz, ("kron", X0, Y1), ("add", X0, ("Z", (1,))), ("scale", ("v", "b"), zz), ("scale", 2, zz),
          ("add", ("scale", ("f", "y"), ("X", (1,))), ("scale", 0.5, zz)), ("scale", ("mul", ("v", "b"), ("f", "x")), X0)]
    P += [("HamEvo", g, t) for g in gs for t in (0.37, ("v", "a"), ("f", "x"), ("mul", 2, ("f", "x")))]
    P += [("HamMat", k, s, t) for k, r in (("h1", 1), ("h2", 2)) for s in permutations(range(2), r) for t in (0.37, ("v", "a"), ("f", "x"))]
    for k in (2, -1, 0, 0.5, 1e-9, 2j, 1 + 2j) + PEX[5:]:
        P += [("scale", k, b) for b in (X0, RXa, ("chain", X0, Y1), ("add", X0, Y1), ("kron", X0, ("scale", 3, Y1)))]
    P += [("scale", ("mul", 2j, ("v", "a")), X0), ("scale", ("add", 1j, ("f", "x")), X0)]
    L = [X0, Y1, RXa, RYx, CN, Z2, CPab, ("scale", 2, X0), ("HamEvo", zz, ("v", "b")), ("U", (1,), 0.1, ("v", "a"), 0.3), ("N", (2,))]
    for o in ("chain", "add", "kron"):
        for r in (1, 2, 3) if THOROUGH else (1, 2):
            for c in product(L, repeat=r):
                if o == "kron" and len({q for b in c for q in ref.support(b)}) != sum(len(ref.support(b)) for b in c):
                    continue
                P.append((o,) + c)
    for o1, o2 in product(("chain", "add", "kron"), repeat=2):
        for inner in ((X0, RYx), (RXa, Y1)):
            for last in (Z2, ("scale", ("v", "b"), Z2)):
                P += [(o1, (o2,) + inner, last), (o1, last, (o2,) + inner), ("scale", ("v", "b"), (o1, (o2,) + inner, last))]
    return list(dict.fromkeys(P))


def make():
    import copy
    import json
    import os
    import shutil
    import tempfile

    import networkx as nx
    import numpy as np
    import sympy
    import torch
    from sympy.core.cache import clear_cache

    import qadence as Q
    from qadence import deserialize, load, save, serialize
    from qadence.analog import AddressingPattern, RealisticDevice, RydbergDevice
    from qadence.blocks.utils import expressions, primitive_blocks, tag
    from qadence.measurements import Measurements
    from qadence.noise import NoiseHandler
    from qadence.parameters import FeatureParameter, TimeParameter, VariationalParameter, evaluate
    from qadence.types import Interaction, NoiseProtocol, SerializationFormat
    from lib.common import Builder, close, op_by_run, op_by_tensor

    def trip(obj, how, **kw):
        """object -> serialised -> object; the sympy symbol cache is dropped as in a new process."""
        if how in ("dict", "json"):
            d = serialize(obj, **{k: v for k, v in kw.items() if k == "save_params"})
            if not d:
                raise AssertionError("serialize returned nothing")
            if how == "json":
                d = json.loads(json.dumps(d))
                clear_cache()
            keep = copy.deepcopy(d) if how == "json" else None
            o = deserialize(d, **{k: v for k, v in kw.items() if k == "as_torch"})
            if keep is not None and json.dumps(keep, sort_keys=True) != json.dumps(d, sort_keys=True):
                raise AssertionError("deserialize altered the dictionary")
            return o
        t = tempfile.mkdtemp(prefix="p06_", dir=os.getcwd())
        try:
            fmt = SerializationFormat.JSON if how == "file.json" else SerializationFormat.PT
            save(obj, t, "f", fmt)
            files = os.listdir(t)
            if files != ["f" + how[4:]]:
                raise AssertionError(f"save wrote {files}")
            clear_cache()
            return load(os.path.join(t, files[0]))
        finally:
            shutil.rmtree(t, ignore_errors=True)

    def psig(syms):
        """name -> role and value of each parameter; several objects of one name must agree."""
        d = {}
        for s in syms:
            v = (bool(s.trainable), bool(s.is_time), round(float(s.value), 12))
            if d.setdefault(s.name, v) != v:
                return f"parameter {s.name} occurs with {d[s.name]} and {v}"
        return d

    def bsyms(b):
        return [s for e in expressions(b) for s in getattr(e, "free_symbols", ())]

    # ------------------------------------------------------------- expressions
    def leaf(k):
        if k == "a":
            return VariationalParameter("a", value=0.37)
        if k == "a0":
            return VariationalParameter("a0", value=0.0)
        if k == "an":
            return VariationalParameter("a_n.1", value=-1.5e-6)
        if k == "x":
            return FeatureParameter("x", value=0.61)
        if k == "t":
            return TimeParameter("t")
        if k == "th":
            return VariationalParameter("θ1", value=2.5)
        return {"pi": sympy.pi, "I": sympy.I, "third": sympy.Rational(1, 3), "E": sympy.E}.get(k, k)
    LEAVES = ("a", "a0", "an", "x", "t", "th")
    CONSTS = (2, -1, 0.1, 1e-7, 1e20, "pi", "third", "E", "I")
    UN = {n: getattr(sympy, n) for n in ("sin", "cos", "tan", "exp", "sqrt", "acos", "tanh", "Abs", "log", "sign", "conjugate", "re", "im", "floor")}
    BIN = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q, "div": lambda p, q: p / q, "pow": lambda p, q: p ** q,
           "Max": lambda p, q: sympy.Max(p, q), "Min": lambda p, q: sympy.Min(p, q)}

    def mkexpr(c):
        if not isinstance(c, tuple):
            return leaf(c)
        if c[0] in UN:
            return UN[c[0]](mkexpr(c[1]))
        return BIN[c[0]](mkexpr(c[1]), mkexpr(c[2]))
    exprs = [(e, tr) for e in LEAVES for tr in TRANSPORTS]
    d1 = [(u, x) for u in UN for x in ("a", "x")]
    d1b = [(o, p, q) for o in BIN for p, q in product(("a", "x", "t"), ("a", "x") + CONSTS) if not (o in ("Max", "Min") and q == "I")]
    d1b += [(o, q, p) for o in ("sub", "div", "pow") for p in ("a", "x") for q in CONSTS]
    d2 = [(o, p, q) for o in ("add", "mul", "div", "pow") for p in d1[::3] + d1b[::5] for q in ("x", 2, "I", ("sin", "x"), ("mul", 1e-7, "a"))]
    d2 += [(u, p) for u in UN for p in d1b[::3 if THOROUGH else 7]]
    exprs += [(e, tr) for e in d1 + d1b for tr in ("dict", "json")] + [(e, "json") for e in d2]
    exprs += [(e, tr) for e in ("pi", "I", "third", "E") for tr in ("dict", "json")]
    EV = [{"a": 0.37, "a0": 0.1, "a_n.1": 0.4, "x": 0.61, "t": 0.3, "θ1": 1.1}, {"a": 1.4, "a0": 0.8, "a_n.1": 0.2, "x": 0.25, "t": 1.3, "θ1": -0.5}]

    def ev(e, v):
        try:
            return complex(e.subs({s: v[s.name] for s in e.free_symbols}).evalf(17))
        except Exception:  # noqa: BLE001 - not a number at this point, on both sides
            return None

    def f_expr(case, out):
        c, tr = case
        e = sympy.sympify(mkexpr(c))
        if e.has(sympy.zoo, sympy.nan, sympy.oo):
            return None
        before = psig(e.free_symbols)
        want = [ev(e, v) for v in EV]
        s0 = sympy.srepr(e)
        r = trip(e, tr)
        out.step()
        if psig(r.free_symbols) != before:
            return f"parameters {psig(r.free_symbols)} instead of {before}"
        got = [ev(r, v) for v in EV]
        for g, w in zip(got, want):
            if (g is None) != (w is None) or (w is not None and g != w and abs(g / 1e3 - w / 1e3) > 1e-15 * max(1, abs(w.real), abs(w.imag))):
                return f"evaluates to {g} instead of {w}"
        if sympy.srepr(e) != s0 or psig(e.free_symbols) != before:
            return "the original changed"
        if type(r) is not type(e):
            return f"is a {type(r).__name__} instead of a {type(e).__name__}"
        out.feed(case)
        return None

    # ------------------------------------------------------------- blocks
    BL = blocks()

    def op(b, spec, e):
        vals = {n: torch.tensor(e[n], dtype=torch.float64) for k, n in ref.variables(spec)}
        return op_by_tensor(b, N, vals)

    def tags(b):
        r = [(type(b).__name__, b.tag)]
        for k in getattr(b, "blocks", ()) if b.__class__.__name__ in ("ChainBlock", "KronBlock", "AddBlock") else ():
            r += tags(k)
        if hasattr(b, "block"):
            r += tags(b.block)
        return r

    def f_block(case, out):
        spec, tr, tagged = case
        b = Builder(ENVS[0]).block(spec)
        if tagged:
            def settag(x, i=[0]):
                i[0] += 1
                tag(x, f"t{i[0]}")
                for k in getattr(x, "blocks", ()) if x.__class__.__name__ in ("ChainBlock", "KronBlock", "AddBlock") else ():
                    settag(k)
                if hasattr(x, "block"):
                    settag(x.block)
            settag(b, [0])
        before, tg = psig(bsyms(b)), tags(b)
        if isinstance(before, str):
            return before
        r = trip(b, tr)
        out.step()
        if type(r) is not type(b):
            return f"became {type(r).__name__}"
        if tuple(r.qubit_support) != tuple(b.qubit_support):
            return f"support {r.qubit_support} instead of {b.qubit_support}"
        if psig(bsyms(r)) != before:
            return f"parameters {psig(bsyms(r))} instead of {before}"
        if tags(r) != tg:
            return f"structure and tags {tags(r)} instead of {tg}"
        for e in ENVS:
            m = close(op(r, spec, e), ref.mat(spec, N, e), 1e-5)
            if m:
                return "operator of the restored block " + m
        if tr == "dict" and not (r == b and b == r):
            return "restored block is not equal to the original"
        if psig(bsyms(b)) != before or tags(b) != tg:
            return "the original changed"
        out.feed(spec)
        return None

    def rsig(b):
        d = {}
        for s in bsyms(b):
            v = (bool(s.trainable), bool(s.is_time))
            if d.setdefault(s.name, v) != v:
                return f"parameter {s.name} occurs with roles {d[s.name]} and {v}"
        return d

    # HamEvo with time-dependent generator, duration and noise operators
    def td(k):
        t = TimeParameter("t")
        w = FeatureParameter("w")
        if k[0] == "t":
            g = t * Q.X(0)
        elif k[0] == "st":
            g = Q.add(sympy.sin(t) * Q.X(0), w * Q.Z(1))
        else:
            g = t * Q.kron(Q.X(0), Q.Y(1))
        kw = {}
        if k[1] == "num":
            kw["duration"] = 0.4
        elif k[1] == "par":
            kw["duration"] = FeatureParameter("dur")
        elif k[1] == "str":
            kw["duration"] = "mydur"
        if k[2]:
            kw["noise_operators"] = [Q.X(0), 0.3 * Q.Z(0)][:k[2]]
        return Q.HamEvo(g, t, **kw)

    def f_td(case, out):
        k, tr = case
        b = td(k)
        before = rsig(b)
        if isinstance(before, str):
            return before
        r = trip(b, tr)
        out.step()
        got = rsig(r)
        if got != before:
            return f"parameters {got} instead of {before}"
        if len(r.noise_operators) != k[2]:
            return f"{len(r.noise_operators)} noise operators"
        vals = {"w": torch.tensor(0.7), "dur": torch.tensor(0.4), "mydur": torch.tensor(0.4), "duration": torch.tensor(0.4)}
        vals = {n: v for n, v in vals.items() if n in before}
        if not k[2]:
            m = close(Q.run(2, r, values=vals).detach().numpy(), Q.run(2, b, values=vals).detach().numpy(), 1e-6)
            if m:
                return "state " + m
        elif any(not (p == q) for p, q in zip(r.noise_operators, b.noise_operators)):
            return "noise operators differ"
        out.feed(case)
        return None

    # ------------------------------------------------------------- noise on blocks
    D, RO = NoiseProtocol.DIGITAL, NoiseProtocol.READOUT
    NO = {"bf": (D.BITFLIP, {"error_probability": 0.1}), "pf": (D.PHASEFLIP, {"error_probability": 0.25}), "dp": (D.DEPOLARIZING, {"error_probability": 0.3}),
          "pauli": (D.PAULI_CHANNEL, {"error_probability": (0.1, 0.2, 0.3)}), "ad": (D.AMPLITUDE_DAMPING, {"error_probability": 0.2}),
          "pd": (D.PHASE_DAMPING, {"error_probability": 0.2}), "gad": (D.GENERALIZED_AMPLITUDE_DAMPING, {"error_probability": (0.1, 0.2)}),
          "ro": (RO.INDEPENDENT, {"error_probability": 0.1, "seed": 0}),
          "an": (NoiseProtocol.ANALOG.DEPOLARIZING, {"noise_probs": 0.1}), "an2": (NoiseProtocol.ANALOG.DEPHASING, {"noise_probs": 0.1})}
    GN = {"X": lambda n: Q.X(0, noise=n), "Y": lambda n: Q.Y(1, noise=n), "H": lambda n: Q.H(0, noise=n), "RX": lambda n: Q.RX(0, 0.3, noise=n),
          "PHASE": lambda n: Q.PHASE(0, "p", noise=n), "U": lambda n: Q.U(0, 0.1, 0.2, 0.3, noise=n), "CNOT": lambda n: Q.CNOT(0, 1, noise=n),
          "CZ": lambda n: Q.CZ(1, 0, noise=n), "SWAP": lambda n: Q.SWAP(0, 1, noise=n), "CRX": lambda n: Q.CRX(0, 1, 0.3, noise=n),
          "CPHASE": lambda n: Q.CPHASE(1, 0, "p", noise=n), "MCZ": lambda n: Q.MCZ((0, 1), 2, noise=n), "MCRY": lambda n: Q.MCRY((0, 1), 2, "p", noise=n),
          "Toffoli": lambda n: Q.Toffoli((2, 1), 0, noise=n), "CSWAP": lambda n: Q.CSWAP(0, 1, 2, noise=n), "N": lambda n: Q.N(1, noise=n),
          "Proj": lambda n: Q.Projector("0", "0", 1, noise=n), "T": lambda n: Q.T(0, noise=n), "S": lambda n: Q.S(0, noise=n)}

    def nh(ks):
        ks = ks if isinstance(ks, tuple) else (ks,)
        h = NoiseHandler(*copy.deepcopy(NO[ks[0]]))
        for k in ks[1:]:
            h.append(NoiseHandler(*copy.deepcopy(NO[k])))
        return h

    def norm(o):
        return json.loads(json.dumps(o, default=str))

    def same_noise(got, want):
        if (got is None) != (want is None):
            return f"noise {got} instead of {want}"
        if got is None:
            return None
        if list(got.protocol) != list(want.protocol) or [type(p) for p in got.protocol] != [type(p) for p in want.protocol]:
            return f"protocols {got.protocol} instead of {want.protocol}"
        if norm(got.options) != norm(want.options):
            return f"options {got.options} instead of {want.options}"
        return None

    def f_noise(case, out):
        g, ks, tr, wrap = case
        h = nh(ks)
        b = GN[g](h)
        w = {"no": lambda b: b, "chain": lambda b: Q.chain(Q.X(0), b, Q.H(1)), "scale": lambda b: Q.chain(2 * b, Q.X(0)),
             "circ": lambda b: Q.QuantumCircuit(3, Q.chain(Q.X(0), b))}[wrap](b)
        r = trip(w, tr)
        out.step()
        got = [p.noise for p in primitive_blocks(r.block if wrap == "circ" else r)]
        want = [p.noise for p in primitive_blocks(w.block if wrap == "circ" else w)]
        if len(got) != len(want):
            return f"{len(got)} gates instead of {len(want)}"
        for x, y in zip(got, want):
            m = same_noise(x, y)
            if m:
                return m
        out.feed(case)
        return None

    # ------------------------------------------------------------- registers and circuits
    R = Q.Register

    def graph(n, edges, pos=None):
        g = nx.Graph()
        for i in range(n):
            g.add_node(i, **({"pos": pos[i]} if pos else {"pos": (float(i), 0.0)}))
        g.add_edges_from(edges)
        return g
    pat = AddressingPattern(n_qubits=3, det=-2.0, amp=1.5, weights_det={0: 0.9, 1: 0.1, 2: 0.5}, weights_amp={0: 0.1, 1: 0.2, 2: 0.3})
    REGS = {"1": lambda: R(1), "3": lambda: R(3), "3s": lambda: R(3, spacing=7.5), "line3": lambda: R.line(3), "line3s": lambda: R.line(3, spacing=4.0),
            "sq": lambda: R.square(2, spacing=0.5), "circ4": lambda: R.circle(4, spacing=8.0), "tri": lambda: R.triangular_lattice(1, 1, spacing=3.0),
            "honey": lambda: R.honeycomb_lattice(1, 1), "rect": lambda: R.rectangular_lattice(2, 3, spacing=2.0),
            "coords": lambda: R.from_coordinates([(0.0, 0.0), (0.0, 5.0), (5.0, 0.0)]), "coordsl": lambda: R.from_coordinates([(0.0, 0.0), (0.0, 5.0), (5.0, 0.1)], lattice="line"),
            "g01": lambda: R(graph(3, [(0, 1)]), spacing=None), "g0": lambda: R(graph(3, []), spacing=3.0), "g0112": lambda: R(graph(4, [(3, 1), (1, 2)])),
            "gpos": lambda: R(graph(3, [(0, 2)], [(1.0, 2.0), (-3.0, 0.5), (0.0, 9.0)]), spacing=None),
            "dev": lambda: R.line(3, device_specs=RealisticDevice()), "dev2": lambda: R.line(3, spacing=6.0, device_specs=RydbergDevice(rydberg_level=70, max_amp=3.5, max_detuning=2.0)),
            "xy": lambda: R.line(3, spacing=6.0, device_specs=RydbergDevice(interaction=Interaction.XY, coeff_xy=1234.5)),
            "pat": lambda: R.line(3, spacing=6.0, device_specs=RydbergDevice(pattern=pat)), "resc": lambda: R.line(3).rescale_coords(2.5)}

    def dev_sig(d):
        p = d.pattern
        s = [str(d.interaction), d.rydberg_level, d.coeff_xy, d.max_detuning, d.max_amp, str(d.type)]
        if p is not None:
            s += [p.n_qubits, str(p.det), str(p.amp), sorted((int(k), float(evaluate(sympy.sympify(v)))) for k, v in p.weights_det.items()),
                  sorted((int(k), float(evaluate(sympy.sympify(v)))) for k, v in p.weights_amp.items())]
        return s

    def reg_sig(r):
        return [r.n_qubits, sorted((k, tuple(map(float, v))) for k, v in r.coords.items()), sorted(tuple(sorted(e)) for e in r.edges),
                dev_sig(r.device_specs), sorted((tuple(sorted(k)), round(float(v), 9)) for k, v in r.distances.items())]

    def f_reg(case, out):
        k, tr, wrap = case
        r0 = REGS[k]()
        want = reg_sig(r0)
        o = r0 if wrap == "reg" else Q.QuantumCircuit(r0, Q.X(0), Q.RX(0, "a"))
        r1 = trip(o, tr)
        out.step()
        if wrap == "circ":
            if not (r1 == o and o == r1):
                return "circuit not equal to the original"
            r1 = r1.register
        if reg_sig(r1) != want:
            return f"register {reg_sig(r1)} instead of {want}"
        if reg_sig(r0) != want:
            return "the original changed"
        if wrap == "reg" and not (r1 == r0 and r0 == r1):
            return "restored register not equal to the original"
        out.feed(case)
        return None

    # ------------------------------------------------------------- models
    CIR = {"two": lambda: Q.chain(Q.RX(0, FeatureParameter("x")), Q.RY(1, VariationalParameter("a", value=0.37)), Q.CNOT(0, 1)),
           "fix": lambda: Q.chain(Q.H(0), Q.RX(1, 0.5)), "shared": lambda: Q.chain(Q.RX(0, "a"), Q.RY(1, 2 * VariationalParameter("a", value=0.37)), Q.RZ(1, FeatureParameter("x") * VariationalParameter("b", value=1.3)), Q.H(1)),
           "ham": lambda: Q.chain(Q.H(0), Q.HamEvo(Q.kron(Q.Z(0), Q.X(1)), VariationalParameter("a", value=0.37)), Q.CRX(1, 0, FeatureParameter("x")))}
    OBS = {"none": lambda: None, "Z": lambda: Q.Z(0), "list": lambda: [Q.Z(0), Q.add(Q.X(0), 2.5 * Q.Y(1))], "par": lambda: VariationalParameter("w", value=0.8) * Q.Z(1),
           "tot": lambda: Q.hamiltonian_factory(2, detuning=Q.Z), "one": lambda: [Q.X(1)]}
    MTRANS = ("dict", "dict+p", "dict+pt", "json", "file.json", "file.pt", "method", "method+t")
    OPTS = {"": {}, "adj": {"diff_mode": "adjoint"}, "gpsr": {"diff_mode": "gpsr"}, "conf": {"configuration": {"_use_gate_params": True}},
            "tomo": {"measurement": ("tomography", {"n_shots": 50})}, "shad": {"measurement": ("shadow", {"accuracy": 0.1, "confidence": 0.1})},
            "noise": {"noise": "bf"}, "ro": {"noise": "ro"}}

    def mk(cls, ck, ok, opt, extra):
        kw = dict(OPTS[opt])
        if "measurement" in kw:
            kw["measurement"] = Measurements(kw["measurement"][0], dict(kw["measurement"][1]))
        if "noise" in kw:
            kw["noise"] = nh(kw["noise"])
        if opt == "gpsr":
            pass
        return cls(Q.QuantumCircuit(R.line(2, spacing=3.0), CIR[ck]()), OBS[ok](), **kw, **extra)

    def results(m, want_exp=True):
        vals = {"x": torch.tensor([0.3, 1.1], dtype=torch.float64)} if any(p.name == "x" for p in m._circuit.abstract.unique_parameters) else {}
        s = m.run(vals).detach().numpy()
        e = None
        if m._observable is not None and want_exp:
            e = m.expectation(vals).detach().numpy()
        return s, e

    def f_model(case, out):
        kind, ck, ok, opt, tr, moved = case
        cls = Q.QNN if kind[:3] == "QNN" else Q.QuantumModel
        extra = {}
        if kind == "QNN":
            extra = {"inputs": ["x"]} if ck != "fix" else {}
        elif kind == "QNNfd":
            extra = {"inputs": ["x"], "input_diff_mode": "fd"}
        m = mk(cls, ck, ok, opt, extra)
        exact = opt in ("", "adj", "conf", "gpsr")
        fresh = results(m, exact) if opt != "noise" else (None, None)
        if moved:
            m.reset_vparams(torch.arange(1, 1 + m.num_vparams) * 0.21)
        cur = results(m, exact) if opt != "noise" else (None, None)
        vp = {k: (v.detach().numpy().copy(), v.requires_grad) for k, v in m._params.items()}
        if tr in ("dict", "json", "file.json", "file.pt"):
            r = trip(m, tr)
        elif tr == "dict+p":
            r = trip(m, "dict", save_params=True, as_torch=True)
        elif tr == "dict+pt":
            r = trip(m, "dict", save_params=True)
            r.load_params_from_dict(m._to_dict(save_params=True))
        else:
            t = tempfile.mkdtemp(prefix="p06_", dir=os.getcwd())
            try:
                m.save(t, "mm.pt")
                clear_cache()
                r = type(m).load(os.path.join(t, "mm.pt"), as_torch=tr == "method+t")
            finally:
                shutil.rmtree(t, ignore_errors=True)
        out.step()
        restored = tr in ("dict+p", "dict+pt", "file.pt", "method+t")
        if type(r) is not type(m):
            return f"became {type(r).__name__}"
        wantpar = vp if (restored or not moved) else None
        if set(r._params) != set(m._params):
            return f"parameters {sorted(r._params)} instead of {sorted(m._params)}"
        for k, v in r._params.items():
            if v.requires_grad != vp[k][1]:
                return f"parameter {k} requires_grad={v.requires_grad}"
            if wantpar is not None and not np.allclose(v.detach().numpy(), vp[k][0], atol=1e-7):
                return f"parameter {k} is {v} instead of {vp[k][0]}"
        if {p.name for p in r._circuit.abstract.unique_parameters} != {p.name for p in m._circuit.abstract.unique_parameters}:
            return "circuit parameters differ"
        want = cur if restored else fresh
        if opt != "noise":
            got = results(r, exact)
            for g, w in zip(got, want):
                if (g is None) != (w is None):
                    return "observable lost or gained"
                if w is not None:
                    mm = close(g, w, 1e-6)
                    if mm:
                        return "results: " + mm
        if (r._observable is None) != (m._observable is None):
            return "observable lost or gained"
        if m._observable is not None and len(r._observable) != len(m._observable):
            return "number of observables differs"
        if (r._measurement is None) != (m._measurement is None) or (m._measurement is not None and (r._measurement.protocol, r._measurement.options) != (m._measurement.protocol, m._measurement.options)):
            return "measurement protocol differs"
        mm = same_noise(r._noise, m._noise)
        if mm:
            return mm
        if str(r._diff_mode) != str(m._diff_mode) or str(r._backend_name) != str(m._backend_name):
            return "backend or differentiation mode differ"
        if r.backend.backend.config._use_gate_params != m.backend.backend.config._use_gate_params:
            return "configuration differs"
        if reg_sig(r._circuit.abstract.register) != reg_sig(m._circuit.abstract.register):
            return "register differs"
        if cls is Q.QNN:
            if [str(i) for i in r.inputs] != [str(i) for i in m.inputs] or r.input_diff_mode != m.input_diff_mode:
                return f"inputs {r.inputs}/{r.input_diff_mode} instead of {m.inputs}/{m.input_diff_mode}"
            if ck != "fix" and exact:
                xs = torch.tensor([[0.3], [0.9]], dtype=torch.float64)
                if not moved or restored:
                    mm = close(r(xs).detach().numpy(), m(xs).detach().numpy(), 1e-6)
                    if mm:
                        return "forward: " + mm
        after = results(m, exact) if opt != "noise" else (None, None)
        if cur[0] is not None and not np.allclose(after[0], cur[0]):
            return "the original changed"
        out.feed(case)
        return None

    # two-input QNN: order of the inputs
    def f_inputs(case, out):
        order, tr = case
        c = Q.QuantumCircuit(2, Q.chain(Q.RX(0, FeatureParameter("x")), Q.RX(1, 2 * FeatureParameter("y")), Q.RY(0, VariationalParameter("a", value=0.3))))
        q = Q.QNN(c, [Q.Z(0), Q.Z(1)], inputs=list(order))
        r = trip(q, tr)
        xs = torch.tensor([[0.3, 1.2], [0.9, -0.4]], dtype=torch.float64)
        out.step()
        out.feed(case)
        return close(r(xs).detach().numpy(), q(xs).detach().numpy(), 1e-6)

    chk = Check("P06", rule="restored object compared on computed operator/state/expectation, parameter names, roles and values, tags, noise, register, "
                "observables; non-trivial = distinct restored objects",
                bounds=f"{len(BL)} blocks x transports, expressions up to depth 2, {len(REGS)} registers, model configurations x {len(MTRANS)} transports")
    chk.family("expressions", exprs, f_expr)
    bc = [(s, "json", False) for s in BL]
    sel = BL if THOROUGH else BL[::5] + BL[-20:]
    bc += [(s, tr, True) for s in sel for tr in ("dict", "file.json", "file.pt")]
    chk.family("blocks", list(dict.fromkeys(bc)), f_block)
    chk.family("time-dependent", [((g, d, k), tr) for g in ("t", "st", "k") for d in ("none", "num", "par", "str") for k in (0, 1, 2) for tr in ("dict", "json", "file.pt")], f_td)
    combos = list(NO) + [("bf", "pf"), ("pf", "bf"), ("bf", "ro"), ("dp", "ad", "ro")]
    nc = [(g, k, tr, "no") for g in GN for k in combos if k not in ("an", "an2") for tr in ("dict", "json")]
    nc += [(g, k, tr, w) for g in GN for k in ("bf", ("bf", "pf")) for tr in ("file.json", "file.pt") for w in ("chain", "scale", "circ")]
    nc += [("X", k, tr, "no") for k in ("an", "an2") for tr in TRANSPORTS]
    chk.family("noise", nc, f_noise)
    chk.family("registers", [(k, tr, w) for k in REGS for tr in TRANSPORTS for w in ("reg", "circ")], f_reg)
    mc = [("QM", c, o, "", tr, mv) for c in CIR for o in OBS for tr in MTRANS for mv in (0, 1) if not (mv and c == "fix" and o != "par")]
    mc += [("QM", "two", "list", op, tr, 1) for op in OPTS if op for tr in MTRANS]
    mc += [(k, c, o, "", tr, mv) for k in ("QNN", "QNNfd") for c in ("two", "shared") for o in ("Z", "list", "par") for tr in MTRANS for mv in (0, 1)]
    mc += [("QNN", "two", "list", op, tr, 1) for op in OPTS if op for tr in MTRANS]
    chk.family("models", mc, f_model)
    chk.family("inputs", [(o, tr) for o in (("x", "y"), ("y", "x")) for tr in TRANSPORTS], f_inputs)
    _ = op_by_run
    return chk


guard_main(("P06", make))
