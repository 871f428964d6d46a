"""P22: circuit constructors build the circuits they document."""
from itertools import permutations, product

from lib.harness import Check, Skip, guard_main, THOROUGH
from lib import ref

OPS = ("RX", "RY", "RZ", "PHASE")
ENTS = ("CNOT", "CZ", "CRX", "CRY", "CRZ", "CPHASE")
SUPS = {1: ((0,), (2,)), 2: ((0, 1), (1, 0), (3, 1)), 3: ((0, 1, 2), (2, 0, 1), (4, 1, 3)), 4: ((0, 1, 2, 3), (3, 1, 0, 2)),
        5: ((0, 1, 2, 3, 4), (4, 0, 3, 1, 2)), 6: ((0, 1, 2, 3, 4, 5),)}
OPLISTS = (("RX", "RY", "RX"), ("RZ",), ("RY", "RZ"), ("RX", "RX"))
XS = (0.31, -0.62, 0.9)


def foata(gates):
    """canonical form of a gate sequence up to exchanging gates without common qubits."""
    level, out = {}, []
    for g in gates:
        k = max((level.get(q, -1) for q in g[1]), default=-1) + 1
        while len(out) <= k:
            out.append([])
        out[k].append(g)
        for q in g[1]:
            level[q] = k
    return [sorted(x) for x in out]


def make():
    import math
    import numpy as np
    import sympy
    import torch
    import qadence as Q
    from scipy.linalg import expm
    from qadence import operations as O
    from qadence.blocks import block_to_tensor
    from qadence.blocks.abstract import AbstractBlock
    from qadence.blocks.composite import CompositeBlock
    from qadence.blocks.primitive import ScaleBlock
    from qadence.constructors import (ala, analog_feature_map, daqc_transform, exp_fourier_feature_map, feature_map,
                                      hamiltonian_factory, hea, identity_initialized_ansatz, qft, rydberg_feature_map,
                                      rydberg_hea, rydberg_hea_layer, rydberg_tower_feature_map)
    from qadence.parameters import FeatureParameter, Parameter, VariationalParameter
    from qadence.types import BasisSet, Interaction, ReuploadScaling, Strategy
    from lib.common import close, op_by_run

    def leaves(b):
        if isinstance(b, CompositeBlock):
            return [x for y in b.blocks for x in leaves(y)]
        if isinstance(b, ScaleBlock):
            return [x for x in leaves(b.block)]
        return [b]

    def symbols(b):
        """parameters of a gate (scales and angles), generators included."""
        out = []
        ps = getattr(b, "parameters", None)
        if ps is not None:
            for e in ps.expressions():
                out += [s for s in sorted(getattr(e, "free_symbols", ()), key=str) if isinstance(s, Parameter) and not s.is_number]
        return out

    def trainables(b):
        return {str(x) for x in Q.blocks.utils.parameters(b) if not x.is_number and x.trainable}

    def value(e, env):
        e = sympy.sympify(e)
        return complex(e.xreplace({s: sympy.sympify(env[str(s)]) for s in e.free_symbols})).real

    def matrix(b, n):
        return block_to_tensor(b, {}, tuple(range(n)))[0].detach().numpy()

    def raises(fn, *excs):
        try:
            fn()
        except excs:
            return True
        except Exception as e:  # noqa: BLE001
            return f"raised {type(e).__name__} instead of a clear refusal"
        return False

    # ---------------------------------------------------------------- quantum Fourier transform
    def fourier(n):
        d = 2 ** n
        k = np.arange(d)
        return np.exp(2j * np.pi * np.outer(k, k) / d) / math.sqrt(d)

    def f_qft(case, out):
        n, sup, inv, rin, so, strat, build = case
        kw = {} if sup is None else {"support": sup}
        if build:
            op = {"ZZ": Interaction.ZZ, "NN": Interaction.NN}[build]
            kw["gen_build"] = hamiltonian_factory(n, interaction=op, interaction_strength=[0.5 + 0.1 * i for i in range(n * (n - 1) // 2)])
        b = qft(n, inverse=inv, reverse_in=rin, swaps_out=so, strategy=strat, **kw)
        R = np.eye(2 ** n)[[int(format(i, f"0{n}b")[::-1], 2) for i in range(2 ** n)]]
        W = fourier(n) if so else R @ fourier(n)
        if inv:
            W = W.conj().T
        if rin:
            W = R @ W @ R
        s = tuple(range(n)) if sup is None else sup
        N = max(s) + 1
        out.feed(W)
        got = matrix(b, N)
        if strat != "Digital":
            return close(got, ref.embed(W, s, N), 1e-5)
        return close(got, ref.embed(W, s, N)) or close(op_by_run(b, N), ref.embed(W, s, N))

    # ---------------------------------------------------------------- digital-analog transform
    def inter(op, w, n):
        o = {"Z": np.diag([1.0, -1.0]), "N": np.diag([0.0, 1.0])}[op]
        return sum(g * ref.embed(np.kron(o, o), jk, n) for jk, g in w)

    def gen_block(op, w, style):
        P = getattr(O, op)
        ts = [g * Q.kron(P(j), P(k)) for (j, k), g in w]
        return {
            "add": lambda: Q.add(*ts),
            "rev": lambda: Q.add(*[g * Q.kron(P(k), P(j)) for (j, k), g in w]),
            "outer": lambda: 2.0 * Q.add(*[(g / 2) * Q.kron(P(j), P(k)) for (j, k), g in w]),
            "neg": lambda: -Q.add(*[(-g) * Q.kron(P(j), P(k)) for (j, k), g in w]),
            "nest": lambda: Q.add(ts[0], Q.add(*ts[1:])) if len(ts) > 1 else Q.add(Q.add(ts[0])),
            "dup": lambda: Q.add(*[t for (j, k), g in w for t in (0.25 * g * Q.kron(P(j), P(k)), 0.75 * g * Q.kron(P(k), P(j)))]),
            "at": lambda: Q.add(*[g * (P(j) @ P(k)) for (j, k), g in w]),
            "twice": lambda: Q.add(*[2.0 * ((g / 2) * Q.kron(P(j), P(k))) for (j, k), g in w]),
            "order": lambda: Q.add(*ts[::-1]),
        }[style]()

    def f_daqc(case, out):
        n, tgt, bld, t, phases = case
        (to, tw, ts), h = tgt, bld
        kw = {}
        if h is not None:
            kw["gen_build"] = gen_block(*h)
        b = daqc_transform(n, gen_block(to, tw, ts), t, ignore_global_phases=not phases, **kw)
        want = expm(-1j * t * inter(to, tw, n))
        if not b.blocks:
            return close(np.eye(2 ** n), want, 1e-5)
        got = matrix(b, n)
        out.feed(want)
        if not phases:
            got = got * np.exp(-1j * np.angle(np.vdot(want.ravel(), got.ravel())))
        r = close(got, want, 1e-5)
        if r:
            return r
        bw = dict(h[1]) if h is not None else {(j, k): 1.0 for j in range(n) for k in range(j + 1, n)}
        B = inter(h[0] if h is not None else "N", tuple(bw.items()), n)
        for leaf in leaves(b):          # interactions come from the building Hamiltonian only
            s = leaf.qubit_support
            if isinstance(leaf, O.HamEvo):
                g = leaf.generator
                gm = matrix(g, n) if isinstance(g, AbstractBlock) else None
                if gm is None or abs(gm - B).max() < 1e-6:
                    continue
                z = np.diag(gm).real
                if abs(gm - np.diag(np.diag(gm))).max() > 1e-9 or abs(z - sum(
                        (z[1 << (n - 1 - q)] - z[0]) * np.array([(i >> (n - 1 - q)) & 1 for i in range(2 ** n)])
                        for q in range(n)) - z[0]).max() > 1e-6:
                    return "an evolution uses an interaction other than the building Hamiltonian"
            elif len(s) > 1:
                return f"the circuit contains a digital gate on {len(s)} qubits"
        return None

    def f_daqc_refuse(case, out):
        kind = case[0]
        ZZ, NN = lambda *p: Q.kron(*(O.Z(i) for i in p)), lambda *p: Q.kron(*(O.N(i) for i in p))  # noqa: E731
        out.step()
        bad = {
            "missing": (lambda: daqc_transform(3, 1.0 * ZZ(0, 1), 1.0, 1.0 * ZZ(1, 2)), (ValueError,)),
            "missing2": (lambda: daqc_transform(3, 1.0 * ZZ(0, 1) + 0.5 * ZZ(0, 2), 1.0, 1.0 * NN(0, 1)), (ValueError,)),
            "tiny": (lambda: daqc_transform(3, 1.0 * ZZ(0, 1), 1.0, 1e-9 * ZZ(0, 1) + 1.0 * ZZ(1, 2)), (ValueError,)),
            "four": (lambda: daqc_transform(4, 1.0 * ZZ(0, 1), 1.0), (NotImplementedError,)),
            "xx": (lambda: daqc_transform(2, 1.0 * Q.kron(O.X(0), O.X(1)), 1.0), (ValueError, TypeError)),
            "zn": (lambda: daqc_transform(2, 1.0 * Q.kron(O.Z(0), O.N(1)), 1.0), (ValueError, TypeError)),
            "mix": (lambda: daqc_transform(3, ZZ(0, 1) + NN(1, 2), 1.0), (ValueError, TypeError)),
            "single": (lambda: daqc_transform(2, ZZ(0, 1) + 0.3 * O.Z(0), 1.0), (ValueError, TypeError)),
            "build_xx": (lambda: daqc_transform(2, 1.0 * ZZ(0, 1), 1.0, 1.0 * Q.kron(O.X(0), O.X(1))), (ValueError, TypeError)),
            "zzz": (lambda: daqc_transform(3, ZZ(0, 1, 2) * 1.0, 1.0), (ValueError, TypeError)),
            "gate": (lambda: daqc_transform(2, O.RX(0, 0.3), 1.0), (ValueError, TypeError)),
            "text": (lambda: daqc_transform(2, "ZZ", 1.0), (ValueError, TypeError)),
            "bdaqc": (lambda: daqc_transform(2, 1.0 * ZZ(0, 1), 1.0, strategy=Strategy.BDAQC), (NotImplementedError,)),
            "analog": (lambda: daqc_transform(2, 1.0 * ZZ(0, 1), 1.0, strategy=Strategy.ANALOG), (NotImplementedError,)),
            "qft4": (lambda: qft(4, strategy=Strategy.SDAQC), (NotImplementedError,)),
            "qft_support": (lambda: qft(2, support=(1, 3), strategy=Strategy.SDAQC), (NotImplementedError,)),
            "qft_bdaqc": (lambda: qft(2, strategy=Strategy.BDAQC), (NotImplementedError,)),
            "hea_swap": (lambda: hea(2, 1, entangler=O.SWAP), (ValueError,)),
            "hea_block": (lambda: hea(2, 1, entangler=ZZ(0, 1)), (ValueError,)),
            "hea_da_gate": (lambda: hea(2, 1, strategy=Strategy.SDAQC, entangler=O.CNOT), (ValueError,)),
            "ala_swap": (lambda: ala(2, 2, 1, entangler=O.SWAP), (ValueError,)),
            "iia_swap": (lambda: identity_initialized_ansatz(2, 1, entangler=O.SWAP), (ValueError,)),
            "fm_op": (lambda: feature_map(2, op=O.CRX), (ValueError,)),
            "fm_support": (lambda: feature_map(2, support=(0,)), (ValueError,)),
            "fm_type": (lambda: feature_map(2, fm_type="nonsense"), (NotImplementedError,)),
            "fm_scaling": (lambda: feature_map(2, reupload_scaling="nonsense"), (NotImplementedError,)),
            "afm_tower": (lambda: analog_feature_map(reupload_scaling=ReuploadScaling.TOWER), (NotImplementedError,)),
        }
        fn, excs = bad[kind]
        r = raises(fn, *excs)
        return None if r is True else (r or "an unsupported request was accepted")

    REFUSE = ("missing", "missing2", "tiny", "four", "xx", "zn", "mix", "single", "build_xx", "zzz", "gate", "text", "bdaqc", "analog",
              "qft4", "qft_support", "qft_bdaqc", "hea_swap", "hea_block", "hea_da_gate", "ala_swap", "iia_swap",
              "fm_op", "fm_support", "fm_type", "fm_scaling", "afm_tower")

    # ---------------------------------------------------------------- feature maps
    FNS = {"fourier": (BasisSet.FOURIER, lambda x: x), "Fourier": ("Fourier", lambda x: x),
           "chebyshev": (BasisSet.CHEBYSHEV, np.arccos), "Chebyshev": ("Chebyshev", np.arccos),
           "asin": (sympy.asin, np.arcsin), "lambda": (lambda x: x ** 2 + 0.5, lambda x: x ** 2 + 0.5)}
    SCAL = {"const": (ReuploadScaling.CONSTANT, lambda i: 1.0), "tower": (ReuploadScaling.TOWER, lambda i: i + 1.0),
            "exp": (ReuploadScaling.EXP, lambda i: 2.0 ** i), "Tower": ("Tower", lambda i: i + 1.0),
            "custom": (lambda i: 1.5 - i, lambda i: 1.5 - i)}

    def scaled(x, kind, fr, tr):
        dflt = (0.0, 2 * math.pi) if kind.lower() == "fourier" else (-1.0, 1.0) if kind.lower() == "chebyshev" else (0.0, 1.0)
        fr, tr = fr or dflt, tr or dflt
        lo, hi = min(fr), max(fr)
        return min(tr) + (x - lo) * (max(tr) - min(tr)) / (hi - lo)

    MULT = {"none": (None, 1.0, {}), "num": (2.5, 2.5, {}), "int": (3, 3.0, {})}

    def f_fm(case, out):
        sup, op, fn, sc, fr, tr, mult, prefix, how, x = case
        n = len(sup)
        values = {"x": torch.tensor([x])}
        kw = {}
        if how == "param":
            p = FeatureParameter("x")
        elif how == "varparam":
            p = VariationalParameter("x")
        else:
            p = "x"
        m = 1.0
        if mult == "var":
            kw["multiplier"], m = VariationalParameter("m"), 0.7
            values["m"] = torch.tensor([0.7])
        elif mult == "feat":
            kw["multiplier"], m = FeatureParameter("m"), -0.4
            values["m"] = torch.tensor([-0.4])
        elif mult != "none":
            kw["multiplier"], m = MULT[mult][0], MULT[mult][1]
        if fr:
            kw["feature_range"] = fr
        if tr:
            kw["target_range"] = tr
        if prefix:
            kw["param_prefix"] = prefix
        b = feature_map(n, support=sup if how != "plain" else None, param=p, op=getattr(O, op), fm_type=FNS[fn][0],
                        reupload_scaling=SCAL[sc][0], **kw)
        gs = leaves(b)
        if [(type(g).__name__, g.qubit_support) for g in sorted(gs, key=lambda g: sup.index(g.qubit_support[0]))] != [(op, (q,)) for q in sup]:
            return f"gates are {[(type(g).__name__, g.qubit_support) for g in gs]}"
        y = scaled(x, fn, fr, tr)
        N = max(sup) + 1
        want = np.eye(2 ** N)
        tr_names = []
        for i, q in enumerate(sup):
            g = next(g for g in gs if g.qubit_support == (q,))
            z = y
            free = {str(s): s for s in symbols(g)}
            if "x" not in free or free["x"].trainable:
                return f"qubit {q}: the feature is not an input of the gate"
            names = [s for s in free if s not in ("x", "m")]
            if prefix:
                if len(names) != 1 or not free[names[0]].trainable or not names[0].startswith(prefix):
                    return f"qubit {q}: trainable factors {names}"
                tr_names.append(names[0])
                values[names[0]] = torch.tensor([0.3 + 0.2 * i])
                z = (0.3 + 0.2 * i) * y
            elif names:
                return f"unexpected parameters {names}"
            ang = m * SCAL[sc][1](i) * FNS[fn][1](z)
            if not np.isfinite(ang):
                raise Skip("outside the domain of the encoding function")
            want = ref.embed(ref.param1(op, (ang,)), (q,), N) @ want
        if len(set(tr_names)) != len(tr_names):
            return "two qubits share a trainable factor"
        out.feed(want)
        return close(op_by_run(b, N, values), want)

    def f_expfm(case, out):
        n, sup, fr, x = case
        kw = {}
        if sup is not None:
            kw["support"] = sup
        if fr is not None:
            kw["feature_range"] = fr
        b = exp_fourier_feature_map(n, param="x", **kw)
        s = sup or tuple(range(n))
        N = max(s) + 1
        lo, hi = fr or (0.0, 2.0 ** n)
        y = (x - lo) / (hi - lo) * 2 * math.pi
        want = np.eye(2 ** N)
        for i, q in enumerate(s):
            want = ref.embed(ref.param1("RZ", (2 ** i * y,)) @ np.array([[1, 1], [1, -1]]) / math.sqrt(2), (q,), N) @ want
        out.feed(want)
        return close(op_by_run(b, N, {"x": torch.tensor([x])}), want)

    # ---------------------------------------------------------------- ansaetze
    def param_gate(g):
        return isinstance(g, (O.RX, O.RY, O.RZ, O.PHASE, O.CRX, O.CRY, O.CRZ, O.CPHASE, O.HamEvo))

    def compare(b, want, prefix, out, shared=None):
        """same gates on the same qubits in an equivalent order; one own trainable parameter per parametric gate."""
        gs = leaves(b)
        got = [(type(g).__name__, tuple(g.qubit_support)) for g in gs]
        out.feed(str(want))
        for a, w in zip(foata(got), foata(want)):
            if a != w:
                return f"gates {a} instead of {w}"
        if len(got) != len(want):
            return f"{len(got)} gates instead of {len(want)}"
        names = []
        for g in gs:
            if not param_gate(g):
                continue
            ss = symbols(g)
            if len(ss) != 1 or not ss[0].trainable:
                return f"{type(g).__name__} on {g.qubit_support} has parameters {ss}"
            if not str(ss[0]).startswith(prefix):
                return f"parameter {ss[0]} does not start with {prefix!r}"
            names.append(str(ss[0]))
        count = len(names) if shared is None else shared
        if len(set(names)) != count:
            return f"{len(set(names))} different parameters instead of {count}"
        return None

    def rotations(s, ops):
        return [(o, (q,)) for o in ops for q in s]

    def f_hea(case, out):
        n, sup, depth, ops, ent, periodic, prefix = case
        kw = {} if ops is None else {"operations": [getattr(O, o) for o in ops]}
        if prefix:
            kw["param_prefix"] = prefix
        if sup is not None:
            kw["support"] = sup
        if ent:
            kw["entangler"] = getattr(O, ent)
        b = hea(n, depth, periodic=periodic, **kw)
        s = sup or tuple(range(n))
        want = []
        for _ in range(depth):
            want += rotations(s, ops or ("RX", "RY", "RX"))
            pairs = [(i, i + 1) for i in range(0, n - 1, 2)] + [(i, i + 1) for i in range(1, n - 1, 2)]
            if periodic and n > 2:
                pairs.append((n - 1, 0))
            want += [(ent or "CNOT", (s[i], s[j])) for i, j in pairs]
        return compare(b, want, prefix or "theta", out)

    def f_hea_da(case, out):
        n, sup, depth, ops, gen, prefix = case
        kw = {} if ops is None else {"operations": [getattr(O, o) for o in ops]}
        if prefix:
            kw["param_prefix"] = prefix
        if sup is not None:
            kw["support"] = sup
        s = sup or tuple(range(n))
        N = max(s) + 1
        if gen == "default":
            H = sum((ref.embed(np.kron(np.diag([0, 1.0]), np.diag([0, 1.0])), (s[i], s[j]), N) for i in range(n) for j in range(i + 1, n)), np.zeros((2 ** N, 2 ** N)))
        else:
            g = Q.add(*[0.3 * (i + 1) * O.Z(s[i]) @ O.Z(s[i + 1]) for i in range(n - 1)])
            kw["entangler"] = g
            H = sum(0.3 * (i + 1) * ref.embed(np.diag([1, -1, -1, 1.0]), (s[i], s[i + 1]), N) for i in range(n - 1))
        b = hea(n, depth, strategy=Strategy.SDAQC, **kw)
        gs = leaves(b)
        qs = next(g.qubit_support for g in gs if isinstance(g, O.HamEvo))
        if set(qs) != set(s):
            return f"the evolution acts on {qs} instead of {s}"
        want = (rotations(s, ops or ("RX", "RY", "RX")) + [("HamEvo", tuple(qs))]) * depth
        r = compare(b, want, prefix or "theta", out)
        if r:
            return r
        for g in gs:
            if isinstance(g, O.HamEvo):
                r = close(matrix(g.generator, N), H)
                if r:
                    return "generator: " + r
        return None

    def f_ala(case, out):
        n, m, sup, depth, ops, ent, prefix = case
        kw = {} if ops is None else {"operations": [getattr(O, o) for o in ops]}
        if prefix:
            kw["param_prefix"] = prefix
        if sup is not None:
            kw["support"] = sup
        if ent:
            kw["entangler"] = getattr(O, ent)
        b = ala(n, m, depth, **kw)
        s = sup or tuple(range(n))
        want = []
        for d in range(depth):
            want += rotations(s, ops or ("RX", "RY"))
            start = 0 if d % 2 == 0 else -((m + 1) // 2)
            blocks = [[q for q in range(a, a + m) if 0 <= q < n] for a in range(start, n, m)]
            offs = list(range(start, n, m))
            for par in (0, 1):
                for a, blk in zip(offs, blocks):
                    want += [(ent or "CNOT", (s[q], s[q + 1])) for q in blk if q + 1 in blk and (q - a) % 2 == par]
        return compare(b, want, prefix or "theta", out)

    def f_iia(case, out):
        n, depth, ops, ent, periodic, strat, prefix = case
        kw = {} if ops is None else {"rotations": [getattr(O, o) for o in ops]}
        if prefix:
            kw["param_prefix"] = prefix
        if strat == "sDAQC":
            kw["strategy"] = Strategy.SDAQC
            if ent:
                kw["entangler"] = Q.add(*[0.4 * O.Z(i) @ O.Z(i + 1) for i in range(n - 1)])
        else:
            kw["periodic"] = periodic
            if ent:
                kw["entangler"] = getattr(O, ent)
        torch.manual_seed(5)
        b = identity_initialized_ansatz(n, depth, **kw)
        s = tuple(range(n))
        ops = ops or ("RX", "RY")
        want = []
        if strat == "sDAQC":
            ents = [("HamEvo", s)]
        else:
            ents = [(ent or "CNOT", (q, (q + 1) % n)) for q in range(n if periodic else n - 1)]
        par = strat == "sDAQC" or (ent or "CNOT").startswith(("CR", "CP"))
        for _ in range(depth):
            want += rotations(s, ops) + ents + rotations(s, ("RX",)) + ents[::-1] + rotations(s, ops[::-1])
        r = compare(b, want, prefix or "iia", out, depth * (2 * n * len(ops) + n + (len(ents) if par else 0)))
        if r:
            return r
        got = Q.QuantumModel(Q.QuantumCircuit(n, b))
        for i in range(2 ** n):
            st = np.eye(2 ** n)[i]
            o = got.run({}, state=torch.tensor(st[None].astype(complex))).detach().numpy()[0]
            r = close(o, st)
            if r:
                return f"basis state {i} at initialisation: " + r
        # the angles are not all trivial and stay trainable: after one change the circuit is not the identity
        v = dict(got.vparams)
        if len(v) != depth * (2 * n * len(ops) + n + (len(ents) if par else 0)):
            return f"the model has {len(v)} trainable parameters"
        if n * len(ops) > 1 and sum(abs(float(t)) > 1e-6 for t in v.values()) == 0:
            return "all initial angles vanish"
        return None

    # ---------------------------------------------------------------- Rydberg constructors
    REGS = {"line2": lambda: Q.Register.line(2, spacing=7.0), "line3": lambda: Q.Register.line(3, spacing=6.5),
            "tri": lambda: Q.Register.from_coordinates([(0.0, 0.0), (7.0, 0.0), (2.0, 6.0)]), "one": lambda: Q.Register(1)}

    def nn(reg):
        """the interaction of the register as the Hamiltonian factory builds it (checked by P13)."""
        n = reg.n_qubits
        N = np.diag([0, 1.0])
        H = np.zeros((2 ** n, 2 ** n))
        for i, j in reg.edges:
            H = H + ref.embed(np.kron(N, N), (min(i, j), max(i, j)), n)
        return H

    def f_ryd_layer(case, out):
        reg, t, w, d, ph, det, drv, scale = case
        r = REGS[reg]()
        n = r.n_qubits
        wd = [0.3 + 0.4 * i for i in range(n)] if det else None
        wr = [0.9 - 0.35 * i for i in range(n)] if drv else None
        pars, vals = {}, {}

        def P(name, v):
            vals[name] = torch.tensor([v])
            return VariationalParameter(name)
        b = rydberg_hea_layer(r, P("a", t), P("b", d), P("c", w), phase=P("ph", ph) if ph is not None else None,
                              detunings=[P(f"d{i}", v) for i, v in enumerate(wd)] if det else None,
                              drives=[P(f"e{i}", v) for i, v in enumerate(wr)] if drv else None, drive_scaling=scale)
        X, Y, N = np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([0, 1.0])
        wd, wr = wd or [1.0] * n, wr or [1.0] * n
        I_ = nn(r)
        p = ph or 0.0
        G = sum(scale * wr[i] * (math.cos(p) * ref.embed(X, (i,), n) - math.sin(p) * ref.embed(Y, (i,), n)) for i in range(n)) + I_
        D = sum(wd[i] * ref.embed(N, (i,), n) for i in range(n))
        want = expm(-1j * d * D) @ expm(-1j * w * I_) @ expm(-1j * t * G)
        out.feed(want)
        return close(op_by_run(b, n, vals), want)

    def f_ryd_hea(case, out):
        reg, layers, det, drv, ph, prefix = case
        r = REGS[reg]()
        n = r.n_qubits
        b = rydberg_hea(r, layers, addressable_detuning=det, addressable_drive=drv, tunable_phase=ph, additional_prefix=prefix)
        names = trainables(b)
        want = 3 * layers + n * det + n * drv + ph
        out.feed(str(want))
        if len(names) != want:
            return f"{len(names)} trainable parameters instead of {want}: {sorted(names)}"
        other = rydberg_hea(r, layers, addressable_detuning=det, addressable_drive=drv, tunable_phase=ph, additional_prefix=(prefix or "") + "zz")
        both = names & trainables(other)
        if both:
            return f"ansaetze with different prefixes share {sorted(both)}"
        evos = [g for g in leaves(b) if isinstance(g, O.HamEvo)]
        if len(evos) != 3 * layers:
            return f"{len(evos)} evolutions for {layers} layers"
        return None

    def f_ryd_fm(case, out):
        n, weights, mx, x = case
        kw = {} if mx is None else {"max_abs_detuning": mx}
        if weights == "tower":
            b = rydberg_tower_feature_map(n, param="x", **kw)
            ws = [float(i + 1) for i in range(n)]
        elif weights is None:
            b = rydberg_feature_map(n, param="x", **kw)
            ws = [0.4 + 0.3 * i for i in range(n)]
        else:
            b = rydberg_feature_map(n, param="x", weights=list(weights), **kw)
            ws = list(weights)
        mx = 2 * math.pi * 10 if mx is None else mx
        gs = leaves(b)
        if sorted(q for g in gs for q in g.qubit_support) != list(range(n)) or len(gs) != n:
            return f"atoms {[g.qubit_support for g in gs]}"
        env = {"x": x}
        if weights is None:
            free = {str(s): s for g in gs for s in symbols(g) if s.trainable}
            tr = sorted(free)
            if len(tr) != n:
                return f"{len(tr)} trainable weights for {n} atoms"
        tot, durs = 0.0, set()
        own = {}
        for g in gs:
            dl = sympy.sympify(g.parameters.delta)
            if weights is None:
                env.update({k: ws[i] for i, k in enumerate(tr)})
                # weight of an atom: the trainable symbol its detuning vanishes with
                zero = [k for k in tr if abs(value(dl * sum(free.values()), {**env, k: 0.0})) < 1e-9]
                if len(zero) != 1:
                    return f"detuning {dl} has weights {zero}"
                own[g.qubit_support[0]] = zero[0]
        for g in gs:
            q = g.qubit_support[0]
            val = {nm: value(getattr(g.parameters, nm), env)
                   for nm in ("duration", "delta", "omega", "phase")}
            w = env[own[q]] if weights is None else ws[q]
            tot += abs(val["delta"])
            durs.add(round(val["duration"], 9))
            if abs(val["omega"]) > 1e-12 or abs(val["phase"]) > 1e-12:
                return f"atom {q} is driven: {val}"
            if abs(val["delta"] * val["duration"] / 1000 + w * x) > 1e-9:
                return f"atom {q} rotates by {val['delta'] * val['duration'] / 1000} instead of {-w * x}"
        if weights is None and len(set(own.values())) != n:
            return "two atoms share a weight"
        if abs(tot - mx) > 1e-6:
            return f"the detunings add up to {tot} instead of {mx}"
        if len(durs) != 1:
            return f"different durations {durs}"
        out.feed(str(sorted(durs)))
        return None

    def f_afm(case, out):
        op, fn, fr, tr, mult, rs, how, x = case
        kw = {}
        if fr:
            kw["feature_range"] = fr
        if tr:
            kw["target_range"] = tr
        env, m = {"x": x}, 1.0
        if mult == "var":
            kw["multiplier"], m, env["m"] = VariationalParameter("m"), 0.7, 0.7
        elif mult != "none":
            kw["multiplier"], m = MULT[mult][0], MULT[mult][1]
        seen = []

        def rec(e, *a):
            seen.append(e)
            return getattr(O, op)(e)
        if rs == "callable":
            kw["reupload_scaling"] = lambda o, e: Q.chain(o(e), o(2 * e))
        elif rs:
            kw["reupload_scaling"] = rs
        p = {"str": "x", "param": FeatureParameter("x"), "var": VariationalParameter("x")}[how]
        b = analog_feature_map(param=p, op=rec, fm_type=FNS[fn][0], **kw)
        want = m * FNS[fn][1](scaled(x, fn, fr, tr))
        if not np.isfinite(want):
            raise Skip("outside the domain of the encoding function")
        for e, k in zip(seen, (1, 2) if rs == "callable" else (1,)):
            e = sympy.sympify(e)
            fs = {str(s): s for s in e.free_symbols}
            if "x" not in fs or fs["x"].trainable:
                return "the feature is not an input"
            got = value(e, env)
            if abs(got - k * want) > 1e-9:
                return f"angle {got} instead of {k * want}"
        if len(seen) != (2 if rs == "callable" else 1):
            return f"{len(seen)} operations"
        out.feed(str(want))
        vals = {k: torch.tensor([v]) for k, v in env.items()}
        U = np.eye(2)
        for k in ((1, 2) if rs == "callable" else (1,)):
            U = ref.param1(op[-2:], (k * want,)) @ U
        got = np.stack([Q.run(Q.Register(1), b, values=vals, state=torch.eye(2, dtype=torch.cdouble)[i:i + 1]).detach().numpy()[0] for i in range(2)], 1)
        ph = np.vdot(U.ravel(), got.ravel())
        return close(got * np.exp(-1j * np.angle(ph)), U, 1e-5)

    # ---------------------------------------------------------------- cases
    chk = Check("P22", "gate placements, parameters and unitaries against independently built references", bounds={
        "qft": "digital n<=4 with every qubit order and all flags, digital-analog n in 2,3,5 with 3 building Hamiltonians",
        "daqc": "n in 2,3,5; ZZ/NN target x ZZ/NN build; 9 ways of writing generators",
        "ansaetze": "n<=6, depth<=3, 6 entanglers, 4 operation lists, periodic or not, permuted supports",
        "feature maps": "4 gates x 6 bases x 5 scalings x ranges x multipliers x prefixes x supports x 3 inputs"})

    def qft_cases():
        B = (False, True)
        for n in range(1, 5 if THOROUGH else 4):
            for sup in [None] + list(permutations(range(n))):
                for inv, rin, so in product(B, B, B):
                    yield n, sup, inv, rin, so, "Digital", None
        for inv, rin, so in product(B, B, B):
            yield 4, None, inv, rin, so, "Digital", None
            yield 4, (1, 3, 0, 2), inv, rin, so, "Digital", None
            yield 2, (3, 1), inv, rin, so, "Digital", None
            yield 3, (4, 0, 2), inv, rin, so, "Digital", None
            for n in (2, 3, 5):
                for bld in (None, "ZZ", "NN"):
                    if n < 5 or THOROUGH or bld is None and not rin:
                        yield n, None, inv, rin, so, "sDAQC", bld
    chk.family("qft", list(qft_cases()), f_qft)

    STY = ("add", "rev", "outer", "neg", "nest", "dup", "at", "twice", "order")

    def daqc_cases():
        for n in (2, 3, 5):
            full = tuple(((j, k), 0.3 + 0.1 * j + 0.17 * k) for j in range(n) for k in range(j + 1, n))
            pairs = [p for p, _ in full]
            tws = [((p, 0.7),) for p in pairs] + [tuple((p, 0.2 - 0.15 * i) for i, p in enumerate(pairs))]
            tws += [((pairs[0], 0.7), (pairs[-1], -0.4))] if len(pairs) > 1 else []
            for to, bo in product("ZN", "ZN"):
                for tw in tws if n < 5 or THOROUGH else tws[:1] + tws[-2:]:
                    for t in (1.0, -0.6) if n < 5 else (0.8,):
                        for ph in (True, False):
                            yield n, (to, tw, "add"), (bo, full, "add"), t, ph
                            # only the needed interactions, and a missing one
                            yield n, (to, tw, "add"), (bo, tuple((p, 0.5 - 0.2 * i) for i, (p, _) in enumerate(tw)), "add"), t, ph
                    if bo == "N":
                        yield n, (to, tw, "add"), None, 0.7, True
                if n < 5 or THOROUGH:
                    for st in STY:
                        for tw in tws[-2:]:
                            yield n, (to, tw, st), (bo, full, "add"), 0.9, True
                            yield n, (to, tw, "add"), (bo, full, st), 0.9, True
    chk.family("daqc", list(daqc_cases()), f_daqc)
    chk.family("refusals", [(k,) for k in REFUSE], f_daqc_refuse)

    def fm_cases():
        rngs = ((None, None), ((0.0, 2.0), None), (None, (-0.5, 0.5)), ((-1.0, 3.0), (-0.4, 0.8)), ((2.0, -2.0), (0.9, -0.9)))
        sups = ((0,), (0, 1), (2, 0), (1, 0, 3))
        for fn, sc, (fr, tr) in product(FNS, SCAL, rngs):
            for op in OPS:
                for x in XS:
                    yield (1, 0, 3), op, fn, sc, fr, tr, "none", None, "str", x
            for mult, prefix in product(("none", "num", "int", "var", "feat"), (None, "w")):
                for how in ("str", "param", "varparam"):
                    for sup in sups if THOROUGH else sups[2:3]:
                        yield sup, "RY", fn, sc, fr, tr, mult, prefix, how, 0.31
            yield (0, 1, 2), "RX", fn, sc, fr, tr, "none", None, "plain", 0.31
    chk.family("feature_map", list(fm_cases()), f_fm)
    chk.family("exp_fourier", [(len(s), None if s == tuple(range(len(s))) and d else s, fr, x) for s in ((0,), (0, 1), (1, 0), (2, 0), (0, 1, 2), (2, 3, 0))
                               for d in (True, False) for fr in (None, (0.0, 1.0), (-2.0, 3.0)) for x in XS + (2.7,)], f_expfm)
    chk.family("analog_feature_map", [(op, fn, fr, tr, mult, rs, how, x) for op in ("AnalogRX", "AnalogRY", "AnalogRZ") for fn in FNS
                                      for fr, tr in ((None, None), ((-1.0, 3.0), (-0.4, 0.8)), ((0.0, 2.0), None))
                                      for mult in ("none", "num", "var") for rs in (None, "Constant", "callable")
                                      for how in (("str", "param", "var") if op == "AnalogRX" else ("str",)) for x in XS[:2]
                                      if THOROUGH or x == XS[0] or mult == "none"], f_afm)

    def hea_cases():
        for n in range(1, 7):
            for sup in (None,) + SUPS[n][1:]:
                for depth in (1, 2, 3):
                    for ops in OPLISTS + (None,):
                        for ent in ENTS + (None,):
                            for per in (False, True):
                                yield n, sup, depth, ops, ent, per, None if (n + depth) % 2 else "w"
    chk.family("hea", list(hea_cases()), f_hea)
    chk.family("hea_daqc", [(n, sup, d, ops, gen, pf) for n in range(1, 5) for sup in (None,) + SUPS[n] for d in (1, 2, 3)
                            for ops in OPLISTS[:2] + (None,) for gen in ("default", "zz") for pf in (None, "w")
                            if n > 1], f_hea_da)
    chk.family("ala", [(n, m, sup, d, ops, ent, pf) for n in range(1, 7) for m in range(1, 6) for sup in (None,) + SUPS[n][1:]
                       for d in (1, 2, 3) for ops in OPLISTS[:3] + (None,) for ent in ENTS + (None,)
                       for pf in ((None, "w") if d == 2 else (None,))], f_ala)

    def iia_cases():
        for n in range(1, 5):
            for d in (1, 2, 3):
                for ops in OPLISTS[:3] + (None,):
                    for pf in (None, "w"):
                        for per in (False, True):
                            if n == 1 and per:
                                continue
                            for ent in ENTS + (None,):
                                yield n, d, ops, ent, per, "Digital", pf
                        if n > 1:
                            for ent in (None, "zz"):
                                yield n, d, ops, ent, False, "sDAQC", pf
        for ent in ENTS:
            yield 3, 12, ("RX", "RY"), ent, False, "Digital", None   # many layers
    chk.family("identity_initialised", list(iia_cases()), f_iia)

    chk.family("rydberg_layer", [(reg, t, w, d, ph, det, drv, sc) for reg in ("line2", "line3", "tri", "one")
                                 for t, w, d in ((0.4, 0.0, 0.0), (0.0, 0.7, 0.0), (0.0, 0.0, -0.6), (0.4, 0.3, 0.8))
                                 for ph in (None, 0.0, 0.9) for det in (False, True) for drv in (False, True) for sc in (1.0, 0.5)
                                 if reg != "one" or True], f_ryd_layer)
    chk.family("rydberg_hea", [(reg, l, d, r, p, pf) for reg in ("line2", "line3", "tri") for l in (1, 2, 3)
                               for d, r, p in product((False, True), repeat=3) for pf in (None, "a", "layer")], f_ryd_hea)
    chk.family("rydberg_feature_map", [(n, w, mx, x) for n in (1, 2, 3, 4) for w in (None, "tower", tuple(0.5 + 0.25 * i for i in range(n)))
                                       for mx in (None, 20.0, 3.0) for x in XS], f_ryd_fm)
    return chk


guard_main(("P22", make))
