"""P27: models built from configurations contain exactly what the configurations say."""
from itertools import product

from lib.harness import Check, Skip, guard_main, THOROUGH
from lib import ref

XS = ((0.31, -0.62, 0.17), (0.9, 0.23, -0.44))
BASES = ("Fourier", "Chebyshev")
SCALES = ("Constant", "Tower", "Exponential")
RANGES = ((None, None), ((-1.0, 3.0), (-0.4, 0.8)), ((0.0, 2.0), None), (None, (-0.5, 0.5)))


def levels(gates):
    """gates as lists of positions, grouped so that equal groupings mean equal up to commuting disjoint gates."""
    level, out = {}, []
    for i, g in enumerate(gates):
        k = max((level.get(q, -1) for q in g[1]), default=-1) + 1
        while len(out) <= k:
            out.append([])
        out[k].append(i)
        for q in g[1]:
            level[q] = k
    return [sorted(x, key=lambda i: gates[i][:2]) for x in out]


def make():
    import math
    import numpy as np
    import sympy
    import torch
    import qadence as Q
    from qadence import operations as O
    from qadence.blocks.abstract import AbstractBlock
    from qadence.blocks import block_to_tensor
    from qadence.blocks.composite import CompositeBlock
    from qadence.blocks.primitive import ScaleBlock
    from qadence.constructors import ObservableConfig
    from qadence.ml_tools import QNN
    from qadence.ml_tools.models import derivative
    from qadence.ml_tools.config import AnsatzConfig, FeatureMapConfig
    from qadence.ml_tools.constructors import create_ansatz, create_fm_blocks, create_observable
    from qadence.ml_tools.qcnn_model import QCNN
    from qadence.parameters import FeatureParameter, Parameter, VariationalParameter
    from qadence.types import AnsatzType, BasisSet, InputDiffMode, MultivariateStrategy, ReuploadScaling, Strategy
    from lib.common import close

    def leaves(b):
        if isinstance(b, CompositeBlock):
            return [x for y in b.blocks for x in leaves(y)]
        if isinstance(b, ScaleBlock):
            return leaves(b.block)
        return [b]

    def symbols(b):
        ps = getattr(b, "parameters", None)
        out = []
        for e in (ps.expressions() if ps is not None else ()):
            out += [s for s in sorted(getattr(e, "free_symbols", ()), key=str) if isinstance(s, Parameter) and not s.is_number]
        return out

    def value(e, env):
        e = sympy.sympify(e)
        return complex(e.xreplace({s: sympy.sympify(float(env[str(s)])) for s in e.free_symbols})).real

    # -------------------------------------------------------- expected gate lists
    # a gate: (name, qubits, what) with what = None (no parameter), ("angle", fn of inputs, trainable factor?) or "own"
    def scaled(x, base, fr, tr):
        dflt = (0.0, 2 * math.pi) if base == "Fourier" else (-1.0, 1.0)
        fr, tr = fr or dflt, tr or dflt
        return min(tr) + (x - min(fr)) * (max(tr) - min(tr)) / (max(fr) - min(fr))

    def per(v, k):
        return v[k] if isinstance(v, dict) else v

    RS = {"Constant": lambda i: 1.0, "Tower": lambda i: i + 1.0, "Exponential": lambda i: 2.0 ** i}

    def fm_gates(n, c, feature, sup):
        out = []
        for i, q in enumerate(sup):
            b, s = per(c["basis"], feature), per(c["scaling"], feature)
            fr, tr = per(c["fr"], feature), per(c["tr"], feature)

            def ang(x, w, i=i, b=b, s=s, fr=fr, tr=tr):
                z = w * scaled(x, b, fr, tr)
                return RS[s](i) * (math.acos(z) if b == "Chebyshev" else z)
            out.append((c["op"], (q,), ("angle", feature, ang, bool(c["prefix"]))))
        return out

    def ansatz_gates(n, a, depth):
        typ, ops, ent, per_, m = a["type"], a["ops"], a["ent"], a["periodic"], a["m"]
        s = tuple(range(n))
        ops = ops or (("RX", "RY") if typ == "IIA" else ("RX", "RY", "RX"))
        ent = ent or "CNOT"
        ew = "own" if ent.startswith(("CR", "CP")) else None
        rots = [(o, (q,), "own") for o in ops for q in s]
        out = []
        for d in range(depth):
            if a["strategy"] == "sDAQC":
                ham = [("HamEvo", s, "own")]
                if typ == "HEA":
                    out += rots + ham
                else:
                    out += rots + ham + [("RX", (q,), "own") for q in s] + ham + [(o, (q,), "own") for o in ops[::-1] for q in s]
            elif typ == "HEA":
                pairs = [(i, i + 1) for i in range(0, n - 1, 2)] + [(i, i + 1) for i in range(1, n - 1, 2)]
                if per_ and n > 2:
                    pairs.append((n - 1, 0))
                out += rots + [(ent, p, ew) for p in pairs]
            elif typ == "IIA":
                ents = [(ent, (q, (q + 1) % n), ew) for q in range(n if per_ else n - 1)]
                out += rots + ents + [("RX", (q,), "own") for q in s] + ents[::-1] + [(o, (q,), "own") for o in ops[::-1] for q in s]
            else:
                out += rots
                start = 0 if d % 2 == 0 else -((m + 1) // 2)
                for par in (0, 1):
                    for b in range(start, n, m):
                        out += [(ent, (q, q + 1), ew) for q in range(max(b, 0), min(b + m, n) - 1) if (q - b) % 2 == par]
        return out

    def expected(n, fm, a, depth):
        """the gates of the whole model and the number of trainable parameters."""
        out, names = [], 0
        if fm:
            feats = fm["inputs"]
            ups = {f: per(fm["repeats"], f) + 1 for f in feats}
            layers = []
            if fm["multi"] == "Parallel":
                base, extra = divmod(n, len(feats))
                sups, at = {}, 0
                for i, f in enumerate(feats):
                    k = base + (i < extra)
                    sups[f] = tuple(range(at, at + k))
                    at += k
                for r in range(max(ups.values())):
                    layers.append([g for f in feats if r < ups[f] for g in fm_gates(n, fm, f, sups[f])])
                tf = n
            else:
                for r in range(max(ups.values())):
                    layers += [fm_gates(n, fm, f, tuple(range(n))) for f in feats if r < ups[f]]
                tf = n * len(feats)
            for i, l in enumerate(layers):
                out += l
                if i + 1 < len(layers):
                    g = ansatz_gates(n, a, 1)
                    out += g
                    names += count(g, a)
            if fm["prefix"]:
                names += tf
        g = ansatz_gates(n, a, depth)
        return out + g, names + count(g, a)

    def count(gs, a):
        k = sum(g[2] == "own" for g in gs)
        if a["type"] == "IIA":      # entanglers of the mirrored half reuse their parameters
            k -= sum(g[2] == "own" and len(g[1]) > 1 for g in gs) // 2
            if a["strategy"] == "sDAQC" and len(gs[0][1]) == 0:
                pass
        return k

    def fm_config(fm):
        kw = {}
        E = {"Fourier": BasisSet.FOURIER, "Chebyshev": BasisSet.CHEBYSHEV, "Constant": ReuploadScaling.CONSTANT,
             "Tower": ReuploadScaling.TOWER, "Exponential": ReuploadScaling.EXP}
        cv = lambda v: {k: E[x] for k, x in v.items()} if isinstance(v, dict) else E[v]  # noqa: E731
        ins = fm["inputs"]
        if fm.get("sym") == "sym":
            ins = [sympy.Symbol(i) for i in ins]
        elif fm.get("sym") == "par":
            ins = [FeatureParameter(i) for i in ins]
        if fm.get("sym") != "none":
            kw["inputs"] = list(ins)
        for k, n in (("fr", "feature_range"), ("tr", "target_range")):
            if fm[k] is not None:
                kw[n] = fm[k]
        if fm["prefix"]:
            kw["param_prefix"] = fm["prefix"]
        if fm["op"] != "RX" or fm.get("explicit"):
            kw["operation"] = getattr(O, fm["op"])
        return FeatureMapConfig(num_features=len(fm["inputs"]), basis_set=cv(fm["basis"]), reupload_scaling=cv(fm["scaling"]),
                                multivariate_strategy=MultivariateStrategy(fm["multi"]), num_repeats=fm["repeats"],
                                feature_map_strategy=Strategy(fm.get("strategy", "Digital")), **kw)

    def ansatz_config(a, depth):
        args = {}
        if a["ops"]:
            args["operations"] = [getattr(O, o) for o in a["ops"]]
        if a["ent"]:
            args["entangler"] = getattr(O, a["ent"])
        if a["periodic"] is not None:
            args["periodic"] = a["periodic"]
        kw = {"m_block_qubits": a["m"]} if a["type"] == "ALA" else {}
        if a.get("prefix"):
            kw["param_prefix"] = a["prefix"]
        return AnsatzConfig(depth=depth, ansatz_type=AnsatzType[a["type"]], ansatz_strategy=Strategy(a["strategy"]), strategy_args=args, **kw)

    def op_sum(n, inter, det):
        P = {"X": np.array([[0, 1], [1, 0]], complex), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1]).astype(complex), "N": np.diag([0, 1]).astype(complex)}
        H = np.zeros((2 ** n, 2 ** n), complex)
        for i in range(n):
            for j in range(i + 1, n):
                for p in {"ZZ": "Z", "NN": "N", "XY": "XY", "XYZ": "XYZ", "fn": "Y"}.get(inter, ""):
                    H += ref.embed(np.kron(P[p], P[p]), (i, j), n)
            if det:
                H += ref.embed(P[det], (i,), n)
        return H

    def obs_config(o):
        inter, det, scale, shift, tt = o
        kw = {}
        if inter == "fn":
            kw["interaction"] = lambda i, j: O.Y(i) @ O.Y(j)
        elif inter:
            kw["interaction"] = inter
        if det:
            kw["detuning"] = getattr(O, det)
        return ObservableConfig(scale=scale, shift=shift, trainable_transform=tt, **kw)

    NN2 = np.diag([0, 0, 0, 1.0])

    def verify(qnn, n, want, total, obs, feats, xs, out):
        gs = [g for g in leaves(qnn._circuit.original.block) if type(g).__name__ != "I"]
        got = [(type(g).__name__, tuple(g.qubit_support)) for g in gs]
        wl, gl = levels(want), levels(got)
        out.feed(str([w[:2] for w in want]))
        if len(got) != len(want):
            return f"{len(got)} gates instead of {len(want)}"
        pair = []
        for a, b in zip(gl, wl):
            if [got[i] for i in a] != [want[i][:2] for i in b]:
                return f"gates {[got[i] for i in a]} instead of {[want[i][:2] for i in b]}"
            pair += list(zip(a, b))
        own = set()
        for i, j in pair:
            ss = {str(s): s for s in symbols(gs[i])}
            w = want[j][2]
            if w is None:
                if ss:
                    return f"{got[i]} has parameters {list(ss)}"
            elif w == "own":
                if len(ss) != 1 or not next(iter(ss.values())).trainable:
                    return f"{got[i]} has parameters {list(ss)}"
                own |= set(ss)
            else:
                tr = [k for k, s in ss.items() if s.trainable]
                if {k for k, s in ss.items() if not s.trainable} != {w[1]} or len(tr) != (1 if w[3] else 0):
                    return f"{got[i]} encodes {list(ss)} instead of {w[1]}"
                own |= set(tr)
        vp = dict(qnn.vparams)
        extra = {s for o in obs for s in o[2:4] if isinstance(s, str)}
        if len(own) != total or {str(k) for k in vp} != own | extra:
            return f"{len(own)} trainable parameters in the circuit instead of {total}; the model has {len(vp)}"
        # one forward pass against the expected gates at the parameters the model has
        torch.manual_seed(3)
        qnn.reset_vparams(torch.rand(len(vp)))
        vp = {str(k): float(v) for k, v in dict(qnn.vparams).items()}
        order = sorted(pair, key=lambda t: t[1])
        ys = []
        for x in xs:
            env = {f: v for f, v in zip(feats, x)}
            psi = ref.zero_state(n)
            for i, j in order:
                name, qs, w = want[j]
                g = gs[i]
                if w is None:
                    m = {"CNOT": np.eye(4)[[0, 1, 3, 2]], "CZ": np.diag([1, 1, 1, -1.0])}[name]
                elif name == "HamEvo":
                    H = sum((ref.embed(NN2, (p, q), n) for p in range(n) for q in range(p + 1, n)), np.zeros((2 ** n, 2 ** n)))
                    m = ref.expm_h(H, vp[str(symbols(g)[0])])
                else:
                    if w == "own":
                        t = vp[str(symbols(g)[0])]
                    else:
                        tr = [str(s) for s in symbols(g) if s.trainable]
                        try:
                            t = w[2](env[w[1]], vp[tr[0]] if tr else 1.0)
                        except ValueError:
                            raise Skip("outside the domain of the encoding function")
                    m = ref.controlled(ref.param1(name[1:], (t,)), 1) if name.startswith("C") else ref.param1(name, (t,))
                psi = ref.embed(m, qs, n) @ psi
            row = []
            for inter, det, sc, sh, _ in obs:
                e = np.real(np.vdot(psi, op_sum(n, inter, det) @ psi))
                row.append((vp[sc] if isinstance(sc, str) else sc) * e + (vp[sh] if isinstance(sh, str) else sh))
            ys.append(row)
        ys = np.array(ys)
        y = qnn(torch.tensor(xs)[:, :len(feats)]) if feats else qnn()
        y = y.detach().numpy().reshape(-1, len(obs))
        if not feats:
            ys = ys[:1]
        return close(y, ys, 1e-6)

    Z1 = ((None, "Z", 1.0, 0.0, None),)

    def f_model(case, out):
        n, fm, a, depth, obs, xi = case
        fm, a = dict(fm) if fm else None, dict(a)
        kw = {"fm_config": fm_config(fm)} if fm else {}
        cfgs = [obs_config(o) for o in obs]
        qnn = QNN.from_configs(n, cfgs if len(cfgs) > 1 else cfgs[0], ansatz_config=ansatz_config(a, depth), **kw)
        want, total = expected(n, fm, a, depth)
        feats = list(fm["inputs"]) if fm else []
        return verify(qnn, n, want, total, obs, feats, [XS[k] for k in xi], out)

    def f_observable(case, out):
        n, o = case
        b = create_observable(n, obs_config(o))
        vals = {s: 0.3 + 0.5 * i for i, s in enumerate(o[2:4]) if isinstance(s, str)}
        sc, sh = (vals.get(s, s) for s in o[2:4])
        want = sc * op_sum(n, o[0], o[1]) + sh * np.eye(2 ** n)
        ps = {str(p): p for p in Q.blocks.utils.parameters(b) if not p.is_number}
        if set(ps) != set(vals) or any(p.trainable != bool(o[4]) for p in ps.values()):
            return f"parameters {[(k, p.trainable) for k, p in ps.items()]}"
        got = block_to_tensor(b, {k: torch.tensor([v]) for k, v in vals.items()}, tuple(range(n)))[0].detach().numpy()
        out.feed(want)
        return close(got, want)

    def f_analog(case, out):
        """analog and Rydberg feature maps: one block per upload, ansatz layers in between, feature and angle of each."""
        strat, op, feats, repeats, multi, base, rng, anst = case
        reg = Q.Register.line(2, spacing=9.0)
        kw = {}
        if op:
            kw["operation"] = (lambda p: O.AnalogRY(p)) if op == "fn" else getattr(O, op)
        for k, v in zip(("feature_range", "target_range"), rng):
            if v:
                kw[k] = v
        cfg = FeatureMapConfig(num_features=len(feats), inputs=list(feats), feature_map_strategy=Strategy(strat), num_repeats=dict(repeats) if isinstance(repeats, tuple) else repeats,
                               multivariate_strategy=MultivariateStrategy(multi), basis_set=BasisSet(base),
                               reupload_scaling=ReuploadScaling.TOWER if strat == "Rydberg" and not op else ReuploadScaling.CONSTANT, **kw)
        rp = dict(repeats) if isinstance(repeats, tuple) else {f: repeats for f in feats}
        order = [f for r in range(max(rp.values()) + 1) for f in feats if r <= rp[f]]
        blocks = create_fm_blocks(reg, cfg)
        out.feed(str(order))
        if len(blocks) != len(order):
            return f"{len(blocks)} uploads instead of {len(order)}"
        digital = op in ("RX", "RY")
        env = {f: 0.3 + 0.2 * i for i, f in enumerate(feats)}
        for b, f in zip(blocks, order):
            gs = leaves(b)
            for g in gs:
                if {str(s) for s in symbols(g)} != {f}:
                    return f"upload of {f} depends on {symbols(g)}"
            if digital:
                if [(type(g).__name__, g.qubit_support) for g in gs] != [(op, (q,)) for q in range(2)]:
                    return f"operation {op} is not used: {gs}"
                angs = [value(g.parameters.parameter, env) for g in gs]
                z = scaled(env[f], base, *rng)
                w = math.acos(z) if base == "Chebyshev" else z
                if max(abs(a - w) for a in angs) > 1e-9:
                    return f"angles {angs} instead of {w}"
            elif strat == "Rydberg" and not op:
                for g in gs:
                    q = g.qubit_support[0]
                    if abs(value(g.parameters.delta, env) * value(g.parameters.duration, env) / 1000 + (q + 1) * env[f]) > 1e-9:
                        return f"atom {q} is rotated by a wrong angle"
                if len(gs) != 2:
                    return f"{len(gs)} atoms addressed"
            else:
                if len(gs) != 1:
                    return f"{len(gs)} analog rotations"
                z = scaled(env[f], base, *rng)
                w = math.acos(z) if base == "Chebyshev" else z
                nm = {"fn": "RY", None: "RX"}.get(op, (op or "")[-2:])
                got = value(gs[0].parameters.alpha, env)
                if abs(got - w) > 1e-9:
                    return f"angle {got} instead of {w}"
                ph = value(gs[0].parameters.phase, env)
                wp = {"RX": 0.0, "RY": -math.pi / 2}.get(nm)
                if wp is not None and abs(math.remainder(ph - wp, 2 * math.pi)) > 1e-9:
                    return f"rotation about another axis (phase {ph})"
        if anst:
            a = {"type": "HEA", "strategy": "Digital", "ops": ("RZ",), "ent": "CZ", "periodic": None, "m": None}
            q = QNN.from_configs(reg, obs_config(Z1[0]), cfg, ansatz_config(a, 1))
            allg = [g for g in leaves(q._circuit.original.block)]
            cz = sum(type(g).__name__ == "CZ" for g in allg)
            if cz != len(order):
                return f"{cz} ansatz layers for {len(order)} uploads"
            y = q(torch.rand(2, len(feats)) * 0.5)
            if y.shape[0] != 2 or not torch.isfinite(y).all():
                return "the model cannot be evaluated"
        return None

    def f_refuse(case, out):
        (kind,) = case
        out.step()
        F, A = FeatureMapConfig, AnsatzConfig
        bad = {
            "inputs_missing": lambda: F(num_features=2),
            "inputs_count": lambda: F(num_features=2, inputs=["x"]),
            "keys": lambda: F(num_features=2, inputs=["x", "y"], basis_set={"x": BasisSet.FOURIER}),
            "keys2": lambda: F(num_features=1, inputs=["x"], num_repeats={"y": 1}),
            "parallel_analog": lambda: F(num_features=2, inputs=["x", "y"], feature_map_strategy=Strategy.ANALOG),
            "parallel_rydberg": lambda: F(num_features=2, inputs=["x", "y"], feature_map_strategy=Strategy.RYDBERG),
            "parallel_analog_op": lambda: F(num_features=2, inputs=["x", "y"], operation=O.AnalogRX),
            "too_many": lambda: QNN.from_configs(2, obs_config(Z1[0]), F(num_features=3, inputs=["x", "y", "z"])),
            "ala_m": lambda: A(ansatz_type=AnsatzType.ALA),
            "ala_sdaqc": lambda: A(ansatz_type=AnsatzType.ALA, m_block_qubits=2, ansatz_strategy=Strategy.SDAQC),
            "iia_rydberg": lambda: A(ansatz_type=AnsatzType.IIA, ansatz_strategy=Strategy.RYDBERG),
            "obs_none": lambda: ObservableConfig(),
            "obs_numbers": lambda: ObservableConfig(detuning=O.Z, scale=1.0, shift=0.0, trainable_transform=True),
            "qcnn_odd": lambda: QCNN(1, 5, [1], [O.RX]), "qcnn_few": lambda: QCNN(1, 2, [1], [O.RX]),
            "qcnn_depth": lambda: QCNN(1, 4, [2], [O.RX]), "qcnn_layers": lambda: QCNN(1, 4, [1, 1, 1], [O.RX]),
        }
        try:
            bad[kind]()
        except (ValueError, AssertionError, RuntimeError, NotImplementedError):
            return None
        except Exception as e:  # noqa: BLE001
            return f"raised {type(e).__name__}"
        return "accepted"

    def f_qcnn(case, out):
        n, depth, ops, ent, n_in, base, gate, meas = case
        q = QCNN(n_in, n, list(depth), [getattr(O, o) for o in ops], entangler=getattr(O, ent), random_meas=meas, fm_basis=base, fm_gate=getattr(O, gate))
        per_in, extra = divmod(n, n_in)
        want, at = [], 0
        feats = [str(s) for s in q.inputs]
        if len(feats) != n_in:
            return f"{len(feats)} inputs"
        for i in range(n_in):
            for _ in range(per_in + (i < extra)):
                def ang(x, w, base=base):
                    z = scaled(x, base, None, None)
                    return math.acos(z) if base == "Chebyshev" else z
                want.append((gate, (at,), ("angle", feats[i], ang, False)))
                at += 1
        idx = list(range(n))
        for l, d in enumerate(depth):
            for r in range(d):
                if l < 2 and r % 2:
                    mid = idx[1:-1]
                    pairs = list(zip(mid[::2], mid[1::2]))
                else:
                    pairs = list(zip(idx[::2], idx[1::2]))
                for c, t in pairs:
                    want += [(o, (k,), "own") for o in ops for k in (c, t)] + [(ent, (t, c), None), ("RZ", (c,), "own"), ("RY", (t,), "own"), (ent, (c, t), None),
                             ("RY", (t,), "own"), (ent, (t, c), None)] + [(o, (k,), "own") for o in ops for k in (c, t)]
                    if r == d - 1:
                        want.append((ent, (c, t), None))
            idx = idx[1::2]
        total = sum(g[2] == "own" for g in want)
        names = [f"w{i}" for i in range(n)] if meas else []
        # the observable: (weighted) magnetisation of all qubits
        if meas:
            torch.manual_seed(7)
            ws = {str(p) for b in q._observable for p in Q.blocks.utils.parameters(b.original) if not p.is_number}
            if len(ws) != n:
                return f"{len(ws)} measurement weights"
            gs = [g for g in leaves(q._circuit.original.block) if type(g).__name__ != "I"]
            got = [(type(g).__name__, tuple(g.qubit_support)) for g in gs]
            out.feed(str(got))
            for a, b in zip(levels(got), levels(want)):
                if [got[i] for i in a] != [want[i][:2] for i in b]:
                    return f"gates {[got[i] for i in a]} instead of {[want[i][:2] for i in b]}"
            if len(got) != len(want) or len(dict(q.vparams)) != total + n:
                return f"{len(dict(q.vparams))} trainable parameters instead of {total + n}"
            return None
        return verify(q, n, want, total, Z1, feats, [x for x in XS] if n < 8 else XS[:1], out)

    def f_derivative(case, out):
        n, idx, mode, anst = case
        a = {"type": "HEA", "strategy": "Digital", "ops": ("RY",), "ent": "CNOT", "periodic": None, "m": None}
        fm = FeatureMapConfig(num_features=2, inputs=["y", "x"], basis_set={"y": BasisSet.CHEBYSHEV, "x": BasisSet.FOURIER},
                              multivariate_strategy=MultivariateStrategy(anst), feature_range={"y": (-1.0, 1.0), "x": (0.0, 2 * math.pi)})
        q = QNN.from_configs(n, obs_config(("ZZ", "X", 0.8, 0.2, None)), fm, ansatz_config(a, 1), input_diff_mode=mode)
        torch.manual_seed(1)
        q.reset_vparams(torch.rand(len(dict(q.vparams))))
        x = torch.tensor([[0.2, 0.5], [-0.3, 1.1]], dtype=torch.double, requires_grad=True)
        got = derivative(q, x, idx).detach().numpy().reshape(-1)
        h = 0.02

        def d(pt, ix):
            if not ix:
                return q(pt).detach().numpy().reshape(-1)
            e = torch.zeros_like(pt)
            e[:, ix[0]] = h
            f = lambda k: d(pt + k * e, ix[1:])  # noqa: E731
            return (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
        want = d(x.detach(), idx)
        out.feed(want)
        # forward and derivative of the same model: y and x are columns 0 and 1
        return close(got, want, 5e-3 * max(1.0, np.abs(want).max()))

    # -------------------------------------------------------- cases
    chk = Check("P27", "every gate, placement, parameter and output of the model against the configuration's description", bounds={
        "models": "1-4 qubits, 0-3 features, repeats 0-2 per feature, both multivariate strategies, 3 ansatz types, depths 1-3, 2 strategies",
        "observables": "interactions x detunings x numeric, trainable and feature scales and shifts",
        "networks": "4, 6, 8 qubits, layer depths 1 and 3, 1-3 inputs"})

    def FM(**k):
        d = {"inputs": ("x",), "basis": "Fourier", "scaling": "Constant", "fr": None, "tr": None, "multi": "Parallel", "repeats": 0,
             "prefix": None, "op": "RX"}
        d.update(k)
        return tuple(d.items())

    def AN(**k):
        d = {"type": "HEA", "strategy": "Digital", "ops": None, "ent": None, "periodic": None, "m": None}
        d.update(k)
        return tuple(d.items())

    def models():
        # feature maps with a small ansatz
        small = AN(ops=("RY",))
        for n in (1, 2, 3, 4):
            for ins in (("x",), ("x", "y"), ("b", "a"), ("z", "x", "y")):
                for multi in ("Parallel", "Series"):
                    if multi == "Parallel" and len(ins) > n:
                        continue
                    reps = [0, 1] + [dict(zip(ins, r)) for r in product((0, 1, 2), repeat=len(ins)) if len(set(r)) > 1 and (THOROUGH or n < 4)][: 99 if THOROUGH else 8]
                    for rep in reps:
                        for pf in (None, "w"):
                            yield n, FM(inputs=ins, multi=multi, repeats=rep, prefix=pf, scaling="Tower"), small, 1, Z1, (0, 1)
        for n in (2, 3):
            for base, sc, (fr, tr), op, pf in product(BASES, SCALES, RANGES, ("RX", "RY", "RZ", "PHASE"), (None, "w")):
                yield n, FM(basis=base, scaling=sc, fr=fr, tr=tr, op=op, prefix=pf), small, 1, Z1, (0,)
            for b1, b2, s1, s2 in product(BASES, BASES, SCALES, SCALES):
                for multi in ("Parallel", "Series"):
                    yield (n, FM(inputs=("x", "y"), basis={"x": b1, "y": b2}, scaling={"y": s2, "x": s1}, multi=multi,
                                 fr={"x": (-1.0, 1.0), "y": (-2.0, 2.0)}, tr={"x": (-0.9, 0.9), "y": (-0.5, 0.7)}), small, 1, Z1, (0, 1))
            for sym in ("sym", "par", "none"):
                for ins in (("x",), ("x", "y")):
                    if sym == "none" and len(ins) > 1:
                        continue
                    yield n, FM(inputs=ins, sym=sym, basis="Chebyshev"), small, 1, Z1, (0, 1)
            for st, op in product(("Digital", "Analog", "Rydberg"), ("RX", "RZ")):
                yield n, FM(op=op, explicit=True, strategy=st), small, 1, Z1, (0,)
        # ansaetze, alone and interleaved with uploads
        for n in (1, 2, 3, 4):
            for depth in (1, 2, 3):
                for fm in (None, FM(), FM(repeats=2), FM(inputs=("x", "y"), multi="Series")):
                    for ops in (None, ("RZ",), ("RY", "RX")):
                        for ent in (None, "CZ", "CRX", "CPHASE"):
                            for per_ in (None, True, False):
                                yield n, fm, AN(ops=ops, ent=ent, periodic=per_), depth, Z1, (0, 1)
                                if n > 1 or not per_:
                                    if (THOROUGH or n < 4) and (depth < 3 or ops is None):
                                        yield n, fm, AN(type="IIA", ops=ops, ent=ent, periodic=per_), depth, Z1, (0,)
                            for m in (1, 2, 3) if n > 2 else (1, 2):
                                yield n, fm, AN(type="ALA", ops=ops, ent=ent, m=m, prefix=None if n % 2 else "p"), depth, Z1, (0,)
                        if n > 1:
                            yield n, fm, AN(strategy="sDAQC", ops=ops), depth, Z1, (0,)
                            yield n, fm, AN(type="IIA", strategy="sDAQC", ops=ops), depth, Z1, (0,)
        # observables of models
        for n in (2, 3):
            for obs in ([(("ZZ", None, 2.0, -0.5, None),), (("XY", "Z", 0.5, 0.25, None), (None, "X", 1.5, 1.0, None)),
                         ((None, "N", "s", "t", True),), ((None, "Y", "s", 0.5, True), ("NN", None, 1.0, "u", True)),
                         (("XYZ", None, 1.0, 0.0, None), (None, "Z", 1.0, 0.0, None), ("fn", None, -1.0, 0.0, None))]):
                for fm in (None, FM(), FM(inputs=("y", "x"))):
                    yield n, fm, AN(), 1, obs, (0, 1)
    freeze = lambda v: tuple(sorted(v.items())) if isinstance(v, dict) else v  # noqa: E731,F841
    chk.family("models", list(models()), f_model)
    chk.family("observable", [(n, (i, d, sc, sh, tt)) for n in (1, 2, 3, 4) for i in (None, "ZZ", "NN", "XY", "XYZ", "fn") for d in (None, "X", "Y", "Z", "N")
                              if (i or d) and (n > 1 or not i)
                              for sc, sh, tt in ((1.0, 0.0, None), (2.0, -0.5, None), (-0.3, 1, None), (0.0, 1.0, None), ("s", "t", True), ("s", "t", False), ("s", 0.5, True), (2.0, "t", False))], f_observable)

    def analogs():
        for strat, op in (("Analog", None), ("Analog", "AnalogRX"), ("Analog", "AnalogRY"), ("Analog", "fn"), ("Digital", "AnalogRX"), ("Digital", "AnalogRY"), ("Digital", "fn"),
                          ("Rydberg", None), ("Rydberg", "AnalogRX"), ("Rydberg", "fn"), ("Analog", "RX"), ("Analog", "RY"), ("Rydberg", "RX")):
            for feats in (("x",), ("x", "y"), ("b", "a")):
                for rep in (0, 1, 2, tuple((f, i) for i, f in enumerate(feats)), tuple((f, 2 - i) for i, f in enumerate(feats))):
                    for base in BASES:
                        for rng in RANGES[:3]:
                            yield strat, op, feats, rep, "Series", base, rng, base == "Fourier" and rng == RANGES[0]
    chk.family("analog", list(analogs()), f_analog)
    chk.family("refusals", [(k,) for k in ("inputs_missing", "inputs_count", "keys", "keys2", "parallel_analog", "parallel_rydberg", "parallel_analog_op", "too_many", "ala_m", "ala_sdaqc",
                                           "iia_rydberg", "obs_none", "obs_numbers", "qcnn_odd", "qcnn_few", "qcnn_depth", "qcnn_layers")], f_refuse)
    chk.family("qcnn", [(n, d, ops, ent, i, b, g, m) for n in ((4, 6, 8) if THOROUGH else (4, 6))
                        for d in ((1,), (3,), (1, 1), (3, 1), (1, 3), (3, 3)) + (((1, 1, 1), (3, 1, 3)) if n == 8 else ()) for ops in (("RX",), ("RX", "RZ"))
                        for ent in ("CZ", "CNOT") for i in (1, 2, 3) for b, g in (("Fourier", "RX"), ("Chebyshev", "RY")) for m in (False, True)] +
               ([] if THOROUGH else [(8, d, ("RX",), "CZ", 2, "Fourier", "RX", m) for d in ((1, 1, 1), (3, 1, 3), (1, 3)) for m in (False, True)]), f_qcnn)
    chk.family("derivative", [(n, ix, m, an) for n in (2, 3) for k in (1, 2, 3) for ix in product((0, 1), repeat=k) for m in ("ad", "fd") for an in ("Parallel", "Series")], f_derivative)
    return chk


guard_main(("P27", make))
