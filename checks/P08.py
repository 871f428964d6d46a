"""P08: every gate receives the value of its own parameter expression."""
from itertools import product, combinations, permutations

from lib.harness import Check, Skip, guard_main, THOROUGH
from lib import ref

a, b, c, x, y, z = ("v", "a"), ("v", "b"), ("v", "c"), ("f", "x"), ("f", "y"), ("f", "z")
# expressions chosen to be easily confused: equal values in different types, equal up to sign, powers of ten,
# names that are prefixes of each other or names of sympy objects
EXPRS = {
    "1": 1, "1.0": 1.0, "-1": -1.0, "-2": -2.0, "0": 0.0, "0.1": 0.1, "0.01": 0.01, "1.1": 1.1, "11": 11.0, "pi": 3.141592653589793,
    "1e-3": 1e-3, "0.30000000000000004": 0.1 + 0.2, "0.3": 0.3,
    "a": a, "b": b, "-a": ("neg", a), "a/2": ("div", a, 2), "2a": ("mul", 2, a), "a+b": ("add", a, b), "a-b": ("sub", a, b), "b-a": ("sub", b, a),
    "a*b": ("mul", a, b), "a**2": ("pow", a, 2), "x": x, "-x": ("neg", x), "0.5x": ("mul", 0.5, x), "5x": ("mul", 5.0, x), "x**2": ("pow", x, 2),
    "x+1": ("add", x, 1), "1-x": ("sub", 1, x), "sin x": ("sin", x), "cos x": ("cos", x), "exp": ("exp", ("neg", x)), "y": y, "x*y": ("mul", x, y), "x-y": ("sub", x, y),
    "y-x": ("sub", y, x), "x/y": ("div", x, y), "y/x": ("div", y, x), "a*x": ("mul", a, x), "b*x": ("mul", b, x), "a*x+b": ("add", ("mul", a, x), b),
    "a*sin(b*x+y)": ("mul", a, ("sin", ("add", ("mul", b, x), y))), "acos x/4": ("acos", ("div", x, 4.0)),
    "1.1x": ("mul", 1.1, x), "11x": ("mul", 11.0, x), "x+0.25": ("add", x, 0.25), "x+0.75": ("add", x, 0.75),
}
NAMES = ("beta", "gamma", "E", "S", "I", "N", "Q", "pi", "zeta", "lamda", "x_1", "theta_0", "w0", "parameter", "duration", "state", "generator")
KIND = {"2": 2}


def make():
    import math
    import numpy as np
    import torch
    import sympy
    import qadence as Q
    from qadence.blocks.embedding import embedding
    from qadence.parameters import evaluate, stringify
    from qadence.blocks.utils import parameters as block_parameters, primitive_blocks, uuid_to_expression, expressions
    from lib.common import BATCH, Builder, VALS, close, envs, t2n

    def val(e, env):
        return ref.ev(e, env)

    def circ_spec(keys):
        """one gate per expression, cyclic over gate kinds whose parameter can be read off the final state."""
        gates = []
        for i, k in enumerate(keys):
            e = EXPRS[k] if isinstance(k, str) else k
            q = i % 3
            gates.append([("RX", (q,), e), ("RY", (q,), e), ("CRY", ((q + 1) % 3, q), e), ("HamEvo", ("kron", ("X", (q,)), ("Y", ((q + 1) % 3,))), e)][i % 4])
        return ("chain",) + tuple(("RY", (q,), 0.7 + 0.4 * q) for q in range(3)) + tuple(("RZ", (q,), 0.2 + 0.3 * q) for q in range(3)) + tuple(gates)

    def f_run(case, out):
        keys, batch, mode = case
        spec = circ_spec(keys)
        es, values = envs(sorted(ref.variables(spec)), batch)
        blk = Builder(VALS).block(spec)
        circ = Q.QuantumCircuit(3, blk)
        want = np.array([ref.mat(spec, 3, e) @ ref.zero_state(3) for e in es])
        m = Q.QuantumModel(circ, diff_mode=mode)
        got = t2n(m.run(values))
        out.feed(got)
        out.step(len(keys))
        if len(got) == 1 and len(want) > 1 and np.allclose(want, want[:1]):
            want = want[:1]
        return close(got, want, 3e-6 if all(abs(val(EXPRS[k] if isinstance(k, str) else k, es[0])) < 4 for k in keys) else 2e-5)

    def f_embed(case, out):
        """value delivered to each gate under its own key, in both conventions, after a sequence of updates."""
        keys, batch, gate_level, updates = case
        bld = Builder(VALS)
        gates = []
        exprs = []
        for i, k in enumerate(keys):
            e = EXPRS[k] if isinstance(k, str) else k
            g = ("RX", "CPHASE", "MCRZ", "PHASE")[i % 4]
            gates.append((g, {"RX": (0,), "PHASE": (2,), "CPHASE": (0, 1), "MCRZ": (0, 1, 2)}[g], e))
        blks = [bld.block(g) for g in gates]
        blks.append(bld.block(("U", (1,)) + tuple(EXPRS[k] if isinstance(k, str) else k for k in (list(keys) * 3)[:3])))
        blk = Q.chain(Q.kron(blks[0], Q.chain(blks[-1])), *blks[1:-1]) if len(keys) > 1 else Q.chain(*blks)
        vs = set()
        for g in gates:
            vs |= ref.variables(g)
        es, values = envs(sorted(vs), batch)
        params, fn = embedding(blk, to_gate_params=gate_level)
        for nm, v in updates:
            if nm in params:
                params[nm] = torch.tensor([v])
                for e in es:
                    e[nm] = v
        before = {k: v.clone() for k, v in params.items()}
        vb = {k: v.clone() for k, v in values.items()}
        emb = fn(params, values)
        if set(params) != set(before) or any(not torch.equal(params[k], before[k]) for k in before):
            return "embedding changed the parameter dictionary"
        if set(values) != set(vb) or any(not torch.equal(values[k], vb[k]) for k in vb):
            return "embedding changed the values given"
        for g, bl in zip(gates + [None], blks):
            ex = [g[2]] if g else [EXPRS[k] if isinstance(k, str) else k for k in (list(keys) * 3)[:3]]
            uuids = list(bl.parameters.uuids())
            objs = list(bl.parameters.expressions())
            if len(uuids) != len(ex):
                return f"{len(uuids)} gate parameters for {len(ex)} expressions"
            for u, o, e in zip(uuids, objs, ex):
                key = u if gate_level else stringify(o)
                if key not in emb:
                    return f"no value for {key}"
                got = np.broadcast_to(np.real(t2n(emb[key])).reshape(-1), (len(es),))
                want = np.array([val(e, env) for env in es])
                out.feed(got)
                out.step()
                m = close(got, np.real(want), 1e-5 * max(1, np.abs(want).max()))
                if m:
                    return f"{e}: {m}"
        names = {n for k, n in vs if k == "v"}
        tr = {k for k in params if not k.startswith("fix_")}
        if tr != names:
            return f"variational parameters {tr} instead of {names}"
        return None

    def f_missing(case, out):
        """every proper subset of the features, at every entry point: no answer may be given."""
        keys, given, entry, mode = case
        spec = circ_spec(keys)
        feats = sorted({n for k, n in ref.variables(spec) if k == "f"})
        vals = {n: torch.tensor(VALS[n]) for n in feats if n in given}
        bld = Builder(VALS)
        circ = Q.QuantumCircuit(3, bld.block(spec))
        obs = bld.block(("scale", ("f", "z"), ("Z", (0,)))) if entry == "obs" else Q.Z(0)
        if entry == "obs":
            vals = {n: torch.tensor(VALS[n]) for n in feats}
        def call():
            if entry == "fn_run":
                return Q.run(circ, values=vals)
            if entry == "fn_sample":
                return Q.sample(circ, values=vals, n_shots=5)
            if entry == "fn_exp":
                return Q.expectation(circ, obs, values=vals)
            if entry == "tensor":
                return Q.block_to_tensor(circ.block, vals)
            m = Q.QuantumModel(circ, obs, diff_mode=mode)
            if entry == "run":
                return m.run(vals)
            if entry == "sample":
                return m.sample(vals, n_shots=5)
            if entry == "call":
                return m(vals)
            return m.expectation(vals)
        try:
            r = call()
        except Exception as e:  # noqa: BLE001
            out.feed(type(e).__name__)
            return None
        return f"answered {r} without the values of {sorted(set(feats) - set(given)) or ['z']}"

    def f_local(case, out):
        """update one variational parameter of a model: exactly the dependent gates change, in either convention."""
        keys, how, mode, name = case
        spec = circ_spec(keys)
        env = dict(VALS)
        bld = Builder(VALS)
        m = Q.QuantumModel(Q.QuantumCircuit(3, bld.block(spec)), Q.Z(0), diff_mode=mode)
        es, values = envs(sorted(ref.variables(spec)), 2)
        names = sorted({n for k, n in ref.variables(spec) if k == "v"})
        if sorted(m.vparams) != names:
            return f"variational parameters {sorted(m.vparams)} instead of {names}"
        for nm in names:
            if abs(float(m.vparams[nm]) - VALS[nm]) > 1e-6:
                return f"initial value of {nm} is {m.vparams[nm]}"
        new = {nm: (1.7 if nm == name else VALS[nm]) for nm in names}
        if how == "reset":
            m.reset_vparams([new[str(nm)] for nm in m.vparams])
        elif how == "data":
            with torch.no_grad():
                for k, p in m.named_parameters():
                    if k.split(".")[-1] == name:
                        p.fill_(1.7)
        elif how == "state":
            sd = m.state_dict()
            for k in sd:
                if k.split(".")[-1] == name:
                    sd[k] = torch.full_like(sd[k], 1.7)
            m.load_state_dict(sd)
        elif how == "values":  # values given for a call take precedence for that call
            values = dict(values, **{name: torch.tensor(1.7)})
        for e in es:
            e.update(new)
        want = np.array([ref.mat(spec, 3, e) @ ref.zero_state(3) for e in es])
        for _ in range(2):
            got = t2n(m.run(values))
            out.step()
            if len(got) == 1 and np.allclose(want, want[:1]):
                got = np.repeat(got, len(want), 0)
            msg = close(got, want, 3e-6 * 4)
            if msg:
                return msg
            w = np.array([[np.real(np.vdot(v, ref.mat(("Z", (0,)), 3) @ v))] for v in want])
            ex = t2n(m.expectation(values))
            msg = close(np.repeat(ex, len(w), 0) if len(ex) == 1 and len(w) > 1 else ex, w, 2e-5)
            if msg:
                return "expectation " + msg
        out.feed(got)
        return None

    def f_names(case, out):
        n1, k1, n2, k2, mode, form = case
        e1, e2 = (k1, n1), (k2, n2)
        from lib.common import BATCH as _B
        vals = dict(VALS)
        vals[n1], vals[n2] = 0.43, -1.19
        ex = {"plain": (e1, e2), "mul": (("mul", e1, e2), e2), "fn": (("sin", ("add", e1, ("mul", 2.0, e2))), ("sub", e1, e2))}[form]
        spec = ("chain", ("H", (0,)), ("RZ", (0,), 0.3), ("RX", (0,), ex[0]), ("RY", (1,), ex[1]), ("CRX", (0, 1), ex[0]),
                ("HamEvo", ("add", ("scale", ex[1], ("Z", (0,))), ("X", (1,))), ex[0]))
        blk = Builder(vals).block(spec)
        values = {n: torch.tensor([vals[n]], dtype=torch.float64) for k, n in (e1, e2) if k == "f"}
        m = Q.QuantumModel(Q.QuantumCircuit(2, blk), diff_mode=mode)
        got = t2n(m.run(values))
        want = np.array([ref.mat(spec, 2, vals) @ ref.zero_state(2)])
        out.feed(got)
        return close(got, want, 3e-6)

    def f_mixed(case, out):
        """features of different shapes in one call: scalars and length-one tensors pair with every element."""
        shapes, mode, keys = case
        spec = circ_spec(keys)
        nb = max([1] + [s for s in shapes if s])
        values, es = {}, [dict(VALS) for _ in range(nb)]
        for f, s in zip(("x", "y", "z"), shapes):
            if ("f", f) not in ref.variables(spec):
                continue
            if s == 0:
                values[f] = torch.tensor(VALS[f], dtype=torch.float64)
            else:
                values[f] = torch.tensor([BATCH[f][i] for i in range(s)], dtype=torch.float64)
                for i in range(nb):
                    es[i][f] = BATCH[f][i % s]
        m = Q.QuantumModel(Q.QuantumCircuit(3, Builder(VALS).block(spec)), diff_mode=mode)
        got = t2n(m.run(values))
        want = np.array([ref.mat(spec, 3, e) @ ref.zero_state(3) for e in es])
        out.feed(got)
        if len(got) == 1 and len(want) > 1 and np.allclose(want, want[:1]):
            want = want[:1]
        return close(got, want, 1e-5)

    def f_multi(case, out):
        """gates with several parameters: each position gets its own expression."""
        kind, ks, batch, mode = case
        e = [EXPRS[k] for k in ks]
        if kind == "U":
            spec = ("chain", ("RY", (0,), 0.4), ("U", (0,), *e), ("U", (1,), *e[::-1]))
        elif kind == "scale":
            spec = ("chain", ("RY", (0,), 0.4), ("HamEvo", ("add", ("scale", e[0], ("Z", (0,))), ("scale", e[1], ("kron", ("X", (0,)), ("X", (1,))))), e[2]))
        elif kind == "nested":
            spec = ("chain", ("RY", (0,), 0.4), ("scale", e[0], ("chain", ("RX", (0,), e[1]), ("scale", e[2], ("RY", (1,), e[1])))))
        else:
            spec = ("chain", ("RY", (0,), 0.4), ("HamMat", "h2", (1, 0), e[0]), ("HamMat", "h1", (1,), e[1]), ("HamMat", "h2", (0, 1), e[2]))
        es, values = envs(sorted(ref.variables(spec)), batch)
        blk = Builder(VALS).block(spec)
        m = Q.QuantumModel(Q.QuantumCircuit(2, blk), diff_mode=mode)
        got = t2n(m.run(values))
        want = np.array([ref.mat(spec, 2, en) @ ref.zero_state(2) for en in es])
        out.feed(got)
        if len(got) == 1 and len(want) > 1 and np.allclose(want, want[:1]):
            want = want[:1]
        return close(got, want, 1e-5 * max(1, np.abs(want).max()))

    def f_observable(case, out):
        o1, o2, ck, batch, mode = case
        spec = circ_spec((ck,))
        obs = [("scale", EXPRS[o1], ("X", (0,))), ("add", ("scale", EXPRS[o2], ("Z", (1,))), ("scale", EXPRS[o1], ("Y", (2,))))]
        vs = ref.variables(spec) | ref.variables(obs[0]) | ref.variables(obs[1])
        es, values = envs(sorted(vs), batch)
        bld = Builder(VALS)
        m = Q.QuantumModel(Q.QuantumCircuit(3, bld.block(spec)), [bld.block(o) for o in obs], diff_mode=mode)
        got = t2n(m.expectation(values))
        want = []
        for e in es:
            v = ref.mat(spec, 3, e) @ ref.zero_state(3)
            want.append([np.real(np.vdot(v, ref.mat(o, 3, e) @ v)) for o in obs])
        want = np.array(want)
        out.feed(got)
        if len(got) == 1 and len(want) > 1 and np.allclose(want, want[:1]):
            want = want[:1]
        return close(got, want, 2e-5 * max(1, np.abs(want).max()))

    def f_eval(case, out):
        """evaluate(): defaults, given values, and torch results agree with the expression."""
        k, given, as_torch = case
        e = EXPRS[k]
        bld = Builder(VALS)
        obj = bld.expr(e)
        if not isinstance(obj, sympy.Basic):
            obj = sympy.sympify(obj)
        env = dict(VALS)
        for kk, n in ref.evars(e):
            bld.var(kk, n).value = VALS[n]
        vals = {}
        for i, (kk, n) in enumerate(sorted(ref.evars(e))):
            if given == "all" or (given == "first" and i == 0):
                vals[n] = env[n] = 0.19 + i
        if as_torch and not ref.evars(e):
            return None
        got = evaluate(obj, vals, as_torch=as_torch)
        got = complex(got.reshape(-1)[0]) if as_torch else complex(got)
        want = complex(ref.ev(e, env))
        out.feed(round(got.real, 6))
        return None if abs(got - want) < 1e-5 * max(1, abs(want)) else f"{got} instead of {want}"

    def atoms(x, y):
        f = sympy
        return {"x": x, "y": y, "1.5": 1.5, "x+1": x + 1, "x-.5": x - 0.5, "2x": 2 * x, "xy": x * y, "x/y": x / y, "x2": x ** 2,
                "sin": f.sin(x), "-x": -x, "x+y": x + y, "sq": (x + 1) ** 2, "exp": f.exp(x), "cos": f.cos(x - y), "sqrt": f.sqrt(y + 1)}

    JOIN = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q,
            "**": lambda p, q: p ** q, "sin*": lambda p, q: sympy.sin(p) * q, "cos+": lambda p, q: sympy.cos(p + q),
            "exp-": lambda p, q: sympy.exp(p - q), "sq+": lambda p, q: (p + q) ** 2}

    def f_compound(case, out):
        """any two expressions joined by an operation: the same number as with plain symbols and as plain numbers."""
        ka, kb, op, roles = case
        X = (Q.FeatureParameter if roles[0] == "f" else Q.VariationalParameter)("x")
        Y = (Q.FeatureParameter if roles[1] == "f" else Q.VariationalParameter)("y")
        X.value, Y.value = 0.31, 0.42
        A, B = atoms(X, Y), atoms(0.31, 0.42)
        try:
            want = complex(JOIN[op](B[ka], B[kb]))
        except (ZeroDivisionError, OverflowError):
            return None
        e = sympy.sympify(JOIN[op](A[ka], A[kb]))
        if abs(want.imag) > 1e-12 or not np.isfinite(want):
            raise Skip("not a real angle")
        out.feed(round(want.real, 6))
        vals = {"x": 0.31, "y": 0.42}
        for v in (vals, {}):
            got = complex(evaluate(e, v))
            if abs(got - want) > 1e-9 * max(1, abs(want)):
                return f"evaluate({e}) = {got} instead of {want}"
        if e.is_number:
            return None
        got = complex(evaluate(e, vals, as_torch=True).reshape(-1)[0])
        if abs(got - want) > 1e-6 * max(1, abs(want)):
            return f"evaluate({e}, as_torch) = {got} instead of {want}"
        st = Q.run(Q.QuantumCircuit(1, Q.RX(0, e)), values={k: torch.tensor([v]) for k, v in vals.items()})
        w = ref.param1("RX", (want.real,)) @ ref.zero_state(1)
        return close(st.detach().numpy()[0], w, 1e-6 * max(1, abs(want)))

    def f_blocks(case, out):
        """parameters(), expressions() and uuid tables report every gate's own expression, once per gate."""
        keys = case
        spec = circ_spec(keys)
        bld = Builder(VALS)
        blk = bld.block(spec)
        want = {n for k, n in ref.variables(spec)}
        got = {p.name for p in block_parameters(blk) if not p.is_number}
        out.step()
        if got != want:
            return f"parameters() reports {sorted(got)} instead of {sorted(want)}"
        u = uuid_to_expression(blk)
        pg = [p for p in primitive_blocks(blk) if hasattr(p, "parameters")]
        table = {}
        for p in pg:
            for uu, ex in p.parameters.items():
                if uu in table:
                    return "two gates share a parameter identifier"
                table[uu] = ex
        if set(table) != set(u) or any(str(table[t]) != str(u[t]) for t in table):
            return "uuid_to_expression disagrees with the gates"
        circ = Q.QuantumCircuit(3, blk)
        up = {p.name for p in circ.unique_parameters if not p.is_number}
        if up != want:
            return f"unique_parameters {sorted(up)}"
        if {p.name for p in circ.parameters() if not p.is_number} != want:
            return "circuit.parameters()"
        out.feed(sorted(map(str, table.values())))
        return None

    chk = Check("P08", rule="every combination of expressions over an alphabet of 50 confusable expressions placed on "
                "the gates of a circuit, every batch, both parameter conventions; the value each gate receives is read "
                "from the embedding and from the final state; non-trivial = distinct tables of values",
                bounds="3 qubits; all pairs (thorough: triples) of expressions; batches 0,1,3; all subsets of missing features",
                assumptions=["variational parameters are single precision: agreement to 1e-5"])
    K = list(EXPRS)
    modes = ("ad", "gpsr")
    pairs = [(p, q) for p, q in product(K, repeat=2)]
    chk.family("pairs", [((p, q), 3, m) for p, q in pairs for m in (modes if THOROUGH else modes[(K.index(p) + K.index(q)) % 2:][:1])], f_run)
    core = ["1", "-1", "-2", "a", "-a", "x", "-x", "x*y", "a*x", "b*x", "0.5x", "5x", "a+b", "x-y", "y-x"] if THOROUGH else \
        ["-1", "-2", "a", "-a", "x", "a*x", "x-y", "y-x"]
    chk.family("triples", [(t, bt, m) for t in product(core, repeat=3) for bt in (0, 3) for m in modes], f_run)
    chk.family("single", [((k,) * r, bt, m) for k in K for r in (1, 2, 4) for bt in (0, 1, 2) for m in modes], f_run)
    ups = ((), (("a", 1.7),), (("b", -0.4), ("a", 0.2)))
    chk.family("embedding", [((p, q), bt, g, u) for p, q in pairs for g in (True, False)
                             for bt, u in ([(3, ups[(K.index(p) + 2 * K.index(q)) % 3])] if not THOROUGH else list(product((0, 1, 3), ups)))]
               + [((p,), bt, g, u) for p in K for bt in (0, 1, 3) for g in (True, False) for u in ups], f_embed)
    fk = [k for k in K if any(t == "f" for t, _ in ref.evars(EXPRS[k]))]
    sets = [(k,) for k in fk] + [("x", "y"), ("a*x", "y", "x*y"), ("x", "a", "y"), ("a*sin(b*x+y)", "1")]
    cases = []
    for ks in sets:
        fs = sorted({n for k in ks for t, n in ref.evars(EXPRS[k]) if t == "f"})
        for r in range(len(fs)):
            for g in combinations(fs, r):
                cases += [(ks, g, e, m) for e in ("run", "sample", "exp", "call") for m in modes]
                cases += [(ks, g, e, None) for e in ("fn_run", "fn_sample", "fn_exp", "tensor")]
        cases += [(ks, (), "obs", m) for m in modes]
    chk.family("missing", cases, f_missing)
    vk = [k for k in K if any(t == "v" for t, _ in ref.evars(EXPRS[k]))]
    cases = [(ks, how, m, nm) for ks in list(product(vk, ["x", "a", "b", "a*x", "a-b", "1.0"])) for how in ("reset", "data", "state", "values") for m in modes
             for nm in sorted({n for k in ks for t, n in ref.evars(EXPRS[k]) if t == "v"})]
    chk.family("updates", cases, f_local)
    cases = [(n1, k1, n2, k2, m, fm) for n1, n2 in (permutations(NAMES, 2) if THOROUGH else [(NAMES[i], NAMES[(i + s) % len(NAMES)]) for i in range(len(NAMES)) for s in (1, 2, 5)])
             for k1, k2 in product("vf", repeat=2) for m in modes for fm in ("plain", "mul", "fn")]
    chk.family("names", cases, f_names)
    chk.family("mixed", [(s, m, ks) for s in product((0, 1, 3), repeat=3) if len({t for t in s if t > 1}) <= 1 for m in modes
                         for ks in (("x", "y"), ("x*y", "a", "y"), ("x", "-x", "a*sin(b*x+y)", "1"))], f_mixed)
    mk = ["a", "x", "a*x", "1.1", "-a", "x-y", "y"] if THOROUGH else ["a", "x", "1.1", "-a", "x-y"]
    chk.family("multi", [(kd, t, bt, m) for kd in ("U", "scale", "nested", "mat") for t in product(mk, repeat=3) for bt, m in ((2, "ad"), (0, "gpsr"))], f_multi)
    ok = ["a", "b", "x", "y", "a*x", "x-y", "0.1", "-2", "a+b"]
    chk.family("observables", [(p, q, ck, bt, m) for p in ok for q in ok for ck in ("a", "x", "1") for bt in (0, 2) for m in modes], f_observable)
    chk.family("evaluate", [(k, g, t) for k in K for g in ("none", "first", "all") for t in (False, True)], f_eval)
    ak = list(atoms(sympy.Symbol("x"), sympy.Symbol("y")))
    chk.family("compound", [(a, b, o, r) for a in ak for b in ak for o in JOIN for r in (("f", "v"), ("v", "f"), ("v", "v"), ("f", "f"))
                            if THOROUGH or r == ("f", "v") or (r == ("v", "f") and o in "/**")], f_compound)
    chk.family("tables", [(p, q) for p, q in pairs] + [(p,) * 4 for p in K], f_blocks)
    return chk


guard_main(("P08", make))
