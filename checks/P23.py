"""P23: Hamiltonian evolution (block, matrix, time dependent) and its digital decomposition."""
from itertools import combinations, permutations, product

from lib.harness import Check, guard_main, THOROUGH
from lib import ref

TIMES = (0.0, 0.37, -1.21, ("v", "a"), ("f", "x"), ("mul", 2, ("f", "x")), ("add", ("v", "a"), ("f", "x")))


def strings(n, alpha="XYZ", minw=1):
    """all Pauli strings on n qubits as specs (kron of primitives on every subset of qubits)."""
    out = []
    for w in range(minw, n + 1):
        for qs in combinations(range(n), w):
            for ps in product(alpha, repeat=w):
                g = tuple((p, (q,)) for p, q in zip(ps, qs))
                out.append(g[0] if w == 1 else ("kron",) + g)
    return out


def make():
    import numpy as np
    import torch
    import qadence as Q
    import sympy
    from qadence.operations import HamEvo
    from qadence.parameters import FeatureParameter, TimeParameter, VariationalParameter
    from qadence.types import LTSOrder
    from lib.common import Builder, close, envs, op_by_run, op_by_tensor, t2n, VALS

    M = {}

    def m(spec, n):
        k = (spec, n)
        if k not in M:
            M[k] = ref.mat(spec, n, {})
        return M[k]

    def f_exact(case, out):
        spec, n, batch = case
        es, values = envs(ref.variables(spec), batch)
        b = Builder(VALS).block(spec)
        wants = [ref.mat(spec, n, e) for e in es]
        out.feed(wants[0])
        for i, w in enumerate(wants):
            v1 = {k: (v[i] if v.ndim else v) for k, v in values.items()}
            r = close(op_by_run(b, n, v1), w)
            if r:
                return "simulated: " + r
        got = Q.run(Q.QuantumCircuit(n, b), values=values, state=torch.tensor(ref.rand_state(n, 3)[None]))
        r = close(t2n(got), np.array([w @ ref.rand_state(n, 3) for w in wants])[: len(got)] if len(got) == len(wants)
                  else np.array([w @ ref.rand_state(n, 3) for w in wants]))
        if r:
            return "batch: " + r
        if not batch:
            r = close(op_by_tensor(b, n, values), wants[0])
            if r:
                return "matrix: " + r
        return None

    def f_dec(case, out):
        """terms commute: every order is exact."""
        spec, n, order, batch = case
        es, values = envs(ref.variables(spec), batch)
        b = Builder(VALS).block(spec)
        d = b.digital_decomposition(LTSOrder[order]) if order else b.digital_decomposition()
        kinds = {type(x).__name__ for x in Q.blocks.primitive_blocks(d)}
        if kinds & {"HamEvo", "MatrixBlock"}:
            return f"decomposition contains {kinds}"
        for i, e in enumerate(es):
            w = ref.mat(spec, n, e)
            v1 = {k: (v[i] if v.ndim else v) for k, v in values.items()}
            got = op_by_run(d, n, v1) if n <= 2 or order in ("BASIC",) else op_by_tensor(d, n, v1)
            out.feed(got)
            r = close(got, w, 1e-5)
            if r:
                return r
        return None

    def f_order(case, out):
        gspec, n, order = case
        p = {"BASIC": 1, "ST2": 2, "ST4": 4}[order]
        errs = []
        ts = {"BASIC": (0.1, 0.05), "ST2": (0.2, 0.1), "ST4": (4.0, 2.0)}[order]
        for t in ts:
            spec = ("HamEvo", gspec, t)
            b = Builder(VALS).block(spec)
            d = b.digital_decomposition(LTSOrder[order])
            if order == "BASIC":
                got = op_by_tensor(d, n)
            else:
                # one period of the repeated product formula
                got = op_by_run(d, n)
            errs.append(np.abs(got - ref.mat(spec, n, {})).max())
        out.feed(repr([round(float(e), 9) for e in errs]))
        out.step(2)
        if errs[0] < 1e-9:
            return None
        bound = {"BASIC": 0.2, "ST2": 1e-3, "ST4": 1e-4}[order]
        if errs[0] > bound:
            return f"error {errs[0]:.3g} at t={ts[0]} above {bound}"
        ratio = errs[0] / max(errs[1], 1e-16)
        if ratio < 2 ** (p + 1) / (2.3 if p == 4 else 1.4):
            return f"error {errs} shrinks by {ratio:.3g} instead of about {2 ** (p + 1)} when the time is halved"
        return None

    # ---------------------------------------------------------------- time dependent
    FN = {"t": (lambda t: t, lambda t: t), "t2": (lambda t: t ** 2, lambda t: t ** 2),
          "sin": (lambda t: sympy.sin(2 * t), lambda t: np.sin(2 * t)),
          "cos": (lambda t: sympy.cos(t), lambda t: np.cos(t)),
          "aff": (lambda t: 1 + 0.5 * t, lambda t: 1 + 0.5 * t),
          "exp": (lambda t: sympy.exp(-t), lambda t: np.exp(-t))}

    def prop(h, dur, n, steps=60):
        """4th-order Magnus."""
        dt = dur / steps
        u = np.eye(2 ** n, dtype=complex)
        c = np.sqrt(3) / 6
        for k in range(steps):
            h1, h2 = h((k + 0.5 - c) * dt), h((k + 0.5 + c) * dt)
            om = dt / 2 * (h1 + h2) - 1j * np.sqrt(3) / 12 * dt ** 2 * (h2 @ h1 - h1 @ h2)
            u = ref.expm_h((om + om.conj().T) / 2, 1.0) @ u
        return u

    def f_td(case, out):
        """case: ((fn, coefficient, op), ...), n, where the duration comes from, its value"""
        terms, n, dmode, dur, wrap = case
        t = TimeParameter("t")
        bl = Builder(VALS)
        blocks = []
        cf = {"1": (1.0, 1.0), "v": (VariationalParameter("w", value=1.3), 1.3), "f": (FeatureParameter("om"), 0.8)}
        values = {}
        for fn, co, op in terms:
            e, _ = cf[co]
            blocks.append((e * FN[fn][0](t)) * bl.block(op))
            if co == "f":
                values["om"] = torch.tensor(0.8, dtype=torch.float64)
        gen = Q.add(*blocks) if len(blocks) > 1 else blocks[0]
        kw = {}
        if dmode == "default":
            values["duration"] = torch.tensor(dur, dtype=torch.float64)
        elif dmode == "name":
            kw["duration"] = "tau"
            values["tau"] = torch.tensor(dur, dtype=torch.float64)
        elif dmode == "const":
            kw["duration"] = dur
        else:
            kw["duration"] = FeatureParameter("T1")
            values["T1"] = torch.tensor(dur, dtype=torch.float64)
        blk = HamEvo(gen, t, **kw)
        h = lambda tt: sum(cf[co][1] * FN[fn][1](tt) * m(op, n) for fn, co, op in terms)  # noqa: E731
        u = prop(h, dur, n)
        if wrap:
            pre, post = ("H", (0,)), ("CNOT", (0, 1))
            blk = Q.chain(bl.block(pre), blk, bl.block(post))
            u = m(post, n) @ u @ m(pre, n)
        want = u @ ref.zero_state(n)
        got = t2n(Q.run(Q.QuantumCircuit(n, blk), values=values, configuration={"n_steps_hevo": 120}))
        out.feed(np.round(got, 3))
        return close(got, want[None], 5e-3)

    chk = Check("P23", rule="every generator x time x entry point: simulated and matrix evolution against numpy exponentials; "
                "every commuting generator x order: decomposition equals it; every non-commuting one: error at two times and "
                "its ratio; time-dependent generators against a fourth-order Magnus propagator; non-trivial = distinct operator",
                bounds="all Pauli strings on <= 3 qubits, all pairs on 2 qubits, matrices on all supports of 3 qubits, 7 time "
                       "expressions, 3 orders, all pairs of 6 time profiles",
                assumptions=["the time-dependent solver is compared within 5e-3 (120 steps)"])
    s2, s3 = strings(2), strings(3)
    s2n = strings(2, "XYZIN")
    cases = [(("HamEvo", g, t), 2, 3 * k) for g in s2n for t in TIMES for k in (0, 1)]
    cases += [(("HamEvo", ("add", a, ("scale", 0.7, b)), t), 2, 0) for a, b in combinations(s2, 2) for t in (0.37, ("f", "x"))]
    cases += [(("HamEvo", g, t), 3, 0) for g in s3 for t in ((0.37,) if not THOROUGH else TIMES)]
    cases += [(("HamEvo", ("add", ("scale", ("v", "b"), a), ("scale", ("f", "y"), b)), t), 3, 3 * k)
              for a, b in list(combinations(s3, 2))[::37 if not THOROUGH else 5] for t in (0.37, ("v", "a"), ("f", "x")) for k in (0, 1)]
    cases += [(("HamMat", k, s, t), 3, 3 * b) for k, r in (("h1", 1), ("h2", 2), ("h3", 3)) for s in permutations(range(3), r)
              for t in TIMES for b in (0, 1)]
    cases += [(("chain", ("H", (1,)), ("HamEvo", g, ("f", "x")), ("CNOT", (1, 0)), ("HamEvo", h, ("v", "a"))), 2, 3)
              for g, h in product(s2[::2], repeat=2)]
    chk.family("exact", cases, f_exact)

    orders = ("BASIC", "ST2", "ST4", None)
    cases = [(("HamEvo", g, 0.37), 2, o, 0) for g in s2n for o in orders]
    cases += [(("HamEvo", ("scale", k, g), t), 2, "BASIC", b) for g in s2n for k in (0.7, -2, ("v", "b"), ("f", "y")) for t in TIMES
              for b in ((0, 3) if t == ("f", "x") else (0,))]
    cases += [(("HamEvo", g, t), 3, "BASIC", 0) for g in strings(3, "XYZI" if not THOROUGH else "XYZIN") for t in (-1.21, ("f", "x"))]
    four = [("kron", (a, (p,)), (b, (q,))) for a, b in product("XYZ", repeat=2) for p, q in permutations(range(4), 2)]
    four += [("kron", (a, (p[0],)), (b, (p[1],)), (c, (p[2],))) for a, b, c in product("XYZ", repeat=3)
             for p in list(permutations(range(4), 3))[::4]]
    cases += [(("HamEvo", g, 0.37), 4, "BASIC", 0) for g in four]

    def comm(a, b, n):
        return np.allclose(m(a, n) @ m(b, n), m(b, n) @ m(a, n))
    pairs = [(a, b) for a, b in combinations(s2, 2) if comm(a, b, 2)]
    cases += [(("HamEvo", ("add", a, ("scale", 0.7, b)), 0.37), 2, o, 0) for i, (a, b) in enumerate(pairs)
              for o in (orders if THOROUGH or i % 9 == 0 else orders[:2])]
    cases += [(("HamEvo", ("add", ("scale", ("v", "b"), a), ("scale", -0.7, b)), ("f", "x")), 2, "BASIC", 3) for a, b in pairs]
    nest = [("scale", 2, ("scale", 3, ("Z", (0,)))), ("kron", ("scale", 2, ("Z", (0,))), ("X", (1,))),
            ("scale", 0.5, ("add", ("scale", 2, ("Z", (0,))), ("scale", ("v", "b"), ("Z", (1,))))),
            ("kron", ("add", ("Z", (0,)), ("scale", 0.5, ("Z", (1,)))), ("X", (2,))), ("kron", ("kron", ("X", (0,)), ("Y", (2,))), ("Z", (1,))),
            ("chain", ("X", (0,)), ("Z", (1,))), ("chain", ("X", (0,)), ("X", (0,))), ("chain", ("kron", ("X", (0,)), ("Y", (1,))), ("Y", (1,))),
            ("add", ("add", ("Z", (0,)), ("Z", (1,))), ("kron", ("Z", (0,)), ("N", (2,)))), ("kron", ("N", (0,)), ("N", (2,))), ("N0", (1,)),
            ("add", ("N0", (0,)), ("kron", ("N0", (1,)), ("N", (2,)))), ("kron", ("Y", (1,)))]
    cases += [(("HamEvo", g, t), 3, o, 0) for g in nest for t in (0.37, ("f", "x")) for o in ("BASIC", "ST2")]
    chk.family("decomposition", cases, f_dec)

    non = [("add", a, ("scale", k, b)) for a, b in combinations(s2, 2) if not comm(a, b, 2) for k in (0.7,)]
    non = non if THOROUGH else non[::2]
    tri = [("add", a, ("scale", 0.6, b), ("scale", -0.8, c)) for a, b, c in list(combinations(s2, 3))[::(3 if THOROUGH else 29)]]
    cases = [(g, 2, o) for g in non + tri for o in ("BASIC", "ST2")]
    cases += [(g, 2, "ST4") for g in (non + tri)[::(1 if THOROUGH else 17)]]
    chk.family("order", cases, f_order)

    ops = [("X", (0,)), ("Z", (1,)), ("kron", ("Y", (0,)), ("Z", (1,)))]
    cases = [(((fn, co, op),), 2, dm, 0.8, 0) for fn in FN for co in ("1", "v", "f") for op in ops for dm in ("default",)]
    cases += [(((fa, ca, ("X", (0,))), (fb, cb, ("Z", (0,)))), 2, dm, dur, w) for fa, fb in product(FN, repeat=2)
              for ca, cb in (("1", "v"), ("f", "1")) for dm, dur in (("const", 0.7), ("name", 1.3)) for w in (0, 1)
              if THOROUGH or w == (fa < fb)]
    cases += [((("t", "1", ("X", (0,))), ("sin", "f", op)), 2, dm, dur, 1) for op in ops for dm in ("default", "const", "name", "param")
              for dur in (0.3, 1.0, 2.0)]
    chk.family("time_dependent", cases, f_td)
    return chk


guard_main(("P23", make))
