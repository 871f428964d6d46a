"""P09: every differentiation mode returns the derivative of the exact expectation value."""
from itertools import product

from lib.harness import Check, guard_main, THOROUGH, Skip
from lib import gen, ref

a, b, x, y = ("v", "a"), ("v", "b"), ("f", "x"), ("f", "y")
zz = ("kron", ("Z", (0,)), ("Z", (1,)))
PRE = (("RY", (0,), 0.8), ("RX", (1,), 0.5), ("RY", (2,), 1.9), ("CNOT", (0, 1)), ("RZ", (1,), 0.4), ("T", (0,)))
POST = (("CNOT", (1, 2)), ("RX", (0,), 0.9), ("RY", (1,), -0.6), ("CZ", (2, 0)), ("RX", (2,), 0.35))
EX = {"a": a, "b": b, "y": y, "-a": ("neg", a), "2a": ("mul", 2, a), "a*b": ("mul", a, b), "a**2": ("pow", a, 2), "x": x, "3x": ("mul", 3, x), "sin x": ("sin", x),
      "a*x": ("mul", a, x), "x*y": ("mul", x, y), "a+x": ("add", a, x), "x/2+y": ("add", ("div", x, 2), y), "acos": ("acos", ("div", x, 4)), "1.3": 1.3,
      "a*sin(b*x+y)": ("mul", a, ("sin", ("add", ("mul", b, x), y)))}
GEN = {
    "x0": ("X", (0,)), "zz": zz, "xx+z": ("add", ("kron", ("X", (0,)), ("X", (1,))), ("Z", (2,))), "n": ("N", (1,)),
    "ising": ("add", zz, ("kron", ("Z", (1,)), ("Z", (2,))), ("scale", 0.7, ("X", (0,))), ("X", (1,)), ("X", (2,))),
    "scaled": ("scale", 1.7, ("add", ("X", (2,)), ("scale", -0.4, ("Y", (0,))))), "nn": ("kron", ("N", (0,)), ("N", (2,))),
    "half": ("scale", 0.5, ("kron", ("X", (0,)), ("Y", (1,)), ("Z", (2,)))),
}
OBS = {
    "Z0": ("Z", (0,)), "xyz": ("kron", ("X", (0,)), ("Y", (1,)), ("Z", (2,))), "sum": ("add", ("Z", (0,)), ("scale", 2.0, ("X", (1,))), ("scale", -0.7, ("kron", ("Y", (0,)), ("Z", (2,))))),
    "n": ("N", (1,)), "three": ("scale", 3.0, ("add", zz, ("Y", (2,)))),
    "pv": ("scale", b, ("Z", (0,))), "pf": ("add", ("scale", y, ("X", (2,))), ("Z", (1,))), "pe": ("add", ("scale", ("add", a, x), zz), ("scale", ("mul", y, b), ("Y", (1,)))),
    "prod": ("chain", ("scale", a, ("Z", (0,))), ("scale", b, ("X", (1,)))),
}


def param_gates(e, n=3):
    out = [g for g in gen.gates(n, e) if len(g) > 2 and g[0] != "U"]
    return out


def make():
    import numpy as np
    import torch
    import qadence as Q
    from lib.common import BATCH, Builder, VALS, close, envs, t2n, torch_state

    n = 3

    def value(spec, obs, env, st):
        psi = ref.mat(spec, n, env) @ st
        return np.array([np.real(np.vdot(psi, ref.mat(o, n, env) @ psi)) for o in obs])

    def deriv(spec, obs, env, st, w, h=1e-3):
        e1, e2, e3, e4 = (dict(env, **{w: env[w] + k * h}) for k in (1, -1, 2, -2))
        f1, f2, f3, f4 = (value(spec, obs, e, st) for e in (e1, e2, e3, e4))
        return (8 * (f1 - f2) - (f3 - f4)) / (12 * h)

    def deriv2(spec, obs, env, st, w1, w2, h=2e-3):
        e1, e2, e3, e4 = (dict(env, **{w2: env[w2] + k * h}) for k in (1, -1, 2, -2))
        f1, f2, f3, f4 = (deriv(spec, obs, e, st, w1) for e in (e1, e2, e3, e4))
        return (8 * (f1 - f2) - (f3 - f4)) / (12 * h)

    def f(case, out):
        mid, okeys, mode, batch, st, order, cfg = case
        spec = ("chain",) + PRE + mid + POST
        obs = [OBS[o] if isinstance(o, str) else o for o in okeys]
        vs = set(ref.variables(spec))
        for o in obs:
            vs |= ref.variables(o)
        es, values = envs(sorted(vs), batch)
        for k in values:
            values[k].requires_grad_(True)
        bld = Builder(VALS)
        circ = Q.QuantumCircuit(n, bld.block(spec))
        conf = dict(cfg)
        m = Q.QuantumModel(circ, [bld.block(o) for o in obs], diff_mode=mode, configuration=conf or None)
        states = None
        kw = {}
        nb = len(es)
        if st == "one":
            states = [ref.rand_state(n, 1)] * nb
            kw["state"] = torch_state(states[0])
        elif st == "many":
            nb = max(nb, 2)
            if len(es) == 1:
                es = es * nb
            states = [ref.rand_state(n, i) for i in range(nb)]
            kw["state"] = torch_state(np.array(states))
        else:
            states = [ref.zero_state(n)] * nb
        got = m.expectation(values, **kw)
        want = np.array([value(spec, obs, e, s) for e, s in zip(es, states)])
        if got.shape != want.shape:
            if len(got) == 1 and np.allclose(want, want[:1]):
                got = got.expand(len(want), -1)
        msg = close(t2n(got), want, 2e-5)
        if msg:
            return "expectation " + msg
        out.feed(want)
        vp = {k.split(".")[-1]: p for k, p in m.named_parameters() if p.requires_grad}
        names_v = sorted({nm for k, nm in vs if k == "v"})
        names_f = sorted({nm for k, nm in vs if k == "f"})
        tol = 3e-4 if order == 1 else 2e-3
        # derivative of each weighted combination of outputs (every column and every row separately through weights)
        wts = torch.tensor([[1.0 + 0.3 * i - 0.7 * j for j in range(len(obs))] for i in range(len(want))], dtype=torch.float64)
        D = {w: np.array([deriv(spec, obs, e, s, w) for e, s in zip(es, states)]) for w in names_v + names_f}
        targets = [values[w] for w in names_f] + [vp[w] for w in names_v]
        if not targets:
            raise Skip()
        L = (got * wts).sum()
        if not L.requires_grad:
            return "result does not depend on any parameter"
        grads = torch.autograd.grad(L, targets, create_graph=order > 1, retain_graph=True, allow_unused=True)
        first = {}
        if order == 1:  # one column at a time, on the same graph
            for j in range(len(obs)):
                gs = torch.autograd.grad(got[:, j].sum(), targets, retain_graph=True, allow_unused=True)
                for w, g in zip(names_f + names_v, gs):
                    wantg = D[w][:, j] if w in names_f and values[w].numel() > 1 else np.array([D[w][:, j].sum()])
                    gg = np.zeros_like(wantg) if g is None else t2n(g).reshape(-1)
                    msg = close(gg, wantg, tol * max(1, np.abs(wantg).max()))
                    if msg:
                        return f"d/d{w} of output {j}: {msg}"
        for w, g in zip(names_f + names_v, grads):
            dw = D[w] * wts.numpy()
            wantg = dw.sum(1) if w in names_f else np.array([dw.sum()])
            if w in names_f and (batch == 0 or values[w].numel() == 1):
                wantg = np.array([dw.sum()])
            gg = np.zeros_like(wantg) if g is None else t2n(g).reshape(-1)
            out.step()
            out.feed(np.round(gg, 3))
            msg = close(gg, wantg, tol * max(1, np.abs(wantg).max()))
            if msg:
                return f"d/d{w}: {msg}"
            first[w] = g
        if order == 2:
            for w1, g1 in zip(names_f + names_v, grads):
                if g1 is None or not g1.requires_grad:
                    g2s = [None] * len(targets)
                else:
                    g2s = torch.autograd.grad(g1.sum(), targets, retain_graph=True, allow_unused=True)
                for w2, g2 in zip(names_f + names_v, g2s):
                    DD = np.array([deriv2(spec, obs, e, s, w1, w2) for e, s in zip(es, states)]) * wts.numpy()
                    wantg = DD.sum(1) if w2 in names_f and values[w2].numel() > 1 else np.array([DD.sum()])
                    gg = np.zeros_like(wantg) if g2 is None else t2n(g2).reshape(-1)
                    out.step()
                    msg = close(gg, wantg, tol * max(1, np.abs(wantg).max()))
                    if msg:
                        return f"d2/d{w1}d{w2}: {msg}"
        return None

    chk = Check("P09", rule="every parametric gate on every placement x expressions x observables x batch x initial state x "
                "differentiation mode x order; gradients of weighted sums of all outputs compared with the derivative of "
                "the reference expectation value (fourth-order central differences of exact numpy values)",
                bounds="3 qubits, one to three differentiated gates between fixed entangling layers, batches 0,1,2, orders 1 and 2",
                assumptions=["agreement to 3e-4 (order 1) and 2e-3 (order 2), single precision parameters and shift-rule conditioning"])
    M = ("ad", "adjoint", "gpsr")
    chk.family("gates", [((g,), ("sum",), m, bt, None, 1, ()) for e, bt in ((a, 0), (x, 2)) for g in param_gates(e) for m in M], f)
    G2 = [("RX", (0,)), ("PHASE", (1,)), ("CRY", (0, 2)), ("MCRZ", (0, 1, 2))]
    G2 = G2 + [("RZ", (2,)), ("CPHASE", (1, 2)), ("CRX", (0, 1))] if THOROUGH else G2
    chk.family("pairs", [((g + (EX[e1],), h + (EX[e2],)), ("sum",), m, 2, None, 1, ()) for g in G2 for h in G2 for e1 in EX for e2 in EX for m in M
                         if THOROUGH or (list(EX).index(e1) + 2 * list(EX).index(e2)) % 7 == M.index(m)], f)
    chk.family("second", [((g + (EX[e1],), h + (EX[e2],)), ("sum", "Z0"), m, bt, None, 2, ()) for g in G2 for h in G2[:2]
                          for e1, e2 in (("a", "a"), ("a", "x"), ("x", "x"), ("a*x", "a"), ("x*y", "y"), ("sin x", "a*b"), ("a**2", "3x"))
                          for m in ("ad", "gpsr") for bt in (0, 2)], f)
    chk.family("evolution", [((("HamEvo", GEN[g], EX[e]),), ("sum",), m, bt, st, 1, ()) for g in GEN for e in ("a", "x", "a*x", "2a") for m in M for bt in (0, 2) for st in (None, "one")]
               + [((("HamMat", k, s, EX[e]),), ("sum",), m, bt, None, 1, ()) for k, s in (("h1", (0,)), ("h1", (2,)), ("h2", (0, 1)), ("h2", (1, 0)), ("h2", (2, 0)), ("h3", (0, 1, 2)), ("h3", (2, 0, 1)))
                  for e in ("a", "x") for m in M for bt in (0, 2)]
               + [((("HamEvo", ("add", ("scale", EX[e1], ("X", (0,))), zz), EX[e2]),), ("sum",), "ad", bt, None, 1, ()) for e1 in ("a", "x", "b") for e2 in ("a", "x", "1.3") for bt in (0, 2)], f)

    def f_limits(case, out):
        """programs a mode may reject: an error is no answer, but an answer has to be right."""
        try:
            return f(case, out)
        except Skip:
            raise
        except Exception as e:  # noqa: BLE001
            out.feed("rejected", type(e).__name__)
            return None

    chk.family("limits", [((("HamEvo", ("add", ("scale", EX[e1], ("X", (0,))), zz), EX[e2]),), ("sum",), m, 0, None, 1, ()) for e1 in ("a", "x", "b") for e2 in ("a", "x", "1.3") for m in ("adjoint", "gpsr")]
               + [((("U", (0,), a, x, ("mul", a, b)),), ("Z0",), "adjoint", bt, None, 1, ()) for bt in (0, 2)], f_limits)
    circs = {"one": (("RX", (0,), a),), "feat": (("RY", (1,), x), ("CRX", (0, 1), ("mul", a, x))), "shared": (("RX", (0,), a), ("RZ", (1,), a), ("CPHASE", (0, 2), ("mul", 2, a))),
             "const": (("RX", (0,), 0.4),), "U": (("U", (0,), a, x, ("mul", a, b)),)}
    osets = [(o,) for o in OBS] + [("Z0", "xyz"), ("sum", "n", "three"), ("Z0", "pv"), ("pf", "Z0", "pe"), ("Z0", "Z0"), ("pv", "pf")]
    chk.family("observables", [(c, o, m, bt, st, 1, cfg) for c in circs.values() for o in osets for m in M for bt in ((0, 1, 2) if THOROUGH else (0, 2)) for st, cfg in ((None, ()), ("one", ()), ("many", ()), (None, (("loop_expectation", True),)))
                               if not (m == "adjoint" and c == circs["U"])], f)

    def f_seq(case, out):
        """histories of parameter updates on one model: every gradient is that of the current values."""
        mid, mode, hist, entry = case
        spec = ("chain",) + PRE + mid + POST
        obs = [OBS["sum"], OBS["pv"]]
        bld = Builder(VALS)
        circ = Q.QuantumCircuit(n, bld.block(spec))
        ob = [bld.block(o) for o in obs]
        m = Q.QuantumModel(circ, ob, diff_mode=mode)
        env = dict(VALS)
        vp = {k.split(".")[-1]: p for k, p in m.named_parameters() if p.requires_grad}
        for step in hist:
            if step[0] == "set":
                with torch.no_grad():
                    vp[step[1]].fill_(step[2])
                env[step[1]] = step[2]
            for p in vp.values():
                p.grad = None
            xs = torch.tensor(list(BATCH["x"][:2]), dtype=torch.float64, requires_grad=True)
            m.expectation({"x": xs}).sum().backward()
            es = [dict(env, x=v) for v in BATCH["x"][:2]]
            for w, g in [("x", xs.grad)] + [(k, p.grad) for k, p in vp.items()]:
                D = np.array([deriv(spec, obs, e, ref.zero_state(n), w).sum() for e in es])
                wantg = D if w == "x" else np.array([D.sum()])
                out.step()
                out.feed(np.round(wantg, 4))
                gg = np.zeros_like(wantg) if g is None else t2n(g).reshape(-1)
                msg = close(gg, wantg, 3e-4 * max(1, np.abs(wantg).max()))
                if msg:
                    return f"after {step}: d/d{w}: {msg}"
        return None

    steps = [("set", "a", 1.4), ("set", "b", -0.9), ("set", "a", -0.2), ("again",)]
    mids = [(("RX", (0,), a), ("CRY", (0, 1), x)), (("HamEvo", GEN["ising"], a), ("RX", (1,), ("mul", a, x))), (("RX", (0,), ("mul", a, x)), ("CPHASE", (1, 2), ("add", b, x)))]
    chk.family("histories", [(mid, m, (("again",),) + h, None) for mid in mids for m in M for h in product(steps, repeat=2)], f_seq)

    def f_analog(case, out):
        """analog programs: gradients against central differences of the simulated expectation value."""
        kind, mode, v0, order = case
        from qadence.operations import AnalogRX, AnalogRY, AnalogRZ, AnalogRot, AnalogInteraction
        reg = Q.Register.line(2, spacing=8.0)
        p = Q.FeatureParameter("x")
        blk = {"rx": lambda: AnalogRX(p), "ry0": lambda: AnalogRY(p, qubit_support=(0,)), "rz": lambda: AnalogRZ(2 * p), "rot": lambda: AnalogRot(duration=1000 * p, omega=2.0, delta=1.0, phase=0.3),
               "wait": lambda: AnalogInteraction(500 * p), "seq": lambda: Q.chain(AnalogRX(p), AnalogRY(2 * p)), "mix": lambda: Q.chain(AnalogRX(p), Q.RX(0, p), AnalogInteraction(300 * p))}[kind]()
        circ = Q.QuantumCircuit(reg, Q.chain(Q.RY(0, 0.3), Q.RX(1, 0.8), blk, Q.RX(0, 0.4)))
        obs = [Q.Z(0) + Q.X(1), Q.kron(Q.Y(0), Q.Y(1))]
        def val(v, md):
            return Q.QuantumModel(circ, obs, diff_mode=md).expectation({"x": v})
        v = torch.tensor(v0, dtype=torch.float64)
        h = 1e-3
        with torch.no_grad():
            fs = [t2n(val(v + k * h, "ad")) for k in (1, -1, 2, -2)]
        D = (8 * (fs[0] - fs[1]) - (fs[2] - fs[3])) / (12 * h)
        vv = v.clone().requires_grad_(True)
        e = val(vv, mode)
        msg = close(t2n(e), t2n(val(v, "ad")), 1e-6)
        if msg:
            return "expectation " + msg
        for j in range(2):
            g = torch.autograd.grad(e[:, j].sum(), vv, retain_graph=True)[0]
            out.feed(np.round(t2n(g), 3))
            msg = close(t2n(g), D[:, j], 1e-3 * max(1, np.abs(D).max()))
            if msg:
                return msg
        return None

    chk.family("analog", [(k, m, v, 1) for k in ("rx", "ry0", "rz", "rot", "wait", "seq", "mix") for m in M for v in ((0.6,), (0.4, 1.3))], f_analog)
    return chk


guard_main(("P09", make))
