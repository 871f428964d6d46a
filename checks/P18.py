"""P18: a model's answers depend only on its own parameters and the arguments of the call."""
from itertools import product

from lib.harness import Check, guard_main, THOROUGH
from lib import ref

CS = ("chain", ("RX", (0,), ("mul", ("v", "a"), ("f", "x"))), ("CNOT", (0, 1)), ("RY", (1,), ("v", "b")),
      ("CZ", (1, 0)), ("RZ", (0,), 0.4), ("RX", (0,), ("f", "y")))
OB = ("add", ("Z", (1,)), ("scale", ("v", "c"), ("kron", ("X", (0,)), ("Y", (1,)))))
OB2 = ("add", ("kron", ("X", (0,)), ("X", (1,))), ("scale", 0.5, ("Z", (0,))))
INIT = {"a": 0.7, "b": 1.9, "c": 0.4}
V1 = {"x": (0.3, 1.2), "y": (0.8, 0.1)}
V2 = {"x": (2.1,), "y": (0.6,)}
OPS = ("run0", "run1", "exp0", "exp1", "obs0", "sample1", "tomo0", "ovr0", "grad1", "reset0", "reset1", "sgd0", "setp1",
       "state01", "copy0", "dict0", "loadp10", "convert0")
PAIRS = {
    "ad+ad": ("qm", "ad", "qm", "ad"),
    "ad+gpsr": ("qm", "ad", "qm", "gpsr"),
    "gpsr+ad": ("qm", "gpsr", "qm", "ad"),
    "adjoint+ad": ("qm", "adjoint", "qm", "ad"),
    "qnn+qm": ("qnn", "ad", "qm", "ad"),
    "qnn+qnn": ("qnn", "gpsr", "qnn", "ad"),
}


def make():
    import copy
    import numpy as np
    import torch
    import qadence as Q
    from qadence.backends.pyqtorch import Configuration
    from qadence.measurements import Measurements
    from qadence.ml_tools.models import QNN
    from qadence.ml_tools.parameters import get_parameters, set_parameters
    from lib.common import Builder, t2n, torch_state

    real = torch.multinomial

    class Frequencies:
        def __call__(self, input, num_samples, replacement=False, **kw):  # noqa: A002
            p = input.detach().double()
            rows = []
            for r in (p[None] if p.dim() == 1 else p):
                r = (r / r.sum()).numpy()
                c = np.floor(r * num_samples + 1e-9).astype(int)
                c[np.argsort(-(r * num_samples - c), kind="stable")[: num_samples - c.sum()]] += 1
                rows.append(np.repeat(np.arange(len(r)), c))
            out = torch.as_tensor(np.stack(rows))
            return out[0] if p.dim() == 1 else out

        def __enter__(self):
            torch.multinomial = self

        def __exit__(self, *a):
            torch.multinomial = real

    def state(vs, vals, init=None):
        v0 = ref.zero_state(2) if init is None else init
        m = len(vals["x"])
        return [ref.mat(CS, 2, {**vs, **{k: v[i] for k, v in vals.items()}}) @ v0 for i in range(m)]

    def expv(vs, vals, ob, init=None):
        o = ref.mat(ob, 2, vs)
        return np.array([[float(np.real(np.vdot(v, o @ v)))] for v in state(vs, vals, init)])

    def tv(vals, grad=False):
        return {k: torch.tensor(v, requires_grad=grad) for k, v in vals.items()}

    class World:
        """two models built from the very same circuit, observable and configuration objects."""

        def __init__(self, pair, share=True):
            k0, d0, k1, d1 = PAIRS[pair]
            b = Builder(INIT)
            self.block, self.obs, self.obs2 = b.block(CS), b.block(OB), b.block(OB2)
            self.circuit = Q.QuantumCircuit(2, self.block)
            self.cfg = Configuration()
            self.kinds = [(k0, d0), (k1, d1)]
            self.m = [self.build(*self.kinds[0]), self.build(*self.kinds[1])]
            self.p = [dict(INIT), dict(INIT)]
            self.before = (repr(self.circuit), repr(self.obs), repr(self.obs2), repr(self.cfg))
            self.n = 0

        def build(self, kind, dm):
            if kind == "qnn":
                return QNN(self.circuit, self.obs, inputs=["x", "y"], diff_mode=dm, configuration=self.cfg)
            return Q.QuantumModel(self.circuit, self.obs, diff_mode=dm, configuration=self.cfg)

        def fresh(self):
            self.n += 1
            return {"a": 0.2 + 0.31 * self.n, "b": 1.3 - 0.17 * self.n, "c": -0.6 + 0.23 * self.n}

        def same(self, got, want, what, tol=1e-6):
            g = t2n(got)
            if g.shape != want.shape:
                return f"{what}: shape {g.shape} instead of {want.shape}"
            if not np.allclose(g, want, atol=tol):
                return f"{what}: {g.round(5).tolist()} instead of {want.round(5).tolist()}"

        def invariants(self):
            for i in (0, 1):
                vp = self.m[i].vparams
                if set(vp) != set(self.p[i]):
                    return f"model {i} has parameters {sorted(vp)}"
                for k, v in vp.items():
                    if abs(float(v) - self.p[i][k]) > 1e-6:
                        return f"parameter {k} of model {i} is {float(v):.5f} instead of {self.p[i][k]:.5f}"
            if (repr(self.circuit), repr(self.obs), repr(self.obs2), repr(self.cfg)) != self.before:
                return "the caller's circuit, observable or configuration was changed"

        def final(self):
            for i in (0, 1):
                init = ref.rand_state(2, 7)
                msg = (self.same(self.m[i].expectation(tv(V1)), expv(self.p[i], V1, OB), f"final expectation {i}")
                       or self.same(self.m[i].run(tv(V2)), np.array(state(self.p[i], V2)), f"final run {i}")
                       or self.same(self.m[i].run(tv(V2), state=torch_state([init])), np.array(state(self.p[i], V2, init)), f"final run with state {i}"))
                if msg:
                    return msg

        def do(self, op):
            name, i = op.rstrip("01"), int(op[len(op.rstrip("01"))])
            m, p = self.m[i], self.p[i]
            if name == "run":
                vals = tv(V1)
                r = self.same(m.run(vals), np.array(state(p, V1)), op)
                if r:
                    return r
                if not all(torch.equal(v, torch.tensor(V1[k])) for k, v in vals.items()) or set(vals) != set(V1):
                    return "the caller's values were changed"
            elif name == "exp":
                return self.same(m.expectation(tv(V2)), expv(p, V2, OB), op)
            elif name == "obs":
                o = m.observable(self.obs2, 2)
                return self.same(m.expectation(tv(V1), observable=o), expv(p, V1, OB2), op)
            elif name == "sample":
                with Frequencies():
                    c = m.sample(tv(V1), n_shots=1 << 14)
                w = [abs(v) ** 2 for v in state(p, V1)]
                g = np.array([[x.get(format(k, "02b"), 0) / (1 << 14) for k in range(4)] for x in c])
                if g.shape != (2, 4) or not np.allclose(g, np.array(w), atol=1e-3):
                    return f"{op}: frequencies {g.tolist()} instead of {np.array(w).round(4).tolist()}"
            elif name == "tomo":
                if self.kinds[i][1] == "adjoint":
                    return None
                with Frequencies():
                    r = m.expectation(tv(V1), measurement=Measurements("tomography", {"n_shots": 1 << 14}))
                return self.same(r, expv(p, V1, OB), op, 6e-3)
            elif name == "ovr":
                return self.same(m.expectation({**tv(V2), "b": torch.tensor([0.05])}), expv({**p, "b": 0.05}, V2, OB), op)
            elif name == "grad":
                vals = tv(V2, True)
                g = torch.autograd.grad(m.expectation(vals).sum(), vals["x"])[0]
                e = 1e-5
                w = (expv(p, {**V2, "x": (V2["x"][0] + e,)}, OB) - expv(p, {**V2, "x": (V2["x"][0] - e,)}, OB)) / (2 * e)
                if abs(float(g) - w[0, 0]) > 1e-4:
                    return f"{op}: derivative {float(g)} instead of {w[0, 0]}"
            elif name == "reset":
                new = self.fresh()
                m.reset_vparams([new[k] for k in m.vparams])
                self.p[i] = new
            elif name == "sgd":
                opt = torch.optim.SGD(m.parameters(), lr=0.3)
                # (pyqtorch's adjoint fails on inputs that need no gradient)
                m.expectation(tv(V1, self.kinds[i][1] == "adjoint")).sum().backward()
                opt.step()
                opt.zero_grad()
                e = 1e-5
                g = {k: float((expv({**p, k: v + e}, V1, OB) - expv({**p, k: v - e}, V1, OB)).sum() / (2 * e)) for k, v in p.items()}
                new = {k: v - 0.3 * g[k] for k, v in p.items()}
                for k, v in m.vparams.items():
                    if abs(float(v) - new[k]) > 1e-5:
                        return f"{op}: {k} became {float(v)} instead of {new[k]}"
                self.p[i] = {k: float(v) for k, v in m.vparams.items()}
            elif name == "setp":
                new = self.fresh()
                names = [k.split(".")[-1] for k, q in m.named_parameters() if q.requires_grad]
                set_parameters(m, torch.tensor([new[k] for k in names]))
                if not np.allclose(t2n(get_parameters(m)), [new[k] for k in names]):
                    return "get_parameters differs from set_parameters"
                self.p[i] = new
            elif name == "state":
                self.m[1].load_state_dict(self.m[0].state_dict())
                self.p[1] = dict(self.p[0])
            elif name == "loadp":
                self.m[0].load_params_from_dict(self.m[1]._to_dict(save_params=True))
                self.p[0] = dict(self.p[1])
            elif name == "copy":
                self.m[1] = copy.deepcopy(self.m[0])
                self.p[1], self.kinds[1] = dict(self.p[0]), self.kinds[0]
            elif name == "dict":
                self.m[1] = type(m)._from_dict(m._to_dict(save_params=True), as_torch=True)
                self.p[1], self.kinds[1] = dict(self.p[0]), self.kinds[0]
            elif name == "convert":
                m.circuit(self.circuit)
                m.observable(self.obs2, 2)  # parametric observables are refused with gpsr
                str(m)
            return None

    def f_hist(case, out):
        pair, h = case
        w = World(pair)
        for k, op in enumerate(h):
            msg = w.do(op) or w.invariants()
            if msg:
                return f"after {h[:k + 1]}: {msg}"
            out.step()
        return w.final() or w.invariants()

    d = 3 if THOROUGH else 2
    hist = [(pr, h) for pr in PAIRS for h in product(OPS, repeat=d)]
    CORE = ("exp0", "sgd0", "reset1", "state01", "copy0", "dict0", "loadp10", "obs0", "tomo0")
    hist3 = [(pr, h) for pr in (PAIRS if THOROUGH else ("ad+gpsr",)) for h in product(CORE, repeat=4 if THOROUGH else 3)]

    # trainability changes: the other parameters keep their values
    TR = ("fix_a", "fix_b", "var_a", "var_b", "reset", "sgd", "exp")
    train = [(dm, h) for dm in ("ad", "gpsr") for n in range(1, 5 if THOROUGH else 4) for h in product(TR, repeat=n)]

    def f_train(case, out):
        dm, h = case
        b = Builder(INIT)
        c = Q.QuantumCircuit(2, b.block(CS))
        m = Q.QuantumModel(c, b.block(OB), diff_mode=dm)
        cur, trainable, k = dict(INIT), {"a", "b", "c"}, 0
        try:
            for j, op in enumerate(h):
                if op[:4] == "fix_":
                    m.set_as_fixed([op[4:]])
                    trainable.discard(op[4:])
                    cur[op[4:]] = INIT[op[4:]]
                elif op[:4] == "var_":
                    m.set_as_variational([op[4:]])
                    trainable.add(op[4:])
                elif op == "reset":
                    k += 1
                    names = list(m.vparams)
                    new = [0.1 + 0.4 * k + 0.7 * q for q in range(len(names))]
                    m.reset_vparams(new)
                    cur.update(dict(zip(names, new)))
                elif op == "sgd":
                    vals = {**tv(V1), **{n: torch.tensor([cur[n]]) for n in cur if n not in trainable}}
                    opt = torch.optim.SGD([q for q in m.parameters() if q.requires_grad], lr=0.2)
                    m.expectation(vals).sum().backward()
                    opt.step()
                    opt.zero_grad()
                    e = 1e-5
                    for n in sorted(trainable):
                        g = float((expv({**cur, n: cur[n] + e}, V1, OB) - expv({**cur, n: cur[n] - e}, V1, OB)).sum() / (2 * e))
                        if abs(float(m.vparams[n]) - (cur[n] - 0.2 * g)) > 1e-5:
                            return f"after {h[:j + 1]}: {n} is {float(m.vparams[n])}"
                    cur.update({n: float(v) for n, v in m.vparams.items()})
                if set(m.vparams) != trainable:
                    return f"after {h[:j + 1]}: variational parameters {sorted(m.vparams)} instead of {sorted(trainable)}"
                for n, v in m.vparams.items():
                    if abs(float(v) - cur[n]) > 1e-6:
                        return f"after {h[:j + 1]}: {n} is {float(v):.4f} instead of {cur[n]:.4f}"
                vals = {**tv(V1), **{n: torch.tensor([cur[n]]) for n in cur if n not in trainable}}
                got = t2n(m.expectation(vals))
                if not np.allclose(got, expv(cur, V1, OB), atol=1e-6):
                    return f"after {h[:j + 1]}: expectation {got.tolist()}"
                out.step()
        finally:
            m.set_as_variational(["a", "b", "c"])

    # loading parameters: exactly the given ones, or an error
    loads = [(t, s) for t in ("same", "missing", "extra", "shape", "scalar") for s in (True, False)]

    def f_load(case, out):
        t, strict = case
        w = World("ad+ad")
        m = w.m[0]
        d = copy.deepcopy(w.m[1]._to_dict(save_params=True))
        pd = d["param_dict"]
        new = {"a": 2.1, "b": 0.3, "c": -0.9}
        for k, v in new.items():
            pd[k] = torch.nn.Parameter(torch.tensor([v]))
        want = dict(new)
        bad = t in ("missing", "extra", "shape")
        if t == "missing":
            del pd["b"]
            want["b"] = INIT["b"]
        elif t == "extra":
            pd["zz"] = torch.nn.Parameter(torch.tensor([1.0]))
        elif t == "shape":
            pd["b"] = torch.nn.Parameter(torch.tensor([1.0, 2.0]))
            want["b"] = INIT["b"]
        elif t == "scalar":
            pd["b"] = torch.nn.Parameter(torch.tensor(new["b"]))
        try:
            m.load_params_from_dict(d, strict=strict)
        except Exception as e:
            return None if bad and strict else f"refused: {e!r}"[:200]
        if bad and strict:
            return "accepted although strict"
        got = {k: float(v) for k, v in m.vparams.items()}
        if any(abs(got[k] - want[k]) > 1e-9 for k in want):
            return f"parameters {got} instead of {want}"

    chk = Check("P18", "every answer = reference answer at the model's own current parameters; nothing else changes",
                bounds={"depth": d, "histories": len(hist), "deep": len(hist3), "trainability": len(train)})
    chk.family("histories", hist, f_hist)
    chk.family("deep", hist3, f_hist)
    chk.family("trainability", train, f_train)
    chk.family("loading", loads, f_load)
    return chk


guard_main(("P18", make))
