"""P14: analog blocks evolve the register under the Rydberg Hamiltonian they describe."""
from itertools import combinations, permutations, product

from lib.harness import Check, Skip, guard_main, THOROUGH

# C6 / hbar in rad um^6 / us for the Rydberg levels 50..100 (physical constants of the device)
C6 = dict(zip(range(50, 101), (
    96120.72, 122241.6, 154693.02, 194740.36, 243973.91, 304495.01, 378305.98, 468027.05, 576714.85, 707911.38,
    865723.02, 1054903.11, 1281042.11, 1550531.15, 1870621.31, 2249728.57, 2697498.69, 3224987.51, 3844734.37,
    4571053.32, 5420158.53, 6410399.4, 7562637.31, 8900342.14, 10449989.62, 12241414.53, 14308028.03, 16687329.94,
    19421333.62, 22557029.94, 26146720.74, 30248886.65, 34928448.69, 40257623.67, 46316557.88, 53194043.52,
    60988354.64, 69808179.15, 79773468.88, 91016513.07, 103677784.57, 117933293.96, 133943541.9, 151907135.94,
    172036137.34, 194562889.89, 219741590.56, 247850178.91, 279192193.77, 314098829.39, 352931119.11)))

# name -> coordinates
REG = {
    "one": ((0.0, 0.0),),
    "pair": ((0.0, 0.0), (9.0, 0.0)),
    "far": ((0.0, 0.0), (0.0, 30.0)),
    "line": ((0.0, 0.0), (9.0, 0.0), (18.0, 0.0)),
    "tri": ((0.0, 0.0), (8.0, 0.0), (3.0, 10.0)),
    "quad": ((0.0, 0.0), (9.0, 0.5), (0.0, 10.0), (11.0, 11.0)),
}
# name -> (interaction, level, coeff, pattern); pattern = (amp, det, {i: w_amp}, {i: w_det})
DEV = {
    "nn": ("NN", 60, None, None),
    "nn70": ("NN", 70, None, None),
    "xy": ("XY", 60, None, None),
    "xyc": ("XY", 60, 1234.5, None),
    "pat": ("NN", 60, None, (2.5, 9.0, {0: 0.4, 1: 0.9}, {0: 0.8, 1: 0.2})),
    "patneg": ("NN", 60, None, (1.5, -7.0, {0: 0.3}, {1: 0.6})),
    "patxy": ("XY", 60, None, (2.0, 5.0, {1: 0.5}, {0: 1.0})),
    "patbig": ("NN", 60, None, (10.0, 400.0, {0: 0.1, 1: 0.9}, {0: 0.1, 1: 0.9})),
    "patmax": ("NN", 60, None, (301.0, 2e4, {0: 0.001, 1: 0.9}, {0: 0.001, 1: 0.9})),
}
# primitive blocks: (kind, args dict)
PRIM = (
    ("rot", dict(duration=300.0, omega=2.1)),
    ("rot", dict(duration=300.0, delta=-3.3)),
    ("rot", dict(duration=470.0, omega=4.2, delta=1.7, phase=0.8)),
    ("rot", dict(duration=250.0, omega=-1.5, delta=2.5, phase=-2.2)),
    ("rx", dict(angle=1.1)), ("ry", dict(angle=-0.7 + 6.283185307179586)), ("rz", dict(angle=2.3)),
    ("wait", dict(duration=800.0)),
)


def subsets(n):
    for k in range(1, n + 1):
        yield from combinations(range(n), k)


def make():
    import math
    import numpy as np
    import sympy
    import torch
    import qadence as Q
    from qadence import (AnalogInteraction, AnalogRot, AnalogRX, AnalogRY, AnalogRZ, AnalogSWAP, FeatureParameter,
                         QuantumCircuit, QuantumModel, Register, VariationalParameter, chain, kron)
    from qadence.analog import AddressingPattern, IdealDevice, RealisticDevice, RydbergDevice, add_background_hamiltonian
    from qadence.blocks.analog import AnalogChain, AnalogKron
    from qadence.parameters import evaluate
    from qadence.qubit_support import QubitSupport
    from qadence.types import Interaction
    from lib import ref
    from lib.common import close, t2n

    X = np.array([[0, 1], [1, 0]], complex)
    Y = np.array([[0, -1j], [1j, 0]])
    NN = np.diag([0, 1]).astype(complex)
    Z = np.diag([1, -1]).astype(complex)

    # ------------------------------------------------------------------ reference
    def h_int(coords, dev):
        n = len(coords)
        h = np.zeros((2 ** n, 2 ** n), complex)
        kind, level, coeff, _ = dev
        for i, j in combinations(range(n), 2):
            r = math.dist(coords[i], coords[j])
            e = lambda a: ref.embed(a, (i,), n) @ ref.embed(a, (j,), n)
            h += C6[level] / r ** 6 * e(NN) if kind == "NN" else (coeff or 3700.0) / r ** 3 * (e(X) + e(Y))
        return h

    def step(v, mx):
        return 1.0 if 0 <= v < mx else 0.0

    def h_pat(coords, dev):
        n = len(coords)
        h = np.zeros((2 ** n, 2 ** n), complex)
        if dev[3] is None:
            return h
        amp, det, wa, wd = dev[3]
        amp = abs(amp) if abs(amp) < 300 else 0.0
        det = abs(det) if abs(det) < 2 * math.pi * 2000 else 0.0
        ga, gd = step(amp * sum(wa.values()), 300), step(det * sum(wd.values()), 2 * math.pi * 2000)
        for i in range(n):
            a, d = wa.get(i, 0.0), wd.get(i, 0.0)
            h += 0.5 * amp * a * ga * step(amp * a, 3) * ref.embed(X, (i,), n)
            h += det * d * gd * step(det * d, 2 * math.pi * 20) * ref.embed(NN, (i,), n)
        return h

    def drive(coords, qs, omega, delta, phase):
        n = len(coords)
        h = np.zeros((2 ** n, 2 ** n), complex)
        for i in qs:
            h += omega / 2 * (math.cos(phase) * ref.embed(X, (i,), n) - math.sin(phase) * ref.embed(Y, (i,), n))
            h -= delta * ref.embed(NN, (i,), n)
        return h

    def terms(prim):
        """duration, omega, delta, phase of a primitive block"""
        kind, a = prim
        if kind == "rot":
            return a["duration"], a.get("omega", 0.0), a.get("delta", 0.0), a.get("phase", 0.0)
        if kind == "wait":
            return a["duration"], None, None, None
        t = a["angle"] / math.pi * 1000
        return {"rx": (t, math.pi, 0.0, 0.0), "ry": (t, math.pi, 0.0, -math.pi / 2), "rz": (t, 0.0, math.pi, 0.0)}[kind]

    def evolve(coords, dev, prim, qs, pattern=True):
        t, o, d, p = terms(prim)
        h = h_int(coords, dev)
        if pattern:
            h = h + h_pat(coords, dev)
        if o is not None:
            h = h + drive(coords, range(len(coords)) if qs == "global" else qs, o, d, p)
        return ref.expm_h(h, t / 1000)

    # tree: ("p", prim, qs, pattern) | ("chain", trees) | ("kron", trees) | ("dig", gate, qubit)
    def isrot(t):
        return t[1][0] != "wait" if t[0] == "p" else any(isrot(x) for x in t[1])

    def flat_kron(t):
        return [y for x in t[1] for y in flat_kron(x)] if t[0] == "kron" else [t]

    def unitary(coords, dev, tree):
        n = len(coords)
        if tree[0] == "p":
            return evolve(coords, dev, tree[1], tree[2], tree[3])
        if tree[0] == "dig":
            return ref.embed({"X": X, "Y": Y, "Z": Z}[tree[1]], (tree[2],), n)
        if tree[0] == "kron":      # parallel blocks are executed one after the other
            parts = flat_kron(tree)
            rots = [x for x in parts if isrot(x)]
            parts = rots or parts[:1]
        else:
            parts = tree[1]
        u = np.eye(2 ** n, dtype=complex)
        for x in parts:
            u = unitary(coords, dev, x) @ u
        return u

    # ------------------------------------------------------------------ implementation
    def device(name, fn=RydbergDevice):
        kind, level, coeff, pat = DEV[name] if isinstance(name, str) else name
        p = None
        if pat is not None:
            amp, det, wa, wd = pat
            p = AddressingPattern(n_qubits=2, amp=amp, det=det, weights_amp=dict(wa), weights_det=dict(wd))
        kw = dict(interaction=getattr(Interaction, kind), rydberg_level=level, pattern=p)
        if coeff:
            kw["coeff_xy"] = coeff
        return RydbergDevice(**kw)

    def register(rname, dname):
        co = REG[rname]
        d = DEV[dname]
        dev = device(dname)
        if d[3] is not None and len(co) != 2:
            amp, det, wa, wd = d[3]
            dev = RydbergDevice(interaction=getattr(Interaction, d[0]), rydberg_level=d[1],
                                pattern=AddressingPattern(n_qubits=len(co), amp=amp, det=det, weights_amp=dict(wa),
                                                          weights_det=dict(wd)))
        return Register.from_coordinates(list(co), device_specs=dev)

    def prim_block(prim, qs="global", pattern=True, over=None):
        kind, a = prim
        a = {**a, **(over or {})}
        fn = {"rot": AnalogRot, "rx": AnalogRX, "ry": AnalogRY, "rz": AnalogRZ, "wait": AnalogInteraction}[kind]
        return fn(**a, qubit_support=qs, add_pattern=pattern)

    def build(tree, ops=False, seen=None):
        if seen is not None:              # equal parts are one and the same object
            if tree not in seen.setdefault("keys", []):
                seen["keys"].append(tree)
                seen[seen["keys"].index(tree)] = build_new(tree, ops, seen)
            return seen[seen["keys"].index(tree)]
        return build_new(tree, ops, seen)

    def build_new(tree, ops, seen):
        if tree[0] == "p":
            return prim_block(tree[1], tree[2], tree[3])
        if tree[0] == "dig":
            return getattr(Q, tree[1])(tree[2])
        parts = [build(t, ops, seen) for t in tree[1]]
        if ops:
            b = parts[0]
            for x in parts[1:]:
                b = b * x if tree[0] == "chain" else b @ x
            return b
        return (chain if tree[0] == "chain" else kron)(*parts)

    def op_of(block, reg, values=None, **kw):
        n = reg.n_qubits
        c = QuantumCircuit(reg, block)
        m = QuantumModel(c, **kw)
        return t2n(m.run(values or {}, state=torch.eye(2 ** n, dtype=torch.complex128))).T

    def single(case, out):
        rname, dname, prim, qs, pattern = case
        co, dev = REG[rname], DEV[dname]
        if qs != "global" and max(qs) >= len(co):
            raise Skip
        b = prim_block(prim, qs, pattern)
        want = evolve(co, dev, prim, qs, pattern)
        got = op_of(b, register(rname, dname))
        out.step(1)
        out.feed(got)
        if b.qubit_support != (("global",) if qs == "global" else tuple(qs)):
            return f"support {b.qubit_support}"
        if abs(float(evaluate(b.duration)) - terms(prim)[0]) > 1e-6:
            return f"duration {b.duration}"
        return close(got, want, 1e-6)

    def tree_case(case, out):
        rname, dname, tree, ops = case
        co, dev = REG[rname], DEV[dname]
        b = build(tree, ops == "ops", {} if ops == "shared" else None)
        r = register(rname, dname)
        out.step(len(str(tree)) // 20)
        got = op_of(b, r)
        out.feed(got)
        e = close(got, unitary(co, dev, tree), 1e-6)
        if e:
            return e
        # running it again, and a second circuit on the same block and register, gives the same
        return close(op_of(b, r), got, 1e-9)

    def background(case, out):
        """explicit conversion, of a block or of a circuit, and the result run on any backend register."""
        rname, dname, tree, form = case
        co, dev = REG[rname], DEV[dname]
        b = build(tree)
        r = register(rname, dname)
        if form == "block":
            h = QuantumCircuit(len(co), add_background_hamiltonian(b, r))
        else:
            h = add_background_hamiltonian(QuantumCircuit(r, b))
            if h.register != r or h.register.n_qubits != len(co):
                return "register lost"
        got = t2n(Q.run(h, state=torch.eye(2 ** len(co), dtype=torch.complex128))).T
        out.step(1)
        out.feed(got)
        e = close(got, unitary(co, dev, tree), 1e-6)
        if e:
            return e
        return close(op_of(b, r), got, 1e-6) and "conversion changed the block"

    def observed(case, out):
        """expectation values and samples of analog programs"""
        rname, dname, tree = case
        co, dev = REG[rname], DEV[dname]
        n = len(co)
        b, r = build(tree), register(rname, dname)
        u = unitary(co, dev, tree)
        v = u[:, 0]
        obs = [Q.Z(0), Q.X(n - 1), sum((Q.N(i) for i in range(1, n)), start=Q.N(0)) if n > 1 else Q.N(0)]
        mats = [ref.embed(Z, (0,), n), ref.embed(X, (n - 1,), n), sum(ref.embed(NN, (i,), n) for i in range(n))]
        got = t2n(Q.expectation(QuantumCircuit(r, b), obs))
        out.step(3)
        out.feed(got)
        return close(got, np.array([[(v.conj() @ m @ v).real for m in mats]]), 1e-6)

    def params(case, out):
        """a parameter in place of each argument; batches of values"""
        rname, dname, prim, name, kind, batch, qs = case
        co, dev = REG[rname], DEV[dname]
        base = prim[1].get(name, 0.0)
        vals = [base, base * 0.6 + 0.3, -0.4 * base + 1.1][:max(1, batch)]
        if kind == "v":
            par, vals = VariationalParameter("th", value=vals[0]), vals[:1]
        elif kind == "f":
            par = FeatureParameter("th")
        else:
            par = 2 * FeatureParameter("th") + 1.5
        b = prim_block(prim, qs, True, {name: par})
        values = {}
        if kind != "v":
            xs = vals if kind == "f" else [(v - 1.5) / 2 for v in vals]
            values = {"th": torch.tensor(xs, dtype=torch.float64)}
        r = register(rname, dname)
        m = QuantumModel(QuantumCircuit(r, b))
        st = ref.rand_state(len(co), 5)
        got = t2n(m.run(values, state=torch.tensor(st[None], dtype=torch.complex128)))
        want = np.array([evolve(co, dev, (prim[0], {**prim[1], name: v}), qs) @ st for v in vals])
        out.step(len(vals))
        out.feed(got)
        return close(got, want, 1e-6)

    def patparams(case, out):
        """parameters in the addressing pattern"""
        which, kind, prim, pattern = case
        co = REG["pair"]
        val = {"amp": 2.2, "det": 6.0, "wa": 0.7, "wd": 0.45}[which]
        other = {"amp": 1.3, "det": 11.0, "wa": 0.2, "wd": 0.81}[which]
        par = {"f": lambda: FeatureParameter("q"), "v": lambda: VariationalParameter("q", value=val)}[kind]()
        vals = [val] if kind == "v" else [val, other]
        kw = dict(amp=2.0, det=8.0, weights_amp={0: 0.3, 1: 0.5}, weights_det={0: 0.25, 1: 0.75})
        if which in ("amp", "det"):
            kw[which] = par
        else:
            kw["weights_amp" if which == "wa" else "weights_det"][1] = par
        r = Register.from_coordinates(list(co), device_specs=RydbergDevice(pattern=AddressingPattern(n_qubits=2, **kw)))
        b = prim_block(prim, "global", pattern)
        values = {} if kind == "v" else {"q": torch.tensor(vals, dtype=torch.float64)}
        m = QuantumModel(QuantumCircuit(r, b))
        st = ref.rand_state(2, 7)
        got = t2n(m.run(values, state=torch.tensor(st[None], dtype=torch.complex128)))
        want = []
        sg = lambda x, c: 1 / (1 + math.exp(-20 * (x + c)))
        for v in vals:
            pat = [2.0, 8.0, {0: 0.3, 1: 0.5}, {0: 0.25, 1: 0.75}]
            if which in ("amp", "det"):
                pat[which == "det"] = v
            else:       # parametric weights are confined to [0, 1] smoothly
                pat[2 + (which == "wd")][1] = abs(v * (sg(v, 1) - sg(v, -1)))
            want.append(evolve(co, ("NN", 60, None, tuple(pat)), prim, "global", pattern) @ st)
        out.step(len(vals))
        out.feed(got)
        if not pattern:
            want, got = want[:1], got[:1]
        return close(got, np.array(want), 1e-6)

    def levels(case, out):
        level, form = case
        co = ((0.0, 0.0), (11.0, 0.0), (5.0, 12.0))
        dev = ("NN", level, None, None)
        d = RydbergDevice(rydberg_level=level)
        if abs(d.coeff_ising - C6[level]) > 1e-9 * C6[level]:
            return f"coefficient {d.coeff_ising}"
        r = Register.from_coordinates(list(co), device_specs=d)
        prim = PRIM[2]
        got = op_of(prim_block(prim, (1,) if form else "global"), r)
        out.feed(got)
        return close(got, evolve(co, dev, prim, (1,) if form else "global"), 1e-5)

    def lattices(case, out):
        """named lattices and rescaled or re-specified registers use their own geometry and device"""
        kind, n, sp, dname = case
        dev = DEV[dname]
        reg = {"line": lambda: Register.line(n, spacing=sp, device_specs=device(dname)),
               "circle": lambda: Register.circle(n, spacing=sp, device_specs=device(dname)),
               "scaled": lambda: Register.line(n, spacing=8.0, device_specs=device(dname)).rescale_coords(scaling=sp / 8.0),
               "tri": lambda: Register.triangular_lattice(1, 1, spacing=sp, device_specs=device(dname)),
               "square": lambda: Register.square(2, spacing=sp, device_specs=device(dname)),
               "alltoall": lambda: Register.all_to_all(n, spacing=sp, device_specs=device(dname))}[kind]()
        co = [tuple(float(x) for x in reg.coords[i]) for i in range(reg.n_qubits)]
        if reg.n_qubits > 1 and abs(min(math.dist(a, b) for a, b in combinations(co, 2)) - sp) > 1e-6:
            return "spacing"
        msg = None
        for prim, qs in ((PRIM[7], "global"), (PRIM[2], "global"), (PRIM[0], (0,)), (PRIM[1], (reg.n_qubits - 1,))):
            got = op_of(prim_block(prim, qs), reg)
            out.step(1)
            out.feed(got)
            msg = msg or close(got, evolve(co, dev, prim, qs), 1e-6)
        return msg

    def attributes(case, out):
        """durations and supports of compositions"""
        tree, shared = case

        def dur(t):
            if t[0] == "p":
                return terms(t[1])[0]
            ds = [dur(x) for x in t[1]]
            return sum(ds) if t[0] == "chain" else ds[0]

        def sup(t):
            if t[0] == "p":
                return t[2]
            ss = [sup(x) for x in t[1]]
            loc = [set(s) for s in ss if s != "global"]
            if not loc:
                return "global"
            u = set().union(*loc)
            return tuple(range(max(u) + 1)) if "global" in ss else tuple(sorted(u))

        b = build(tree, False, {} if shared else None)
        want = sup(tree)
        got = b.qubit_support
        out.feed(got)
        if tuple(sorted(map(str, got))) != tuple(sorted(map(str, ("global",) if want == "global" else want))):
            return f"support {got} instead of {want}"
        if abs(float(evaluate(b.duration)) - dur(tree)) > 1e-6:
            return f"duration {b.duration} instead of {dur(tree)}"
        if not isinstance(b, AnalogChain if tree[0] == "chain" else AnalogKron):
            return f"type {type(b).__name__}"
        if want != "global":
            if b.n_qubits != max(want) + 1 or b.n_supports != len(want):
                return "number of qubits"
        return None

    def rejected(case, out):
        name, = case
        L = lambda d, q: AnalogRot(duration=d, omega=2.0, qubit_support=q)
        G = lambda: AnalogRX(0.3)
        calls = {
            "kron_global": lambda: kron(G(), L(100, (0,))),
            "kron_global2": lambda: kron(L(100, (0,)), G()),
            "kron_overlap": lambda: kron(L(100, (0, 1)), L(100, (1,))),
            "kron_overlap3": lambda: kron(L(100, (0,)), L(100, (1,)), L(100, (2, 0))),
            "kron_duration": lambda: kron(L(100, (0,)), L(101, (1,))),
            "kron_duration3": lambda: kron(L(100, (0,)), L(100, (1,)), L(130, (2,))),
            "kron_wait": lambda: kron(L(100, (0,)), AnalogInteraction(130, (1,))),
            "chain_local": lambda: chain(G(), L(100, (0,))),
            "chain_local2": lambda: chain(L(100, (0,)), L(100, (0,))),
            "zero_drive": lambda: AnalogRot(duration=100.0, omega=0, delta=0, phase=1.0),
            "negative": lambda: AnalogRX(0.3, qubit_support=(-1,)),
            "interaction": lambda: RydbergDevice(interaction=Interaction.ZZ),
            "interaction2": lambda: RydbergDevice(interaction=Interaction.XYZ),
            "weight": lambda: AddressingPattern(n_qubits=2, weights_amp={0: 1.2}, weights_det={0: 0.1}),
            "weight2": lambda: AddressingPattern(n_qubits=2, weights_amp={0: 0.2}, weights_det={1: -0.1}),
            "outside": lambda: op_of(L(100, (2,)), register("pair", "nn")),
            "nodevice": lambda: op_of(G(), Register.from_coordinates(list(REG["pair"]))
                                      if Register.from_coordinates(list(REG["pair"])).device_specs is None
                                      else Register.from_coordinates(list(REG["pair"]), device_specs=None)),
        }
        try:
            calls[name]()
        except Exception as e:
            out.feed(type(e).__name__)
            return None
        return "accepted"

    def allowed(case, out):
        """exactly the compositions of disjoint local blocks of equal duration are parallel, of krons and global blocks sequential."""
        fn, items = case
        blocks = []
        for it in items:
            kind, d, q = it
            if kind == "kron":
                blocks.append(kron(*(AnalogRot(duration=d, omega=2.0, qubit_support=(i,)) for i in q)))
            else:
                blocks.append(AnalogRot(duration=d, omega=2.0, qubit_support=q) if kind == "rot" else AnalogInteraction(d, q))
        if fn == "kron":
            qs = [q for _, _, q in items]
            ok = "global" not in qs and sum(map(len, qs)) == len(set().union(*map(set, qs))) and len({d for _, d, _ in items}) == 1
        else:
            ok = all(k == "kron" or q == "global" for k, _, q in items)
        out.step(1)
        try:
            b = (kron if fn == "kron" else chain)(*blocks)
        except ValueError:
            out.feed("refused")
            return f"refused {items}" if ok else None
        out.feed("accepted")
        if not ok:
            return f"accepted {items}"
        want = sum(d for _, d, _ in items) if fn == "chain" else items[0][1]
        return None if abs(float(evaluate(b.duration)) - want) < 1e-6 else f"duration {b.duration} instead of {want}"

    def supports(case, out):
        a, b = case
        A, B = QubitSupport(a), QubitSupport(b)
        isg = lambda x: x == "global" or x == ("global",)
        out.feed(A, B)
        if A.is_global != isg(a):
            return "is_global"
        for S, T, s, t in ((A, B, a, b),):
            got = S + T
            if s == t:
                want = tuple(s) if not isg(s) else ("global",)
            elif isg(s):
                want = tuple(range(max(t) + 1)) if len(t) else ("global",)
            elif isg(t):
                want = tuple(range(max(s) + 1)) if len(s) else ("global",)
            else:
                want = tuple(sorted(set(s) | set(t)))
            if set(got) != set(want) or len(got) != len(want):
                return f"{s} + {t} = {got}"
            dis = False if isg(s) or isg(t) else not (set(s) & set(t))
            if S.is_disjoint(t) != dis:
                return f"is_disjoint({s}, {t}) is {not dis}"
        return None

    def aswap(case, out):
        c, t, n = case
        got = op_of(AnalogSWAP(c, t), Register(n))
        sw = np.zeros((4, 4))
        for i, j in ((0, 0), (1, 2), (2, 1), (3, 3)):
            sw[i, j] = 1
        want = ref.embed(sw, (c, t), n)
        ph = got[0, 0] / abs(got[0, 0])
        out.feed(got)
        return close(got / ph, want, 1e-6)

    def eigen(case, out):
        """spectrum of the generator (used by parameter shift rules)"""
        rname, dname, prim, qs = case
        co, dev = REG[rname], DEV[dname]
        if qs != "global" and max(qs) >= len(co):
            raise Skip
        r = register(rname, dname)
        b = prim_block(prim, qs)
        h = add_background_hamiltonian(b, r)
        g = np.sort(t2n(h.eigenvalues_generator).real)
        t, o, d, p = terms(prim)
        H = h_int(co, dev) + h_pat(co, dev)
        if o is not None:
            H = H + drive(co, range(len(co)) if qs == "global" else qs, o, d, p)
        out.feed(g)
        want = np.linalg.eigvalsh(H)
        if len(g) != len(want):     # on the generator's own support
            want = np.unique(np.round(want, 6))
            g = np.unique(np.round(g, 6))
        return close(g, want, 1e-5)

    chk = Check("P14", "the simulated operator of every analog program equals the exponential of the Rydberg "
                "Hamiltonian of its register, device, drive and pattern; durations/supports are those of the parts",
                bounds="registers of 1-4 atoms, 9 device/pattern settings, all qubit subsets, 8 primitive blocks, "
                "chains/krons of up to 3 blocks nested to depth 3",
                assumptions=["parallel (kron) analog blocks are executed one after the other, each with the full "
                             "interaction, as documented in parse_analog", "the exact limits of pattern constraints are excluded"])

    regs = ("one", "pair", "far", "tri") + (("line", "quad") if THOROUGH else ())
    cases = []
    for r, d, p in product(regs, DEV, PRIM):
        n = len(REG[r])
        if n == 1 and DEV[d][3] is not None:
            continue
        qss = ["global", *subsets(n)] + ([(1, 0)] if n > 1 else []) + ([(2, 0)] if n > 2 else [])
        if p[0] == "wait":
            qss = qss[:3]
        for qs in qss:
            for pat in ((True, False) if DEV[d][3] else (True,)):
                if not THOROUGH and n == 3 and (d not in ("nn", "xy", "pat") or p in (PRIM[0], PRIM[3])):
                    continue
                if not THOROUGH and r == "far" and p not in (PRIM[1], PRIM[2], PRIM[7]):
                    continue
                cases.append((r, d, p, qs, pat))
    if not THOROUGH:
        cases += [("quad", d, p, qs, True) for d in ("nn", "xy", "pat") for p in PRIM[:3] for qs in ("global", (1, 3), (3, 0, 2), *subsets(4)) if len(qs) > 1]
    chk.family("single", cases, single)

    # compositions
    g = [("p", PRIM[2], "global", True), ("p", PRIM[4], "global", True), ("p", PRIM[7], "global", True)]
    loc = lambda prim, q: ("p", prim, q, True)
    same = [("rot", dict(duration=300.0, omega=2.1)), ("rot", dict(duration=300.0, delta=-3.3)),
            ("rot", dict(duration=300.0, omega=1.9, delta=0.7, phase=0.5)), ("wait", dict(duration=300.0))]
    krons2 = [("kron", (loc(a, (i,)), loc(b, (j,)))) for a, b in product(same, repeat=2) for i, j in ((0, 1), (1, 0))]
    krons3 = [("kron", (loc(a, (i,)), loc(b, (j,)), loc(c, (k,)))) for a, b, c in product(same[1:], repeat=3)
              for i, j, k in ((0, 1, 2), (2, 0, 1))]
    krons3 += [("kron", (loc(a, (i, k)), loc(b, (j,)))) for a, b in product(same, repeat=2) for i, j, k in ((0, 1, 2), (2, 1, 0))]
    nested = [("kron", (("kron", (loc(a, (0,)), loc(b, (1,)))), loc(c, (2,)))) for a, b, c in product(same[1:], repeat=3)]
    nested += [("kron", (loc(a, (0,)), ("kron", (loc(b, (2,)), loc(c, (1,)))))) for a, b, c in product(same[1:], repeat=3)]
    chains = [("chain", (a, b)) for a, b in product(g, repeat=2)]
    chains += [("chain", (k, x)) for k in krons2[::3] for x in g] + [("chain", (x, k)) for k in krons2[1::3] for x in g]
    chains += [("chain", (k, l)) for k in krons2[::5] for l in krons2[2::5]]
    chains += [("chain", (a, ("chain", (b, c)))) for a, b, c in product(g, repeat=3)]
    chains += [("chain", (("chain", (a, b)), c)) for a, b, c in product(g, repeat=3)]
    digital = [("chain", (("dig", gg, q), x)) for gg in "XYZ" for q in (0, 1) for x in (*g, krons2[2], loc(PRIM[0], (1,)))]
    digital += [("chain", (x, ("dig", gg, q))) for gg in "XYZ" for q in (0, 1) for x in (*g, krons2[2], loc(PRIM[0], (1,)))]
    digital += [("chain", (x, ("dig", "X", 0), y)) for x, y in product((*g, loc(PRIM[2], (0,))), repeat=2)]
    t2 = krons2 + chains
    t3 = krons3 + nested
    devs = ("nn", "xy", "pat") if not THOROUGH else ("nn", "xy", "pat", "patneg", "nn70")
    cases = [("pair", d, t, o) for d in devs for t in t2 for o in ("plain", "ops", "shared")]
    cases += [("tri", d, t, o) for d in devs[:2] for t in t3 for o in (("plain",) if not THOROUGH else ("plain", "ops", "shared"))]
    cases += [("pair", d, t, "plain") for d in devs for t in digital]
    cases = [c for c in cases if not (c[3] == "ops" and "kron" == c[2][0] and len(c[2][1]) > 2)]
    chk.family("compositions", cases, tree_case)
    chk.family("background", [("pair", d, t, f) for d in devs for t in t2[::2] for f in ("block", "circuit")], background)
    chk.family("expectation", [("pair", d, t) for d in devs for t in t2[::2]]
               + [("tri", d, t) for d in devs for t in t3[::3]], observed)
    cases = []
    for prim in (PRIM[2], PRIM[4], PRIM[5], PRIM[6], PRIM[7]):
        for name in (("duration", "omega", "delta", "phase") if prim[0] == "rot" else
                     ("duration",) if prim[0] == "wait" else ("angle",)):
            for kind, b in (("v", 1), ("f", 1), ("f", 2), ("f", 3), ("e", 1), ("e", 3)):
                for r, d, qs in (("pair", "nn", "global"), ("pair", "xy", (1,)), ("pair", "pat", (0,)), ("one", "nn", "global"),
                                 ("tri", "nn", (2, 0))):
                    cases.append((r, d, prim, name, kind, b, qs))
    cases = [c for c in cases if not (c[0] == "one" and c[2][0] == "wait")]
    chk.family("parameters", cases, params)
    chk.family("pattern_parameters", [(w, k, p, a) for w in ("amp", "det", "wa", "wd") for k in "fv"
                                      for p in (PRIM[2], PRIM[4], PRIM[7]) for a in (True, False)], patparams)
    chk.family("levels", list(product(C6, (0, 1))), levels)
    chk.family("lattices", [(k, n, sp, d) for k in ("line", "circle", "scaled", "tri", "square", "alltoall")
                            for n in (2, 3) for sp in (7.0, 8.0, 11.5) for d in ("nn", "xy", "nn70")
                            if not (k in ("tri", "square") and n > 2) and not (k == "circle" and n < 3)], lattices)
    chk.family("attributes", [(t, s) for t in t2 + t3 for s in (False, True)], attributes)
    chk.family("rejections", [(x,) for x in ("kron_global", "kron_global2", "kron_overlap", "kron_overlap3", "kron_duration",
                              "kron_duration3", "kron_wait", "chain_local", "chain_local2", "zero_drive", "negative",
                              "interaction", "interaction2", "weight", "weight2", "outside")], rejected)
    it = [(k, d, q) for k in ("rot", "wait") for d in (100, 130) for q in ("global", (0,), (1,), (2,), (0, 1), (2, 1))]
    ka = [("kron", items) for r in (1, 2, 3) for items in product(it if r < 3 or THOROUGH else it[:12], repeat=r)]
    it = [("rot", 100, "global"), ("wait", 130, "global"), ("rot", 130, (0,)), ("wait", 100, (0, 1)), ("kron", 100, (0, 1)), ("kron", 130, (1, 0)), ("kron", 100, (2,))]
    ka += [("chain", items) for r in (1, 2, 3, 4) for items in product(it, repeat=r)]
    chk.family("allowed", ka, allowed)
    sup = ["global", (), (0,), (1,), (2,), (0, 1), (1, 2), (0, 2), (0, 1, 2), (3,), (4, 1)]
    chk.family("qubit_support", list(product(sup, repeat=2)), supports)
    chk.family("analog_swap", [(c, t, n) for n in (2, 3) for c, t in permutations(range(n), 2)], aswap)
    chk.family("spectrum", [(r, d, p, q) for r in ("one", "pair", "tri") for d in ("nn", "xy", "pat") for p in PRIM
                            for q in ("global", (0,), (1,)) if not (r == "one" and (d == "pat" or p[0] == "wait"))], eigen)
    return chk


guard_main(("P14", make))
