"""P13: registers report the geometry they were built with; generated Hamiltonians contain exactly the requested terms."""
from itertools import combinations, permutations, product

from lib.harness import Check, guard_main, THOROUGH
from lib import ref

C3 = (0.7, -1.3, 2.1, 0.4, -0.6, 1.9, 0.15, -0.85, 1.45, -2.2)


def graphs(n):
    pairs = list(combinations(range(n), 2))
    for m in range(2 ** len(pairs)):
        yield tuple(p for i, p in enumerate(pairs) if m >> i & 1)


def make():
    import math
    import networkx as nx
    import numpy as np
    import torch
    import qadence as Q
    from qadence import Register, block_to_tensor, hamiltonian_factory, N, X, Y, Z
    from qadence.constructors import ising_hamiltonian, total_magnetization, zz_hamiltonian, ObservableConfig, total_magnetization_config, zz_hamiltonian_config, ising_hamiltonian_config
    from qadence.ml_tools.constructors import create_observable
    from qadence.types import Interaction, LatticeTopology
    from qadence.analog import IdealDevice, RydbergDevice, RealisticDevice
    from lib.common import close, t2n

    # ------------------------------------------------------------------ geometry
    def consistent(r, n=None, coords=None, edges=None, spacing=None, tol=1e-6):
        """all derived quantities follow from the positions and edges."""
        if n is not None and (r.n_qubits != n or r.support != set(range(n)) or len(r.nodes) != n):
            return f"{r.n_qubits} qubits, support {r.support}, instead of {n}"
        co = {k: tuple(float(x) for x in v) for k, v in r.coords.items()}
        if coords is not None:
            if set(co) != set(coords):
                return f"coordinates of {set(co)}"
            for k in coords:
                if math.dist(co[k], coords[k]) > tol * max(1.0, math.hypot(*coords[k])):
                    return f"qubit {k} at {co[k]} instead of {coords[k]}"
        ed = {frozenset(e) for e in r.edges}
        if edges is not None and ed != {frozenset(e) for e in edges}:
            return f"edges {sorted(map(sorted, ed))} instead of {sorted(map(sorted, edges))}"
        pairs = {(i, j) for i in co for j in co if i < j}
        ap = list(r.all_node_pairs)
        if set(ap) != pairs or len(ap) != len(pairs):
            return "all_node_pairs"
        d = r.distances
        if set(d) != pairs:
            return "distances of the wrong pairs"
        for (i, j), v in d.items():
            if abs(v - math.dist(co[i], co[j])) > tol:
                return f"distance {i},{j} is {v}"
        e = r.edge_distances
        if {frozenset(k) for k in e} != ed:
            return "edge_distances of the wrong pairs"
        for k, v in e.items():
            i, j = tuple(k)
            if abs(v - math.dist(co[i], co[j])) > tol:
                return f"edge distance {k} is {v}"
        m = min((math.dist(co[i], co[j]) for i, j in pairs), default=0.0)
        if abs(r.min_distance - m) > tol:
            return f"min_distance {r.min_distance} instead of {m}"
        if spacing is not None and len(pairs) and abs(m - spacing) > tol * max(1, spacing):
            return f"closest qubits at {m}, spacing {spacing}"
        for k in co:
            if math.dist([float(x) for x in r[k]["pos"]], co[k]) > tol:
                return "item access disagrees with coordinates"
        return None

    def faces(r):
        g = nx.Graph(list(map(tuple, r.edges)))
        g.add_nodes_from(r.nodes)
        return len(r.edges) - r.n_qubits + nx.number_connected_components(g)

    def shape(r):
        co = np.array([r.coords[i] for i in sorted(r.coords)], dtype=float)
        return np.array([[np.linalg.norm(a - b) for b in co] for a in co])

    def build(kind, args, sp):
        kw = {} if sp is None else {"spacing": sp}
        via = kind.split(":")
        k = via[-1]
        if via[0] == "lattice":
            return Register.lattice(k, *args, **kw)
        if k == "register":
            return Register(*args, **kw)
        return getattr(Register, k)(*args, **kw)

    def lattices(case, out):
        kind, args, sp = case
        r = build(kind, args, sp)
        s = 1.0 if sp is None else sp
        k = kind.split(":")[-1]
        out.step(6)
        out.feed(k, shape(r), sorted(map(sorted, r.edges)))
        n = coords = edges = None
        if k == "line":
            n = args[0]
            coords = {i: (i * s, 0.0) for i in range(n)}
            edges = [(i, i + 1) for i in range(n - 1)]
        elif k == "circle":
            n = args[0]
            edges = [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(0, 1)] * (n - 1)
            if n > 1:
                R = s / (2 * math.sin(math.pi / n))
                coords = {i: (R * math.cos(2 * math.pi * i / n), R * math.sin(2 * math.pi * i / n)) for i in range(n)}
        elif k == "square":
            m = args[0]
            n = 4 * (m - 1)
            edges = [(i, (i + 1) % n) for i in range(n)]
            co = np.array([r.coords[i] for i in range(r.n_qubits)], dtype=float) / s
            lo = co.min(0)
            want = {(a, b) for a in range(m) for b in range(m) if a in (0, m - 1) or b in (0, m - 1)}
            if {tuple(np.round(x - lo).astype(int)) for x in co} != want or not np.allclose((co - lo), np.round(co - lo), atol=1e-6):
                return "positions are not the border of the square"
            if not np.allclose(list(r.edge_distances.values()), s):
                return "edges are not neighbours"
        elif k == "rectangular_lattice":
            row, col = args
            n = row * col
            coords = {i * row + j: (i * s, j * s) for i in range(col) for j in range(row)}
            edges = [(a, b) for a in coords for b in coords if a < b and abs(math.dist(coords[a], coords[b]) - s) < 1e-9]
        elif k in ("triangular_lattice", "honeycomb_lattice"):
            cells = args[0] * args[1]
            if faces(r) != cells:
                return f"{faces(r)} cells instead of {cells}"
            D = shape(r)
            want = {frozenset((i, j)) for i in range(len(D)) for j in range(i) if abs(D[i, j] - s) < 1e-6 * s}
            if {frozenset(e) for e in r.edges} != want:
                return "edges are not exactly the closest neighbours"
            n = r.n_qubits
            girth = 3 if k[0] == "t" else 6
            g = nx.Graph(list(map(tuple, r.edges)))
            if min(len(c) for c in nx.minimum_cycle_basis(g)) != girth or max(len(c) for c in nx.minimum_cycle_basis(g)) != girth:
                return "cells have the wrong shape"
        elif k in ("all_to_all", "register"):
            n = args[0]
            edges = list(combinations(range(n), 2))
        res = consistent(r, n, coords, edges, s)
        if res:
            return res
        for e in r.edges:
            if e[0] == e[1]:
                return "self loop"
        if r.device_specs != IdealDevice():
            return "default device"

    def pts(case, out):
        co, sp = case
        r = Register.from_coordinates(list(co)) if sp == "default" else Register.from_coordinates(list(co), spacing=sp)
        f = 1.0
        if sp not in ("default", None):
            m = min((math.dist(a, b) for a, b in combinations(co, 2)), default=0.0)
            f = sp / m if m else 1.0
        out.feed(case)
        return consistent(r, len(co), {i: (x * f, y * f) for i, (x, y) in enumerate(co)}, [], None)

    def graph(n, edges, pos=None, order=None):
        g = nx.Graph()
        for i in (order or range(n)):
            if pos is None:
                g.add_node(i)
            else:
                g.add_node(i, pos=pos[i])
        g.add_edges_from(edges)
        return g

    POS = ((0.0, 0.0), (2.0, 0.0), (0.5, 3.0), (-4.0, 1.0))

    def custom(case, out):
        n, edges, sp, withpos, dev = case
        g = graph(n, edges, POS if withpos else None)
        before = nx.node_link_data(g, edges="links")
        before = repr(before)
        kw = {} if sp == "default" else {"spacing": sp}
        if dev:
            kw["device_specs"] = RydbergDevice(rydberg_level=70)
        r = Register(g, **kw)
        out.feed(case)
        if repr(nx.node_link_data(g, edges="links")) != before:
            return "the caller's graph was changed"
        if dev and r.device_specs != RydbergDevice(rydberg_level=70):
            return "device"
        if not withpos:
            if any(len(v) for v in r.coords.values()) or {frozenset(e) for e in r.edges} != {frozenset(e) for e in edges} or r.n_qubits != n:
                return "positions invented"
            return None
        m = min((math.dist(POS[i], POS[j]) for i, j in combinations(range(n), 2)), default=0.0)
        s = 1.0 if sp == "default" else sp
        f = s / m if (s is not None and m) else 1.0
        res = consistent(r, n, {i: (POS[i][0] * f, POS[i][1] * f) for i in range(n)}, edges, s if m else None)
        if res:
            return res
        for k in (0.5, 3.0, 1.0):
            r2 = r.rescale_coords(k)
            res = consistent(r2, n, {i: (POS[i][0] * f * k, POS[i][1] * f * k) for i in range(n)}, edges)
            if res:
                return f"rescaled: {res}"
            if r2.device_specs != r.device_specs:
                return "rescaling lost the device"
            r3 = r2.rescale_coords(0.25)
            res = consistent(r3, n, {i: (POS[i][0] * f * k * 0.25, POS[i][1] * f * k * 0.25) for i in range(n)}, edges) or \
                consistent(r, n, {i: (POS[i][0] * f, POS[i][1] * f) for i in range(n)}, edges)
            if res:
                return f"after rescaling: {res}"

    def history(case, out):
        """registers built from one graph and from each other stay independent."""
        n, edges = 3, [(0, 1), (1, 2)]
        g = graph(n, edges, POS)
        live = []
        m = 2.0
        for op in case:
            if op[0] == "new":
                r = Register(g, spacing=op[1])
                f = op[1] / m if op[1] is not None else 1.0
                live.append((r, f))
            elif op[0] == "scale":
                if not live:
                    continue
                r, f = live[-1]
                live.append((r.rescale_coords(op[1]), f * op[1]))
            elif op[0] == "dict":
                if not live:
                    continue
                r, f = live[-1]
                live.append((Register._from_dict(r._to_dict()), f))
            elif op[0] == "circuit":
                if not live:
                    continue
                r, f = live[-1]
                c = Q.QuantumCircuit(r, Q.X(0))
                live.append((c.register, f))
            out.step()
            if any(tuple(g.nodes[i]["pos"]) != POS[i] for i in range(n)):
                return f"{op} changed the caller's graph"
            for r, f in live:
                res = consistent(r, n, {i: (POS[i][0] * f, POS[i][1] * f) for i in range(n)}, edges)
                if res:
                    return f"after {op}: {res}"
        out.feed(case)

    # ------------------------------------------------------------------ hamiltonians
    def inter(name, i, j):
        k = lambda p: ("kron", (p, (i,)), (p, (j,)))
        return {"ZZ": k("Z"), "NN": k("N"), "XY": ("add", k("X"), k("Y")), "XYZ": ("add", k("X"), k("Y"), k("Z")),
                "custom": ("add", ("kron", ("X", (i,)), ("Z", (j,))), ("scale", 0.5, ("Y", (i,))))}[name]

    def custom_int(i, j):
        return Q.X(i) @ Q.Z(j) + 0.5 * Q.Y(i)

    DET = {"N": N, "X": X, "Y": Y, "Z": Z}

    def strengths(kind, keys, label):
        """(argument, list of coefficients, values)"""
        v = list(C3[:len(keys)]) if label == "e" else [c + 0.05 for c in C3[:len(keys)]]
        if kind is None:
            return None, [1.0] * len(keys), {}
        if kind == "list":
            return v, v, {}
        if kind == "ints":
            w = [i + 2 for i in range(len(keys))]
            return w, [float(x) for x in w], {}
        if kind == "zeros":
            w = [0.0 if i % 2 == 0 else x for i, x in enumerate(v)]
            return w, w, {}
        if kind == "tensor":
            return torch.tensor(v, dtype=torch.float64), v, {}
        if kind == "array":
            return np.array(v), v, {}
        if kind == "str":
            return label, v, {f"{label}_" + "".join(map(str, k if isinstance(k, tuple) else (k,))): x for k, x in zip(keys, v)}
        if kind == "params":
            ps = [Q.FeatureParameter(f"{label}p{i}") if i % 2 else Q.VariationalParameter(f"{label}p{i}", value=0.9) for i in range(len(keys))]
            return ps, v, {f"{label}p{i}": x for i, x in enumerate(v)}
        raise KeyError(kind)

    def ham(case, out):
        n, edges, it, det, si, sd, allp, order = case
        if edges is None:
            reg = n
            R = Register(n)
        else:
            reg = R = Register(graph(n, edges, POS, order))
        ed = list(R.all_node_pairs) if allp else list(R.edges)
        ai, ci, vi = strengths(si, ed, "e")
        ad, cd, vd = strengths(sd, list(R.nodes), "d")
        kw = {}
        if allp:
            kw["use_all_node_pairs"] = True
        terms = []
        if det:
            terms += [("scale", c, (det, (q,))) for c, q in zip(cd, R.nodes)]
        if it:
            terms += [("scale", c, inter(it, *e)) for c, e in zip(ci, ed)]
        if it:
            kw["interaction"] = custom_int if it == "custom" else (Interaction(it) if si != "list" else it)
        if det:
            kw["detuning"] = DET[det]
        if ai is not None:
            kw["interaction_strength"] = ai
        if ad is not None:
            kw["detuning_strength"] = ad
        h = hamiltonian_factory(reg, **kw)
        out.step(len(terms) + 1)
        want = ref.mat(("add",) + tuple(terms), n, {})
        out.feed(want)
        if not terms:
            return None if len(h.blocks) == 0 else "terms invented"
        vals = {k: torch.tensor([x], dtype=torch.float64) for k, x in {**(vi if it else {}), **(vd if det else {})}.items()}
        got = t2n(block_to_tensor(h, vals, qubit_support=tuple(range(n))))[0]
        if set(vals) and vals.keys() != {p.name for p in unique(h)}:
            return f"parameters {sorted(p.name for p in unique(h))} instead of {sorted(vals)}"
        return close(got, want, 1e-6)

    def unique(h):
        from qadence.blocks.utils import parameters
        s = set()
        for e in parameters(h):
            if hasattr(e, "free_symbols"):
                s |= {x for x in e.free_symbols if not getattr(x, "is_number", False)}
        return s

    def pauli_coeffs(m, n):
        out = {}
        for ps in product("IXYZ", repeat=n):
            p = ref.kron_all([ref.FIXED1[c] for c in ps])
            out["".join(ps)] = np.trace(p @ m).real / 2 ** n
        return out

    def rnd(case, out):
        n, it, det, edges, given = case
        R = Register(graph(n, edges, POS))
        kw = {"interaction": it} if it else {}
        if det:
            kw["detuning"] = DET[det]
        if given and it:
            kw["interaction_strength"] = list(C3[:len(edges)])
        h = hamiltonian_factory(R, random_strength=True, **kw)
        m = t2n(block_to_tensor(h, {}, qubit_support=tuple(range(n))))[0]
        c = pauli_coeffs(m, n)
        out.feed(m)
        free = dict(c)
        vals = []
        for q in range(n):
            if det:
                k = "I" * q + det + "I" * (n - q - 1)
                vals.append(free.pop(k))
        for x, (i, j) in enumerate(R.edges):
            if not it:
                continue
            cs = []
            for p in {"ZZ": "Z", "XY": "XY", "XYZ": "XYZ"}[it]:
                k = "".join(p if q in (i, j) else "I" for q in range(n))
                cs.append(free.pop(k))
            if max(cs) - min(cs) > 1e-9:
                return "components of one interaction have different strengths"
            if given:
                if abs(cs[0] - C3[x]) > 1e-9:
                    return f"given strength {C3[x]} became {cs[0]}"
            else:
                vals.append(cs[0])
        if any(abs(v) > 1e-9 for v in free.values()):
            return "unrequested terms"
        if any(abs(v) > 1 + 1e-9 for v in vals):
            return "random strength outside [-1, 1]"
        if len(vals) > 1 and max(vals) - min(vals) < 1e-12:
            return "all random strengths are equal"

    def bad(case, out):
        kind = case[0]
        R = Register.line(3)
        try:
            if kind == "nothing":
                hamiltonian_factory(R)
            elif kind == "edges":
                hamiltonian_factory(R, interaction="ZZ", interaction_strength=list(C3[:case[1]]))
            elif kind == "pairs":
                hamiltonian_factory(R, interaction="ZZ", interaction_strength=list(C3[:case[1]]), use_all_node_pairs=True)
            elif kind == "nodes":
                hamiltonian_factory(R, detuning=Z, detuning_strength=torch.tensor(C3[:case[1]]))
            elif kind == "detuning":
                hamiltonian_factory(R, detuning=case[1])
            elif kind == "interaction":
                hamiltonian_factory(R, interaction=case[1])
            elif kind == "nonpauli":
                hamiltonian_factory(R, interaction=lambda i, j: Q.CNOT(i, j))
            elif kind == "arity":
                hamiltonian_factory(R, interaction=lambda i: Q.Z(i))
            elif kind == "strength":
                hamiltonian_factory(R, detuning=Z, detuning_strength=case[1])
        except Exception:  # noqa: BLE001
            return None
        return f"{case} accepted"

    def presets(case, out):
        kind, n, a, b, c = case
        P = list(combinations(range(n), 2))
        zt = list(C3[:n]) if a else None
        zz = np.arange(1, n * n + 1).reshape(n, n) * 0.3 if b else None
        xt = np.array([x - 0.2 for x in C3[:n]]) if c else None
        zz_t = [("scale", 1.0 if zz is None else float(zz[i, j]), inter("ZZ", i, j)) for i, j in P]
        z_t = [("scale", 1.0 if zt is None else zt[q], ("Z", (q,))) for q in range(n)]
        x_t = [("scale", 1.0 if xt is None else float(xt[q]), ("X", (q,))) for q in range(n)]
        if kind == "mag":
            h, t = total_magnetization(n, z_terms=zt), z_t
        elif kind == "zz":
            h, t = zz_hamiltonian(n, z_terms=None if zt is None else np.array(zt), zz_terms=zz), zz_t + z_t
        else:
            h, t = ising_hamiltonian(n, x_terms=xt, z_terms=None if zt is None else np.array(zt), zz_terms=zz), zz_t + z_t + x_t
        want = ref.mat(("add",) + tuple(t), n, {})
        got = t2n(block_to_tensor(h, {}, qubit_support=tuple(range(n))))[0]
        out.feed(got)
        return close(got, want, 1e-9)

    def config(case, out):
        kind, n, reg, scale, shift, tt = case
        kw = {}
        env = {}
        if isinstance(scale, str) or isinstance(shift, str):
            kw["trainable_transform"] = tt
            env = {"sc": 1.7, "sh": -0.6}
        kw.update(scale=scale, shift=shift)
        t = []
        P = list(combinations(range(n), 2)) if reg == "int" else [(i, i + 1) for i in range(n - 1)]
        if kind == "mag":
            cfg = total_magnetization_config(**kw)
            t = [("Z", (q,)) for q in range(n)]
        elif kind == "zz":
            cfg = zz_hamiltonian_config(**kw)
            t = [("Z", (q,)) for q in range(n)] + [inter("ZZ", *p) for p in P]
        elif kind == "ising":
            cfg = ising_hamiltonian_config(**kw)
            t = [("Z", (q,)) for q in range(n)] + [("X", (q,)) for q in range(n)] + [inter("ZZ", *p) for p in P]
        elif kind == "own":
            cfg = ObservableConfig(interaction=Interaction.XY, detuning=N, tag="mine", **kw)
            t = [("N", (q,)) for q in range(n)] + [inter("XY", *p) for p in P]
        sc = env.get(scale, scale) if isinstance(scale, str) else scale
        sh = env.get(shift, shift) if isinstance(shift, str) else shift
        o = create_observable(n if reg == "int" else Register.line(n), cfg)
        want = sc * ref.mat(("add",) + tuple(t), n, {}) + sh * np.eye(2 ** n)
        vals = {k: torch.tensor([v]) for k, v in env.items() if k in (scale, shift)}
        got = t2n(block_to_tensor(o, vals, qubit_support=tuple(range(n))))[0]
        out.feed(got)
        if vals:
            ps = {p.name: p.trainable for p in unique(o)}
            if ps != {k: tt for k in vals}:
                return f"parameters {ps}"
        if kind == "own" and o.tag != "mine":
            return f"tag {o.tag}"
        return close(got, want, 1e-6)

    chk = Check("P13", rule="every lattice constructor and size, every graph, every history of register operations, and every "
                "graph x interaction x detuning x strength option; compared with a direct geometric / operator model; "
                "non-trivial = distinct geometry or operator",
                bounds="lattices up to 9 qubits (line, circle up to 6), all graphs up to 4 nodes, histories up to length "
                + ("5" if THOROUGH else "4"),
                assumptions=["coordinates agree to 1e-6 (networkx layouts are single precision)"])
    lat = []
    for sp in (None, 1.0, 2.5, 8.0):
        for n in range(1, 7):
            lat += [("line", (n,), sp), ("circle", (n,), sp), ("all_to_all", (n,), sp), ("register", (n,), sp)]
            lat += [("lattice:line", (n,), sp), ("lattice:circle", (n,), sp), ("lattice:all_to_all", (n,), sp)]
        for n in range(2, 5):
            lat += [("square", (n,), sp), ("lattice:square", (n,), sp)]
        for a, b in product(range(1, 5), repeat=2):
            lat += [("rectangular_lattice", (a, b), sp), ("lattice:rectangular_lattice", (a, b), sp)]
        for a, b in product(range(1, 4), repeat=2):
            lat += [("triangular_lattice", (a, b), sp), ("honeycomb_lattice", (a, b), sp),
                    ("lattice:triangular_lattice", (a, b), sp), ("lattice:honeycomb_lattice", (a, b), sp)]
    chk.family("lattices", lat, lattices)
    grid = [(0.0, 0.0), (1.0, 0.0), (0.0, 2.0), (-3.0, 1.5)]
    chk.family("coordinates", [(c, sp) for k in (1, 2, 3, 4) for c in permutations(grid, k) for sp in ("default", None, 1.0, 4.0)], pts)
    chk.family("graphs", [(n, e, sp, wp, dv) for n in (1, 2, 3, 4) for e in graphs(n) for sp in ("default", None, 3.0) for wp in (True, False)
                          for dv in ((False, True) if n < 4 else (False,))], custom)
    OPS = [("new", 3.0), ("new", None), ("new", 0.5), ("scale", 2.0), ("scale", 0.1), ("dict",), ("circuit",)]
    chk.family("histories", [h for d in range(1, 6 if THOROUGH else 5) for h in product(OPS, repeat=d)], history)
    INT = (None, "ZZ", "NN", "XY", "XYZ", "custom")
    DT = (None, "N", "X", "Y", "Z")
    ST = (None, "list", "ints", "zeros", "tensor", "array", "str", "params")
    cases = []
    for n in (2, 3):
        for e in [None] + list(graphs(n)):
            for it, det in product(INT, DT):
                if it is None and det is None:
                    continue
                for si, sd in ((None, None), ("list", "list"), ("str", "str"), ("params", "ints"), ("tensor", None), (None, "array")):
                    for ap in (False, True):
                        cases.append((n, e, it, det, si, sd, ap, None))
    if not THOROUGH:
        cases = [c for c in cases if c[0] == 2 or c[2] in (None, "ZZ", "custom", "XYZ") or c[3] in (None, "N")]
    for e in graphs(4):
        for it, det, si, sd, ap in (("ZZ", None, "list", None, False), ("NN", "X", "str", "list", False), ("XY", "Z", "list", "str", True), ("custom", "N", None, "params", False)):
            cases.append((4, e, it, det, si, sd, ap, None))
    for si, sd in product(ST, ST):
        for ap in (False, True):
            cases.append((3, ((0, 1), (1, 2)), "ZZ", "X", si, sd, ap, None))
    for o in permutations(range(3)):
        for e in graphs(3):
            for si in (None, "list", "str"):
                cases.append((3, e, "custom", None, si, None, False, o))
    for n in (1, 2, 3, 4, 5):
        for it, det in (("ZZ", None), (None, "Z"), ("XY", "N")):
            for si, sd in ((None, None), ("str", "str"), ("list", "list")):
                cases.append((n, None, it, det, si, sd, False, None))
    chk.family("hamiltonians", cases, ham)
    chk.family("random_strength", [(n, it, det, e, gv) for n in (2, 3) for e in graphs(n) if e for it in (None, "ZZ", "XY", "XYZ") for det in (None, "X", "Z")
                                   if it or det for gv in (False, True)], rnd)
    chk.family("rejected", [("nothing",), ("edges", 1), ("edges", 3), ("pairs", 2), ("nodes", 2), ("nodes", 4), ("detuning", Q.H), ("detuning", Q.RX),
                            ("interaction", "YY"), ("nonpauli",), ("arity",), ("strength", 1.0), ("strength", (1.0, 2.0, 3.0))], bad)
    chk.family("presets", [(k, n, a, b, c) for k in ("mag", "zz", "ising") for n in (1, 2, 3, 4) for a in (0, 1) for b in (0, 1) for c in (0, 1)], presets)
    chk.family("observables", [(k, n, rg, s, h, t) for k in ("mag", "zz", "own") for n in (1, 2, 3) for rg in ("int", "line")
                               for s, h, t in ((1.0, 0.0, None), (2.5, -1.5, None), (0.0, 0.7, None), (2, 3, None), ("sc", "sh", True), ("sc", "sh", False))], config)
    chk.family("ising_config", [("ising", n, rg, s, h, t) for n in (1, 2, 3, 4) for rg in ("int", "line") for s, h, t in ((1.0, 0.0, None), ("sc", "sh", True))], config)
    return chk


guard_main(("P13", make))
