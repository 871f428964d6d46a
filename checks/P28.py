"""P28: what blocks and circuits report about themselves is true."""
from itertools import permutations, product

from lib.harness import Check, Skip, guard_main, THOROUGH
from lib import gen, ref

a, b, c, x, y = ("v", "a"), ("v", "b"), ("v", "c"), ("f", "x"), ("f", "y")
zz = ("kron", ("Z", (0,)), ("Z", (1,)))
PAULI = ("X", "Y", "Z", "I", "N")
OPS = ("chain", "kron", "add")
N = 4


def leaves_of(s):
    if s[0] in OPS:
        return [l for t in s[1:] for l in leaves_of(t)]
    if s[0] == "scale":
        return leaves_of(s[2])
    return [s]


def exprs_of(s):
    """expressions of the parameters of a spec, in no particular order."""
    if s[0] in OPS:
        return [e for t in s[1:] for e in exprs_of(t)]
    if s[0] == "scale":
        return [s[1]] + exprs_of(s[2])
    if s[0] == "HamEvo":
        return [s[2]] + exprs_of(s[1])
    if s[0] == "HamMat":
        return [s[3]]
    if s[0] in ("Mat", "Proj"):
        return []
    return list(s[2:])


def trees(leaves, ops=OPS):
    out = []

    def ok(*bs):
        s = [q for t in bs for q in ref.support(t)]
        return len(s) == len(set(s))
    for o1, o2 in product(ops, repeat=2):
        for p, q, r in product(leaves, repeat=3):
            for shape in (0, 1):
                inner = (o2, p, q) if shape == 0 else (o2, q, r)
                l, m = (inner, r) if shape == 0 else (p, inner)
                if (o2 == "kron" and not ok(*inner[1:])) or (o1 == "kron" and not ok(l, m)):
                    continue
                out.append((o1, l, m))
    return list(dict.fromkeys(out))


def make():
    import numpy as np
    import sympy
    import qadence as Q
    import torch
    from qadence.blocks import (block_is_commuting_hamiltonian, block_is_qubit_hamiltonian, get_pauli_blocks,
                                has_duplicate_vparams, parameters, primitive_blocks)
    from qadence.blocks.utils import (expression_to_uuids, expressions, unique_parameters, unroll_block_with_scaling,
                                      uuid_to_block, uuid_to_expression)
    from lib.common import Builder, close, op_by_tensor, t2n, VALS

    def same_multiset(got, want, tol=1e-5):
        got, want = list(np.ravel(got)), list(np.ravel(want))
        if len(got) != len(want):
            return f"{len(got)} eigenvalues instead of {len(want)}: {got}"
        for w in want:
            k = min(range(len(got)), key=lambda i: abs(got[i] - w))
            if abs(got[k] - w) > tol:
                return f"eigenvalue {w:.4g} missing (left {np.round(got, 4)})"
            got.pop(k)
        return None

    def compact(spec):
        """the operator on its own qubits, in ascending order."""
        sup = sorted(ref.support(spec))
        m = ref.mat(spec, N, VALS)
        idx = [i for i in range(2 ** N) if not any(i >> (N - 1 - q) & 1 for q in range(N) if q not in sup)]
        return m[np.ix_(idx, idx)]

    def f_eig(case, out):
        (spec,) = case
        m = compact(spec)
        want = np.linalg.eigvals(m)
        got = Builder(VALS).block(spec).eigenvalues
        if got is None:
            return "eigenvalues are None"
        got = t2n(got)
        out.feed(np.sort_complex(np.round(want, 6)))
        return same_multiset(got, want, 1e-5 if np.allclose(m @ m.conj().T, m.conj().T @ m) else 1e-3)

    def gaps(ev):
        ev = np.real(np.ravel(ev))
        d = {round(abs(float(p - q)), 4) for p in ev for q in ev}
        d.discard(0.0)
        return sorted(d)

    def f_gaps(case, out):
        """U(t) = exp(-i t G / 2): the reported spectrum must have the differences of G's spectrum, and the
        reported generator must be G up to its sign."""
        (spec,) = case
        t0, h = 0.7, 1e-4
        at = lambda t: compact(gen.subst(spec, lambda i, v: t))  # noqa: E731
        u = at(t0)
        g = 2j * (8 * (at(t0 + h) - at(t0 - h)) - (at(t0 + 2 * h) - at(t0 - 2 * h))) / (12 * h) @ u.conj().T
        want = gaps(np.linalg.eigvalsh((g + g.conj().T) / 2))
        blk = Builder(VALS).block(spec)
        ev = blk.eigenvalues_generator
        out.feed(want)
        got = gaps(t2n(ev))
        if len(want) != len(got) or not np.allclose(want, got, atol=1e-3):
            return f"spectral gaps {got} instead of {want}"
        sup = tuple(sorted(ref.support(spec)))
        gm = t2n(Q.block_to_tensor(blk.generator, qubit_support=sup))[0]
        if close(gm, g, 1e-4) and close(gm, -g, 1e-4):
            return f"generator differs: {close(gm, g, 1e-4)}"
        return None

    def f_fixed(case, out):
        """fixed unitary gates: exponential of the generator up to a phase, at some multiple of pi/8."""
        (spec,) = case
        sup = tuple(sorted(ref.support(spec)))
        blk = Builder(VALS).block(spec)
        gm = t2n(Q.block_to_tensor(blk.generator, qubit_support=sup))[0]
        u = compact(spec)
        out.feed(np.round(u, 5))
        d = len(u)
        if not np.allclose(gm, gm.conj().T):
            return "generator is not Hermitian"
        for k in range(1, 64):
            e = ref.expm_h(gm, k * np.pi / 32)
            if abs(abs(np.trace(e.conj().T @ u)) - d) < 1e-6:
                want, got = gaps(np.linalg.eigvalsh(gm)), gaps(t2n(blk.eigenvalues_generator))
                # the spectrum may be given in units of the smallest gap
                if len(want) != len(got) or not np.allclose(np.array(want) / want[0] if want else [], np.array(got) / got[0] if got else []):
                    return f"spectral gaps {got} are not proportional to {want}"
                return None
        return "no exponential of the generator equals the gate"

    def f_evo(case, out):
        (spec,) = case
        blk = Builder(VALS).block(spec)
        if spec[0] == "HamEvo":
            sup = sorted(ref.support(spec))
            h = compact(spec[1]) if sorted(ref.support(spec[1])) == sup else None
            t = ref.ev(spec[2], VALS)
        else:
            h, t = ref.MATS[spec[1]], ref.ev(spec[3], VALS)
        w = np.linalg.eigvalsh(h)
        out.feed(np.round(w, 6), t)
        return same_multiset(t2n(blk.eigenvalues_generator), w) or same_multiset(t2n(blk.eigenvalues), np.exp(-1j * w * t))

    def f_facts(case, out):
        (spec,) = case
        B = Builder(VALS)
        blk = B.block(spec)
        sup = set(ref.support(spec))
        if set(blk.qubit_support) != sup or len(blk.qubit_support) != len(sup):
            return f"qubit_support {tuple(blk.qubit_support)} instead of {sorted(sup)}"
        if blk.n_qubits != max(sup) + 1 or blk.n_supports != len(sup):
            return f"n_qubits {blk.n_qubits}, n_supports {blk.n_supports} for the qubits {sorted(sup)}"
        lv = leaves_of(spec)
        got = primitive_blocks(blk)
        if len(got) != len(lv):
            return f"{len(got)} primitive blocks instead of {len(lv)}"
        for g, l in zip(got, lv):
            if g != B.block(l):
                return f"primitive block {g} instead of {l}"
        # parameters
        ex = exprs_of(spec)
        vs = {n: k for k, n in ref.variables(spec)}
        u2e = uuid_to_expression(blk)
        pgen = any(l[0] == "HamEvo" and ref.variables(l[1]) for l in lv)  # the evolution repeats its generator's parameters
        if (len(u2e) != len(ex) and not pgen) or set(u2e) != set(uuid_to_block(blk)):
            return f"{len(u2e)} gate parameters instead of {len(ex)}"
        want = sorted(round(float(np.real(ref.ev(e, VALS))), 6) for e in ex)
        gotv = []
        for e in u2e.values():
            sub = {s: VALS[s.name] for s in e.free_symbols}
            gotv.append(round(float(sympy.re(e.xreplace(sub))), 6))
        out.feed(want)
        if not pgen and not np.allclose(sorted(gotv), want, atol=1e-5):
            return f"expressions evaluate to {sorted(gotv)} instead of {want}"
        if sorted(k for ks in expression_to_uuids(blk).values() for k in ks) != sorted(u2e):
            return "expression_to_uuids does not cover the gate parameters once"
        for e, ks in expression_to_uuids(blk).items():
            for k in ks:
                if sympy.sympify(u2e[k] - e) != 0:
                    return f"{k} listed under another expression"
        if not set(map(str, expressions(blk))) == set(map(str, u2e.values())):
            return "expressions() differ"
        up = unique_parameters(blk)
        names = [p.name for p in up]
        if sorted(names) != sorted(vs):
            return f"unique parameters {names} instead of {sorted(vs)}"
        for p in up:
            if p.trainable != (vs[p.name] == "v"):
                return f"parameter {p.name} has the wrong role"
        occ = [n for e in ex for k, n in ref.evars(e) if k == "v"]
        if not pgen and has_duplicate_vparams(blk) != (len(occ) != len(set(occ))):
            return f"has_duplicate_vparams is {has_duplicate_vparams(blk)} for {occ}"
        c = Q.QuantumCircuit(max(sup) + 1, blk)
        if c.n_qubits != max(sup) + 1 or sorted(p.name for p in c.unique_parameters) != sorted(vs) or c.num_unique_parameters != len(vs):
            return "circuit reports other qubits or parameters"
        if c.num_parameters != len(parameters(blk)):
            return "num_parameters"
        for n, k in vs.items():
            if B.var(k, n) not in c:
                return f"parameter {n} is not found in the circuit"
        if Q.FeatureParameter("absent") in c:
            return "absent parameter found in the circuit"
        if c.is_empty():
            return "circuit with gates is empty"
        if spec[0] in OPS:
            for i, s in enumerate(spec[1:]):
                if len(blk) != len(spec) - 1 or blk[i] != B.block(s):
                    return f"element {i} of the composition differs"
        return None

    def ops_commute(terms):
        return all(np.allclose(p @ q, q @ p, atol=1e-9) for p in terms for q in terms)

    def f_ham(case, out):
        (spec,) = case
        blk = Builder(VALS).block(spec)
        lv = leaves_of(spec)
        is_h = all(l[0] in PAULI for l in lv)
        if block_is_qubit_hamiltonian(blk) != is_h:
            return f"block_is_qubit_hamiltonian is {not is_h}"
        ps = get_pauli_blocks(blk)
        want = [l for l in lv if l[0] in PAULI]
        if len(ps) != len(want) or any(p != Builder(VALS).block(w) for p, w in zip(ps, want)):
            return f"Pauli blocks {ps}"
        m = ref.mat(spec, N, VALS)
        if blk.is_identity:
            out.step()
            if not np.allclose(m, m[0, 0] * np.eye(len(m)), atol=1e-9):
                return "is_identity is true"
        elif all(l[0] == "I" for l in lv):
            return "is_identity is false for a composition of identities"
        if not is_h:
            return None

        def terms(s):
            """operators whose sum is the block (times scales)"""
            if s[0] == "add":
                return [t for u in s[1:] for t in terms(u)]
            if s[0] == "scale":
                return terms(s[2])
            if s[0] == "kron":
                r = [np.eye(2 ** N)]
                for u in s[1:]:
                    r = [p @ q for p in r for q in terms(u)]
                return r
            return [ref.mat(s, N, VALS)]
        if "chain" not in str(spec):
            try:
                com = block_is_commuting_hamiltonian(blk)
            except TypeError:
                com = None
            out.feed(com)
            if com and not ops_commute(terms(spec)):
                return "terms do not commute but are reported to"
            if com is False and len({(l[0], l[1]) for l in lv}) == len({l[1] for l in lv}):
                return "a single kind of operator per qubit is not reported as commuting"
        try:
            ts = unroll_block_with_scaling(blk)
        except TypeError:
            raise Skip
        tot = 0
        for t, s in ts:
            sub = {p: VALS[p.name] for p in sympy.sympify(s).free_symbols}
            k = complex(sympy.sympify(s).xreplace(sub))
            tv = {n: torch.tensor(VALS[n]) for kd, n in ref.variables(spec) if kd == "f"}
            tot = tot + k * op_by_tensor(t, N, tv)
        out.step()
        msg = close(tot, m)
        return msg and "sum of the unrolled terms " + msg

    def f_tags(case, out):
        spec, mask = case
        cnt = [0]
        tagged = []

        def go(s):
            i = cnt[0]
            cnt[0] += 1
            if s[0] in OPS:
                kids = [go(u) for u in s[1:]]
                r = {"chain": Q.chain, "kron": Q.kron, "add": Q.add}[s[0]](*kids)
            elif s[0] == "scale":
                r = Q.blocks.ScaleBlock(go(s[2]), Q.parameters.Parameter(s[1]))
            else:
                r = Builder(VALS).block(s)
            if i < len(mask) and mask[i]:
                r = Q.tag(r, "k" if mask[i] == 1 else "other")
                if mask[i] == 1:
                    tagged.append(r)
            return r
        blk = go(spec)
        c = Q.QuantumCircuit(N, blk)
        got = c.get_blocks_by_tag("k")
        out.feed(mask, len(tagged))
        if len(got) != len(tagged) or {id(g) for g in got} != {id(t) for t in tagged}:
            return f"{len(got)} blocks found instead of {len(tagged)}"
        if c.get_blocks_by_tag("nothing"):
            return "blocks found for an unused tag"
        return None

    def nodes(s):
        return 1 + (sum(nodes(u) for u in s[1:]) if s[0] in OPS else nodes(s[2]) if s[0] == "scale" else 0)

    def f_math(case, out):
        """block_to_mathematical_expression reads as the operator (coefficients are rounded to 3 digits)."""
        from qadence.utils import block_to_mathematical_expression
        (spec,) = case
        txt = block_to_mathematical_expression(Builder(VALS).block(spec))
        out.feed(txt)
        m = ref.mat(spec, N, VALS)

        class Op:
            def __init__(self, m):
                self.m = m

            def __add__(self, o):
                return Op(self.m + o.m)

            def __mul__(self, o):
                return Op(self.m @ o.m) if isinstance(o, Op) else Op(self.m * o)

            def __rmul__(self, o):
                return Op(self.m * o)
        ns = {p: (lambda q, p=p: Op(ref.mat((p, (q,)), N, {}))) for p in PAULI}
        ns.update({k: v for k, v in VALS.items() if k in "abcxy"})
        try:
            got = eval(txt.replace("⊗", "*"), {"__builtins__": {}}, ns)  # noqa: S307 - text over a fixed alphabet
        except Exception as e:  # noqa: BLE001
            return f"unreadable: {txt!r} ({type(e).__name__})"
        return close(got.m, m, 2e-3) and f"{txt!r} is another operator"

    chk = Check("P28", rule="every reported fact (eigenvalues, spectral gaps, generators, supports, parameters, leaves, tags, "
                "predicates, unrolled terms) compared with the one derived from the program text; non-trivial = distinct facts",
                bounds="all gates and placements <= 3 qubits (4 for multi-controlled), all 3-leaf trees over 9 leaves, all "
                "Hamiltonian trees over 8 leaves, all ways of tagging the nodes of 8 trees")
    par = []
    for n in (1, 2, 3):
        for g in gen.gates(n) + gen.ones(n, ("N0",)):
            par.append(g)
            v = gen.subst(g, lambda i, s: (a, b, c)[i])
            if v != g:
                par += [v, gen.subst(g, lambda i, s: ("add", ("mul", 2, a), ("sin", b)))]
    par += [g for g in gen.multis(4) if len(g[1]) == 4]
    par = list(dict.fromkeys(par))
    mats = [("Mat", s, k) for k, r in (("u1", 1), ("h1", 1), ("u2", 2), ("h2", 2)) for s in permutations(range(3), r)]
    projs = [("Proj", s, k, k) for r in (1, 2) for s in permutations(range(3), r) for k in [format(i, f"0{r}b") for i in range(2 ** r)]]
    L = [("X", (0,)), ("S", (2,)), ("RX", (0,), a), ("CRY", (2, 1), b), ("scale", -1.5, ("Z", (1,))), ("scale", a, ("T", (2,))),
         ("MCZ", (0, 2, 1)), ("HamEvo", zz, a), ("N", (1,))]
    tr = trees(L if THOROUGH else L[::2] + [L[7]])
    chk.family("eigenvalues", [(s,) for s in dict.fromkeys(par + mats + projs + tr + [("scale", k, s) for k in (2.5, -1, 2j, a) for s in L])], f_eig)
    chk.family("spectral_gaps", [(g,) for g in par if len(g) == 3 and g[0] not in ("U",) and isinstance(g[2], float)], f_gaps)
    fixed = [g for g in dict.fromkeys(par) if len(g) == 2 and g[0] not in ("N", "N0", "Zero")]
    chk.family("fixed_generators", [(g,) for g in fixed], f_fixed)
    gens = [("X", (0,)), zz, ("add", zz, ("X", (0,))), ("add", ("scale", 0.7, ("kron", ("X", (0,)), ("Y", (2,)))), ("N", (0,)), ("Z", (2,))), ("scale", b, zz)]
    ts = (0.6, -1, a, ("mul", 2, b))
    chk.family("evolutions", [(("HamEvo", g, t),) for g in gens for t in ts] + [(("HamMat", k, s, t),) for k, r in (("h1", 1), ("h2", 2), ("h3", 3)) for s in permutations(range(3), r) for t in ts], f_evo)
    Lf = [("X", (0,)), ("RX", (0,), a), ("CRY", (2, 1), ("mul", a, x)), ("scale", ("add", a, b), ("Z", (1,))), ("U", (2,), a, 0.3, y),
          ("HamEvo", ("add", zz, ("scale", b, ("X", (2,)))), x), ("PHASE", (1,), ("neg", a))]
    fk = [gen.subst(g, lambda i, s: (x, a, ("mul", a, x))[i]) for g in gen.gates(3)]
    chk.family("facts", [(s,) for s in dict.fromkeys(par + fk + mats + projs + trees(Lf if THOROUGH else Lf[:5]) + [("chain", p, q) for p in Lf for q in Lf])], f_facts)
    H = [("X", (0,)), ("Z", (0,)), ("Y", (1,)), ("Z", (1,)), ("N", (2,)), ("I", (0,)), ("scale", 2, zz), ("scale", a, ("X", (2,)))]
    hs = trees(H, ("kron", "add") if not THOROUGH else OPS) + trees([("X", (0,)), ("H", (1,)), ("scale", 2, ("Z", (2,))), ("RX", (0,), a)]) + trees([("I", (0,)), ("I", (1,)), ("scale", 3, ("I", (2,))), ("Z", (2,))])
    hs += [("scale", k, s) for k in (-2, 0.5, b) for s in trees(H[2:], ("kron", "add"))[::3]] + H
    hs += [("add", s, ("scale", -1, ("add", t, u))) for s in H for t in H for u in H[:4]]
    chk.family("hamiltonians", [(s,) for s in dict.fromkeys(hs)], f_ham)
    T = [("chain", ("X", (0,)), ("Y", (1,))), ("scale", 2, ("chain", ("X", (0,)), ("Y", (1,)))), ("chain", ("scale", 3, ("X", (0,))), ("kron", ("Y", (1,)), ("H", (2,)))),
         ("add", ("chain", ("X", (0,)), ("X", (1,))), ("scale", 2, ("kron", ("Z", (0,)), ("Z", (1,))))), ("X", (0,)), ("scale", 2, ("scale", 3, ("Z", (0,))))]
    chk.family("tags", [(t, m) for t in T for m in product((0, 1, 2), repeat=nodes(t))], f_tags)
    md = [s for s in dict.fromkeys(hs) if "chain" not in str(s) and all(l[0] in PAULI for l in leaves_of(s))]
    chk.family("mathematical_expressions", [(s,) for s in md] + [(("scale", e, s),) for e in (("add", a, b), ("mul", 2, a), ("sub", a, 1), ("neg", b), -1, 0.25, 0.01, 1, 3) for s in H], f_math)

    def f_listed(case, out):
        """a model lists the expression of each of its observables, under its tag if it has one"""
        specs, tags = case
        from qadence import QuantumModel, QuantumCircuit, RX
        from qadence.utils import block_to_mathematical_expression
        bld = Builder(VALS)
        obs = []
        for o, t in zip(specs, tags):
            ob = bld.block(o)
            if t:
                ob.tag = t
            obs.append(ob)
        txt = [block_to_mathematical_expression(o) for o in obs]
        m = QuantumModel(QuantumCircuit(3, RX(0, 0.3)), obs if len(obs) > 1 else obs[0])
        got = m.observables_to_expression()
        out.step(len(obs))
        out.feed(sorted(got.items()))
        if sorted(got.values()) != sorted(txt):
            return f"{got} lists other expressions than {txt}"
        for t, e in zip(tags, txt):
            if not any(k.startswith(t or "Obs.") and v == e for k, v in got.items()):
                return f"{e} is not listed under its tag {t!r} in {got}"

    listed = [("X", (0,)), ("add", ("Z", (0,)), ("X", (1,))), ("scale", 2.0, ("kron", ("Z", (0,)), ("Y", (2,))))]
    chk.family("listed_observables", [(os_, ts) for k in (1, 2, 3) for os_ in product(listed, repeat=k) for ts in product(("", "a", "b"), repeat=k)], f_listed)
    return chk


guard_main(("P28", make))
