"""P05: transpilation passes preserve operator, parameters and register, and leave the input alone."""
from itertools import permutations, product

from lib.harness import Check, Skip, guard_main, THOROUGH
from lib import gen, ref

zz = ("kron", ("Z", (0,)), ("Z", (1,)))
TAG = {}


def has(spec, names):
    if not isinstance(spec, tuple):
        return False
    if spec and spec[0] in names:
        return True
    return any(has(s, names) for s in spec)


def ok_kron(*bs):
    s = [q for b in bs for q in ref.support(b)]
    return len(s) == len(set(s))


def remap(spec, m):
    """the spec with every qubit q replaced by m[q]."""
    k = spec[0]
    if k in ("chain", "kron", "add"):
        return (k,) + tuple(remap(b, m) for b in spec[1:])
    if k == "scale":
        return (k, spec[1], remap(spec[2], m))
    if k == "pow":
        return (k, remap(spec[1], m), spec[2])
    if k == "HamEvo":
        return (k, remap(spec[1], m), spec[2])
    if k == "HamMat":
        return (k, spec[1], tuple(m[q] for q in spec[2]), spec[3])
    return (k, tuple(m[q] for q in spec[1])) + spec[2:]


def progs_gates(n):
    v = []
    for g in gen.gates(n) + gen.ones(n, ("N0",)):
        v.append(gen.subst(g, lambda i, x: (("v", "a"), ("f", "x"), 0.4)[i]))
    v += [("Mat", s, k) for k, r in (("u1", 1), ("u2", 2)) for s in permutations(range(n), r)]
    v += [("Proj", s, b, b) for r in (1, 2) for s in permutations(range(n), r) for b in ("01"[:r], "10"[:r])]
    v += [("HamEvo", remap(g, dict(enumerate(p))), ("v", "a"))
          for g in (("X", (0,)), zz, ("add", zz, ("scale", 0.5, ("kron", ("Z", (1,)), ("Z", (2,))))))
          for p in permutations(range(n)) if len(ref.support(g)) <= n and n >= 3]
    v += [("HamMat", k, s, ("f", "x")) for k, r in (("h1", 1), ("h2", 2)) for s in permutations(range(n), r)]
    return list(dict.fromkeys(v))


L = [("RX", (0,), ("v", "a")), ("CNOT", (2, 1)), ("S", (1,)), ("SWAP", (0, 2)),
     ("CRY", (2, 0), ("f", "x")), ("scale", ("v", "b"), ("X", (2,))), ("HamEvo", zz, ("mul", 2, ("v", "a")))]


def trees(leaves, full):
    out = []
    for o1, o2 in product(("chain", "kron", "add"), repeat=2):
        for a, b, c in product(leaves, repeat=3):
            for shape in (0, 1):
                inner = (o2, a, b) if shape == 0 else (o2, b, c)
                l, r = (inner, c) if shape == 0 else (a, inner)
                if (o2 == "kron" and not ok_kron(*inner[1:])) or (o1 == "kron" and not ok_kron(l, r)):
                    continue
                out.append((o1, l, r))
    out = list(dict.fromkeys(out))
    return out if full else out


def layers():
    """chains of krons: what the single-qubit chaining pass rewrites, with its near misses."""
    g = [("RX", (0,), ("v", "a")), ("H", (1,)), ("Y", (2,)), ("RZ", (1,), ("f", "x")), ("X", (0,)),
         ("T", (2,)), ("S", (1,)), ("CNOT", (0, 1)), ("SWAP", (1, 2)), ("scale", 2.5, ("X", (0,))),
         ("chain", ("X", (2,)), ("H", (2,)))]
    ks = [("kron",) + c for r in (1, 2, 3) for c in permutations(g, r) if ok_kron(*c)]
    small = [k for k in ks if len(k) <= 3 or set(ref.support(k)) == {0, 1, 2}]
    pick = small if THOROUGH else small[::5] + small[3::7]
    out = []
    for a, b in product(pick[:60] if not THOROUGH else pick[:120], repeat=2):
        out.append(("chain", a, b))
    for a, b in product(pick[:12], repeat=2):
        out.append(("add", ("chain", a, b), ("scale", ("v", "a"), a)))
        out.append(("chain", a, ("chain", b, a), b))
    return list(dict.fromkeys(out))


def make():
    import numpy as np
    import qadence as Q
    from qadence import transpile as TR
    from qadence.blocks import AddBlock, ChainBlock, KronBlock
    from qadence.blocks.utils import parameters
    from qadence.blocks.manipulate import from_openfermion, to_openfermion
    from qadence.transpile import block as TB
    from qadence.transpile.transpile import transpile, blockfn_to_circfn
    from lib.common import Builder, close, envs, op_by_run, op_by_tensor, VALS

    def snap(b):
        kids = list(getattr(b, "blocks", ()) or ())
        if hasattr(b, "block"):
            kids.append(b.block)
        g = b.generator if type(b).__name__ == "HamEvo" else None
        ex = getattr(b, "parameters", None)
        return (type(b).__name__, b.tag, tuple(b.qubit_support), repr(getattr(b, "noise", None)),
                tuple(map(str, ex.expressions())) if hasattr(ex, "expressions") else None,
                tuple(snap(k) for k in kids),
                snap(g) if hasattr(g, "qubit_support") and type(b).__name__ == "HamEvo" else None)

    def pars(b):
        out = {}
        for p in parameters(b):
            for s in (p.free_symbols if hasattr(p, "free_symbols") else ()):
                out[str(s)] = (getattr(s, "trainable", None), getattr(s, "value", None))
        return out

    FLAT = {"c": [ChainBlock], "k": [KronBlock], "a": [AddBlock], "ck": [ChainBlock, KronBlock],
            "ka": [KronBlock, AddBlock], "kc": [KronBlock, ChainBlock]}
    # pass name -> (function on a block, function on the spec)
    same = lambda s, n: s  # noqa: E731

    def perm_map(p):
        return {i: q for i, q in enumerate(p)}

    PASS = {
        "flatten": (lambda b, n: TR.flatten(b), same),
        "flatten_c": (lambda b, n: TR.flatten(b, FLAT["c"]), same),
        "flatten_k": (lambda b, n: TR.flatten(b, FLAT["k"]), same),
        "flatten_a": (lambda b, n: TR.flatten(b, FLAT["a"]), same),
        "flatten_ka": (lambda b, n: TR.flatten(b, FLAT["ka"]), same),
        "single": (lambda b, n: TR.chain_single_qubit_ops(b), same),
        "scale": (lambda b, n: TR.scale_primitive_blocks_only(b), same),
        "fill": (lambda b, n: TB.fill_identities(b, 0, n - 1), same),
        "invert": (lambda b, n: TR.invert_endianness(b, n, False), lambda s, n: remap(s, {i: n - 1 - i for i in range(n)})),
        "apply": (lambda b, n: TR.apply_fn_to_blocks(b, lambda x: x), same),
        "digital": (lambda b, n: TR.digitalize(b), same),
    }
    for p in permutations(range(3)):
        PASS["perm" + "".join(map(str, p))] = (
            lambda b, n, p=p: TR.reassign(b, perm_map(p)), lambda s, n, p=p: remap(s, perm_map(p)))

    def check_op(block, want, n, values, spec, what):
        msgs = []
        if not has(spec, ("Proj",)):
            msgs.append(close(op_by_tensor(block, n, values), want))
        if not has(spec, ("T", "TDagger")):
            msgs.append(close(op_by_run(block, n, values), want))
        return "; ".join(f"operator after {what}: {m}" for m in msgs if m)

    def tagged(b):
        """give the root and every second leaf a tag."""
        i = [0]

        def go(x):
            x.tag = f"t{i[0]}" if i[0] % 2 == 0 else None
            i[0] += 1
            for k in getattr(x, "blocks", ()) or ():
                go(k)
        go(b)
        return b

    def f(case, out):
        spec, n, pipe = case
        es, values = envs(ref.variables(spec), 0)
        b = tagged(Builder(VALS).block(spec))
        s = spec
        p0 = pars(b)
        for name in pipe:
            if name == "digital" and has(spec, ("HamMat",)):
                raise Skip  # explicit matrices are documented as not decomposable
            fn, sfn = PASS[name]
            before = snap(b)
            new = fn(b, n)
            if snap(b) != before:
                return f"pass {name} changed its input: {before} -> {snap(b)}"
            s = sfn(s, n)
            b = new
            out.step()
        want = ref.mat(s, n, es[0])
        out.feed(want)
        r = check_op(b, want, n, values, spec, "+".join(pipe))
        if r:
            return r
        if pars(b) != p0:
            return f"parameters {p0} became {pars(b)} after {'+'.join(pipe)}"
        return None

    def f_wide(case, out):
        spec, m = case
        n = max(m) + 1
        es, values = envs(ref.variables(spec), 0)
        b = Builder(VALS).block(spec)
        before = snap(b)
        new = TR.reassign(b, perm_map(m))
        if snap(b) != before:
            return "reassign changed its input"
        s = remap(spec, perm_map(m))
        want = ref.mat(s, n, es[0])
        out.feed(want)
        if set(new.qubit_support) != set(ref.support(s)):
            return f"support {new.qubit_support} instead of {ref.support(s)}"
        r = check_op(new, want, n, values, spec, f"reassign to {m}")
        if r:
            return r
        return check_op(new.dagger(), want.conj().T, n, values, spec, "reassign, then dagger") if not has(spec, ("HamEvo",)) or True else None

    # --------------------------------------------------------------- circuits
    regs = {"all": lambda n: Q.Register(n), "line": lambda n: Q.Register.line(n, spacing=3.0),
            "coords": lambda n: Q.Register.from_coordinates([(0.0, 2.0 * i) for i in range(n)])}
    CP = {
        "flatten": TR.flatten, "digital": TR.digitalize, "invert": lambda c: TR.invert_endianness(c),
        "fill": TR.fill_identities, "single": blockfn_to_circfn(TR.chain_single_qubit_ops),
        "scale": blockfn_to_circfn(TR.scale_primitive_blocks_only), "flat2": blockfn_to_circfn(TR.flatten),
    }

    def f_circ(case, out):
        spec, n, rk, pipe = case
        es, values = envs(ref.variables(spec), 0)
        reg = regs[rk](n)
        c = Q.QuantumCircuit(reg, Builder(VALS).block(spec))
        before = snap(c.block)
        new = transpile(*[CP[p] for p in pipe])(c)
        s = spec
        for p in pipe:
            if p == "invert":
                s = remap(s, {i: n - 1 - i for i in range(n)})
        want = ref.mat(s, n, es[0])
        out.feed(want)
        if snap(c.block) != before or c.register is not reg:
            return "the input circuit was changed"
        if new.n_qubits != n:
            return f"{new.n_qubits} qubits instead of {n}"
        if new.register.coords != reg.coords or set(new.register.edges) != set(reg.edges) or \
                new.register.device_specs != reg.device_specs:
            return f"the register was not kept by {pipe}"
        return check_op(new.block, want, n, values, spec, "+".join(pipe))

    def f_train(case, out):
        spec, names, value, how = case
        b = Builder(VALS).block(spec)
        b2 = Builder(VALS, share=False).block(("RX", (0,), ("v", "unrelated")))
        es, values = envs(ref.variables(spec), 0)
        p0 = pars(b)
        fn = TR.set_as_variational if value else TR.set_as_fixed
        arg = [b, b2] if how == "list" else b
        try:
            r = fn(arg, list(names)) if names is not None else fn(arg)
        finally:
            p1 = pars(b)
            u = pars(b2)
            for p in parameters(b) + parameters(b2):
                for s in p.free_symbols:
                    s.trainable = s.name not in ("x", "y", "z")
        del r
        want = {k: ((value if (names is None or k in names) else t), v) for k, (t, v) in p0.items()}
        if p1 != want:
            return f"parameters {p1} instead of {want}"
        if how != "list" and u != {"unrelated": (True, 0.5)}:
            return f"another block's parameters changed: {u}"
        out.feed(repr(p1))
        return close(op_by_run(b, 3, values), ref.mat(spec, 3, es[0]))

    def f_of(case, out):
        (spec,) = case
        n = 3
        b = Builder(VALS).block(spec)
        before = snap(b)
        new = from_openfermion(to_openfermion(b))
        if snap(b) != before:
            return "conversion changed its input"
        want = ref.mat(spec, n, {})
        out.feed(want)
        return close(op_by_tensor(new, n), want) or close(op_by_run(new, n), want)

    chk = Check("P05", rule="every (program, pipeline) within the bounds: operator of the rewritten block (as matrix and as "
                "simulated) against the numpy operator of the relabelled program, parameters, register, and a structural "
                "snapshot of the input before/after each pass; non-trivial = distinct operators",
                bounds="all gates and placements <= 3 qubits x every pass, all 3-leaf trees x every pass, all ordered pairs "
                       "of passes on a tree subset (triples in thorough), all injections into 4 (5) qubits for reassign")
    allp = list(PASS)
    cases = [(s, n, (p,)) for n in (2, 3) for s in progs_gates(n) for p in allp
             if not (p.startswith("perm") and n != 3) and max(ref.support(s)) < n]
    chk.family("gates", cases, f)
    ts = trees(L, False)
    base = [p for p in allp if not p.startswith("perm")] + ["perm120", "perm021"]
    step = 1 if THOROUGH else 11
    cases = [(t, 3, (p,)) for i, t in enumerate(ts) for j, p in enumerate(base) if (i + j) % step == 0]
    cases += [(("scale", k, t), 3, (p,)) for k in (2.5, ("v", "b"), ("f", "x")) for i, t in enumerate(ts[::9 if THOROUGH else 40])
              for j, p in enumerate(base) if THOROUGH or (i + j) % 2 == 0]
    chk.family("trees", cases, f)
    # scales inside and outside, around identities, projectors, sums and products of every kind
    sl = [("I", (0,)), ("Z", (1,)), ("scale", 3.0, ("I", (1,))), ("scale", ("v", "a"), ("X", (0,))), ("scale", ("f", "x"), ("I", (2,))),
          ("scale", 0.5, ("chain", ("scale", -2.0, ("Y", (2,))), ("I", (2,)))), ("N", (2,))]
    ops2 = [(o, a, b) for o in ("chain", "kron", "add") for a, b in product(sl, repeat=2) if o != "kron" or ok_kron(a, b)]
    sc = [("scale", k, t) for k in (-1.5, ("v", "b"), 1) for t in ops2]
    sc += [("scale", 2.0, (o, a, ("scale", -0.5, t))) for o in ("chain", "add") for a in sl[::2] for t in ops2]
    sc += [("chain", ("scale", 2.0, a), ("chain", ("scale", ("v", "b"), b), a)) for a, b in product(sl, repeat=2)]
    chk.family("scales", [(t, 3, pq) for t in sc for pq in (("scale",), ("flatten", "scale"), ("scale", "scale"), ("scale", "invert"))], f)
    # krons of blocks that leave gaps, interleave or cover the wires unevenly
    k1 = [("X", (q,)) for q in range(4)] + [("CNOT", p) for p in ((0, 2), (3, 1), (0, 3), (2, 3))]
    k1 += [("chain", ("H", (q,)), ("S", (q,))) for q in (0, 2)] + [("chain", ("H", (0,)), ("Y", (3,))), ("kron", ("X", (1,)), ("Y", (3,)))]
    k1 += [("SWAP", (0, 2)), ("SWAP", (1, 2)), ("Toffoli", (0, 3, 1)), ("scale", 2.0, ("Z", (3,)))]
    ks4 = [("kron",) + c for r in (1, 2, 3) for c in permutations(k1, r) if ok_kron(*c)]
    chk.family("krons", [(t, n, (p,)) for i, t in enumerate(ks4) for n in (4, 5) for p in ("fill", "flatten", "single", "invert", "scale")
                         if THOROUGH or (p == "fill" and (n == 4 or i % 2)) or (n == 4 and i % 5 == 0)], f)
    ls = layers()
    cases = [(t, 3, (p,)) for t in ls for p in ("single",)] + \
            [(t, 3, (p,)) for t in ls[::(1 if THOROUGH else 9)] for p in ("flatten", "fill", "scale")]
    chk.family("layers", cases, f)
    small = [ts[i] for i in range(0, len(ts), max(1, len(ts) // (40 if THOROUGH else 10)))] + \
            [("scale", ("v", "b"), ts[5]), ("chain", ("scale", 2, ("chain", L[0], L[1])), ("kron", L[2], ("scale", ("f", "x"), L[0]))),
             ls[0], ls[77 % len(ls)]]
    cases = [(t, 3, pq) for t in small for pq in product(base, repeat=2)]
    if THOROUGH:
        cases += [(t, 3, pq) for t in small[::4] for pq in product(base, repeat=3)]
    chk.family("pipelines", cases, f)
    inj = [m for m in permutations(range(4 if not THOROUGH else 5), 3)]
    wide = [("RX", (0,), ("v", "a")), ("U", (1,), ("v", "a"), 0.3, ("f", "x")), ("CNOT", (2, 0)), ("CRX", (1, 2), ("v", "a")),
            ("Toffoli", (2, 0, 1)), ("MCRY", (0, 2, 1), ("f", "x")), ("CSWAP", (1, 0, 2)), ("MCZ", (2, 1, 0)), ("SWAP", (2, 1)),
            ("Mat", (1, 0), "u2"), ("HamMat", "h2", (2, 0), ("v", "a")), ("HamEvo", ("add", zz, ("X", (2,))), ("v", "a")),
            ("HamEvo", ("add", ("scale", ("f", "x"), ("kron", ("X", (2,)), ("Y", (0,)))), ("N", (1,))), 0.7),
            ("scale", ("v", "a"), ("chain", ("CNOT", (0, 1)), ("SWAP", (1, 2)))), ("add", zz, ("kron", ("N0", (2,)), ("X", (0,))))]
    chk.family("reassign", [(s, m) for s in wide for m in inj], f_wide)
    cp = list(CP)
    progs = [ts[10], ts[101 % len(ts)], ("chain", ("H", (0,)), ("CNOT", (0, 1))), ("scale", 0.5, ("kron", ("X", (0,)), ("RZ", (1,), ("v", "a")))),
             ("HamEvo", zz, ("f", "x")), ("chain", ("kron", ("X", (0,)), ("RX", (1,), ("f", "x"))), ("kron", ("H", (0,)), ("S", (1,))))]
    cases = [(s, n, r, p) for s in progs for n in (3, 4) for r in regs for k in (1, 2) for p in product(cp, repeat=k)]
    chk.family("circuits", cases, f_circ)
    tp = [("chain", ("RX", (0,), ("v", "a")), ("RY", (1,), ("v", "b")), ("RZ", (2,), ("f", "x"))),
          ("chain", ("RX", (0,), ("mul", ("v", "a"), ("f", "x"))), ("scale", ("v", "c"), ("CRX", (0, 1), ("v", "b")))),
          ("HamEvo", ("add", zz, ("scale", ("v", "b"), ("X", (2,)))), ("v", "a")),
          ("chain", ("RX", (0,), ("v", "b")), ("RY", (1,), ("v", "beta")), ("RZ", (2,), ("mul", ("v", "beta"), ("f", "x"))))]
    cases = [(s, nm, v, h) for s in tp for nm in (None, ("a",), ("b",), ("a", "b"), ("nosuch",), ("x",)) for v in (True, False)
             for h in ("one", "list")]
    chk.family("trainable", cases, f_train)
    pl = [(p, (q,)) for p in "XYZI" for q in range(3)]
    of = [(s,) for s in pl] + [(("scale", k, s),) for k in (2.5, -1.0, 0.5) for s in pl]
    of += [(("kron", a, b),) for a, b in product(pl, repeat=2) if a[1] != b[1]]
    of += [(("kron", a, b, c),) for a, b, c in product(pl, repeat=3) if ok_kron(a, b, c)]
    of += [(("chain", a, b),) for a, b in product(pl, repeat=2)]
    of += [(("add", a, ("scale", -0.7, ("kron", b, c))),) for a, b, c in product(pl, repeat=3) if b[1] != c[1]]
    of += [(("scale", 2.0, ("add", a, ("scale", 0.5, ("chain", b, c)))),) for a, b, c in product(pl[::2], repeat=3)]
    sums = [("add", a, ("scale", k, b)) for a, b in product(pl[::3], pl[1::4]) for k in (1, 0.25)]
    of += [((o, a, b),) for o in ("chain", "kron", "add") for a, b in product(sums, repeat=2) if o != "kron" or ok_kron(a, b)]
    of += [(("scale", -3.0, ("chain", ("scale", 2.0, a), ("add", b, ("scale", 0.5, a)))),) for a, b in product(pl, repeat=2)]
    of += [(("kron", ("scale", 2.0, a), ("scale", -0.5, ("chain", b, c))),) for a, b, c in product(pl[::2], repeat=3) if ok_kron(a, ("chain", b, c))]
    chk.family("openfermion", of, f_of)
    return chk


guard_main(("P05", make))
