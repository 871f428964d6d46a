"""P03: block algebra denotes operator algebra; operands are never altered."""
from itertools import product

from lib.harness import Check, guard_main, THOROUGH
from lib import ref

N = 3
LEAVES = {
    "X0": ("X", (0,)),
    "RX1": ("RX", (1,), ("v", "a")),
    "sZ0": ("scale", 2.0, ("Z", (0,))),
    "pY2": ("scale", ("v", "b"), ("Y", (2,))),
    "chn": ("chain", ("H", (0,)), ("CNOT", (0, 1))),
    "krn": ("kron", ("Z", (0,)), ("S", (2,))),
    "sum": ("add", ("X", (1,)), ("scale", 0.5, ("Z", (1,)))),
    "I0": ("I", (0,)),
    "Zero": ("Zero", (0,)),
    "nI": ("chain", ("scale", 3.0, ("I", (1,)))),
    "cz": ("scale", 1 - 2j, ("CZ", (1, 0))),
}
BIN = ("*", "@", "+", "-", "*=", "@=", "+=", "-=", "chain", "kron", "add")
UN = ("neg", "pos", "**1", "**2", "**3", "2*", "*p", "/4", "-3*", "/p", "sum2")


def make():
    import numpy as np
    import qadence as Q
    from lib.common import Builder, close, op_by_tensor, op_by_run, VALS

    def tol(m):  # variational parameters are single precision
        return 1e-5 * max(1.0, float(np.max(np.abs(m))))

    class Model:
        """matrix + support; `kron` only defined on disjoint supports."""

        def __init__(self, m, s):
            self.m, self.s = m, frozenset(s)

    def leaf_model(spec):
        return Model(ref.mat(spec, N, VALS), ref.support(spec))

    def m_bin(op, a, b):
        s = a.s | b.s
        if op in ("*", "*=", "chain"):
            return Model(b.m @ a.m, s)
        if op in ("@", "@=", "kron"):
            return Model(b.m @ a.m, s) if not (a.s & b.s) else None
        if op in ("+", "+=", "add"):
            return Model(a.m + b.m, s)
        return Model(a.m - b.m, s)

    def r_bin(op, a, b):
        if op == "*":
            return a * b
        if op == "@":
            return a @ b
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "chain":
            return Q.chain(a, b)
        if op == "kron":
            return Q.kron(a, b)
        if op == "add":
            return Q.add(x for x in (a, b))
        c = a
        if op == "*=":
            c *= b
        elif op == "@=":
            c @= b
        elif op == "+=":
            c += b
        elif op == "-=":
            c -= b
        return c

    def m_un(op, a):
        if op in ("neg",):
            return Model(-a.m, a.s)
        if op == "pos":
            return a
        if op.startswith("**"):
            return Model(np.linalg.matrix_power(a.m, int(op[2:])), a.s)
        if op == "2*":
            return Model(2 * a.m, a.s)
        if op == "*p":
            return Model(VALS["c"] * a.m, a.s)
        if op == "/4":
            return Model(a.m / 4, a.s)
        if op == "/p":
            return Model(a.m / VALS["c"], a.s)
        if op == "-3*":
            return Model(-3 * a.m, a.s)
        if op == "sum2":
            return Model(2 * a.m, a.s)

    def r_un(op, a, b):
        if op == "neg":
            return -a
        if op == "pos":
            return +a
        if op.startswith("**"):
            return a ** int(op[2:])
        if op == "2*":
            return 2 * a
        if op == "*p":
            return a * b.var("v", "c")
        if op == "/4":
            return a / 4
        if op == "/p":
            return a / b.var("v", "c")
        if op == "-3*":
            return -3 * a
        if op == "sum2":
            return sum([a, a])

    def f(case, out):
        names, hist = case
        b = Builder(VALS)
        real = [b.block(LEAVES[k]) for k in names]
        mod = [leaf_model(LEAVES[k]) for k in names]
        sup0 = [tuple(r.qubit_support) for r in real]
        for step in hist:
            if step[0] in BIN:
                op, i, j = step
                m = m_bin(op, mod[i], mod[j])
                if m is None:
                    try:
                        r_bin(op, real[i], real[j])
                    except AssertionError:
                        out.feed("rejected", step)
                        return
                    return f"{op} of overlapping blocks was accepted"
                r = r_bin(op, real[i], real[j])
            else:
                op, i = step
                m = m_un(op, mod[i])
                r = r_un(op, real[i], b)
            real.append(r)
            mod.append(m)
            out.step()
        for k, (r, m) in enumerate(zip(real, mod)):
            what = "operand" if k < len(names) else "result"
            n0 = names[k] if k < len(names) else hist[k - len(names)]
            if k < len(names) and tuple(r.qubit_support) != sup0[k]:
                return f"support of operand {n0} changed"
            bad = close(op_by_tensor(r, N), m.m, tol(m.m))
            if bad:
                return f"{what} {n0}: {bad}"
        if "Zero" not in names:
            bad = close(op_by_run(real[-1], N), mod[-1].m, tol(mod[-1].m))
            if bad:
                return f"simulated {hist[-1]}: {bad}"
        out.feed(mod[-1].m)

    names = list(LEAVES) if THOROUGH else list(LEAVES)
    cases = []
    for a in names:
        for u in UN:
            if a == "Zero" and u in ("/p", "/4"):
                pass
            cases.append(((a,), ((u, 0),)))
    for a, b in product(names, names):
        for op in BIN:
            cases.append(((a, b), ((op, 0, 1),)))
    for a in names:
        for op in BIN:
            cases.append(((a,), ((op, 0, 0),)))
    chk = Check("P03", rule="all histories of algebra operations; after the history every operand and every "
                "intermediate result is re-evaluated; non-trivial = distinct final operator",
                bounds="3 qubits, 11 leaves, histories of length 1 (all pairs), 2 (all over 6 leaves), 3 over reduced alphabets")
    chk.family("one", cases, f)

    chk.family("unary", [((a,), tuple((u, i) for i, u in enumerate(us))) for a in names for k in ((2, 3) if THOROUGH else (2,))
                         for us in product(UN, repeat=k)], f)

    FOREIGN = {"int": 2, "float": 0.5, "str": "a", "none": None, "one": 1, "list": [1], "zero": 0}

    def f_foreign(case, out):
        """what is not a block cannot be added, subtracted or put in parallel, on either side, nor can a block be a divisor"""
        name, op, other = case
        blk = Builder(VALS).block(LEAVES[name])
        o = FOREIGN[other] if other in FOREIGN else other
        fns = {"+": lambda: blk + o, "r+": lambda: o + blk, "-": lambda: blk - o, "r-": lambda: o - blk, "@": lambda: blk @ o,
               "r@": lambda: o @ blk, "r/": lambda: o / blk, "/": lambda: blk / blk, "**": lambda: blk ** o,
               "+=": lambda: r_bin("+=", blk, o), "-=": lambda: r_bin("-=", blk, o), "@=": lambda: r_bin("@=", blk, o),
               "sum": lambda: sum([blk, o])}
        try:
            r = fns[op]()
        except (TypeError, ValueError) as e:
            out.feed(op, other, type(e).__name__)
            return
        if op == "**" and isinstance(o, int) and o >= 0:
            want = np.linalg.matrix_power(leaf_model(LEAVES[name]).m, o)
            return close(op_by_tensor(r, N), want, tol(want))
        if op == "r+" and other == "zero":  # what sum() starts with
            return None if r is blk else "0 + block is not the block"
        return f"{name} {op} {other} gave {r}"
    named = [a for a in names if a != "Zero"]  # Zero + anything is that thing
    chk.family("foreign", [(a, op, o) for a in named for op in ("+", "r+", "-", "r-", "@", "r@", "r/", "/", "+=", "-=", "@=", "sum")
                           for o in FOREIGN] + [(a, "**", o) for a in named for o in (0, 1, 2, 4, -1, -2, 0.5)], f_foreign)

    small = ["X0", "RX1", "pY2", "chn", "sum", "krn"] if not THOROUGH else names
    cases = []
    for a, b in product(small, small):
        for op in (BIN if THOROUGH else ("*", "@", "+", "-", "*=", "+=", "-=")):
            if m_bin(op, leaf_model(LEAVES[a]), leaf_model(LEAVES[b])) is None:
                continue
            for u in UN:
                cases.append(((a, b), ((op, 0, 1), (u, 2))))
                cases.append(((a, b), ((u, 0), (op, 2, 1))))
            for op2 in BIN[:8]:
                cases.append(((a, b), ((op, 0, 1), (op2, 2, 0))))
                cases.append(((a, b), ((op, 0, 1), (op2, 1, 2))))
                cases.append(((a, b), ((op, 0, 1), (op2, 2, 2))))
    chk.family("two", dict.fromkeys(cases), f)

    tri = ["X0", "pY2", "sum"] if not THOROUGH else ["X0", "RX1", "pY2", "sum", "chn"]
    cases = []
    for a, b in product(tri, tri):
        for o1, o2, o3 in product(("*", "+", "-=", "+=", "@="), repeat=3):
            m1 = m_bin(o1, leaf_model(LEAVES[a]), leaf_model(LEAVES[b]))
            if m1 is None:
                continue
            cases.append(((a, b), ((o1, 0, 1), (o2, 2, 1), (o3, 3, 0))))
            cases.append(((a, b), ((o1, 0, 1), ("**2", 2), (o3, 3, 2))))
            cases.append(((a, b), ((o1, 0, 1), ("-3*", 2), (o3, 0, 3))))
    chk.family("three", dict.fromkeys(cases), f)

    def f_iter(case, out):
        spec = LEAVES[case] if case in LEAVES else case
        blk = Builder(VALS).block(spec)
        k = len(blk)
        pairs = [(x, y) for x in blk for y in blk]
        if len(pairs) != k * k:
            return f"nested iteration over {k} blocks gave {len(pairs)} pairs"
        it1, it2 = iter(blk), iter(blk)
        seq = [next(it1)]
        seq2 = list(it2)
        seq += list(it1)
        out.feed(k, spec)
        if len(seq) != k or len(seq2) != k:
            return "interleaved iterators interfere"
        if hasattr(blk, "blocks"):
            if [id(x) for x in seq] != [id(x) for x in blk.blocks]:
                return "iteration order differs from the blocks"
    chk.family("iteration", ["X0", "chn", "krn", "sum", ("chain", LEAVES["chn"], LEAVES["sum"], ("T", (2,))),
                             ("add", LEAVES["krn"], ("Y", (1,)), ("X", (0,)))], f_iter)
    return chk


guard_main(("P03", make))
