"""P15: noise handlers contain exactly what was added, in order, and invalid combinations are rejected at every step."""
import json
from collections import deque
from itertools import product

from lib.harness import Check, guard_main, THOROUGH

DIG = ("BITFLIP", "PHASEFLIP", "DEPOLARIZING", "PAULI_CHANNEL", "AMPLITUDE_DAMPING", "PHASE_DAMPING",
       "GENERALIZED_AMPLITUDE_DAMPING")
ANA = ("DEPOLARIZING", "DEPHASING")
RDO = ("INDEPENDENT", "CORRELATED")
PROTOS = [("D", p) for p in DIG] + [("A", p) for p in ANA] + [("R", p) for p in RDO]
FLUENT = {"bitflip": ("D", "BITFLIP"), "phaseflip": ("D", "PHASEFLIP"), "digital_depolarizing": ("D", "DEPOLARIZING"),
          "pauli_channel": ("D", "PAULI_CHANNEL"), "amplitude_damping": ("D", "AMPLITUDE_DAMPING"),
          "phase_damping": ("D", "PHASE_DAMPING"), "generalized_amplitude_damping": ("D", "GENERALIZED_AMPLITUDE_DAMPING"),
          "analog_depolarizing": ("A", "DEPOLARIZING"), "dephasing": ("A", "DEPHASING"),
          "readout_independent": ("R", "INDEPENDENT"), "readout_correlated": ("R", "CORRELATED")}
# named option dictionaries
OPT = {"e1": (("error_probability", 0.1),), "e2": (("error_probability", 0.2),), "n1": (("noise_probs", 0.1),),
       "both": (("error_probability", 0.1), ("noise_probs", 0.1)), "none": (),
       "seed": (("error_probability", 0.1), ("seed", 0)), "tup": (("error_probability", (0.1, 0.2, 0.3)),),
       "ten": (("error_probability", ("T", 0.1, 0.3)),), "ten2": (("error_probability", ("T", 0.1, 0.4)),),
       "mat": (("confusion_matrix", ("M", 0.2)),), "zero": (("error_probability", 0.0),)}


def valid(m):
    if not m:
        return False
    for (k, _), o in m:
        if k == "D" and "error_probability" not in dict(OPT[o]):
            return False
        if k == "A" and "noise_probs" not in dict(OPT[o]):
            return False
    kinds = [k for (k, _), _ in m]
    if "D" in kinds and "A" in kinds:
        return False
    if "A" in kinds and ("R" in kinds or kinds.count("A") > 1):
        return False
    return "R" not in kinds or (kinds.count("R") == 1 and kinds[-1] == "R")


def make():
    import copy
    import torch
    from qadence import NoiseHandler
    from qadence.types import NoiseProtocol

    NS = {"D": NoiseProtocol.DIGITAL, "A": NoiseProtocol.ANALOG, "R": NoiseProtocol.READOUT}

    def val(v):
        if isinstance(v, tuple) and v and v[0] == "T":
            return torch.tensor(v[1:])
        if isinstance(v, tuple) and v and v[0] == "M":
            return torch.tensor([[1 - v[1], v[1]], [v[1], 1 - v[1]]])
        return v

    def opts(o):
        return {k: val(v) for k, v in OPT[o]}

    def proto(p):
        return getattr(NS[p[0]], p[1])

    def same_value(a, b):
        if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
            return isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.shape == b.shape and bool((a == b).all())
        return a == b and type(a) is type(b)

    def agrees(h, m):
        if len(h.protocol) != len(m) or len(h.options) != len(m):
            return f"{len(h.protocol)} protocols and {len(h.options)} options instead of {len(m)}"
        for i, (p, o) in enumerate(m):
            q = h.protocol[i]
            if type(q) is not NS[p[0]] or q is not proto(p):
                return f"protocol {i} is {q!r} instead of {p}"
            w, g = opts(o), h.options[i]
            if set(w) != set(g) or not all(same_value(g[k], w[k]) for k in w):
                return f"options {i} are {g} instead of {w}"
        return None

    def canon(m):
        return tuple((p, OPT[o]) for p, o in m)

    def check_pool(hs, ms, what):
        for s in ms:
            e = agrees(hs[s], ms[s])
            if e:
                return f"after {what}: handler {s}: {e}"
        for a, b in product(ms, repeat=2):
            w = canon(ms[a]) == canon(ms[b])
            if (hs[a] == hs[b]) != w or (hs[a] != hs[b]) == w:
                return f"after {what}: handlers {a} and {b} compare {'un' if w else ''}equal: {ms[a]} / {ms[b]}"
        return None

    # ---------------------------------------------------------------- one operation on pool and model
    def apply(op, hs, ms):
        """returns a message or None; hs (implementation) and ms (model) are updated in place."""
        kind = op[0]
        want = None           # expected new content; False = rejection
        target = op[1]
        try:
            if kind == "new":         # one protocol, one dictionary
                m = ((op[2], op[3]),)
                want = m if valid(m) else False
                h = NoiseHandler(proto(op[2]), opts(op[3]))
            elif kind == "kw":
                m = ((op[2], op[3]),)
                want = m if valid(m) else False
                h = NoiseHandler(protocol=proto(op[2]), options=opts(op[3]))
            elif kind == "list":      # lists of both
                m = tuple(zip(op[2], op[3]))
                want = m if valid(m) and len(op[2]) == len(op[3]) else False
                h = NoiseHandler([proto(p) for p in op[2]], [opts(o) for o in op[3]])
            elif kind == "shared":    # a list of protocols with one dictionary for all
                m = tuple((p, op[3]) for p in op[2])
                want = m if valid(m) else False
                h = NoiseHandler([proto(p) for p in op[2]], opts(op[3]))
            elif kind == "grown":     # the caller goes on using its lists
                ps, os_ = [proto(op[2])], [opts(op[3])]
                m = ((op[2], op[3]),)
                want = m if valid(m) else False
                h = NoiseHandler(ps, os_)
                ps.append(NoiseProtocol.DIGITAL.BITFLIP)
                os_.append({"error_probability": 0.9})
                os_[0]["error_probability"] = 0.8
                NoiseHandler(ps, os_) if not isinstance(ps[0], (NS["A"], NS["R"])) else None
            elif kind == "fluent":
                if target not in hs:
                    return None
                m = ms[target] + ((FLUENT[op[2]], op[3]),)
                want = m if valid(m) and valid(m[-1:]) else False
                h = getattr(hs[target], op[2])(opts(op[3]))
                if h is not hs[target]:
                    return f"{op} returned another handler"
            elif kind == "append":
                if target not in hs or any(s not in hs for s in op[2]):
                    return None
                m = ms[target] + tuple(x for s in op[2] for x in ms[s])
                want = m if valid(m) else False
                hs[target].append([hs[s] for s in op[2]] if op[3] else hs[op[2][0]])
                h = hs[target]
            elif kind == "filter":
                if op[2] not in hs:
                    return None
                m = tuple(x for x in ms[op[2]] if x[0][0] == op[3])
                h = hs[op[2]].filter(NS[op[3]])
                if not m:
                    return None if h is None else f"{op} returned {h!r}"
                want = m
                if h is None:
                    return f"{op} found nothing"
            elif kind == "dict":
                if op[2] not in hs:
                    return None
                h = NoiseHandler._from_dict(hs[op[2]]._to_dict())
                want = ms[op[2]]
            elif kind == "json":
                if op[2] not in hs or any(isinstance(v, tuple) for _, o in ms[op[2]] for _, v in OPT[o]):
                    return None
                if ms[op[2]][0][0][0] == "D" and any("noise_probs" in dict(OPT[o]) for _, o in ms[op[2]]):
                    return None     # text does not tell digital and analog protocols of the same name apart
                h = NoiseHandler._from_dict(json.loads(json.dumps(hs[op[2]]._to_dict())))
                want = ms[op[2]]
            elif kind == "copy":
                if op[2] not in hs:
                    return None
                h = copy.deepcopy(hs[op[2]])
                want = ms[op[2]]
            else:
                raise AssertionError(kind)
        except (ValueError, KeyError, TypeError) as e:
            if want is False:
                return None
            return f"{op} on {ms} raised {type(e).__name__}: {e}"
        if want is False:
            return f"{op} on {ms} was accepted"
        hs[target] = h
        ms[target] = want
        return None

    SL = ("a", "b")
    small_new = [("D", "BITFLIP"), ("D", "DEPOLARIZING"), ("A", "DEPOLARIZING"), ("R", "INDEPENDENT")]
    natural = {"D": ("e1", "e2"), "A": ("n1",), "R": ("seed", "none")}

    def alphabet(full):
        ops = []
        for s in SL:
            for p in (PROTOS if full else small_new):
                for o in natural[p[0]]:
                    ops.append(("new", s, p, o))
            ops.append(("list", s, (("D", "PHASEFLIP"), ("R", "CORRELATED")), ("e1", "mat")))
            ops.append(("shared", s, (("D", "BITFLIP"), ("D", "PHASE_DAMPING")), "e2"))
            ops.append(("grown", s, ("D", "BITFLIP"), "e1"))
            ops.append(("grown", s, ("A", "DEPHASING"), "both"))
            for f in (FLUENT if full else ("bitflip", "digital_depolarizing", "analog_depolarizing", "readout_independent")):
                ops.append(("fluent", s, f, natural[FLUENT[f][0]][0]))
            ops.append(("fluent", s, "bitflip", "n1"))
            for srcs in (("a",), ("b",)):
                ops.append(("append", s, srcs, False))
                ops.append(("append", s, srcs, True))
            for srcs in (("a", "b"), ("b", "a"), ("b", "b")):
                ops.append(("append", s, srcs, True))
            for src in SL:
                for k in "DAR":
                    ops.append(("filter", s, src, k))
                ops.append(("dict", s, src))
                ops.append(("json", s, src))
                ops.append(("copy", s, src))
        return ops

    def history(case, out):
        prefix, full = case
        ops = alphabet(full)
        hs0, ms0 = {}, {}
        done = []
        for op in prefix:
            e = apply(op, hs0, ms0) or check_pool(hs0, ms0, done + [op])
            done.append(op)
            if e:
                return e
        out.feed(canonical(ms0))
        for op in ops:
            # replayed from scratch, so that objects shared between handlers stay shared
            hs, ms = {}, {}
            for p in prefix:
                apply(p, hs, ms)
            e = apply(op, hs, ms) or check_pool(hs, ms, done + [op])
            out.step(len(prefix) + 1)
            if e:
                return e
        return None

    def canonical(ms):
        return tuple(sorted((s, canon(m)) for s, m in ms.items()))

    def bfs(case, out):
        first, depth, maxlen = case
        ops = alphabet(True)
        hs, ms = {}, {}
        e = apply(first, hs, ms) or check_pool(hs, ms, [first])
        if e:
            return e
        seen = {canonical(ms)}
        todo = deque([(hs, ms, 0)])
        while todo:
            hs, ms, d = todo.popleft()
            for op in ops:
                h2, m2 = copy.deepcopy(hs), dict(ms)
                e = apply(op, h2, m2) or check_pool(h2, m2, op)
                out.step(1)
                if e:
                    return e
                c = canonical(m2)
                if c not in seen:
                    seen.add(c)
                    if d + 1 < depth and max(map(len, m2.values())) <= maxlen:
                        todo.append((h2, m2, d + 1))
        out.feed(len(seen), first)
        return None

    def construct(case, out):
        """every protocol x option, and every pair/triple of protocols"""
        ps, os_, form = case
        hs, ms = {}, {}
        if form == "single":
            ops = [("new", "a", ps[0], os_[0]), ("kw", "b", ps[0], os_[0])]
        elif form == "list":
            ops = [("list", "a", ps, os_)]
        else:
            ops = [("shared", "a", ps, os_[0])]
        for op in ops:
            e = apply(op, hs, ms) or check_pool(hs, ms, op)
            out.step(1)
            if e:
                return e
        out.feed(canonical(ms))
        return None

    def equality(case, out):
        (p, o), (q, r) = case
        a, b = ((p, o),), ((q, r),)
        if not (valid(a) and valid(b)):
            return None
        hs = {"a": NoiseHandler(proto(p), opts(o)), "b": NoiseHandler(proto(q), opts(r))}
        out.feed(p, o, q, r)
        return check_pool(hs, {"a": a, "b": b}, "construction")

    def bare(case, out):
        """the documented shorthand NoiseProtocol.READOUT is readout noise"""
        form, = case
        e = {"error_probability": 0.1}
        try:
            if form == "alone":
                h = NoiseHandler(NoiseProtocol.READOUT, {**e, "seed": 0})
                n, pos = 1, 0
            elif form == "last":
                h = NoiseHandler([NoiseProtocol.DIGITAL.BITFLIP, NoiseProtocol.READOUT], [e, e])
                n, pos = 2, 1
            elif form == "first":
                NoiseHandler([NoiseProtocol.READOUT, NoiseProtocol.DIGITAL.BITFLIP], [e, e])
                return "accepted readout noise before digital noise"
            elif form == "twice":
                NoiseHandler([NoiseProtocol.READOUT, NoiseProtocol.READOUT.CORRELATED], [e, e])
                return "accepted two readout noises"
            else:
                NoiseHandler([NoiseProtocol.READOUT, NoiseProtocol.ANALOG.DEPHASING], [e, {"noise_probs": 0.1}])
                return "accepted readout with analog noise"
        except ValueError:
            return None if form in ("first", "twice", "analog") else "rejected"
        f = h.filter(NoiseProtocol.READOUT)
        if len(h.protocol) != n or f is None or f.options[0].get("error_probability") != 0.1:
            return "not recognised as readout noise"
        return None

    def empties(case, out):
        form, = case
        h = NoiseHandler(NoiseProtocol.DIGITAL.BITFLIP, {"error_probability": 0.1})
        if form == "from_none":
            return None if NoiseHandler._from_dict(None) is None and NoiseHandler._from_dict({}) is None else "not None"
        if form == "append_nothing":
            h.append([])
            return agrees(h, ((("D", "BITFLIP"), "e1"),))
        if form == "other_type":
            for x in (None, 3, "BitFlip"):
                try:
                    if h == x:
                        return f"equals {x}"
                except TypeError:
                    pass
            return None
        try:
            NoiseHandler([], [])
        except Exception:
            return None
        return "empty handler accepted"

    chk = Check("P15", "every handler reached by a history of operations holds exactly the protocols/options of a list model; "
                "invalid operations are rejected and change nothing; equality is equality of contents",
                bounds="2 handlers; all histories of 3 (4 thorough) operations undeduplicated, breadth-first search with "
                "state merging to depth 3 (4) over the full alphabet, handlers up to 4 protocols")

    chk.family("constructors", [((p,), (o,), "single") for p in PROTOS for o in OPT]
               + [(ps, os_, "list") for ps in product(PROTOS, repeat=2) for os_ in product(("e1", "n1", "both"), repeat=2)]
               + [(ps, (o,), "shared") for ps in product(PROTOS, repeat=2) for o in ("e1", "n1", "both", "none")]
               + [(ps, ("both",) * 3, "list") for ps in product(PROTOS, repeat=3)]
               + [(ps, os_, "list") for ps in ([("D", "BITFLIP")], [("D", "BITFLIP"), ("R", "INDEPENDENT")]) for os_ in (("e1",) * 3, ())],
               construct)
    single = [(p, o) for p in PROTOS for o in OPT]
    chk.family("equality", list(product(single, repeat=2)), equality)
    ops = alphabet(False)
    chk.family("histories", [(pre, False) for pre in product(ops, repeat=2)] if not THOROUGH
               else [(pre, True) for pre in product(alphabet(True), repeat=2)]
               + [(pre, False) for pre in product(ops[:12] + ops[20:30], ops, ops[::2])], history)
    starts = [o for o in alphabet(True) if o[0] in ("new", "list", "shared", "grown") and o[1] == "a"]
    chk.family("search", [(o, 3 if THOROUGH else 2, 4) for o in starts], bfs)
    chk.family("readout_shorthand", [(f,) for f in ("alone", "last", "first", "twice", "analog")], bare)
    chk.family("corner_cases", [(f,) for f in ("from_none", "append_nothing", "other_type", "empty")], empties)
    return chk


guard_main(("P15", make))
