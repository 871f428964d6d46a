"""P26: deserialising an expression never evaluates anything but the expression."""
import ast
import builtins
from itertools import product

from lib.harness import Check, guard_main, THOROUGH

TOK = ["canary", "canobj", "Float", "Parameter", "sin", "Add", "x", "I", "1", "-1", "'0.5'", "'x'", "(", ")", ",", ".", "*", "+", "=", "[", "]", " ", "lambda", ":", "precision", "True", "__class__", "\n", "#", ";", "{", "}", "@", "'", '"']
# the same alphabet, cut to what separates grammars, for longer strings
CORE = ["canary", "canobj", "Float", "Parameter", "I", "'0.5'", "'x'", "(", ")", ",", ".", "=", "a", "True"]


def make():
    import sympy
    import qadence as Q
    import qadence.serialization as S
    from qadence.parameters import FeatureParameter, VariationalParameter, TimeParameter
    from qadence import serialize, deserialize
    LOG = []

    def canary(*a, **k):
        LOG.append("call")
        return 1

    class Can:
        def __getattr__(self, n):
            LOG.append("attribute " + n)
            return self

        def __call__(self, *a, **k):
            LOG.append("call")
            return self

        def __getitem__(self, k):
            LOG.append("item")
            return self

        def __add__(self, o):
            LOG.append("operator")
            return self
        __radd__ = __mul__ = __rmul__ = __matmul__ = __sub__ = __neg__ = __add__
    builtins.canary, builtins.canobj = canary, Can()
    S.canary, S.canobj = canary, builtins.canobj
    OKF = {n for n in dir(sympy) if isinstance(getattr(sympy, n), type) and issubclass(getattr(sympy, n), sympy.Basic)} | {"Parameter"}
    OKN = {"I", "pi", "E", "oo", "zoo", "nan", "true", "false", "S"}

    def legal(s):
        """is the string one that only builds sympy objects from literals?  (independent of the grammar under test)"""
        try:
            t = ast.parse(s.strip(), mode="eval")
        except (SyntaxError, ValueError):
            return False

        def ok(n):
            if isinstance(n, ast.Call):
                return isinstance(n.func, ast.Name) and n.func.id in OKF and all(ok(a) for a in n.args) and all(
                    k.arg is not None and not isinstance(k.value, (ast.Call, ast.Name)) and ok(k.value) for k in n.keywords)
            if isinstance(n, ast.Constant):
                return isinstance(n.value, (int, str, bool))
            if isinstance(n, ast.UnaryOp):
                return isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant)
            return isinstance(n, ast.Name) and n.id in OKN
        return ok(t.body)
    SYM = {n: {"name": n, "trainable": "True", "value": "0.5"} for n in ("x", "a", "theta", "t", "a_1")}

    def attempt(s, out, wrap=None):
        if "precision=-" in s:
            return None     # sympy itself does not terminate on a negative precision
        del LOG[:]
        out.step()
        d = {"name": "e", "expression": s, "symbols": SYM}
        try:
            r = deserialize(d if wrap is None else wrap(d))
            acc = True
        except Exception:  # noqa: BLE001 - rejection
            acc = False
            r = None
        if LOG:
            return f"{s!r} executed a {LOG[0]}"
        if acc and r is not None and s and not legal(s):
            return f"{s!r} was accepted as {str(r)[:60]}"
        return None

    def run_all(strings, out):
        for s in strings:
            m = attempt(s, out)
            if m:
                return m
        return None

    def f_strings(case, out):
        toks, head, depth = case
        toks = TOK if toks == "TOK" else CORE
        acc = 0
        for tail in product(toks, repeat=depth - len(head)):
            m = attempt("".join(head + tail), out)
            if m:
                return m
            acc += 1
        out.feed(case, acc)
        return None

    a, x, t = VariationalParameter("a", value=0.3), FeatureParameter("x"), TimeParameter("t")
    base = [a, x, t, 2 * a, a + x, a / 3, a * 1e-7, sympy.sin(a * x), sympy.pi * x, sympy.I * a, a ** 2, sympy.exp(-x), sympy.acos(x), sympy.Float(0.25), sympy.Integer(-3), sympy.Rational(1, 3), sympy.sqrt(x) + 1.5 * a * sympy.cos(x)]
    BASE = [sympy.srepr(e) for e in base]

    def toks_of(s):
        import re
        return re.findall(r"'[^']*'|[A-Za-z_]\w*|-?\d+|\s+|.", s)

    def f_edit(case, out):
        s, kind = case
        ts = toks_of(s)
        for i in range(len(ts) + 1):
            for k in TOK:
                if kind == "insert":
                    m = attempt("".join(ts[:i] + [k] + ts[i:]), out)
                elif i < len(ts):
                    m = attempt("".join(ts[:i] + [k] + ts[i + 1:]), out)
                else:
                    m = None
                if m:
                    return m
            if i < len(ts) and kind == "replace":
                m = attempt("".join(ts[:i] + ts[i + 1:]), out)
                if m:
                    return m
        out.feed(case)
        return None

    def f_accept(case, out):
        e = base[case[0]]
        r = deserialize(serialize(e))
        out.step()
        if sympy.srepr(r) != sympy.srepr(e):
            return f"{sympy.srepr(r)} instead of {sympy.srepr(e)}"
        out.feed(case)
        return None

    ATT = ["canary('a')", "canary()", "canobj.x", "canobj.x('a')", "canobj", "canary", "canobj['a']", "canobj*2", "2*canobj", "Add(canary('a'), 1)", "Add(1, canary('a'))",
           "Add(canobj.x, 1)", "Add(1, canobj)", "sin(canary('a'))", "sin(canobj.x)", "sin(-canobj)", "Parameter(canary('x'))", "Parameter('x', value=canary(1))",
           "Parameter('x', value=canary)", "Parameter('x').canary('a')", "Parameter('x') if canary('a') else 1", "[canary('a')]", "(canary('a'),)", "(lambda: canary('a'))()",
           "Float('1.0', precision=canary(53))", "Float('1.0').__class__", "Float('1.0')\ncanary('a')", "Float('1.0');canary('a')", "Float('1.0')#canary('a')", "Float('1.0') or canary('a')",
           "canary('a') or Float('1.0')", "Float('1.0')+canary('a')", "Float('1.0')*2", "Float('1.0')[0]", "f'{canary(1)}'", "__import__('canary')", "Parameter('x')('a')",
           "Parameter('x' + canary('a'))", "Parameter('x'.upper())", "Parameter(*canary('a'))", "Parameter(**canary('a'))", "Add(*[1,2])", "2*3", "1", "-1", "'x'", "x", "None", "True",
           "exec('canary')", "eval('canary')", "open('canary')", "load('canary.json')", "save('a','b')", "sympify('canary')", "S('canary')", "parse_expr('canary')", "var('canary')", "symbols('canary')",
           "getattr(canobj, 'x')", "globals()", "print('a')", "input('a')", "deserialize('a')", "serialize('a')", "tag('a')", "lambdify('a','a')", "Lambda('x', canary('a'))", "dict(a=1)", "type('a')",
           "str('a')", "repr('a')", "int('1')", "float('1')", "list('ab')", "getLogger('a')", "Path('a')", "dataclass('a')", "lru_cache('a')", "QuantumCircuit('a')", "Register(2)", "QuantumModel('a')"]

    def f_attack(case, out):
        s, how = case
        blk = Q.chain(Q.RX(0, "theta"), 2.5 * Q.Z(1), Q.HamEvo(Q.X(0), "t"))
        objs = {"plain": None, "block": lambda: serialize(blk), "circuit": lambda: serialize(Q.QuantumCircuit(2, blk)),
                "model": lambda: serialize(Q.QuantumModel(Q.QuantumCircuit(2, blk), Q.Z(0)))}

        def put(o, e, n=[0]):
            """replace the n-th expression of a serialised object"""
            cnt = 0

            def go(v):
                nonlocal cnt
                if isinstance(v, dict):
                    if "expression" in v:
                        cnt += 1
                        return e if cnt - 1 == n[0] else v
                    return {k: go(w) for k, w in v.items()}
                if isinstance(v, (list, tuple)):
                    return [go(w) for w in v]
                return v
            return go(o), cnt
        if how == "plain":
            m = attempt(s, out)
            if m:
                return m
        else:
            o = objs[how]()
            _, cnt = put(o, {}, [99])
            if cnt < 2:
                return f"serialised {how} shows only {cnt} expressions"
            for i in range(cnt):
                del LOG[:]
                out.step()
                try:
                    deserialize(put(o, {"name": "e", "expression": s, "symbols": SYM}, [i])[0])
                    acc = True
                except Exception:  # noqa: BLE001
                    acc = False
                if LOG:
                    return f"{s!r} inside a {how} executed a {LOG[0]}"
                if acc and not legal(s):
                    return f"{s!r} inside a {how} was accepted"
        out.feed(case)
        return None
    d1, d2 = (4, 5) if THOROUGH else (3, 4)
    chk = Check("P26", rule="no canary (callable, attribute, operator) is ever touched and nothing outside the independent AST whitelist is accepted; "
                "non-trivial = distinct token prefixes",
                bounds=f"all strings of <= {d1} of {len(TOK)} tokens, all of <= {d2} of {len(CORE)} core tokens, every single-token insertion/replacement/deletion in {len(BASE)} serialised expressions, {len(ATT)} attacks x 4 carriers")
    strs = [("TOK", (), k) for k in range(1, d1)] + [("TOK", (h,), d1) for h in TOK]
    strs += [("CORE", (), k) for k in range(1, d2 - 1)] + [("CORE", (h,), d2 - 1) for h in CORE] + [("CORE", (h, g), d2) for h, g in product(CORE, repeat=2)]
    chk.family("strings", strs, f_strings)
    chk.family("edits", [(s, k) for s in BASE for k in ("insert", "replace")], f_edit)
    chk.family("accepted", [(i,) for i in range(len(base))], f_accept)
    chk.family("attacks", [(s, h) for s in ATT for h in ("plain", "block", "circuit", "model")], f_attack)
    _ = run_all
    return chk


guard_main(("P26", make))
