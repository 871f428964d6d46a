"""P32: programs submitted to the cloud are the programs specified, and their results come back."""
import itertools
import json
import os
from itertools import product

from lib.harness import Check, Skip, guard_main, THOROUGH

STATUS = ("PENDING", "RUNNING", "PAUSED", "DONE", "CANCELED", "TIMED_OUT", "ERROR", "QUEUED?")
WAITING, STOPPED = STATUS[:3], STATUS[4:7]
SHAPES = ((), (1,), (2,), (3,), (1, 1), (2, 1), (2, 2), (1, 2, 3))
X = ("f", "x")
Y = ("f", "y")
LETTERS = (("X", (0,)), ("RX", (0,), X), ("RY", (1,), ("mul", 2, X)), ("RZ", (1,), Y), ("CNOT", (0, 1)), ("CPHASE", (1, 0), ("add", X, Y)),
           ("RX", (1,), ("v", "a")), ("U", (0,), 0.2, X, ("v", "b")), ("HamEvo", ("kron", ("Z", (0,)), ("Z", (1,))), ("mul", X, Y)),
           ("scale", 1.0, ("H", (1,))), ("kron", ("RX", (0,), 0.7), ("RY", (1,), X)))
OBS = (None, ("Z", (0,)), ("add", ("scale", 0.5, ("kron", ("X", (0,)), ("Y", (1,)))), ("scale", -1.5, ("N", (1,)))), ("kron", ("Z", (0,)), ("Z", (1,))))


class Boom(Exception):
    pass


def make():
    import contextlib
    import logging
    import math
    import warnings
    import numpy as np
    import torch
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    from qadence import BackendName, FeatureParameter, QuantumCircuit, QuantumModel, Register, RX, RY, chain, deserialize
    from qadence.blocks.block_to_tensor import block_to_tensor
    import qadence.pasqal_cloud_connection as PC
    from qadence.backends.pulser import cloud as CL
    from qadence.backends.pulser.config import CloudConfiguration, Configuration
    from lib import ref
    from lib.build import Builder
    from lib.common import VALS, close

    R = PC.ResultType

    class Workload:
        def __init__(self, status, i=0):
            self.status, self.id, self.errors, self.result = status, f"w{i}", [{"code": "E", "description": "boom"}], {"n": i}

    @contextlib.contextmanager
    def patched(obj, **kw):
        old = {k: getattr(obj, k) for k in kw}
        for k, v in kw.items():
            setattr(obj, k, v)
        try:
            yield
        finally:
            for k, v in old.items():
                setattr(obj, k, v)

    # ------------------------------------------------------------------ waiting for results
    def polling(case, out):
        """virtual time; the workload changes its status at the times k * step"""
        word, step, timeout, refresh = case
        now = [0.0]
        asked = []

        class Conn:
            def get_workload(self, wid):
                if wid != "the-id":
                    raise AssertionError(f"asked for workload {wid}")
                k = min(int((now[0] + 1e-9) // step), len(word) - 1)
                asked.append(now[0])
                return Workload(word[k], k)

        def sleep(t):
            if t < 0 or now[0] > 1e4:
                raise AssertionError("endless or negative waiting")
            now[0] += t

        class Time:
            def __getattr__(self, name):
                import time
                return getattr(time, name)
        T = Time()
        T.sleep = sleep
        T.time = T.monotonic = T.perf_counter = lambda: now[0]
        got = exc = None
        clocks = {k: v for k, v in (("time", T), ("sleep", sleep), ("monotonic", T.time), ("perf_counter", T.time)) if hasattr(PC, k)}
        with patched(PC, **clocks):
            try:
                got = PC.get_result(Conn(), "the-id", timeout=timeout, refresh_time=refresh)
            except Exception as e:
                exc = e
        out.step(len(asked))
        if not asked:
            return f"gave up ({type(exc).__name__}) without asking for the status once"
        gaps = [b - a for a, b in zip(asked, asked[1:])]
        if asked[0] != 0 or any(abs(g - refresh) > 1e-6 for g in gaps):
            return f"asked at {asked}, with a refresh time of {refresh}"
        if now[0] > timeout + 1e-6:
            return f"waited for {now[0]} s, longer than the timeout of {timeout} s"
        # the first status which is not a waiting one, at the times of the refreshes
        n = int((timeout + 1e-9) // refresh)
        seen = [word[min(int((i * refresh + 1e-9) // step), len(word) - 1)] for i in range(n + 1)]
        k = next((i for i, s in enumerate(seen) if s not in WAITING), None)
        if k is None:
            want = "TimeoutError"
        else:
            want = {"DONE": "result"}.get(seen[k], "WorkloadStoppedError" if seen[k] in STOPPED else "ValueError")
            if len(asked) != k + 1:
                return f"asked {len(asked)} times for a workload which is {seen[k]} at the {k + 1}th"
        is_ = "result" if exc is None else type(exc).__name__
        out.feed((is_, len(asked)))
        if is_ != want:
            return f"{is_} instead of {want}: statuses at the refreshes are {seen}"
        if exc is None and (got.status != "DONE" or got.result != {"n": min(int((asked[-1] + 1e-9) // step), len(word) - 1)}):
            return "returned another workload"
        return None

    def statuses(case, out):
        """one status, asked once or repeatedly"""
        word, = case
        it = iter(word)

        class Conn:
            def get_workload(self, wid):
                return Workload(next(it), wid)
        c = Conn()
        for i, s in enumerate(word):
            try:
                r = PC.check_status(c, i)
                what = "result" if (r.status, r.id) == ("DONE", f"w{i}") else "another workload"
            except Exception as e:
                what = type(e).__name__
                if s == "ERROR" and "boom" not in str(e):
                    return f"the errors are not told: {e}"
                if s != "ERROR" and s not in str(e):
                    return f"the status {s} is not told: {e}"
            out.step(1)
            want = "result" if s == "DONE" else "WorkloadNotDoneError" if s in WAITING else \
                "WorkloadStoppedError" if s in STOPPED else "ValueError"
            out.feed(what)
            if what != want:
                return f"{what} instead of {want} for {s}"
        return None

    # ------------------------------------------------------------------ what is accepted
    CIRC = QuantumCircuit(1, RX(0, "th"))

    def accepted(case, out):
        shapes, types, obs = case
        vals = None if shapes is None else {f"p{i}": torch.zeros(s) for i, s in enumerate(shapes)}
        types = [getattr(R, t) for t in types]
        o = Builder(VALS).block(("Z", (0,))) if obs else None
        ok = True
        if shapes is not None:
            lens = {s[0] for s in shapes if len(s) == 1}
            ok = all(len(s) <= 1 for s in shapes) and len(lens) <= 1
        if R.EXPECTATION in types and o is None:
            ok = False
        out.step(1)
        try:
            w = PC.WorkloadSpec(CIRC, BackendName.PYQTORCH, types, vals, o)
        except ValueError as e:
            out.feed("refused")
            return f"refused: {e}" if ok else None
        out.feed("accepted")
        if not ok:
            return "accepted"
        if w.circuit is not CIRC or w.result_types != types or w.observable is not o or w.parameter_values is not vals:
            return "specification changed"
        return None

    # ------------------------------------------------------------------ what is submitted
    class SDK:
        """records what is sent, as the real one would send it: in JSON"""

        def __init__(self):
            self.sent = []

        def create_workload(self, workload_type, backend, config, *a, **k):
            if a or k:
                raise AssertionError(f"unexpected arguments {a} {k}")
            self.sent.append(json.loads(json.dumps([workload_type, backend, config])))
            return Workload("PENDING", len(self.sent))

    def feats(spec):
        return sorted({n for k, n in ref.variables(spec) if k == "f"})

    def submitted(case, out):
        """decode what was sent and compare its meaning with that of the program"""
        word, obs, mix, types, via = case
        spec = ("chain",) + word
        fs = feats(spec)
        b = Builder(VALS)
        circ = QuantumCircuit(Register.line(2, spacing=3.0), b.block(spec))
        o = None if obs is None else b.block(obs)
        base = {"x": (0.61, -0.4, 1.9), "y": (-1.37, 0.25, 0.7)}
        vals = {}
        for i, f in enumerate(fs):
            one = mix == "scalars" or (mix == "mixed" and i % 2 == 0)
            vals[f] = torch.tensor(base[f][0] if one else base[f], dtype=torch.float64 if i else torch.float32)
        if mix == "trained":
            vals["a"] = torch.tensor(0.9, dtype=torch.float64, requires_grad=True)
        vals = vals or None
        rt = [getattr(R, t) for t in types]
        if via == "spec":
            w = PC.WorkloadSpec(circ, BackendName.PYQTORCH, rt, vals, o)
        else:
            kw = {"obs": dict(observable=b.block(("Z", (1,)))), "gpsr": dict(diff_mode="gpsr"), "model": {}}[via]
            w = PC.workload_spec(QuantumModel(circ, backend=BackendName.PYQTORCH, **kw), rt, vals, o)
        sdk = SDK()
        wid = PC.submit_workload(sdk, w)
        out.step(1)
        if len(sdk.sent) != 1 or wid != "w1":
            return f"{len(sdk.sent)} workloads sent, id {wid}"
        wt, be, cfg = sdk.sent[0]
        if wt != "qadence_circuit" or be != "pyqtorch" or cfg["result_types"] != [t.lower() for t in types]:
            return f"sent {wt}, {be}, {cfg['result_types']}"
        if ("observable" in cfg) != (obs is not None):
            return "observable lost or invented"
        c2 = deserialize(json.loads(cfg["circuit"]))
        given = {k: torch.tensor(v, dtype=torch.float64) for k, v in json.loads(cfg["c_values"]).items()}
        if sorted(given) != sorted(vals or {}):
            return f"values {sorted(given)} sent"
        for k, v in given.items():
            if v.shape != vals[k].shape or not torch.equal(v, vals[k].detach().double()):
                return f"value of {k} changed: {v.tolist()}"
        if c2.register.n_qubits != 2 or c2.register.coords != circ.register.coords:
            return "register changed"
        bs = max([1] + [v.numel() for v in given.values()])
        envs = []
        for i in range(bs):
            e = dict(VALS)
            e.update({k: float(v[i]) if v.dim() else float(v) for k, v in given.items()})
            envs.append(e)
        run = {k: v for k, v in given.items() if k in fs}
        m = QuantumModel(c2)
        if mix == "trained":        # the executing side sets the values of trained parameters
            for n, p in m.named_parameters():
                if n.split(".")[-1] == "a":
                    p.data.fill_(float(given["a"]))
        got = m.run(run).detach().numpy()
        want = np.array([ref.mat(spec, 2, e)[:, 0] for e in envs])
        out.feed(np.round(want, 2))
        e = close(got, want, 2e-6)
        if e:
            return "circuit: " + e
        if obs is not None:
            o2 = deserialize(json.loads(cfg["observable"]))
            return close(block_to_tensor(o2, qubit_support=(0, 1)).detach().numpy()[0], ref.mat(obs, 2, VALS), 1e-9)
        return None

    # ------------------------------------------------------------------ the Pulser backend on the cloud
    class Job:
        def __init__(self, result, errors):
            self.id, self.result, self.errors = "job", result, errors

    class Client:
        made = []

        def __init__(self, **kw):
            self.kw, self.calls = kw, []
            Client.made.append(self)

        def create_batch(self, seq, jobs, emulator, wait=False):
            self.calls.append((seq, jobs, emulator, wait))
            n = len(self.calls)
            runs = jobs[0]["runs"]
            return type("Batch", (), {"jobs": {"j": Job({"01": runs - n % 2, "11": n % 2} if n % 2 else {"10": runs}, None)}})()

    unique = [0]

    def pulser_cloud(case, out):
        """the sequence sent simulates to the program's probabilities; the counts received are returned"""
        vals, kind, endian, shots, platform, creds = case
        from pulser import Sequence
        from pulser_simulation import QutipEmulator
        from pasqal_cloud.device import EmulatorType
        Client.made = []
        unique[0] += 1
        user = f"u{creds}-{unique[0]}"
        x = FeatureParameter("x")
        blocks = {"two": [RX(0, x), RY(1, -1.2)], "same": [RX(0, x), RY(0, 0.4)], "number": [RX(0, 0.8), RY(1, 0.3)]}[kind]
        conf = Configuration(cloud_configuration=CloudConfiguration(username=user, password="p", project_id="q",
                                                                   platform=EmulatorType(platform)))
        c = QuantumCircuit(Register.line(2, spacing=30.0), chain(*blocks))
        given = {} if kind == "number" else {"x": torch.tensor(vals, dtype=torch.float64)}
        num = 1 if kind == "number" else len(vals)
        with patched(CL, SDK=Client):
            m = QuantumModel(c, backend=BackendName.PULSER, diff_mode="gpsr", configuration=conf)
            try:
                m.run(given)
                return "run returned a state, which no cloud job gives"
            except ValueError:
                pass
            try:
                m.sample(given, n_shots=shots, state=torch.eye(4, dtype=torch.complex128)[1:2])
                return "sampled from an initial state, which no cloud job takes"
            except ValueError:
                pass
            if any(k.calls for k in Client.made):
                return "refused programs were submitted"
            smp = m.sample(given, n_shots=shots, endianness=endian)
        CL._get_client.cache_clear() if hasattr(CL, "_get_client") and hasattr(CL._get_client, "cache_clear") else None
        calls = [x for k in Client.made for x in k.calls]
        out.step(num)
        if len(calls) != num or len(smp) != num:
            return f"{len(calls)} batches and {len(smp)} counters for {num} values"
        if any(k.kw["username"] != user for k in Client.made if k.calls):
            return "submitted with other credentials"
        for i, (seq, jobs, emu, wait) in enumerate(calls):
            if jobs != [{"runs": shots, "variables": {}}] or emu != platform or not wait:
                return f"submitted {jobs} to {emu}"
            p = np.abs(QutipEmulator.from_sequence(Sequence.from_abstract_repr(seq)).run().get_final_state().full().ravel()[::-1]) ** 2
            v = vals[i] if kind != "number" else 0.8
            c0, s0 = math.cos(v / 2), math.sin(v / 2)
            if kind == "same":
                u = ref.expm_h(np.array([[0, -1j], [1j, 0]]) / 2, 0.4) @ np.array([c0, -1j * s0])
                want = np.kron(np.abs(u) ** 2, [1, 0])
            else:
                th = -1.2 if kind == "two" else 0.3
                want = np.kron([c0 ** 2, s0 ** 2], [math.cos(th / 2) ** 2, math.sin(th / 2) ** 2])
            out.feed(np.round(want, 2))
            if np.abs(p - want).max() > 0.03:
                return f"the sequence sent gives {np.round(p, 3).tolist()}, the program {np.round(want, 3).tolist()}"
            k = i + 1
            counts = {"01": shots - 1, "11": 1} if k % 2 else {"10": shots}
            if endian == "Little":
                counts = {b[::-1]: n for b, n in counts.items()}
            if {b: n for b, n in smp[i].items() if n} != {b: n for b, n in counts.items() if n}:
                return f"counts {dict(smp[i])} returned, {counts} received"
        return None

    NAMES = ("USERNAME", "PASSWORD", "PROJECT_ID", "ENV")

    def credentials(case, out):
        """any sequence of requests for clients, the environment changing between them"""
        word, = case
        Client.made = []
        old = {k: os.environ.get("PASQAL_CLOUD_" + k) for k in NAMES}
        if hasattr(getattr(CL, "_get_client", None), "cache_clear"):
            CL._get_client.cache_clear()
        from pasqal_cloud import AUTH0_CONFIG, PASQAL_ENDPOINTS
        tok = object()
        try:
            with patched(CL, SDK=Client):
                for i, (env, conf) in enumerate(word):
                    for k in NAMES:
                        os.environ.pop("PASQAL_CLOUD_" + k, None)
                    E = {"none": {}, "A": dict(USERNAME="ua", PASSWORD="pa", PROJECT_ID="qa"),
                         "B": dict(USERNAME="ub", PASSWORD="pb", PROJECT_ID="qb", ENV="dev"),
                         "part": dict(USERNAME="ua", PROJECT_ID="qa")}[env]
                    for k, v in E.items():
                        os.environ["PASQAL_CLOUD_" + k] = v
                    cc = {"env": dict(environment=None), "full": dict(username="u", password="p", project_id="q"),
                          "user": dict(username="u"), "pre": dict(environment="preprod"),
                          "tok": dict(token_provider=tok, project_id="q")}[conf]
                    get = lambda name: cc.get(name) if cc.get(name) is not None else E.get(name.upper(), "")
                    user, pw, pid = get("username"), get("password"), get("project_id")
                    stage = cc.get("environment", "prod") if cc.get("environment", "prod") is not None else E.get("ENV", "prod")
                    tp = cc.get("token_provider")
                    ok = all([user, pw, pid]) or all([tp, pid])
                    out.step(1)
                    try:
                        k = CL.get_client(CloudConfiguration(**cc)).kw
                    except Exception as e:
                        if ok or not isinstance(e, Exception):
                            return f"request {i}: {e}"
                        out.feed("refused")
                        continue
                    if not ok:
                        return f"request {i}: a client without credentials"
                    out.feed((k["username"], k["project_id"]))
                    want = dict(username=user, password=pw, project_id=pid, token_provider=tp,
                                auth0=AUTH0_CONFIG[stage] if stage != "prod" else None,
                                endpoints=PASQAL_ENDPOINTS[stage] if stage != "prod" else None)
                    if k != want:
                        d = {n: (k.get(n), want[n]) for n in want if k.get(n) != want[n]}
                        return f"request {i}: client with {d} (got, expected)"
        finally:
            for k, v in old.items():
                os.environ.pop("PASQAL_CLOUD_" + k, None)
                if v is not None:
                    os.environ["PASQAL_CLOUD_" + k] = v
            if hasattr(getattr(CL, "_get_client", None), "cache_clear"):
                CL._get_client.cache_clear()
        return None

    # ------------------------------------------------------------------ cases
    depth = 4 if THOROUGH else 3
    words = [w for k in range(1, depth + 1) for w in product(STATUS, repeat=k)]
    # a word ends with its first final status
    words = [w for w in words if all(s in WAITING for s in w[:-1])]
    c_poll = [(w, st, t, r) for w in words for st in (1.0, 0.4) for t in (0.0, 0.5, 1.0, 2.0, 2.5, 4.0) for r in (0.25, 0.5, 1.0, 1.5, 3.0)]
    c_stat = [(w,) for k in (1, 2) for w in product(STATUS, repeat=k)]
    tys = [t for k in range(0, 4) for t in itertools.permutations(("RUN", "SAMPLE", "EXPECTATION"), k)]
    c_acc = [(s, t, o) for s in [None] + [c for k in range(0, 4) for c in product(SHAPES, repeat=k)]
             for t in (tys if s in (None, ()) else tys[:1] + tys[3:5]) for o in (False, True)]
    ws = [(a,) for a in LETTERS] + list(product(LETTERS, repeat=2)) + (list(product(LETTERS, repeat=3)) if THOROUGH else [])
    c_sub = [(w, OBS[i % 4], mix, t, via) for i, w in enumerate(ws) for mix in ("scalars", "arrays", "mixed")
             for t, via in ((("RUN",), "spec"), (("SAMPLE", "RUN"), "model"), (("SAMPLE",), "gpsr"), (("RUN", "SAMPLE"), "obs"))]
    c_sub += [(w, o, "trained", ("EXPECTATION", "RUN"), v) for w in ws if any(("v", "a") in x for x in w) for o in OBS[1:] for v in ("spec", "model")]
    c_sub += [(w, o, "arrays", t, "spec") for w in ws[:11] for o in OBS[1:] for t in tys]
    c_pul = [(v, k, e, s, p, c) for v in ((0.7,), (-1.1, 2.0), (0.3, 1.0, -2.0)) for k in ("two", "same", "number")
             for e in ("Big", "Little") for s in (1, 10) for p in ("EMU_FREE", "EMU_TN") for c in (0, 1)]
    reqs = list(product(("none", "A", "B", "part"), ("env", "full", "user", "pre", "tok")))
    c_cred = [(w,) for k in (1, 2) for w in product(reqs, repeat=k)]
    if THOROUGH:
        c_cred += [(w,) for w in product(reqs, repeat=3)]

    chk = Check("P32", "every timeline of statuses is polled in virtual time; what is sent to a recording connection is decoded and compared "
                "with the program specified; clients are requested under every history of the environment",
                bounds={"status word": depth, "parameters": 3, "word of blocks": 3 if THOROUGH else 2, "requests": 3 if THOROUGH else 2})
    for name, cases, fn in (("polling", c_poll, polling), ("statuses", c_stat, statuses), ("accepted", c_acc, accepted),
                            ("submitted", c_sub, submitted), ("pulser_cloud", c_pul, pulser_cloud), ("credentials", c_cred, credentials)):
        chk.family(name, cases, fn)
    return chk


guard_main(("P32", make))
