"""P17: checkpoints restore the iteration they name and interrupted training resumes from the latest one."""
import copy
import logging
import os
from itertools import combinations, product
from pathlib import Path
from unittest import mock

from lib import train as T
from lib.harness import Check, guard_main, THOROUGH

# a run: (max_iter, checkpoint_every, val_every, best_only)
RUNS = [(0, 1, 0, 0), (1, 1, 0, 0), (2, 1, 0, 0), (2, 2, 0, 0), (3, 2, 0, 0), (1, 3, 0, 0), (2, 0, 0, 0),
        (2, 1, 1, 0), (2, 0, 1, 0), (2, 2, 2, 0), (2, 1, 1, 1), (3, 0, 2, 1)]
CRIT = lambda v, b, e: v <= b - e   # noqa: E731


class Ref:
    """plain training loop and a dictionary instead of a folder."""

    def __init__(self, torch, cls, opt, nb, loss_fn=T.mse):
        self.t, self.cls, self.opt, self.nb = torch, cls, opt, nb
        self.files = {}
        self.xs = T.data(nb)
        self.vx = T.data(1, 0.25)
        self.seed = 0
        self.latest_seen = None

    def fresh(self):
        m = self.cls(self.seed)
        self.seed += 1
        return m, T.OPTS[self.opt](self.t, m.parameters())

    def batches(self):
        x, y = self.xs
        return [(x[i:i + T.BATCH], y[i:i + T.BATCH]) for i in range(0, len(x), T.BATCH)]

    def load(self, m, o):
        nums = [k for k in self.files if k != "best"]
        if nums:
            k = max(nums)
        elif "best" in self.files:
            k = "best"
        else:
            return 0
        s = copy.deepcopy(self.files[k])
        m.load_state_dict(s[0])
        o.load_state_dict(s[1])
        return k if k != "best" else 0

    def save(self, k, m, o):
        self.files[k] = T.state(m, o)

    def val(self, m):
        with self.t.no_grad():
            return float(T.mse(m, self.vx)[0])

    def run(self, cfg, intr=None, kind=None):
        """intr: index of the loss evaluation (of a training batch) at which the interruption strikes."""
        mx, ck, ve, best = cfg
        m, o = self.fresh()
        start = self.load(m, o)
        bl = float("inf")

        def validate(e):
            nonlocal bl
            if best and e and e % ve == 0 and CRIT(self.val(m), bl, 1e-5):
                bl = self.val(m)
                self.save("best", m, o)
        if ve:
            validate(start)
            if not best:
                self.save(start, m, o)
        n, e = 0, start
        for e in range(start, start + mx + 1):
            stop = False
            for b in self.batches():
                if n == intr:
                    if kind == "kill":
                        return m, o, e
                    stop = True
                    break
                n += 1
                T.step(m, o, b)
            if stop:
                break
            if not best and ck and e and e % ck == 0:
                self.save(e, m, o)
            if ve and e % ve == 0:
                validate(e)
        if ck and not best:
            self.save(e, m, o)
        return m, o, e


def make():
    import torch
    from nevergrad.optimization.base import Optimizer as NGOptimizer
    import nevergrad as ng
    from qadence import (QNN, QuantumModel, QuantumCircuit, chain, kron, RX, RZ, CNOT, Z, X, FeatureParameter,
                         VariationalParameter, hea)
    from qadence.ml_tools import TrainConfig, Trainer, load_checkpoint
    from qadence.ml_tools.callbacks.saveload import write_checkpoint
    from qadence.ml_tools.data import to_dataloader
    from qadence.ml_tools.parameters import get_parameters, set_parameters, num_parameters

    logging.getLogger("ml_tools").setLevel(logging.CRITICAL)
    logging.getLogger("qadence").setLevel(logging.CRITICAL)
    CLS = T.models()

    def real(ref, folder, cfg, seed, intr=None, kind=None):
        mx, ck, ve, best = cfg
        m = ref.cls(seed)
        o = T.OPTS[ref.opt](torch, m.parameters())
        n = [0]

        def loss(model, batch):
            if model.training:
                if n[0] == intr:
                    n[0] += 1
                    raise (T.Kill() if kind == "kill" else KeyboardInterrupt())
                n[0] += 1
            return T.mse(model, batch)
        c = TrainConfig(log_folder=folder, max_iter=mx, checkpoint_every=ck, val_every=ve, checkpoint_best_only=bool(best),
                        validation_criterion=CRIT if best else None, verbose=False)
        tr = Trainer(m, o, c, loss, to_dataloader(*ref.xs, batch_size=T.BATCH),
                     to_dataloader(*ref.vx, batch_size=T.BATCH) if ve else None)
        try:
            with tr.enable_grad_opt():
                tr.fit()
        except T.Kill:
            pass
        finally:
            w = tr.callback_manager.writer
            if kind == "kill" and getattr(w, "writer", None) is not None:
                w.close()
        return tr

    def names(ref, k, cls=None, dev="_device_cpu"):
        s = f"{k:03d}" if isinstance(k, int) else k
        o = T.OPTS[ref.opt](torch, [torch.nn.Parameter(torch.zeros(1))])
        return (f"model_{(cls or ref.cls).__name__}_ckpt_{s}{dev}.pt", f"opt_{type(o).__name__}_ckpt_{s}{dev}.pt")

    def folder_msg(ref, folder, out, named=True):
        want = set()
        for k in ref.files:
            want |= set(names(ref, k))
        got = {f for f in os.listdir(folder) if f.endswith(".pt")}
        if got != want:
            return f"files {sorted(got)} instead of {sorted(want)}"
        for k, s in ref.files.items() if named else ():
            mn, on = names(ref, k)
            for args in ((mn, on), (mn, "")):
                m = ref.cls(50)
                o = T.OPTS[ref.opt](torch, m.parameters())
                m2, o2, it = load_checkpoint(folder, m, o, *args)
                out.step()
                g = T.state(m2, o2)
                if it != k:
                    return f"checkpoint {k} reports iteration {it}"
                if not T.same(g[0], s[0]):
                    return f"checkpoint {k} holds parameters {g[0]} instead of {s[0]}"
                if not T.same(g[1], s[1]):
                    return f"checkpoint {k}{' (optimiser not named)' if not args[1] else ''} holds another optimiser state"
        m = ref.cls(51)
        o = T.OPTS[ref.opt](torch, m.parameters())
        m2, o2, it = load_checkpoint(folder, m, o)
        rm, ro = ref.cls(51), None
        ro = T.OPTS[ref.opt](torch, rm.parameters())
        rit = ref.load(rm, ro)
        if not ref.files:
            rit = 0
        if (it if not isinstance(it, str) else 0) != rit:
            return f"latest checkpoint has iteration {it} instead of {rit}"
        if not T.same(T.state(m2, o2), T.state(rm, ro)):
            return "the latest checkpoint restores something else"
        return None

    def end_msg(tr, want, out):
        m, o, e = want
        out.step()
        if not T.same(T.state(tr.model, tr.optimizer), T.state(m, o)):
            return f"parameters {dict(tr.model.state_dict())} / optimiser after the run, expected {dict(m.state_dict())}"
        if tr.current_epoch != e:
            return f"the run ended at epoch {tr.current_epoch} instead of {e}"
        return None

    def history(case, out):
        cls, opt, nb, runs = case
        ref = Ref(torch, CLS[cls], opt, nb)
        with T.scratch() as d:
            folder = d / "log"
            for i, r in enumerate(runs):
                cfg, intr, kind = (r + (None, None))[:3] if isinstance(r[0], tuple) else (r, None, None)
                seed = ref.seed
                want = ref.run(cfg, intr, kind)
                tr = real(ref, folder, cfg, seed, intr, kind)
                out.step(cfg[0] + 1)
                msg = end_msg(tr, want, out) or folder_msg(ref, folder, out, named=i == len(runs) - 1)
                if msg:
                    return f"run {i}: {msg}"
                out.feed(*tr.model.state_dict().values())
        return None

    # ---- crashes while a checkpoint is being written
    def torn(case, out):
        """the process dies at the `at`-th torch.save (in mode `how`) or just before the `at`-th rename."""
        opt, pre, cfg, at, how = case
        ref = Ref(torch, CLS["Lin"], opt, 1)
        with T.scratch() as d:
            folder = d / "log"
            for r in pre:
                seed = ref.seed
                ref.run(r)
                real(ref, folder, r, seed)
            before = copy.deepcopy(ref.files)
            # states the checkpoints of this run go through, in order
            hist = []
            orig_save = ref.save

            def rec(k, m, o):
                orig_save(k, m, o)
                hist.append((k, copy.deepcopy(ref.files[k])))
            ref.save = rec
            seed = ref.seed
            ref.run(cfg)
            ref.save = orig_save
            n, nr, fired = [0], [0], []
            writes = []
            tsave, trep = torch.save, os.replace

            def fake_save(obj, f, *a, **kw):
                i = n[0]
                n[0] += 1
                if i == at and how != "rename":
                    fired.append(1)
                    if how == "before":
                        raise T.Kill()
                    tsave(obj, f, *a, **kw)
                    b = Path(f).read_bytes()
                    if how in ("empty", "half"):
                        Path(f).write_bytes(b[:0 if how == "empty" else len(b) // 2])
                    raise T.Kill()
                r = tsave(obj, f, *a, **kw)
                writes.append(str(f))
                return r

            def fake_rep(a, b, **kw):
                i = nr[0]
                nr[0] += 1
                if i == at and how == "rename":
                    fired.append(1)
                    raise T.Kill()
                return trep(a, b, **kw)
            with mock.patch("torch.save", fake_save), mock.patch("os.replace", fake_rep):
                tr = real(ref, folder, cfg, seed, kind="kill")
            if not fired:
                return None
            out.step()
            # number of checkpoints whose two files had been completely written when the process died
            done = len(writes) // 2
            m = ref.cls(77)
            o = T.OPTS[opt](torch, m.parameters())
            init = T.state(m, o)
            m2, o2, it = load_checkpoint(folder, m, o)
            got = (it, T.state(m2, o2))
            # acceptable: the newest checkpoint known to be complete, or the one being written
            allowed = []
            cur = dict(before)
            for k, s in hist[:done]:
                cur[k] = s
            for extra in ([], hist[done:done + 1], hist[done - 1:done] if done else []):
                c2 = dict(cur)
                for k, s in extra:
                    c2[k] = s
                allowed.append(c2)
            if done:        # files complete but not yet visible
                c2 = dict(before)
                for k, s in hist[:done - 1]:
                    c2[k] = s
                allowed.append(c2)
            exp = []
            for c in allowed:
                nums = [k for k in c if k != "best"]
                if nums:
                    exp.append((max(nums), c[max(nums)]))
                elif "best" in c:
                    exp.append(("best", c["best"]))
                else:
                    exp.append((0, init))
            if any(got[0] == k and T.same(got[1], s) for k, s in exp):
                # the interrupted folder can be used to carry on training
                tr = real(ref, folder, (1, 1, 0, 0), 5)
                k0 = got[0] if isinstance(got[0], int) else 0
                return None if tr.current_epoch == k0 + 1 else f"the next run ended at epoch {tr.current_epoch}, started from {k0}"
            return f"after dying ({how}) at write {at}: loads iteration {got[0]} with parameters {got[1][0]}, none of " \
                   f"{[(k, s[0]) for k, s in exp]} with their optimiser state"

    # ---- contents of the folder
    ITEMS = ["own3", "own12", "own999", "own1000", "best", "foreign40", "foreignopt50", "legacy7", "junk", "otherdev60", "adopt70", "tmp99"]

    def contents(case, out):
        cls, items = case
        ref = Ref(torch, CLS[cls], "adam", 1)
        with T.scratch() as d:
            folder = d
            st = {}

            def put(C, k, opt="adam", dev="_device_cpu", seed=0, only=None):
                m = C(seed)
                o = T.OPTS[opt](torch, m.parameters())
                x = torch.ones(2, 2, dtype=torch.float64)
                T.step(m, o, (x, x[:, :1]))
                s = f"{k:03d}" if isinstance(k, int) else k
                if only != "opt":
                    torch.save((k, m.state_dict()), folder / f"model_{C.__name__}_ckpt_{s}{dev}.pt")
                torch.save((k, type(o), o.state_dict()), folder / f"opt_{type(o).__name__}_ckpt_{s}{dev}.pt")
                return T.state(m, o)
            for i, it in enumerate(items):
                if it.startswith("own"):
                    m = ref.cls(i)
                    o = T.OPTS["adam"](torch, m.parameters())
                    x = torch.ones(2, 2, dtype=torch.float64) * (i + 1)
                    T.step(m, o, (x, x[:, :1]))
                    write_checkpoint(folder, m, o, int(it[3:]))
                    st[int(it[3:])] = T.state(m, o)
                elif it == "best":
                    m = ref.cls(i)
                    o = T.OPTS["adam"](torch, m.parameters())
                    x = torch.ones(2, 2, dtype=torch.float64) * (i + 1)
                    T.step(m, o, (x, x[:, :1]))
                    write_checkpoint(folder, m, o, "best")
                    st["best"] = T.state(m, o)
                elif it == "legacy7":
                    st[7] = put(ref.cls, 7, dev="", seed=i)
                elif it == "foreign40":
                    put(CLS["Other"], 40, opt="adam" if "own3" not in items else "rms", seed=i)
                elif it == "adopt70":
                    put(CLS["Adopt" if cls == "Lin" else "Lin"], 70, opt="rms", seed=i)
                elif it == "foreignopt50":
                    put(ref.cls, 50, opt="sgd", seed=i, only="opt")
                elif it == "otherdev60":
                    put(ref.cls, 60, opt="rms", dev="_device_cuda", seed=i)
                elif it == "junk":
                    (folder / "notes.txt").write_text("model_Lin_ckpt_999_device_cpu")
                    (folder / "sub").mkdir()
                elif it == "tmp99":
                    (folder / f"model_{cls}_ckpt_099_device_cpu.pt.tmp").write_bytes(b"\0\1")
            nums = [k for k in st if k != "best"]
            want = max(nums) if nums else ("best" if "best" in st else None)
            if want is None and "otherdev60" in items:
                return None        # only files of another device: unspecified
            if want == "best" and "otherdev60" in items:
                return None
            m = ref.cls(90)
            o = T.OPTS["adam"](torch, m.parameters())
            init = T.state(m, o)
            m2, o2, it = load_checkpoint(folder, m, o)
            out.step()
            if m2 is not m:
                return "another model object is returned"
            got = T.state(m2, o2)
            out.feed(it)
            if it != (want if want is not None else 0):
                return f"iteration {it} instead of {want}"
            s = st.get(want, init)
            if not T.same(got[0], s[0]):
                return f"parameters of {want} not restored: {got[0]} instead of {s[0]}"
            if not T.same(got[1], s[1]):
                return f"optimiser state of {want} not restored"
        return None

    # ---- kinds of models
    def qmodels(kind, seed):
        torch.manual_seed(seed)
        f = FeatureParameter("x")
        th, om = VariationalParameter("th", value=0.2 + seed), VariationalParameter("om", value=-0.4 * (seed + 1))
        c = QuantumCircuit(2, chain(RX(0, f), RX(1, 2 * f * th), RZ(0, om), CNOT(0, 1), RX(0, th)))
        if kind == "QM":
            return QuantumModel(c, observable=[Z(0), X(1)])
        if kind == "QM1":
            return QuantumModel(c, observable=Z(0))
        if kind == "QNN":
            return QNN(c, observable=[Z(0) + X(1)])
        if kind == "QNNobs":
            return QNN(c, observable=VariationalParameter("w", value=0.7 + seed) * Z(0))
        if kind == "QNNgpsr":
            return QNN(c, observable=Z(0), diff_mode="gpsr")
        if kind == "hea":
            return QNN(QuantumCircuit(2, chain(RX(0, f), hea(2, 1))), observable=Z(0))
        return torch.nn.Sequential(QNN(c, observable=[Z(0), X(1)]), torch.nn.Linear(2, 1, dtype=torch.float64))

    def ev(m):
        x = torch.tensor([[0.3], [0.9]], dtype=torch.float64)
        return m.expectation({"x": x[:, 0]}) if isinstance(m, QuantumModel) else m(x)

    def kinds(case, out):
        kind, opt, its = case
        with T.scratch() as d:
            m = qmodels(kind, 0)
            o = T.OPTS[opt](torch, m.parameters())
            snaps = {}
            for it in its:
                o.zero_grad()
                (ev(m) ** 2).sum().backward()
                o.step()
                write_checkpoint(d, m, o, it)
                snaps[it] = (ev(m).detach().clone(), get_parameters(m).detach().clone(), copy.deepcopy(o.state_dict()))
            for it in list(its) + [None]:
                m2 = qmodels(kind, 3)
                o2 = T.OPTS[opt](torch, m2.parameters())
                a = () if it is None else tuple(f"{p}_{type(z).__name__}_ckpt_{it:03d}_device_cpu.pt" for p, z in (("model", m), ("opt", o)))
                m3, o3, k = load_checkpoint(d, m2, o2, *a)
                w = max(its) if it is None else it
                out.step()
                out.feed(snaps[w][0])
                if k != w:
                    return f"iteration {k} instead of {w}"
                if not T.same(get_parameters(m3), snaps[w][1]):
                    return f"{kind}: parameters of {w} not restored: {get_parameters(m3)} instead of {snaps[w][1]}"
                if not T.same(ev(m3), snaps[w][0], 1e-9):
                    return f"{kind}: the restored model computes {ev(m3)} instead of {snaps[w][0]}"
                if not T.same(o3.state_dict()["state"], snaps[w][2]["state"]):
                    return "optimiser state not restored"
            if kind in ("QM", "QM1", "QNN", "QNNobs", "QNNgpsr", "hea"):
                C = QNN if kind.startswith(("QNN", "hea")) else QuantumModel
                for p in (d, str(d), d / f"model_{C.__name__}_ckpt_{max(its):03d}_device_cpu.pt"):
                    m4 = C.load(p, True)
                    out.step()
                    if not T.same(ev(m4), snaps[max(its)][0], 1e-9):
                        return f"{kind}: model loaded from {p} computes {ev(m4)} instead of {snaps[max(its)][0]}"
        return None

    def params(case, out):
        shapes, mask = case
        m = torch.nn.Module()
        for i, s in enumerate(shapes):
            n = 1
            for k in s:
                n *= k
            m.register_parameter(f"p{i}", torch.nn.Parameter(torch.arange(n, dtype=torch.float64).reshape(s) + 10 * i, requires_grad=bool(mask[i])))
        if not any(mask):
            return None
        before = {k: v.detach().clone() for k, v in m.named_parameters()}
        v = get_parameters(m)
        ref = torch.cat([before[f"p{i}"].reshape(-1) for i in range(len(shapes)) if mask[i]])
        out.step(2)
        if not T.same(v.detach(), ref) or num_parameters(m) != len(ref):
            return f"get_parameters gives {v} instead of {ref}"
        new = -torch.arange(1, len(ref) + 1, dtype=torch.float64)
        keep = new.clone()
        set_parameters(m, new)
        if not T.same(new, keep):
            return "set_parameters changed the caller's vector"
        pos = 0
        for i, s in enumerate(shapes):
            p = getattr(m, f"p{i}")
            n = p.numel()
            w = new[pos:pos + n].reshape(s) if mask[i] else before[f"p{i}"]
            pos += n if mask[i] else 0
            if not T.same(p.detach(), w) or bool(p.requires_grad) != bool(mask[i]):
                return f"parameter {i} is {p} instead of {w}"
        set_parameters(m, v.detach())
        if not T.same(get_parameters(m).detach(), v.detach()):
            return "get/set is not a round trip"
        return None

    # ---- gradient free
    def gradfree(case, out):
        name, mx, ck, mx2 = case
        xs = T.data(1)
        with T.scratch() as d:
            def mkt(seed, mxx, rec):
                m = CLS["Lin"](seed)
                o = ng.optimizers.registry[name](budget=50, parametrization=num_parameters(m))
                o.parametrization.random_state.seed(3)
                from qadence.ml_tools.callbacks import Callback

                def cb(trainer, config, writer):
                    rec[trainer.current_epoch] = (get_parameters(trainer.model).detach().clone(), trainer.optimizer.num_ask, trainer.optimizer.num_tell)
                c = TrainConfig(log_folder=d / "log", max_iter=mxx, checkpoint_every=ck, verbose=False,
                                callbacks=[Callback(on="train_epoch_end", called_every=1, callback=cb)])
                tr = Trainer(m, None, c, T.mse, to_dataloader(*xs, batch_size=T.BATCH))
                return tr, o
            rec = {}
            tr, o = mkt(0, mx, rec)
            with tr.disable_grad_opt(o):
                tr.fit()
            ks = sorted(set(e for e in range(1, mx + 1) if e % ck == 0) | {mx})
            for k in ks:
                if k not in rec:
                    continue
                m = CLS["Lin"](9)
                o2 = ng.optimizers.registry[name](budget=50, parametrization=num_parameters(m))
                on = type(o).__name__
                m2, o3, it = load_checkpoint(d / "log", m, o2, f"model_Lin_ckpt_{k:03d}_device_cpu.pt", f"opt_{on}_ckpt_{k:03d}_device_cpu.pt")
                out.step()
                if it != k or not T.same(get_parameters(m2).detach(), rec[k][0]):
                    return f"checkpoint {k}: iteration {it}, parameters {get_parameters(m2)} instead of {rec[k][0]}"
                if (o3.num_ask, o3.num_tell) != rec[k][1:]:
                    return f"checkpoint {k}: optimiser has (ask, tell)={(o3.num_ask, o3.num_tell)} instead of {rec[k][1:]}"
            rec2 = {}
            first = []
            tr2, o4 = mkt(5, mx2, rec2)

            def loss(model, batch):
                if not first:
                    first.append(get_parameters(model).detach().clone())
                return T.mse(model, batch)
            tr2.loss_fn = loss
            with tr2.disable_grad_opt(o4):
                tr2.fit()
            last = max(ks)
            if last in rec and not T.same(first[0], rec[last][0]):
                return f"the resumed run starts from {first[0]} instead of {rec[last][0]}"
            if tr2.current_epoch != last + mx2:
                return f"the resumed run ended at {tr2.current_epoch} instead of {last + mx2}"
            return None

    # ---- folders of runs
    def folders(case, out):
        """sequence of fits; every run writes to its own folder and leaves the others alone."""
        import datetime as dt
        import qadence.ml_tools.train_utils.config_manager as CM

        class FD(dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls(2024, 1, 2, 3, 4, 5)
        fake = mock.MagicMock(wraps=dt)
        fake.datetime = FD
        ctx = mock.patch.object(CM, "datetime", fake) if hasattr(CM, "datetime") else T.contextlib.nullcontext()
        with T.scratch() as d, ctx:
            seen = {}
            cfgs = {}
            def snap(p):
                return {f: (p / f).read_bytes() for f in sorted(os.listdir(p)) if f.endswith(".pt")}
            for i, (ident, sub) in enumerate(case):
                if ident not in cfgs:
                    kw = dict(log_folder=d / "fixed") if sub == "log" else dict(root_folder=d / "root", create_subfolder_per_run=sub == "sub")
                    cfgs[ident] = (TrainConfig(max_iter=1, checkpoint_every=1, verbose=False, **kw), sub)
                c, sub = cfgs[ident]
                known = {p: snap(p) for p in seen}
                m = CLS["Lin"](i)
                o = T.OPTS["adam"](torch, m.parameters())
                tr = Trainer(m, o, c, T.mse, to_dataloader(*T.data(1), batch_size=T.BATCH))
                with tr.enable_grad_opt():
                    tr.fit()
                out.step()
                lf = Path(tr.config.log_folder).resolve()
                prev = seen.get(lf)
                if prev is not None and not (sub == "log" or (sub == "one" and prev == ident)):
                    return f"run {i} ({ident}, {sub}) shares the folder of run of {prev}"
                seen[lf] = ident
                for p, s in known.items():
                    if p != lf and snap(p) != s:
                        return f"run {i} changed the files of another run"
                if sub == "log" and lf != (d / "fixed").resolve() or sub != "log" and lf.parent != (d / "root").resolve():
                    return f"run {i} logs to {lf}"
                exp = 1 if prev is None else 1 + max(int(f.split("_ckpt_")[1][:3]) for f in known[lf])
                if tr.current_epoch != exp:
                    return f"run {i} ended at epoch {tr.current_epoch} instead of {exp}"
                m2 = CLS["Lin"](33)
                load_checkpoint(lf, m2, T.OPTS["adam"](torch, m2.parameters()))
                if not T.same(dict(m2.state_dict()), dict(m.state_dict())):
                    return f"run {i}: its folder does not hold its model"
        return None

    chk = Check("P17", "bounded exhaustive enumeration of training histories, interruption points and folder contents",
                "each training run, interruption or folder content is replayed on the real Trainer and on a plain loop with a dictionary of snapshots")
    sched = [("Lin", o, nb, ((mx, ck, ve, be),)) for o in (("adam", "sgd", "rms", "lbfgs") if THOROUGH else ("adam", "lbfgs")) for nb in (1, 2)
             for mx in range(6 if THOROUGH else 5) for ck in range(4) for ve in range(3) for be in (0, 1) if not (be and not ve)]
    chk.family("schedule", sched, history)
    hist = [("Lin", "adam", 1, h) for h in product(RUNS, repeat=2)]
    hist += [("Lin", "sgd", 2, h) for h in product(RUNS[:6] + RUNS[7:8], repeat=3 if THOROUGH else 2)]
    hist += [("Adopt", "adam", 1, h) for h in product(RUNS[:: (1 if THOROUGH else 2)], repeat=3)]
    chk.family("resume", hist, history)
    intr = []
    for kind in ("kill", "int"):
        for nb, cfg in product((1, 2), RUNS):
            for p in range((cfg[0] + 1) * nb):
                for nxt in RUNS[1:4] + RUNS[7:8] + RUNS[10:11]:
                    intr.append(("Lin", "adam", nb, ((cfg, p, kind), nxt)))
    for cfg, c2 in product(RUNS[2:4] + RUNS[7:8], repeat=2):
        for kind in ("kill", "int"):
            for p, q in product(range(3), range(3)):
                intr.append(("Lin", "sgd", 1, ((cfg, p, kind), (c2, q, kind), (2, 1, 0, 0))))
    chk.family("interrupted", intr, history)
    pres = ((), (RUNS[2],), (RUNS[3],), (RUNS[4], RUNS[1]), (RUNS[10],))
    tc, ow = [], []
    for o, pre, cfg in product(("adam", "sgd"), pres, (RUNS[2], RUNS[3], RUNS[7], RUNS[10])):
        ref = Ref(torch, CLS["Lin"], o, 1)
        for r in pre:
            ref.run(r)
        order, orig = [], ref.save

        def rec(k, m, o2, order=order, orig=orig, ref=ref):
            order.append(k in ref.files)
            orig(k, m, o2)
        ref.save = rec
        ref.run(cfg)
        tc += [(o, pre, cfg, at, how) for at in range(2 * len(order)) for how in ("before", "empty", "half", "after")]
        for i, over in enumerate(order):
            tc += [(o, pre, cfg, 2 * i, "rename")]
            (ow if over else tc).append((o, pre, cfg, 2 * i + 1, "rename"))
    chk.family("torn", tc, torn)
    # the process dies after one of the two files of a checkpoint has been replaced and before the other one is
    chk.family("torn_overwrite", ow, torn)
    k = len(ITEMS) if THOROUGH else 4
    chk.family("folder_contents", [(c, s) for c in ("Lin", "Adopt") for n in range(k + 1) for s in combinations(ITEMS, n)], contents)
    chk.family("model_kinds", [(m, o, its) for m in ("QM", "QM1", "QNN", "QNNobs", "QNNgpsr", "hea", "hybrid") for o in ("adam", "sgd")
                               for its in ((1,), (1, 2), (9, 10, 11), (99, 100, 998, 1000))], kinds)
    shp = [(), (1,), (3,), (2, 2), (1, 3)]
    chk.family("parameter_vectors", [(s, mk) for n in (1, 2, 3) for s in product(shp, repeat=n) for mk in product((0, 1), repeat=n)], params)
    chk.family("gradient_free", [(n, mx, ck, m2) for n in ("OnePlusOne", "CMA", "DE", "NGOpt") for mx in (1, 2, 3) for ck in (1, 2) for m2 in (0, 1, 2)], gradfree)
    fc = [("a", "sub"), ("b", "sub"), ("c", "one"), ("d", "one"), ("e", "log"), ("f", "log")]
    chk.family("run_folders", [h for n in (1, 2, 3) for h in product(fc, repeat=n)], folders)
    return chk



guard_main(("P17", make))
