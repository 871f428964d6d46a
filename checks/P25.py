"""P25: training performs every step, evaluation, hook, callback and report exactly when scheduled."""
import logging
import math
import os
from itertools import product

from lib import train as T
from lib.harness import Check, guard_main, THOROUGH

STAGES = ["train_start", "train_end", "train_epoch_start", "train_epoch_end", "train_batch_start", "train_batch_end",
          "val_epoch_start", "val_epoch_end", "val_batch_start", "val_batch_end", "test_batch_start", "test_batch_end"]


Sched, fires = T.Sched, T.fires


def make():
    import nevergrad as ng
    import torch
    from qadence.ml_tools import TrainConfig, Trainer
    from qadence.ml_tools.callbacks import Callback
    import qadence.ml_tools.callbacks as CB
    from qadence.ml_tools.data import DictDataLoader, to_dataloader
    from qadence.ml_tools.parameters import get_parameters, num_parameters, set_parameters
    from torch.utils.data import DataLoader, TensorDataset

    logging.getLogger("ml_tools").setLevel(logging.CRITICAL)
    logging.getLogger("qadence").setLevel(logging.CRITICAL)
    Lin = T.models()["Lin"]

    class Writer:
        """records what is reported."""

        def __init__(self):
            self.log = []

        def open(self, config, iteration=None):
            self.log.append(("open", iteration))

        def close(self):
            self.log.append(("close",))

        def write(self, iteration, metrics):
            self.log.append(("write", iteration, {k: float(v) for k, v in metrics.items()}))

        def print_metrics(self, result):
            self.log.append(("print", result.iteration, {k: float(v) for k, v in result.metrics.items()}))

        def plot(self, model, iteration, fns):
            self.log.append(("plot", iteration, {}))

        def log_hyperparams(self, h):
            self.log.append(("hyper", None, dict(h)))

        def log_model(self, model, *a):
            self.log.append(("model", None, {}))

    class Rec(Trainer):
        def __init__(self, *a, **kw):
            self.hooks = []
            super().__init__(*a, **kw)

        def on_train_start(self):
            self.hooks.append(("train_start", None))

        def on_train_end(self, tl, vl=None):
            self.hooks.append(("train_end", (tl, vl)))

        def on_train_epoch_start(self):
            self.hooks.append(("train_epoch_start", self.current_epoch))

        def on_train_epoch_end(self, x):
            self.hooks.append(("train_epoch_end", x))

        def on_val_epoch_start(self):
            self.hooks.append(("val_epoch_start", None))

        def on_val_epoch_end(self, x):
            self.hooks.append(("val_epoch_end", x))

        def on_train_batch_start(self, b):
            self.hooks.append(("train_batch_start", b))

        def on_train_batch_end(self, x):
            self.hooks.append(("train_batch_end", x))

        def on_val_batch_start(self, b):
            self.hooks.append(("val_batch_start", b))

        def on_val_batch_end(self, x):
            self.hooks.append(("val_batch_end", x))

        def on_test_batch_start(self, b):
            self.hooks.append(("test_batch_start", b))

        def on_test_batch_end(self, x):
            self.hooks.append(("test_batch_end", x))

    def split(x, y, size, limit=None):
        bs = [(x[i:i + size], y[i:i + size]) for i in range(0, len(x), size)]
        return bs[:limit] if limit is not None else bs

    def loaders(kind, n, limit, shift=0.0):
        """(dataloader, list of the batches an epoch sees)."""
        x, y = T.data(max(n, 1), shift)
        if kind == "finite":
            return to_dataloader(x, y, batch_size=T.BATCH), split(x, y, T.BATCH, limit)
        if kind == "ragged":
            x, y = x[:-1], y[:-1]
            return to_dataloader(x, y, batch_size=T.BATCH), split(x, y, T.BATCH, limit)
        if kind == "torch":
            return DataLoader(TensorDataset(x, y), batch_size=T.BATCH), split(x, y, T.BATCH, limit)
        if kind == "one":      # batches of a single sample
            return to_dataloader(x, y, batch_size=1), split(x, y, 1, limit)
        if kind == "infinite":     # one batch per epoch with all samples, in any order
            return to_dataloader(x, y, batch_size=len(x), infinite=True), [(x, y)]
        if kind == "dict":
            dl = DictDataLoader({"a": to_dataloader(x, y, batch_size=T.BATCH), "b": to_dataloader(-x, 2 * y, batch_size=T.BATCH)})
            return dl, [{"a": p, "b": q} for p, q in zip(split(x, y, T.BATCH, limit), split(-x, 2 * y, T.BATCH, limit))]
        return None, [None]

    def mse(model, batch):
        if batch is None:
            z = torch.ones(2, 2, dtype=torch.float64)
            return T.mse0(model, (z, z[:, :1] / 3))
        if isinstance(batch, dict):
            (l1, m1), (l2, m2) = T.mse0(model, batch["a"]), T.mse0(model, batch["b"])
            return l1 + l2, {"mae": m1["mae"] + m2["mae"]}
        return T.mse0(model, batch)

    if not hasattr(T, "mse0"):
        T.mse0 = T.mse
    T.mse = mse
    T.step.__defaults__ = (mse,)

    def run_pair(cfg, out, gf_name=None, builtin=(), optname="adam", trainer=None, start=0):
        """train with the real trainer and with the reference; returns both."""
        tl, tb = loaders(cfg["data"], cfg["nb"], cfg["mb"])
        vl, vb = loaders(cfg.get("vdata", "finite"), cfg["nv"], cfg["mb"], 0.25) if cfg["ve"] else (None, None)
        m, rm = Lin(0), Lin(0)
        seen, batches = [], []

        def loss(model, batch):
            batches.append((model.training, torch.is_grad_enabled()))
            return mse(model, batch)

        def mk(stage):
            def cb(tr, config, writer):
                r = tr.opt_result
                seen.append((stage, (r.iteration, r.loss, dict(r.metrics)), {k: v.detach().clone() for k, v in tr.model.state_dict().items()}))
            return Callback(on=stage, called_every=cfg["p"], callback=cb)
        c = TrainConfig(log_folder="log", max_iter=cfg["mx"], val_every=cfg["ve"], verbose=bool(cfg.get("verbose", 0)),
                        checkpoint_every=cfg.get("ck", 0), write_every=cfg.get("we", 0), print_every=cfg.get("pe", 0),
                        plot_every=cfg.get("pl", 0), hyperparams=cfg.get("hyper", {}), log_model=cfg.get("lm", False),
                        callbacks=[mk(s) for s in STAGES] + list(builtin))
        w = Writer()
        gf = None
        if gf_name:
            def mkng():
                o = ng.optimizers.registry[gf_name](budget=100, parametrization=num_parameters(m))
                o.parametrization.random_state.seed(7)
                return o
            o, ro = mkng(), mkng()
            st = {"p": ng.p.Array(init=get_parameters(rm).detach().numpy().copy())}
            ro.budget = cfg["mx"]
            ro.enable_pickling()

            def gf(s, b):
                with torch.no_grad():
                    l, met = mse(s.m, b)
                ro.tell(st["p"], float(l))
                st["p"] = ro.ask()
                set_parameters(s.m, torch.tensor(st["p"].value))
                return l, met
        else:
            o, ro = T.OPTS[optname](torch, m.parameters()), T.OPTS[optname](torch, rm.parameters())
        tr = Rec(m, None if gf_name else o, c, loss, train_dataloader=tl, val_dataloader=vl, max_batches=cfg["mb"])
        tr.callback_manager.writer = w
        ctx = tr.disable_grad_opt(o) if gf_name else tr.enable_grad_opt()
        with ctx:
            ret = tr.fit()
        ref = Sched(torch, rm, ro, tb, vb, cfg, start, gf)
        return tr, ret, ref, seen, w, batches

    def cmp_trace(got, want, tol=1e-9):
        for i, (g, r) in enumerate(zip(got, want)):
            if g[0] != r[0]:
                return f"event {i} is {g[0]} (iteration {g[1][0]}) instead of {r[0]} (iteration {r[1][0]})"
            if g[1][0] != r[1][0]:
                return f"event {i} {g[0]}: iteration {g[1][0]} instead of {r[1][0]}"
            if (g[1][1] is None) != (r[1][1] is None) or r[1][1] is not None and not T.same(g[1][1], r[1][1], tol):
                return f"event {i} {g[0]} iteration {r[1][0]}: reports loss {g[1][1]} instead of {r[1][1]}"
            if not T.same(g[1][2], r[1][2], tol):
                return f"event {i} {g[0]} iteration {r[1][0]}: reports metrics {g[1][2]} instead of {r[1][2]}"
            if not T.same(g[2], r[2], tol):
                return f"event {i} {g[0]} iteration {r[1][0]}: parameters {g[2]} instead of {r[2]}"
        if len(got) != len(want):
            return f"{len(got)} callback events instead of {len(want)}: {[(g[0], g[1][0]) for g in got][:40]}"
        return None

    def cmp_hooks(tr, ref, tol=1e-9):
        want = []
        for stage, res, _ in ref.trace:
            want.append(stage)
        # the initial validation has no epoch hooks; hooks at batch level are always called
        exp = []
        init = bool(ref.ve)
        for s in want:
            if s.startswith("val_epoch") and init:
                if s == "val_epoch_end":
                    init = False
                continue
            exp.append(s)
        got = [h[0] for h in tr.hooks]
        def canon(xs):
            return sorted(xs)
        if canon(got) != canon(exp):
            return f"hooks {got} instead of {exp}"
        batches = [h[1] for h in tr.hooks if h[0] == "train_batch_start"]
        rb = [b for _ in ref.train_losses for b in ref.b]
        for g, r in zip(batches, rb):
            if r is None:
                if g is not None:
                    return "a batch appears from nowhere"
            elif isinstance(r, dict):
                if not all(T.same(list(g[k]), list(r[k])) for k in r):
                    return "a training hook saw another batch"
            elif not T.same(sorted(map(str, torch.cat(list(g), -1).tolist())), sorted(map(str, torch.cat(list(r), -1).tolist()))):
                return f"a training hook saw another batch: {g} instead of {r}"
        end = [h[1] for h in tr.hooks if h[0] == "train_end"]
        if len(end) != 1 or not T.same([list(e) for e in end[0][0]], ref.train_losses, tol):
            return f"training losses {end[0][0]} instead of {ref.train_losses}"
        if not T.same([list(e) for e in end[0][1]], ref.val_losses, tol):
            return f"validation losses {end[0][1]} instead of {ref.val_losses}"
        return None

    def train(case, out):
        cfg, gf, optname = dict(case[0]), case[1], case[2]
        with T.scratch():
            tr, ret, ref, seen, w, modes = run_pair(cfg, out, gf, optname=optname)
            ref.run()
            out.step(len(ref.trace))
            out.feed(*[s[0] for s in seen])
            want = [e for e in ref.trace if fires(e[0], e[1][0], cfg["p"])]
            msg = cmp_trace(seen, want) or cmp_hooks(tr, ref)
            if msg:
                return msg
            if ret[0] is not tr.model or not T.same(dict(ret[0].state_dict()), dict(ref.m.state_dict()), 1e-9):
                return f"fit returns {dict(ret[0].state_dict())} instead of {dict(ref.m.state_dict())}"
            n_train = sum(1 for e in ref.trace if e[0] == "train_batch_end")
            n_val = sum(1 for e in ref.trace if e[0] == "val_batch_end")
            if optname != "lbfgs" and sum(a for a, _ in modes) != n_train or sum(not a for a, _ in modes) != n_val:
                return f"loss evaluated {sum(a for a, _ in modes)} times in training mode and {sum(not a for a, _ in modes)} in evaluation mode, expected {n_train} and {n_val}"
            if any(g for a, g in modes if not a):
                return "validation tracks gradients"
            if tr.training_stage != "idle":
                return f"stage after training is {tr.training_stage}"
        return None

    def reports(case, out):
        cfg = dict(case)
        with T.scratch():
            tr, ret, ref, seen, w, _ = run_pair(cfg, out)
            ref.run()
            exp = [("open", 0)]
            def met(res):
                return {k: float(v) for k, v in res[2].items()}
            init = bool(cfg["ve"])
            for stage, res, _ in ref.trace:
                it = res[0]
                if stage == "train_start":
                    exp.append(("plot", it, {}))
                    if cfg["ve"]:
                        exp.append(("write", it, met(res)))
                elif stage == "train_epoch_end":
                    if cfg.get("verbose") and fires(stage, it, cfg.get("pe", 0)):
                        exp.append(("print", it, met(res)))
                    if fires(stage, it, cfg.get("pl", 0)):
                        exp.append(("plot", it, {}))
                    if fires(stage, it, cfg.get("we", 0)):
                        exp.append(("write", it, met(res)))
                elif stage == "val_epoch_end" and fires(stage, it, cfg["ve"]):
                    exp.append(("write", it, met(res)))
                elif stage == "train_end":
                    if cfg.get("hyper"):
                        exp.append(("hyper", None, dict(cfg["hyper"])))
                    if cfg.get("lm"):
                        exp.append(("model", None, {}))
                    if cfg.get("pl"):
                        exp.append(("plot", it, {}))
                    if cfg.get("we"):
                        exp.append(("write", it, met(res)))
            exp.append(("close",))
            out.step(len(exp))
            out.feed(*[(e[0],) + e[1:2] for e in exp])
            if len(w.log) != len(exp):
                return f"reports {[x[:2] for x in w.log]} instead of {[x[:2] for x in exp]}"
            for g, r in zip(w.log, exp):
                if g[:2] != r[:2] or len(r) > 2 and not T.same(g[2], r[2], 1e-9):
                    return f"reports {g} instead of {r}"
        return None

    def testing(case, out):
        """Trainer.test: default and given test data, before or after training, does not change the model."""
        where, kind, nt, ntr, mb, fit = case
        with T.scratch():
            tl, _ = loaders("finite", ntr, mb)
            dl, tb = loaders(kind, nt, mb, -0.4)
            other, ob = loaders("finite", 1, mb, 0.7)
            m = Lin(0)
            o = T.OPTS["adam"](torch, m.parameters())
            modes = []

            def loss(model, batch):
                modes.append((model.training, torch.is_grad_enabled()))
                return mse(model, batch)
            tr = Rec(m, o, TrainConfig(log_folder="log", max_iter=1, verbose=False), loss, tl,
                     test_dataloader=dl if where == "init" else (other if where == "override" else None), max_batches=mb)
            if fit:
                with tr.enable_grad_opt():
                    tr.fit()
            modes.clear()
            tr.hooks.clear()
            s = T.state(m, o)
            res = tr.test() if where == "init" else tr.test(dl)
            res2 = tr.test()
            with torch.no_grad():
                ref = [mse(m, b) for b in tb]
            out.step(len(ref))
            out.feed(*[r[0] for r in ref])
            exp = [(l, {"test_mae": q["mae"], "test_loss": l}) for l, q in ref]
            for r in (res, res2):
                if len(r) != len(exp):
                    return f"{len(r)} test batches instead of {len(exp)}"
                if not T.same([list(x) for x in r], [list(x) for x in exp], 1e-9):
                    return f"test reports {r} instead of {exp}"
            if not T.same(T.state(m, o), s):
                return "testing changed the model"
            if any(a or g for a, g in modes):
                return "testing runs in training mode or tracks gradients"
            if [h[0] for h in tr.hooks] != ["test_batch_start", "test_batch_end"] * 2 * len(exp):
                return f"test hooks {[h[0] for h in tr.hooks]}"
        return None

    def refit(case, out):
        """several fits with one trainer: later fits continue with the model, new data replace the old."""
        sub, ve, mxs, newdata = case
        with T.scratch() as d:
            tl, tb = loaders("finite", 2, None)
            vl, vb = loaders("finite", 1, None, 0.25)
            m, rm = Lin(0), Lin(0)
            o, ro = (T.OPTS["adam"](torch, x.parameters()) for x in (m, rm))
            seen = []

            def mk(stage):
                def cb(tr, config, writer):
                    r = tr.opt_result
                    seen.append((stage, (r.iteration, r.loss, dict(r.metrics)), {k: v.detach().clone() for k, v in tr.model.state_dict().items()}))
                return Callback(on=stage, called_every=1, callback=cb)
            kw = dict(root_folder=d / "root", create_subfolder_per_run=True) if sub else dict(log_folder=d / "log")
            c = TrainConfig(max_iter=mxs[0], val_every=ve, verbose=False, callbacks=[mk(s) for s in STAGES], **kw)
            tr = Rec(m, o, c, mse, tl, vl if ve else None)
            tr.callback_manager.writer = Writer()
            start = 0
            for i, mx in enumerate(mxs):
                seen.clear()
                c.max_iter = mx
                args = ()
                if newdata and i:
                    tl, tb = loaders("finite", 1 + i, None, 0.1 * i)
                    vl, vb = loaders("finite", 2, None, -0.1 * i)
                    args = (tl, vl if ve else None)
                with tr.enable_grad_opt():
                    tr.fit(*args)
                ref = Sched(torch, rm, ro, tb, vb, dict(mx=mx, ve=ve), start).run()
                out.step(len(ref.trace))
                msg = cmp_trace(seen, [e for e in ref.trace if fires(e[0], e[1][0], 1)])
                if msg:
                    return f"fit {i}: {msg}"
                if ve and not sub:
                    start = start if i else start     # the initial validation saves checkpoint 0 and the next fit starts from it
                    if i + 1 < len(mxs):
                        return None
            out.feed(*rm.state_dict().values())
        return None

    # ---- built-in callbacks
    def lr(case, out):
        kind, on, every, mx, nb, arg = case
        with T.scratch():
            lrs = []
            def rec(tr, config, writer):
                lrs.append((tr.opt_result.iteration, [g["lr"] for g in tr.optimizer.param_groups]))
            cls = {"step": CB.LRSchedulerStepDecay, "cyclic": CB.LRSchedulerCyclic, "cos": CB.LRSchedulerCosineAnnealing}[kind]
            kw = {"step": dict(gamma=arg), "cyclic": dict(base_lr=0.01, max_lr=0.11, step_size=arg), "cos": dict(t_max=arg, min_lr=0.01)}[kind]
            c = TrainConfig(log_folder="log", max_iter=mx, verbose=False,
                            callbacks=[cls(on=on, called_every=every, **kw), Callback(on=on, called_every=1, callback=rec)])
            m = Lin(0)
            o = torch.optim.SGD([{"params": [m.w], "lr": 0.2}, {"params": [m.b], "lr": 0.08}], lr=0.1)
            tl, tb = loaders("finite", nb, None)
            tr = Trainer(m, o, c, mse, tl)
            with tr.enable_grad_opt():
                tr.fit()
            cur, exp = [0.2, 0.08], []
            for e in range(mx + 1):
                for _ in range(nb if on == "train_batch_end" else 1):
                    if fires(on, e, every):
                        if kind == "step":
                            cur = [x * arg for x in cur]
                        elif kind == "cyclic":
                            x = (e / arg) % 2
                            cur = [0.01 + 0.1 * (x if x <= 1 else 2 - x)] * 2
                        else:
                            cur = [0.01 + (x0 - 0.01) * (1 + math.cos(math.pi * e / arg)) / 2 for x0 in (0.2, 0.08)]
                    if e:
                        exp.append((e, list(cur)))
            out.step(len(exp))
            out.feed(cur)
            if len(lrs) != len(exp):
                return f"{len(lrs)} events instead of {len(exp)}"
            for g, r in zip(lrs, exp):
                if g[0] != r[0] or not T.same(g[1], r[1], 1e-9):
                    return f"iteration {r[0]}: learning rates {g[1]} instead of {r[1]}"
        return None

    def early(case, out):
        on, every, mon, pat, mode, seq = case
        ve = 1 if on.startswith("val") else 0
        with T.scratch():
            m = Lin(0)
            vals = iter(seq)
            cur = [0.0]

            def loss(model, batch):
                l, _ = mse(model, batch)
                v = torch.tensor(float(cur[0]))
                return l, {"q": v}

            class Tr(Rec):
                def on_train_epoch_start(self):
                    cur[0] = seq[self.current_epoch] if self.current_epoch < len(seq) else seq[-1]
            tl, _ = loaders("finite", 1, None)
            vl, _ = loaders("finite", 1, None, 0.2)
            epochs = []
            c = TrainConfig(log_folder="log", max_iter=len(seq) - 1, verbose=False, val_every=ve, callbacks=[
                CB.EarlyStopping(on=on, called_every=every, monitor=mon, patience=pat, mode=mode),
                Callback(on="train_epoch_end", called_every=1, callback=lambda t, a, b: epochs.append(t.current_epoch))])
            tr = Tr(m, T.OPTS["sgd"](torch, m.parameters()), c, loss, tl, vl if ve else None)
            with tr.enable_grad_opt():
                tr.fit()
            best, cnt, last = None, 0, len(seq) - 1
            for e, v in enumerate(seq):
                if fires(on, e, every):
                    if best is None or (v < best if mode == "min" else v > best):
                        best, cnt = v, 0
                    else:
                        cnt += 1
                    if cnt >= pat:
                        last = e
                        break
            out.step(len(seq))
            out.feed(last)
            if tr.current_epoch != last or epochs != list(range(1, last + 1)):
                return f"training ran epochs {epochs}, expected to stop after epoch {last}"
        return None

    def builtin(case, out):
        """PrintMetrics / WriteMetrics / GradientMonitoring given by the user at any stage and period."""
        kind, on, every, mx, nb, ve = case
        with T.scratch():
            cls = {"print": CB.PrintMetrics, "write": CB.WriteMetrics, "grad": CB.GradientMonitoring, "plot": CB.PlotMetrics}[kind]
            cfg = dict(mx=mx, ve=ve, nb=nb, nv=2, mb=None, p=0, data="finite")
            grads = []
            cbs = [cls(on=on, called_every=every)]
            if kind == "grad":
                def rec(tr, config, writer):
                    grads.append({n: p.grad.clone() for n, p in tr.model.named_parameters() if p.grad is not None})
                cbs.append(Callback(on=on, called_every=every, callback=rec))
            tr, ret, ref, seen, w, _ = run_pair(cfg, out, builtin=cbs)
            ref.run()
            exp = []
            for stage, res, _ in ref.trace:
                if stage == on and fires(stage, res[0], every):
                    exp.append((res[0], {k: float(v) for k, v in res[2].items()}))
            name = {"print": "print", "write": "write", "grad": "write", "plot": "plot"}[kind]
            got = [x for x in w.log if x[0] == name]
            if kind == "write" and ve or kind == "grad" and ve:
                got = [x for x in got if kind == "grad" and not any("loss" in k for k in x[2]) or kind == "write"]
            if kind == "write" and ve:
                base = [(res[0], {k: float(v) for k, v in res[2].items()}) for stage, res, _ in ref.trace
                        if stage == "train_start" or stage == "val_epoch_end" and fires(stage, res[0], ve)]
                exp = sorted(exp + base, key=repr)
                got = sorted([x[1:] for x in got], key=repr)
            elif kind == "plot":
                exp = [(i, {}) for i, _ in exp] + [(0, {})]
                exp, got = sorted(exp, key=repr), sorted([x[1:] for x in got], key=repr)
            elif kind == "grad":
                got = [x[1:] for x in got]
                def st(g):
                    r = {}
                    for n, v in g.items():
                        r |= {n + "_mean": float(v.mean()), n + "_max": float(v.max()), n + "_min": float(v.min()), n + "_std": float(v.std())}
                    return {k: v for k, v in r.items() if v == v}
                got = [(i, {k: v for k, v in x.items() if v == v}) for i, x in got]
                exp = [(i, st(g)) for (i, _), g in zip(exp, grads)]
            else:
                got = [x[1:] for x in got]
            out.step(len(exp) + 1)
            out.feed(len(exp))
            if len(got) != len(exp):
                return f"{len(got)} reports {[(g[0]) for g in got]} instead of {len(exp)} {[e[0] for e in exp]}"
            for g, r in zip(got, exp):
                if g[0] != r[0] or not T.same(g[1], r[1], 1e-9):
                    return f"report {g} instead of {r}"
        return None

    def condition(case, out):
        """conditions and result modifiers of user callbacks."""
        every, thr, mod = case
        with T.scratch():
            got = []
            kw = {}
            if mod == "dict":
                kw["modify_optimize_result"] = {"note": 5}
            elif mod == "fn":
                def f(r):
                    r.extra["note"] = r.iteration * 2
                    return r
                kw["modify_optimize_result"] = f
            cb = Callback(on="train_epoch_end", called_every=every, callback=lambda t, c, w: got.append((t.opt_result.iteration, t.opt_result.extra.get("note"))),
                          callback_condition=lambda r: r.iteration > thr, **kw)
            m = Lin(0)
            tl, _ = loaders("finite", 1, None)
            tr = Trainer(m, T.OPTS["sgd"](torch, m.parameters()), TrainConfig(log_folder="log", max_iter=5, verbose=False, callbacks=[cb]), mse, tl)
            with tr.enable_grad_opt():
                tr.fit()
            exp = [(e, {"dict": 5, "fn": 2 * e, "none": None}[mod]) for e in range(6) if fires("train_epoch_end", e, every) and e > thr]
            out.step(6)
            out.feed(exp)
            return None if got == exp else f"callback ran at {got} instead of {exp}"

    def losses(case, out):
        """the losses selected by name, and what they report."""
        name, n, k = case
        from qadence.ml_tools.loss import get_loss_fn
        w = torch.tensor([[0.3, -0.7, 0.2][:k]] * 2, dtype=torch.float64) * torch.tensor([[1.0], [-2.0]], dtype=torch.float64)
        x = torch.stack([torch.linspace(-1, 1, n), torch.linspace(0.2, 0.7, n)], 1).to(torch.float64)
        lin = torch.nn.Linear(2, k, bias=False, dtype=torch.float64)
        with torch.no_grad():
            lin.weight.copy_(w.T)
        y = torch.sin(x @ w * 3)
        o = x @ w
        if name == "cross_entropy":
            t = torch.arange(n) % k
            ref = float(-(o.log_softmax(-1))[torch.arange(n), t].mean())
        else:
            t = y
            ref = float(((o - y) ** 2).sum() / y.numel())
        fn = get_loss_fn(None if name == "default" else name)
        l, met = fn(lin, (x, t))
        key = "cross_entropy" if name == "cross_entropy" else "mse"
        out.step()
        out.feed(ref)
        if abs(float(l) - ref) > 1e-9 or set(met) != {key} or abs(float(met[key]) - ref) > 1e-9:
            return f"loss {float(l)}, metrics {met} instead of {ref}"
        own = lambda m, b: (m(b).sum(), {})   # noqa: E731
        return None if get_loss_fn(own) is own else "a given loss function is replaced"

    chk = Check("P25", "every training configuration: the stream of callback events with iteration, loss, metrics and parameters, the hooks, the "
                "reports to the tracking tool and the returned model equal those of a plain reference loop; non-trivial = distinct event stream",
                bounds="up to 4 epochs after the first (6 thorough), up to 3 batches, all periods 0..3, all stages")
    M = 5 if THOROUGH else 4
    cs = []
    for mx, nb, ve, p in product(range(M), (1, 2, 3), (0, 1, 2, 3), (0, 1, 2, 3)):
        cs.append(((("mx", mx), ("nb", nb), ("nv", 2), ("mb", None), ("ve", ve), ("p", p), ("data", "finite")), None, "adam"))
    for data, mx, nb, mb, ve, p in product(("finite", "ragged", "torch", "one", "infinite", "dict", "none"), (0, 2), (1, 2, 3), (None, 1, 2), (0, 1), (1, 2)):
        cs.append(((("mx", mx), ("nb", nb), ("nv", 3), ("mb", mb), ("ve", ve), ("p", p), ("data", data)), None, "sgd"))
    for o in ("rms", "lbfgs"):
        for mx, nb, ve in product((1, 3), (1, 2), (0, 1, 2)):
            cs.append(((("mx", mx), ("nb", nb), ("nv", 1), ("mb", None), ("ve", ve), ("p", 1), ("data", "finite")), None, o))
    for vd in ("ragged", "torch", "one", "infinite", "dict"):
        for mx, nv, mb, ve in product((0, 2, 3), (1, 2, 3), (None, 2), (1, 2)):
            cs.append(((("mx", mx), ("nb", 2), ("nv", nv), ("mb", mb), ("ve", ve), ("p", 1), ("data", "finite"), ("vdata", vd)), None, "adam"))
    chk.family("schedule", cs, train)
    gfc = [((("mx", mx), ("nb", nb), ("nv", 2), ("mb", None), ("ve", ve), ("p", p), ("data", d)), g, "adam")
           for g in ("OnePlusOne", "CMA", "DE", "NGOpt") for mx, nb, ve, p in product((0, 1, 3), (1, 2), (0, 1, 2), (1, 2)) for d in ("finite", "dict")]
    chk.family("gradient_free", gfc, train)
    rc = [(("mx", mx), ("nb", 2), ("nv", 2), ("mb", None), ("ve", ve), ("p", 0), ("data", "finite"), ("we", we), ("pe", pe), ("pl", pl), ("verbose", vb))
          for mx, ve, we, pe, pl, vb in product((0, 1, 3), (0, 1, 2), (0, 1, 2), (0, 1, 2), (0, 2), (0, 1))]
    rc += [(("mx", 2), ("nb", 1), ("nv", 1), ("mb", None), ("ve", ve), ("p", 0), ("data", "finite"), ("we", we), ("hyper", (("a", 1),)), ("lm", lm), ("ck", ck))
           for ve, we, lm, ck in product((0, 1), (0, 1), (False, True), (0, 1))]
    rc = [tuple((k, dict(v) if k == "hyper" else v) for k, v in c) for c in rc]
    chk.family("reports", rc, reports)
    chk.family("testing", [(w, k, nt, ntr, mb, f) for w in ("init", "arg", "override") for k in ("finite", "ragged", "dict", "infinite")
                           for nt in (1, 2, 3) for ntr in (1, 2) for mb in (None, 1, 2) for f in (0, 1)], testing)
    chk.family("several_fits", [(s, ve, mxs, nd) for s in (0, 1) for ve in (0, 1, 2) for mxs in list(product((0, 1, 2), repeat=2)) + list(product((0, 2), repeat=3))
                                for nd in (0, 1)], refit)
    chk.family("learning_rate", [("step", on, ev, mx, nb, g) for on in ("train_epoch_end", "train_batch_end") for ev in (0, 1, 2, 3) for mx in (1, 4) for nb in (1, 2) for g in (0.5, 0.9)]
               + [(k, on, ev, mx, nb, s) for k in ("cyclic", "cos") for on in ("train_epoch_end", "train_batch_end") for ev in (1, 2) for mx in (4, 7) for nb in (1, 2) for s in (2, 3, 5)], lr)
    chk.family("early_stopping", [(on, ev, mon, pat, mode, seq) for on, mon in (("train_epoch_end", "train_q"), ("val_epoch_end", "val_q")) for ev in (1, 2) for pat in (1, 2, 3)
                                  for mode in ("min", "max") for seq in list(product((0, 1, 2), repeat=4 if not THOROUGH else 6)) + list(product((0, 1), repeat=6))], early)
    chk.family("user_callbacks", [(k, on, ev, mx, nb, ve) for k in ("print", "write", "grad", "plot") for on in STAGES[:10] for ev in (0, 1, 2) for mx in (1, 3) for nb in (1, 2)
                                  for ve in (0, 2) if not (on.startswith("val") and not ve)], builtin)
    chk.family("conditions", [(e, t, m) for e in (0, 1, 2, 3) for t in (-1, 1, 3) for m in ("none", "dict", "fn")], condition)
    chk.family("losses", [(n, k, d) for n in ("mse", "cross_entropy", "default") for k in (1, 2, 5) for d in (1, 2, 3)], losses)
    return chk


guard_main(("P25", make))
