"""P33: experiment logs and printed reports contain exactly what training measured, through interruptions too."""
import contextlib
import io
import logging
import os
import re
from itertools import combinations, product

from lib import train as T
from lib.harness import Check, guard_main, THOROUGH

CHARS = re.compile(r"P +(\d+)\|(\w+) *\| Iteration +(\d+)\| (.*)$")


class Crash(Exception):
    """the user's loss function fails."""


def make():
    import copy
    import glob
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import torch
    from tensorboard.backend.event_processing.event_file_loader import EventFileLoader
    from tensorboard.plugins.hparams import metadata as hmeta
    from tensorboard.util import tensor_util
    from qadence.ml_tools import TrainConfig, Trainer
    from qadence.ml_tools.data import OptimizeResult, to_dataloader
    from qadence.ml_tools.callbacks.writer_registry import get_writer
    from qadence.types import ExperimentTrackingTool as Tool

    for n in ("ml_tools", "qadence", "mlflow", "alembic"):
        logging.getLogger(n).setLevel(logging.CRITICAL)
    Lin = T.models()["Lin"]

    # ------------------------------------------------------------------ reading logs back
    def event_files(folder):
        return sorted(glob.glob(str(folder) + "/events.out.tfevents.*"), key=lambda p: int(p.rsplit(".", 1)[1]))

    def tb_timeline(folder):
        """what TensorBoard shows: scalars and images per tag, restarts supersede later steps."""
        sc, im = {}, {}
        for f in event_files(folder):
            for e in EventFileLoader(f).Load():
                if e.HasField("session_log") and e.session_log.status == 1:
                    for d in (sc, im):
                        for t in d:
                            d[t] = [x for x in d[t] if x[0] < e.step]
                for v in e.summary.value:
                    kind = v.metadata.plugin_data.plugin_name
                    if kind == "scalars":
                        sc.setdefault(v.tag, []).append((e.step, float(tensor_util.make_ndarray(v.tensor).reshape(-1)[0])))
                    elif kind == "images":
                        im.setdefault(v.tag, []).append((e.step, None))
        return {t: x for t, x in sc.items() if x}, {t: x for t, x in im.items() if x}

    def tb_hparams(folder):
        """hyperparameters of the runs below a folder."""
        res = []
        for sub in sorted(glob.glob(str(folder) + "/*/")):
            for f in event_files(sub.rstrip("/")):
                for e in EventFileLoader(f).Load():
                    for v in e.summary.value:
                        if v.tag == hmeta.SESSION_START_INFO_TAG:
                            h = hmeta.parse_session_start_info_plugin_data(v.metadata.plugin_data.content).hparams
                            res.append({k: getattr(x, x.WhichOneof("kind")) for k, x in h.items()})
        return res

    def close(a, b):
        return a == b or abs(a - b) <= 1e-6 * max(1.0, abs(b)) or a != a and b != b

    def cmp(got, want, what):
        if set(got) != set(want):
            return f"{what}: {sorted(got)} logged instead of {sorted(want)}"
        for t in want:
            g, w = got[t], want[t]
            if [s for s, _ in g] != [s for s, _ in w]:
                return f"{what} {t}: logged at iterations {[s for s, _ in g]} instead of {[s for s, _ in w]}"
            if any(y is not None and not close(x, y) for (_, x), (_, y) in zip(g, w)):
                return f"{what} {t}: logged {g} instead of {w}"
        return None

    @contextlib.contextmanager
    def environment(d, tool, named=True):
        keep = dict(os.environ)
        try:
            os.environ["MLFLOW_TRACKING_URI"] = f"file:{d}/ml"
            if named:
                os.environ["MLFLOW_EXPERIMENT_NAME"] = "exp"
            else:
                os.environ.pop("MLFLOW_EXPERIMENT_NAME", None)
            os.environ.pop("MLFLOW_EXPERIMENT_ID", None)
            os.environ.pop("MLFLOW_RUN_NAME", None)
            yield
        finally:
            if tool == "mlflow":
                import mlflow
                while mlflow.active_run():
                    mlflow.end_run()
            plt.close("all")
            os.environ.clear()
            os.environ.update(keep)

    def ml_runs(d, name="exp"):
        """runs in the order they were started: (status, params, metric histories, artifacts)."""
        import mlflow
        c = mlflow.MlflowClient(f"file:{d}/ml")
        e = c.get_experiment_by_name(name) if name else None
        ids = [e.experiment_id] if e else [] if name else [x.experiment_id for x in c.search_experiments()]
        res = []
        for r in sorted(c.search_runs(ids), key=lambda r: (r.info.start_time, 0)) if ids else ():
            h = {k: [(m.step, m.value) for m in c.get_metric_history(r.info.run_id, k)] for k in r.data.metrics}
            res.append((r.info.status, r.data.params, h, sorted(a.path for a in c.list_artifacts(r.info.run_id))))
        return res

    # ------------------------------------------------------------------ reference
    def events(ref, cfg, npf):
        """(writes, prints, plots) that the schedule of one session calls for."""
        W, P, F = [], [], []
        for stage, res, state in ref.trace:
            it = res[0]
            m = {k: float(v) for k, v in res[2].items()}
            if stage == "train_start":
                F += [(it, state)]
                if cfg["ve"]:
                    W.append((it, m))
            elif stage == "train_epoch_end":
                if T.fires(stage, it, cfg["pe"]):
                    P.append((it, m))
                if T.fires(stage, it, cfg["pl"]):
                    F.append((it, state))
                if T.fires(stage, it, cfg["we"]):
                    W.append((it, m))
            elif stage == "val_epoch_end" and T.fires(stage, it, cfg["ve"]):
                W.append((it, m))
            elif stage == "train_end":
                if cfg["pl"]:
                    F.append((it, state))
                if cfg["we"]:
                    W.append((it, m))
        return W, P, F if npf else []

    def timeline(writes, t=None):
        t = {} if t is None else t
        for it, m in writes:
            for k, v in m.items():
                t.setdefault(k, []).append((it, v))
        return t

    def parse(text):
        res = []
        for line in text.splitlines():
            m = CHARS.match(line)
            if m:
                vals = dict((k.lower(), float(v)) for k, v in re.findall(r"([\w.]+): (-?[\d.]+|nan|inf)", m.group(4)))
                res.append((int(m.group(3)), vals))
        return res

    def session(case, out):
        tool, cfg, npf, hist, hyper = case
        cfg = dict(cfg)
        x, y = T.data(2)
        vx, vy = T.data(1, 0.25)
        batches = [(x[i:i + 2], y[i:i + 2]) for i in (0, 2)]
        rm, ro, start = None, None, 0
        ckpts, shown, images, runs, figs = {}, {}, {}, [], []
        tr = None
        with T.scratch() as d, environment(d, tool):
            for n, (mx, how, crash) in enumerate(hist):
                # the trainer under test
                box = {}

                def loss(model, batch):
                    if box["arm"] is not None and model.training and tr.current_epoch == box["arm"]:
                        raise Crash()
                    return T.mse(model, batch)

                def pf(i):
                    def f(model, it):
                        figs.append((i, it, {k: v.detach().clone() for k, v in model.state_dict().items()}))
                        return f"plot{i}" if tool == "tensorboard" else f"plot{i}_{it}.png", plt.figure(figsize=(1, 1))
                    return f
                box["arm"] = crash
                if how == "new" or tr is None:
                    m = Lin(0)
                    o = T.OPTS["adam"](torch, m.parameters())
                    c = TrainConfig(max_iter=mx, tracking_tool=Tool(tool), val_every=cfg["ve"], write_every=cfg["we"], print_every=cfg["pe"],
                                    plot_every=cfg["pl"], checkpoint_every=cfg["ck"], hyperparams=dict(hyper), log_folder=d / "log",
                                    plotting_functions=tuple(pf(i) for i in range(npf)))
                    tr = Trainer(m, o, c, loss, to_dataloader(x, y, batch_size=2), to_dataloader(vx, vy, batch_size=2) if cfg["ve"] else None)
                else:
                    tr.config.max_iter = mx
                    tr.loss_fn = loss
                tr.config.max_iter = mx
                # reference: newest checkpoint, otherwise the model at hand
                if how == "new" or rm is None:
                    rm = Lin(0)
                    ro = T.OPTS["adam"](torch, rm.parameters())
                    start = 0
                if ckpts:
                    start = max(ckpts)
                    rm.load_state_dict(ckpts[start][0])
                    ro.load_state_dict(copy.deepcopy(ckpts[start][1]))
                epoch = [start - 1]

                def spy(s, stage):
                    if stage == "train_epoch_start":
                        epoch[0] += 1
                    it = s.res[0]
                    if stage == "train_batch_start" and epoch[0] == crash:
                        raise Crash()
                    if stage == "train_start" and cfg["ve"] or cfg["ck"] and (stage == "train_end" or stage == "train_epoch_end" and T.fires(stage, it, cfg["ck"])):
                        ckpts[it] = T.state(s.m, s.o)
                ref = T.Sched(torch, rm, ro, batches, [(vx, vy)], dict(mx=mx, ve=cfg["ve"]), start, None, spy)
                try:
                    ref.run()
                    fails = False
                except Crash:
                    fails = True
                W, P, F = events(ref, cfg, npf)
                for t in (shown, images):      # what is repeated supersedes what an earlier session logged
                    for k in t:
                        t[k] = [e for e in t[k] if e[0] < start]
                timeline(W, shown)
                for it, _ in F:
                    for i in range(npf):
                        images.setdefault(f"plot{i}", []).append((it, None))
                runs.append((timeline(W), fails, F))
                figs.clear()
                text = io.StringIO()
                with contextlib.redirect_stdout(text), tr.enable_grad_opt():
                    try:
                        tr.fit()
                        failed = False
                    except Crash:
                        failed = True
                out.step(len(ref.trace))
                if failed != fails:
                    return f"session {n}: {'failed' if failed else 'ended'} unexpectedly"
                # printed
                got = parse(text.getvalue())
                if [g[0] for g in got] != [p[0] for p in P]:
                    return f"session {n}: printed iterations {[g[0] for g in got]} instead of {[p[0] for p in P]}"
                for (it, g), (_, w) in zip(got, P):
                    if set(g) != {k.lower() for k in w} or any(abs(g[k.lower()] - w[k]) > 1e-6 for k in w):
                        return f"session {n} iteration {it}: printed {g} instead of {w}"
                # plotted
                if [(i, it) for i, it, _ in figs] != [(i, it) for it, _ in F for i in range(npf)]:
                    return f"session {n}: plots {[(i, it) for i, it, _ in figs]} instead of {[(i, it) for it, _ in F for i in range(npf)]}"
                if not all(T.same(a[2], b, 1e-9) for a, b in zip(figs, [s for _, s in F for _ in range(npf)])):
                    return f"session {n}: a plot saw another model"
                # logged, as it stands right after the session
                if tool == "tensorboard":
                    sc, im = tb_timeline(d / "log")
                    msg = cmp(sc, {k: v for k, v in shown.items() if v}, f"after session {n}: scalar") or cmp(im, {k: v for k, v in images.items() if v}, f"after session {n}: image")
                    if msg:
                        return msg
                    hp = tb_hparams(d / "log")
                    exp = [dict(hyper)] * sum(not f for _, f, _ in runs) if hyper else []
                    if len(hp) != len(exp) or not all(set(a) == set(b) and all(close(a[k], b[k]) for k in a) for a, b in zip(hp, exp)):
                        return f"hyperparameters {hp} instead of {exp}"
                else:
                    got = ml_runs(d)
                    if len(got) != len(runs):
                        return f"{len(got)} runs instead of {len(runs)}"
                    for k, ((status, params, h, art), (tl, f, Fs)) in enumerate(zip(got, runs)):
                        msg = cmp(h, tl, f"after session {n}: run {k}")
                        if msg:
                            return msg
                        if status == "RUNNING" or not f and status != "FINISHED":
                            return f"after session {n}: run {k} is {status}"
                        exp = {a: str(b) for a, b in hyper} if hyper and not f else {}
                        if params != exp:
                            return f"hyperparameters {params} instead of {exp}"
                        arts = sorted({f"plot{i}_{it}.png" for it, _ in Fs for i in range(npf)})
                        if art != arts:
                            return f"run {k}: plots {art} instead of {arts}"
            out.feed(sorted(shown.items()))
        return None

    HP = (("lr", 0.5), ("n", 3))
    one = [((m, "new", None),) for m in ((0, 1, 3) if not THOROUGH else (0, 1, 2, 3, 4))]
    two = [((a, "new", None), (b, h, None)) for a, b in ((2, 1), (1, 2)) for h in ("new", "same")]
    crash = [((3, "new", k), (2, h, None)) for k in range(4) for h in ("new", "same")]
    crash2 = [((3, "new", k), (3, h, l), (1, g, None)) for k, l in ((1, 2), (2, 2), (2, 3), (3, 4)) for h, g in (("new", "same"), ("same", "new"))]
    base = [dict(we=we, ve=ve, ck=ck, pe=(we + 1) % 3, pl=0) for we, ve, ck in product(range(3), repeat=3)]
    if not THOROUGH:
        crash2 = crash2[:4]
    tt = ("tensorboard", "mlflow")

    def tup(c):
        return tuple(sorted(c.items()))

    sess = [(t, tup(c), 0, h, ()) for t in tt for c in base for h in one + two + crash + crash2]
    sess += [(t, tup(dict(we=1, ve=ve, ck=ck, pe=pe, pl=0)), 0, h, HP) for t in tt for ve, ck, pe in ((0, 0, 1), (1, 1, 2)) for h in one + two + crash]
    plots = [(t, tup(dict(we=0, ve=ve, ck=ck, pe=0, pl=pl)), npf, h, ()) for t in tt for pl in range(3) for npf in (1, 2) for ve, ck in ((0, 0), (1, 0), (0, 1))
             for h in one[1:] + two[:2] + crash[2:6]]

    # ------------------------------------------------------------------ hyperparameters of any type
    VAL = {"int": 3, "float": 0.25, "bool": True, "str": "adam", "t0": torch.tensor(1.5), "t1": torch.tensor([2.5]), "list": [1, 2], "none": None, "tuple": (1,), "dict": {"a": 1}}
    LOGGED = {"int": 3.0, "float": 0.25, "bool": True, "str": "adam", "t0": 1.5, "t1": 2.5}

    def hyper(case, out):
        tool, keys = case
        x, y = T.data(1)
        h = {k: VAL[k] for k in keys}
        with T.scratch() as d, environment(d, tool):
            m = Lin(0)
            c = TrainConfig(max_iter=1, tracking_tool=Tool(tool), hyperparams=dict(h), log_folder=d / "log", verbose=False)
            tr = Trainer(m, T.OPTS["adam"](torch, m.parameters()), c, T.mse, to_dataloader(x, y, batch_size=2))
            with tr.enable_grad_opt():
                tr.fit()
            out.step()
            if tool == "tensorboard":
                got = tb_hparams(d / "log")
                exp = {k: LOGGED[k] for k in keys if k in LOGGED}
                if not exp:
                    return None if not got else f"{got} logged instead of nothing"
                if got != [exp]:
                    return f"{got} logged instead of {exp}"
            else:
                got = ml_runs(d)[0][1]
                if got != {k: str(v) for k, v in h.items()}:
                    return f"{got} logged"
        return None

    hcases = [(t, c) for t in tt for r in range(1, 3 if not THOROUGH else 4) for c in combinations(VAL, r)]

    # ------------------------------------------------------------------ metric dictionaries
    MET = {"train_loss": 0.123456789, "val_loss": -2.5, "mae": 1e-9, "big": 12345.678, "Loss_x": 3.0}

    def direct(case, out):
        """writers used directly: every metric at every iteration; using one before it is opened fails."""
        tool, keys, its, asT = case
        with T.scratch() as d, environment(d, tool):
            w = get_writer(Tool(tool))
            c = TrainConfig(log_folder=d / "log", tracking_tool=Tool(tool))
            m = {k: torch.tensor(MET[k], dtype=torch.float64) if asT else MET[k] for k in keys}
            w.open(c, iteration=0)
            for i in its:
                w.write(i, m)
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                w.print_metrics(OptimizeResult(its[0], None, None, None, m))
            w.close()
            out.step(len(its))
            want = {k: [(i, MET[k]) for i in its] for k in keys}
            got = tb_timeline(d / "log")[0] if tool == "tensorboard" else ml_runs(d)[0][2]
            msg = cmp(got, want, "metric")
            if msg:
                return msg
            p = parse(text.getvalue())
            if len(p) != 1 or p[0][0] != its[0]:
                return f"printed {text.getvalue()!r}"
            vals = {k: v for k, v in p[0][1].items()}
            if vals != {k.lower(): round(MET[k], 7) for k in keys}:
                return f"printed {text.getvalue()!r} for {m}"
        return None

    dc = [(t, ks, its, a) for t in tt for r in range(0, 4) for ks in combinations(MET, r) for its in ((0,), (1,), (1, 2), (3, 10)) for a in (False, True)]

    def unnamed(case, out):
        """without a name, every run is tracked in an experiment of its own."""
        (n,) = case
        x, y = T.data(1)
        with T.scratch() as d, environment(d, "mlflow", named=False):
            for _ in range(n):
                m = Lin(0)
                c = TrainConfig(max_iter=2, tracking_tool=Tool.MLFLOW, write_every=1, log_folder=d / "log", verbose=False)
                tr = Trainer(m, T.OPTS["adam"](torch, m.parameters()), c, T.mse, to_dataloader(x, y, batch_size=2))
                with tr.enable_grad_opt():
                    tr.fit()
                out.step()
            got = ml_runs(d, name=None)
            import mlflow
            exps = [e for e in mlflow.MlflowClient(f"file:{d}/ml").search_experiments() if e.name != "Default"]
            if len(exps) != n or len(got) != n or any([s for s, _ in g[2].get("train_loss", ())] != [1, 2, 2] for g in got):
                return f"{len(got)} runs: {got}"
        return None

    def logged_model(case, out):
        """the model logged with MLflow computes what the trained model computes."""
        ve, mx = case
        import mlflow
        x, y = T.data(2)
        with T.scratch() as d, environment(d, "mlflow"):
            m = torch.nn.Sequential(torch.nn.Linear(2, 1)).double()
            c = TrainConfig(max_iter=mx, tracking_tool=Tool.MLFLOW, log_model=True, log_folder=d / "log", verbose=False, val_every=ve)
            tr = Trainer(m, T.OPTS["adam"](torch, m.parameters()), c, T.mse, to_dataloader(x, y, batch_size=2), to_dataloader(x, y, batch_size=2))
            with tr.enable_grad_opt():
                tr.fit()
            out.step()
            cl = mlflow.MlflowClient(f"file:{d}/ml")
            e = cl.get_experiment_by_name("exp").experiment_id
            lm = cl.search_logged_models(experiment_ids=[e])
            if len(lm) != 1:
                return f"{len(lm)} models logged"
            r = mlflow.pytorch.load_model(lm[0].model_uri)
            if not T.same(r(x), tr.model(x), 1e-12):
                return "the logged model computes something else"
            sig = mlflow.models.get_model_info(lm[0].model_uri).signature
            if sig is None or sig.inputs.input_types() != [__import__("numpy").dtype("float64")]:
                return f"signature {sig}"
        return None

    chk = Check("P33", "a reference schedule and a plain training loop give the reports each session of a training history must make; the event files and runs on disk, the plots and "
                "the printed lines are compared with them after every session",
                bounds="both trackers; write, print, plot, validation and checkpoint periods 0..2; histories of up to 3 sessions (new or same trainer) with failures at every "
                       "iteration 0..4; all pairs (triples in thorough) of hyperparameter types; all sets of up to 3 metrics")
    chk.family("sessions", sess, session)
    chk.family("plots", plots, session)
    chk.family("hyperparameters", hcases, hyper)
    chk.family("writers", dc, direct)
    chk.family("unnamed", [(n,) for n in (1, 2, 3)], unnamed)
    chk.family("logged_model", [(ve, mx) for ve in (0, 1) for mx in (1, 2)], logged_model)
    return chk


guard_main(("P33", make))
