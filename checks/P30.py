"""P30: distributed training computes what training with the mean gradient in one process computes."""
import itertools
import os
from pathlib import Path

import torch

from lib import dist as D
from lib.harness import Check, guard_main

RULE = ("With n processes, every process sees its share of the samples of each epoch, all take the step of the mean "
        "gradient, all replicas and the returned model agree with the reference training, whatever the relative "
        "speed of the processes, the launcher and what ran before in the process.")
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def config(n, folder=None, **kw):
    from qadence.ml_tools import TrainConfig
    kw = {"max_iter": 1, "compute_setup": "cpu", "backend": "gloo", "print_every": 0, "write_every": 0,
          "checkpoint_every": 0, **kw}
    if folder:
        kw.update(root_folder=Path(folder), log_folder=Path(folder), create_subfolder_per_run=False)
    return TrainConfig(nprocs=n, **kw)


def loader(N, bs, kind="finite", shift=0.0, dtype=torch.float64):
    from torch.utils.data import DataLoader, TensorDataset
    from qadence.ml_tools import DictDataLoader, to_dataloader
    if kind == "dict":
        return DictDataLoader({"a": loader(N, bs, shift=shift), "b": loader(N, bs, shift=shift + 100)})
    if kind == "drop":
        return DataLoader(TensorDataset(*D.data(N, shift, dtype)), batch_size=bs, drop_last=True)
    if kind == "collate":
        return DataLoader(TensorDataset(*D.data(N, shift, dtype)), batch_size=bs, collate_fn=D.collate)
    return to_dataloader(*D.data(N, shift, dtype), batch_size=bs, infinite=kind == "infinite")


def target(x, kind="finite"):
    y = torch.sin(x[:, 0] - 1).reshape(-1, 1)
    return y + 1 if kind == "collate" else y


def trainer_of(c, n, folder=None):
    from qadence.ml_tools import Trainer
    from qadence.ml_tools.callbacks import Callback
    dt = c.get("dtype")
    m = D.Net(dtype=dt or torch.float64, buffer=c.get("buffer", False))
    if c.get("cast"):
        m = m.to(torch.float32)
    o = D.optimizer(c.get("opt", "sgd"), m.parameters())
    kw = dict(c.get("cfg", {}))
    kw["callbacks"] = [Callback(on=s, called_every=1, callback=D.saw) for s in c.get("see", ())] + list(kw.get("callbacks", ()))
    if c.get("stop"):
        kw["callbacks"].append(Callback(on=c["stop"][0], called_every=1, callback=D.Stop(*c["stop"][1:])))
    if c.get("cast"):
        kw["dtype"] = torch.float64
    return Trainer(m, o, config(n, folder, **kw), loss_fn=D.loss_fn,
                   train_dataloader=loader(c["N"], c["bs"], c.get("data", "finite")),
                   val_dataloader=loader(c["V"], c["bs"], shift=50.0) if c.get("V") else None,
                   max_batches=c.get("max_batches"))


def run(c, order=None, real=False):
    """one training; returns the Result and the parameters of the returned model per reporting process."""
    n = c["n"]

    def one(m):
        def program(*_):
            tr = trainer_of(c, m, "log" if c.get("cfg", {}).get("checkpoint_every") else None)
            model, _ = tr.fit()
            D.note("end", D.params(model), D.params(tr.model))
        return program
    if c.get("launch", "spawn") == "spawn":
        return D.job(one(n), order=order, real=real)
    return D.job(lambda folder: D.torchrun(n, one(1), folder))


def close(a, b, tol=1e-9):
    return len(a) == len(b) and all(torch.allclose(x.double(), y.double(), rtol=0, atol=tol) for x, y in zip(a, b))


def rows(x):
    return sorted(round(float(v), 6) for v in x[:, 0])


def epochs_of(c):
    return c.get("cfg", {}).get("max_iter", 1) + 1


def per_rank(c):
    """number and sizes of the batches of a process in an epoch."""
    N, bs, n = c["N"], c["bs"], c["n"]
    if c.get("data") == "infinite":
        return [bs]
    share = -(-N // n)
    sizes = [min(bs, share - i) for i in range(0, share, bs)]
    if c.get("data") == "drop":
        sizes = [s for s in sizes if s == bs]
    total = -(-N // bs)
    if c.get("max_batches") is not None:
        total = min(total, c["max_batches"])
    return sizes[:total]


def check(c, r, ref=None, start=0, out=None):
    """compares the traces of a training with the reference; returns a message or None."""
    bad = r.problem()
    if bad:
        return bad
    n, kind = c["n"], c.get("data", "finite")
    if sorted(r.traces) != list(range(n)):
        return f"processes {sorted(r.traces)} ran, {n} were requested"
    tol = 1e-4 if c.get("dtype") == torch.float32 else 1e-9
    ref = ref or D.Reference(c.get("opt", "sgd"), dtype=torch.float64)
    ev = {k: [e for e in v if e[0] != "end"] for k, v in r.traces.items()}
    sizes = per_rank(c)
    every = c.get("cfg", {}).get("val_every", 0)
    reduce_ = c.get("cfg", {}).get("all_reduce_metrics", False)

    now = [0]

    def take(k, name):
        if not ev[k]:
            return None, f"process {k}: nothing where {name} was expected"
        e = ev[k].pop(0)
        return (e, None) if e[0] == name else (e, f"process {k}: {e[0]} where {name} was expected")

    def same(es, i, what):
        for k in range(n):
            if not close(es[k][i], ref.params(), tol):
                return f"parameters of process {k} {what}: {es[k][i]} instead of {ref.params()}"

    def validate(where):
        vs = [min(c["bs"], -(-c["V"] // n) - i) for i in range(0, -(-c["V"] // n), c["bs"])][: -(-c["V"] // c["bs"])]
        if where is None:  # before the training
            pass
        seen, per = [], [[] for _ in range(n)]
        for s in vs:
            es = []
            for k in range(n):
                e, bad = take(k, "val")
                if bad:
                    return bad
                es.append(e)
                if len(e[1]) != s:
                    return f"process {k}: validation batch of {len(e[1])} instead of {s}"
                seen += rows(e[1])
                with torch.no_grad():
                    want = float(((ref.net(e[1].double()) - torch.sin(e[1][:, 0] - 1).reshape(-1, 1)) ** 2).mean())
                per[k].append(want)
                if abs(want - e[3]) > 1e-3 if tol > 1e-6 else abs(want - e[3]) > tol:
                    return f"process {k}: validation loss {e[3]} instead of {want}"
            bad = same(es, 2, "during validation")
            if bad:
                return bad
            if "val_batch_end" in c.get("see", ()):
                bad = saw("val_batch_end", [p[-1] for p in per], [float(e[1].reshape(-1)[0]) for e in es], "val")
                if bad:
                    return bad
        bad = partition(seen, c["V"], 50.0)
        if bad:
            return "validation: " + bad
        if "val_epoch_end" in c.get("see", ()):
            return saw("val_epoch_end", [sum(p) / len(p) for p in per], None, "val")

    def saw(stage, losses, firsts, prefix):
        if now[0] == 0:
            return None  # callbacks are not called in epoch 0
        for k in range(n):
            e, bad = take(k, "saw")
            if bad:
                return bad
            _, st, epoch, loss, metrics = e
            if st != stage:
                return f"process {k}: callback at {st} instead of {stage}"
            # the results of single batches are reported before they are exchanged
            reduced = reduce_ and (not stage.endswith("batch_end") or abs(loss - losses[k]) > tol)
            want = sum(losses) / n if reduced else losses[k]
            if loss is None or abs(loss - want) > tol:
                return f"process {k}: loss {loss} at {stage} instead of {want} (of {losses})"
            if firsts is not None:
                want = {f"{prefix}_first": sum(firsts) / n if reduced else firsts[k], f"{prefix}_loss": want}
                if set(metrics) != set(want) or any(abs(metrics[m] - want[m]) > tol for m in want):
                    return f"process {k}: metrics {metrics} at {stage} instead of {want}"

    def partition(seen, N, shift):
        share = n * -(-N // n)
        values = [i + 1 + shift for i in range(N)]
        count = [sum(abs(s - v) < 1e-4 for s in seen) for v in values]
        if sum(count) != len(seen):
            return f"unknown samples in {seen}"
        if sum(count) != share or min(count) < 1 or max(count) > -(-share // N):
            return f"samples used {count} times, {share - N} of {N} samples may be repeated"

    if every:
        bad = validate(None)
        if bad:
            return f"before training: {bad}"
    losses = []
    for epoch in range(start, start + epochs_of(c)):
        now[0] = epoch
        seen, per = [], [[] for _ in range(n)]
        for s in sizes:
            es = []
            for k in range(n):
                e, bad = take(k, "train")
                if bad:
                    return f"epoch {epoch}: {bad}"
                es.append(e)
                if len(e[1]) != (2 * s if kind == "dict" else s):
                    return f"epoch {epoch}: batch of {len(e[1])} instead of {s} samples in process {k}"
                seen += rows(e[1])
            bad = same(es, 2, f"before a batch of epoch {epoch}")
            if bad:
                return bad
            if kind == "dict":
                ls = ref.step([e[1].double() for e in es], target, parts=2)
            else:
                ls = ref.step([e[1].double() for e in es], lambda x: target(x, kind))
            for k in range(n):
                per[k].append(ls[k])
                if abs(ls[k] - es[k][3]) > tol:
                    return f"epoch {epoch}: loss {es[k][3]} of process {k} instead of {ls[k]}"
            es = []
            for k in range(n):
                e, bad = take(k, "step")
                if bad:
                    return f"epoch {epoch}: {bad}"
                es.append(e)
            bad = same(es, 1, f"after a step of epoch {epoch}")
            if bad:
                return bad
            if out is not None:
                out.step(n)
            if "train_batch_end" in c.get("see", ()):
                bad = saw("train_batch_end", ls, [float(x) for x in firsts_of(r, es, n, losses, sizes, c)], "train")
                if bad:
                    return f"epoch {epoch}: {bad}"
            losses.append(ls)
        if kind not in ("infinite", "dict", "drop") and c.get("max_batches") is None:
            bad = partition(seen, c["N"], 0.0)
            if bad:
                return f"epoch {epoch}: {bad}"
        if "train_epoch_end" in c.get("see", ()):
            bad = saw("train_epoch_end", [sum(p) / len(p) for p in per], None, "train")
            if bad:
                return f"epoch {epoch}: {bad}"
        if every and epoch % every == 0:
            bad = validate(epoch)
            if bad:
                return f"epoch {epoch}: {bad}"
        if c.get("stop") and epoch == c["stop"][2]:
            break
    left = {k: [e[0] for e in v] for k, v in ev.items() if v}
    if left:
        return f"more happened than expected: {left}"
    ends = [(k, e) for k, v in r.traces.items() for e in v if e[0] == "end"]
    if len(ends) != (n if c.get("launch") == "torchrun" else 1):
        return f"{len(ends)} programs ended"
    for k, e in ends:
        if not (close(e[1], ref.params(), tol) and close(e[2], ref.params(), tol)):
            return f"model returned to process {k} has {e[1]}, the trainer's {e[2]}, trained parameters: {ref.params()}"


def firsts_of(r, es, n, losses, sizes, c):
    """first entries of the batches of the current step."""
    i = len(losses)
    for k in range(n):
        yield [e for e in r.traces[k] if e[0] == "train"][i][1].reshape(-1)[0]


# ---------------------------------------------------------------- families

def schedule_cases():
    shapes = [(2, 1, 3), (3, 1, 1)] + ([(2, 1, 4), (2, 2, 2), (3, 1, 2)] if THOROUGH else [])
    return [(n, e, b, order) for n, e, b in shapes for order in D.linear_extensions(n, e, b)]


def schedules(case, out):
    n, e, b, order = case
    c = {"n": n, "N": n * b, "bs": 1, "cfg": {"max_iter": e - 1}}
    r = run(c, order=order)
    bad = check(c, r, out=out)
    if bad:
        return bad
    if r.schedule != list(order):
        return f"schedule came out as {r.schedule}"
    out.feed([[float(v) for p in r.traces[0][-1][1] for v in p.reshape(-1)]])


def training_cases():
    cs = []
    for launch, n in itertools.product(("spawn", "torchrun"), (1, 2, 3)):
        for N, bs in ((1, 1), (2, 1), (3, 2), (4, 2), (5, 2), (6, 4)):
            if n > N:
                continue
            cs.append({"launch": launch, "n": n, "N": N, "bs": bs, "opt": ("sgd", "adam")[(N + n) % 2],
                       "cfg": {"max_iter": (N + bs) % 3}})
        base = {"launch": launch, "n": n, "N": 5, "bs": 2}
        cs += [{**base, "V": V, "cfg": {"max_iter": 2, "val_every": ve, "all_reduce_metrics": red},
                "see": ("train_batch_end", "train_epoch_end", "val_batch_end", "val_epoch_end")}
               for V, ve, red in itertools.product((3, 4), (1, 2), (False, True))]
        cs += [{**base, "N": 4, "see": ("train_batch_end", "train_epoch_end"), "cfg": {"all_reduce_metrics": red}}
               for red in (False, True)]
        cs += [{**base, "data": d, "N": N} for d in ("infinite", "dict", "drop", "collate") for N in (4, 5)]
        cs += [{**base, "max_batches": k, "N": 6, "bs": 1} for k in (1, 2)]
        cs += [{**base, "buffer": True}, {**base, "cast": True}, {**base, "dtype": torch.float32}]
    cs += [{"launch": launch, "n": 4, "N": 9, "bs": 2, "opt": opt} for launch in ("spawn", "torchrun") for opt in ("sgd", "adam")]
    if THOROUGH:
        cs += [{"launch": launch, "n": n, "N": N, "bs": bs, "opt": opt, "cfg": {"max_iter": it}}
               for launch, n, N, bs, opt, it in itertools.product(("spawn", "torchrun"), (2, 3, 4), (4, 7), (1, 2, 3),
                                                                  ("sgd", "adam"), (0, 2))]
    return cs


def trainings(c, out):
    if c.get("cast"):
        # the model is given in single precision, and trained in double precision
        ref = D.Reference("sgd")
        ref.net.load_state_dict({k: v.double() for k, v in D.Net().float().state_dict().items()})
        return check(c, run(c), ref=ref, out=out)
    return check(c, run(c), out=out)


def spawn_cases():
    return [{"n": 2, "N": 5, "bs": 2, "V": 3, "opt": "adam", "cfg": {"max_iter": 1, "val_every": 1, "all_reduce_metrics": True},
             "see": ("train_batch_end", "val_epoch_end")}, {"n": 3, "N": 4, "bs": 1, "opt": "sgd"},
            {"n": 2, "N": 4, "bs": 2, "cast": True}, {"n": 2, "N": 4, "bs": 2, "data": "dict"}]


def real_spawns(c, out):
    if c.get("cast"):
        ref = D.Reference("sgd")
        ref.net.load_state_dict({k: v.double() for k, v in D.Net().float().state_dict().items()})
        return check(c, run(c, real=True), ref=ref, out=out)
    return check(c, run(c, real=True), out=out)


def stop_cases():
    return [{"launch": launch, "n": n, "N": 4, "bs": 2, "cfg": {"max_iter": 3, **({"val_every": 1} if st.startswith("val") else {})},
             "V": 2 if st.startswith("val") else None, "stop": (st, k, e)}
            for launch, n in (("spawn", 2), ("torchrun", 2), ("spawn", 3))
            for st in ("train_epoch_end", "train_batch_end", "val_epoch_end") for k in range(n) for e in (1, 2)]


def stops(c, out):
    return check(c, run(c), out=out)


def resume_cases():
    return [{"first": f, "second": s, "opt": opt, "e1": e1, "launch": launch}
            for launch in ("spawn", "torchrun") for f, s in ((1, 2), (2, 1), (2, 2), (2, 3)) for opt in ("sgd", "adam")
            for e1 in (0, 1, 2) if not (launch == "torchrun" and f != s)]


def resumes(case, out):
    cfg = {"checkpoint_every": 1, "val_every": 2, "all_reduce_metrics": True}
    c1 = {"n": case["first"], "N": 4, "bs": 2, "V": 2, "opt": case["opt"], "cfg": {**cfg, "max_iter": case["e1"]}, "launch": case["launch"]}
    c2 = {**c1, "n": case["second"], "cfg": {**cfg, "max_iter": 1}}

    def program(*_):
        for i, c in enumerate((c1, c2)):
            tr = trainer_of(c, 1 if case["launch"] == "torchrun" else c["n"], "log")
            os.environ["VERIF_PHASE"] = str(i)
            model, _ = tr.fit()
            D.note("end", D.params(model), D.params(tr.model))
    if case["launch"] == "spawn":
        r = D.job(program)
    else:
        r = D.job(lambda folder: D.torchrun(2, program, folder))
    bad = r.problem()
    if bad:
        return bad
    # the trace of each process: first training, then second
    ref = D.Reference(case["opt"])
    parts = split(r, c1, c2)
    if isinstance(parts, str):
        return parts
    for c, part, start in zip((c1, c2), parts, (0, case["e1"])):
        bad = check(c, part, ref=ref, start=start, out=out)
        if bad:
            return f"{'second' if part is parts[1] else 'first'} training: {bad}"
    names = [f for f in r.files if "ckpt" in f]
    want = {f"model_Net_ckpt_{e:03d}_device_cpu.pt" for e in range(case["e1"] + 2)}
    if {Path(f).name for f in names if "model" in f} != want:
        return f"checkpoints {names} instead of {sorted(want)}"


def split(r, c1, c2):
    """the traces of the two trainings."""
    res = []
    for i in (0, 1):
        p = D.Result.__new__(D.Result)
        p.__dict__.update(r.__dict__)
        p.traces = {k: [e[:-1] for e in v if e[-1] == str(i)] for k, v in r.traces.items()}
        p.traces = {k: v for k, v in p.traces.items() if v}
        res.append(p)
    return res


def history_cases():
    hs = [h for k in (1, 2, 3) for h in itertools.product("SDEA", repeat=k) if h[0] != "A" and h[-1] in "SDA"
          and not any(a == "E" and b == "A" for a, b in zip(h, h[1:]))]
    if not THOROUGH:
        hs = [h for h in hs if len(h) < 3 or (len(set(h)) > 1 and "D" in h)]
    return [("spawn", h) for h in hs] + [("torchrun", h) for h in (("D",), ("D", "A"), ("D", "D"), ("D", "A", "A"))]


def histories(case, out):
    """S, D: a new trainer with one or two processes; E: one whose loss raises; A: the last trainer fits again."""
    launch, h = case
    base = {"N": 4, "bs": 2, "opt": "plain", "cfg": {"max_iter": 0}, "launch": launch}

    def program(*_):
        tr = None
        env = dict(os.environ)
        for i, a in enumerate(h):
            if a != "A":
                n = 1 if a != "D" or launch == "torchrun" else 2
                tr = trainer_of({**base, "n": n}, n)
            if a == "E":
                tr.loss_fn = D.failing_loss
                try:
                    tr.fit()
                except ZeroDivisionError:
                    pass
                else:
                    raise RuntimeError("the loss did not raise")
            else:
                os.environ["VERIF_PHASE"] = str(i)
                model, _ = tr.fit()
                D.note("end", D.params(model), D.params(tr.model))
                losses = [float(v[0]) for v in tr.test(loader(3, 2))]
                m = D.Net()
                for p, v in zip(m.parameters(), D.params(tr.model)):
                    p.data = v
                want = [float(D.plain_loss(m, b)) for b in loader(3, 2)]
                if max(abs(x - y) for x, y in zip(losses, want)) > 1e-9 or len(losses) != len(want):
                    raise RuntimeError(f"tests after training gave {losses} instead of {want}")
                os.environ.pop("VERIF_PHASE")
            if dict(os.environ) != env:
                changed = {k for k in set(env) | set(os.environ) if env.get(k) != os.environ.get(k)}
                raise RuntimeError(f"training changed the environment variables {sorted(changed)}")
    r = D.job(program) if launch == "spawn" else D.job(lambda folder: D.torchrun(2, program, folder))
    bad = r.problem()
    if bad:
        return bad
    ref = None
    last = 1
    for i, a in enumerate(h):
        if a == "E":
            continue
        if a != "A":
            ref = D.Reference("plain")
            last = 2 if a == "D" else 1
        p = D.Result.__new__(D.Result)
        p.__dict__.update(r.__dict__)
        p.traces = {k: [e[:-1] for e in v if e[-1] == str(i) and e[0] != "val"] for k, v in r.traces.items()}
        p.traces = {k: v for k, v in p.traces.items() if v}
        bad = check({**base, "n": last}, p, ref=ref, out=out)
        if bad:
            return f"training {i + 1} of {'-'.join(h)}: {bad}"


def function_cases():
    return [(launch, n, opt) for launch in ("spawn", "torchrun") for n in (1, 2, 3) for opt in ("sgd", "adam")]


def functions(case, out):
    """a training loop written by the user, as in the documentation."""
    launch, n, opt = case
    c = {"n": n, "N": 5, "bs": 2, "opt": opt, "launch": launch}

    def program(*_):
        from qadence.ml_tools.train_utils import Accelerator
        acc = Accelerator(nprocs=n if launch == "spawn" else 1, compute_setup="cpu", backend="gloo")
        m = D.Net()
        o = D.optimizer(opt, m.parameters())
        acc.distribute(D.train_function)(2, m, loader(5, 2), o, acc)
        D.note("end", D.params(m), D.params(m))
    r = D.job(program) if launch == "spawn" else D.job(lambda folder: D.torchrun(n, program, folder))
    return check(c, r, out=out)


def collective_cases():
    return [(n, op, src) for n in (1, 2, 3) for op in ("mean", "avg", "sum", "max") for src in range(n)]


def collectives(case, out):
    n, op, src = case

    def program(r):
        from qadence.ml_tools.train_utils import Accelerator
        acc = Accelerator(compute_setup="cpu", backend="gloo")
        acc.setup_process(0)
        if acc.rank != r or acc.world_size != n:
            raise RuntimeError(f"process {r} of {n} is process {acc.rank} of {acc.world_size}")
        d = {"t": torch.tensor(1.5 * (r + 1)), "v": torch.tensor([[r, -1.0 * r]]), "f": float(r * r)}
        keep = {k: (v.clone() if isinstance(v, torch.Tensor) else v) for k, v in d.items()}
        got = acc.all_reduce_dict(d, op=op)
        same = all(torch.equal(torch.as_tensor(d[k]), torch.as_tensor(keep[k])) for k in keep)
        obj = acc.broadcast({"r": r, "x": [r]}, src=src)
        D.note("got", {k: torch.as_tensor(v).tolist() for k, v in got.items()}, obj, same)
        acc.finalize()
    r = D.job(lambda folder: D.torchrun(n, program, folder))
    if r.problem():
        return r.problem()
    agg = {"sum": sum, "max": max}.get(op, lambda v: sum(v) / n)
    want = {"t": agg([1.5 * (k + 1) for k in range(n)]),
            "v": [[agg([float(k) for k in range(n)]), agg([-1.0 * k for k in range(n)])]],
            "f": agg([float(k * k) for k in range(n)])}
    for k in range(n):
        _, got, obj, same = r.traces[k][0]
        if not all(torch.allclose(torch.tensor(got[m]).double(), torch.tensor(want[m]).double()) for m in want):
            return f"process {k}: {op} gave {got} instead of {want}"
        if obj != {"r": src, "x": [src]}:
            return f"process {k}: received {obj} from {src}"
        if not same:
            return f"process {k}: reducing changed the values given"
    out.step(n)


def launch_cases():
    """how processes learn who they are: launcher, nodes, processes per node, device."""
    return [(how, nodes, per, comp) for how in ("torchrun", "slurm", "plain") for nodes in (1, 2, 3) for per in (1, 2, 3)
            for comp in ("cpu", "gpu") if not (how == "plain" and nodes > 1) and not (how == "slurm" and comp == "cpu" and nodes > 1)]


def launches(case, out):
    how, nodes, per, comp = case
    from qadence.ml_tools.train_utils import Accelerator
    import torch.cuda
    saved = dict(os.environ)
    old = torch.cuda.is_available, torch.cuda.device_count, torch.cuda.set_device
    got, devices, shards = [], [], []
    try:
        torch.cuda.is_available = lambda: comp == "gpu"
        torch.cuda.device_count = lambda: per
        torch.cuda.set_device = devices.append
        for node in range(nodes):
            for local in range(per):
                for k in D.ENV:
                    os.environ.pop(k, None)
                if how == "torchrun":
                    os.environ.update({"RANK": str(node * per + local), "LOCAL_RANK": str(local), "WORLD_SIZE": str(nodes * per),
                                       "MASTER_ADDR": "1.2.3.4", "MASTER_PORT": "4321", "TORCHELASTIC_RUN_ID": "x"})
                    acc = Accelerator(nprocs=1, compute_setup=comp, log_setup="auto")
                    started = [0]
                else:
                    os.environ.update({"MASTER_ADDR": "1.2.3.4"})
                    if how == "slurm":
                        os.environ.update({"SLURM_JOB_ID": "777", "SLURM_JOB_NUM_NODES": str(nodes), "SLURM_NODEID": str(node)})
                    acc = Accelerator(nprocs=nodes * per, compute_setup=comp, log_setup="auto")
                    if acc.nprocs // acc.execution.num_nodes != per:
                        return f"{acc.nprocs} processes on {acc.execution.num_nodes} nodes"
                before = dict(os.environ)
                acc.setup_process_rank_environment(0 if how == "torchrun" else local)
                got.append((acc.rank, acc.local_rank, acc.world_size, acc.execution.device, acc.execution.log_device,
                            acc.master_addr, acc.master_port if how != "plain" else ""))
                env = {k: os.environ.get(k) for k in D.ENV[:5]}
                if env != {"RANK": str(acc.rank), "WORLD_SIZE": str(acc.world_size), "LOCAL_RANK": str(acc.local_rank),
                           "MASTER_ADDR": acc.master_addr, "MASTER_PORT": acc.master_port}:
                    return f"environment {env} of {got[-1]}"
                if comp == "gpu":
                    shard = acc.prepare(loader(4 * nodes * per, 2))
                    shard = shard[0] if isinstance(shard, (tuple, list)) else shard
                    shards.append(sorted(float(x) for b in shard for x in b[0][:, 0]))
                acc.finalize()
                if dict(os.environ) != before:
                    return "environment not restored"
                out.step()
    finally:
        torch.cuda.is_available, torch.cuda.device_count, torch.cuda.set_device = old
        os.environ.clear()
        os.environ.update(saved)
    if comp == "gpu":
        if any(len(x) != 4 for x in shards):
            return f"shares of the samples {shards}"
        if sorted(sum(shards, [])) != sorted(float(x) for b in loader(4 * nodes * per, 2) for x in b[0][:, 0]):
            return f"samples seen by the processes {shards}"
    locals_ = [local for _ in range(nodes) for local in range(per)]
    want_dev = ["cpu" if comp == "cpu" else f"cuda:{k}" for k in locals_]
    if [g[0] for g in got] != list(range(nodes * per)):
        return f"ranks {[g[0] for g in got]}"
    if comp == "gpu" and ([g[1] for g in got] != locals_ or devices != locals_):
        return f"local ranks {[g[1] for g in got]}, devices selected {devices}"
    if [g[3] for g in got] != want_dev or [g[4] for g in got] != want_dev:
        return f"devices {[g[3:5] for g in got]} instead of {want_dev}"
    if {g[2] for g in got} != {nodes * per}:
        return f"world sizes {[g[2] for g in got]}"
    if len({g[5:] for g in got}) != 1 or got[0][5] != "1.2.3.4":
        return f"masters {[g[5:] for g in got]}"


def make():
    import qadence  # noqa: F401
    import qadence.ml_tools  # noqa: F401
    import tensorboard.summary  # noqa: F401
    import torch.utils.tensorboard  # noqa: F401
    chk = Check("P30", RULE, bounds="1..4 processes (forked; a few really spawned), datasets of 1..9 samples, 1..4 epochs; all orders "
                "of the computations and updates of 2 processes with 3 batches and 3 processes with 1 (thorough: 2x4, 2x2x2, 3x2)")
    chk.family("real_spawns", spawn_cases(), real_spawns)
    chk.family("schedules", schedule_cases(), schedules)
    chk.family("trainings", training_cases(), trainings)
    chk.family("stops", stop_cases(), stops)
    chk.family("resumes", resume_cases(), resumes)
    chk.family("histories", history_cases(), histories)
    chk.family("functions", function_cases(), functions)
    chk.family("collectives", collective_cases(), collectives)
    chk.family("launches", launch_cases(), launches)
    return chk


guard_main(("P30", make))
