"""distributed trainings in forked processes, a scheduler for their steps and a reference training (P30).

A `job` runs in a driver process (own process group, scratch directory) that is thrown away. Processes
"spawned" by the trainer are forked after the arguments went through the pickler that `mp.spawn` uses (which
is what moves tensors to shared memory); `real=True` leaves `mp.spawn` alone. With torchrun, the driver forks
one process per rank with torchrun's environment, each of which runs the whole program.

The processes report through files: the loss function and the optimiser (both user code) append the batches,
parameters and steps they see. With a schedule, they ask a controller for permission before computing a loss
(F) and before updating the parameters (S), and tell when they are done, so that the order of these actions
is the dictated one.
"""
from __future__ import annotations

import copy
import os
import pickle
import select
import shutil
import signal
import socket
import sys
import tempfile
import time
import traceback
from pathlib import Path

import torch
from torch import nn

ENV = ("RANK", "WORLD_SIZE", "LOCAL_RANK", "MASTER_ADDR", "MASTER_PORT", "TORCHELASTIC_RUN_ID", "TORCHELASTIC_USE_AGENT_STORE")
GATE = None  # (read end, write end) of this process' line to the controller
TIMEOUT = float(os.environ.get("VERIF_DIST_TIMEOUT", "60"))


class Net(nn.Module):
    def __init__(self, seed=0, dtype=torch.float64, buffer=False):
        super().__init__()
        self.w = nn.Parameter(torch.tensor([0.3 + seed, -0.2 - 0.5 * seed], dtype=dtype))
        self.b = nn.Parameter(torch.tensor(0.1 * (seed + 1), dtype=dtype))
        if buffer:
            self.register_buffer("count", torch.zeros((), dtype=dtype))

    def forward(self, x):
        if hasattr(self, "count") and self.training:
            self.count += 1
        return (self.w * x).sum(-1, keepdim=True) + self.b


def data(n, shift=0.0, dtype=torch.float64):
    i = torch.arange(n, dtype=dtype)
    x = torch.stack([i + 1 + shift, torch.cos(i) / 2], 1)
    return x, torch.sin(i + shift).reshape(-1, 1)


def rank():
    return int(os.environ.get("RANK", "0"))


def note(*event):
    if "VERIF_PHASE" in os.environ:
        event = (*event, os.environ["VERIF_PHASE"])
    with open(Path(os.environ["VERIF_REPORT"]) / f"trace.{rank()}", "ab") as f:
        pickle.dump(event, f)


def gate(name):
    if GATE is not None:
        os.write(GATE[1], name.encode())
        if os.read(GATE[0], 1) != b"g":
            os._exit(7)


def ungate():
    if GATE is not None:
        os.write(GATE[1], b"d")


def replica(model):
    return model.module if isinstance(model, nn.parallel.DistributedDataParallel) else model


def params(model):
    return [p.detach().clone() for p in replica(model).parameters()]


def loss_fn(model, batch):
    train = torch.is_grad_enabled()
    if train:
        gate("F")
    before = params(model)
    if isinstance(batch, dict):
        xs, losses = [], []
        for x, y in batch.values():
            losses.append(((model(x) - y) ** 2).mean())
            xs.append(x.clone())
        loss, x = sum(losses), torch.cat(xs)
    else:
        x, y = batch
        loss = ((model(x) - y) ** 2).mean()
    note("train" if train else "val", x.clone(), before, float(loss))
    if train:
        ungate()
    return loss, {"first": x.reshape(-1)[0].clone()}


def plain_loss(model, batch):
    x, y = batch
    return ((model(x) - y) ** 2).mean()


def failing_loss(model, batch):
    return plain_loss(model, batch) / 0 if batch is None else 1 // 0


def collate(samples):
    """the targets are raised by one, which the reference has to see."""
    return torch.stack([s[0] for s in samples]), torch.stack([s[1] + 1 for s in samples])


def saw(trainer, config, writer):
    """callback: report the result the trainer holds."""
    res = trainer.opt_result
    note("saw", str(trainer.training_stage.value if hasattr(trainer.training_stage, "value") else trainer.training_stage),
         trainer.current_epoch, None if res.loss is None else float(res.loss), {k: float(v) for k, v in res.metrics.items()})


class Stop:
    """callback: one process asks for the end of the training in one epoch."""

    def __init__(self, process, epoch):
        self.process, self.epoch = process, epoch

    def __call__(self, trainer, config, writer):
        if rank() == self.process and trainer.current_epoch == self.epoch:
            trainer._stop_training.fill_(1)


def train_function(epochs, model, loader, opt, accelerator):
    """a training loop as in the documentation of the accelerator."""
    model, opt, loader = accelerator.prepare(model, opt, loader)
    model.train()
    for _ in range(epochs):
        for batch in loader:
            batch = accelerator.prepare_batch(batch)

            def closure():
                opt.zero_grad()
                loss, _ = loss_fn(model, batch)
                loss.backward()
                return loss.item()
            opt.step(closure)


class Steps:
    def step(self, closure=None):
        with torch.enable_grad():
            loss = closure()
        gate("S")
        out = super().step()
        note("step", [p.detach().clone() for g in self.param_groups for p in g["params"]],
             [g["lr"] for g in self.param_groups])
        ungate()
        return loss


class StepsSGD(Steps, torch.optim.SGD):
    pass


class StepsAdam(Steps, torch.optim.Adam):
    pass


def optimizer(name, ps):
    return StepsAdam(ps, lr=0.1) if name == "adam" else StepsSGD(ps, lr=0.05, momentum=0.9 if name == "sgd" else 0.0)


def reference(name, ps):
    return (torch.optim.Adam(ps, lr=0.1) if name == "adam"
            else torch.optim.SGD(ps, lr=0.05, momentum=0.9 if name == "sgd" else 0.0))


class Reference:
    """training with the mean of the gradients of the processes, in one process."""

    def __init__(self, opt, dtype=torch.float64, buffer=False):
        self.net = Net(dtype=dtype, buffer=buffer)
        self.opt = reference(opt, self.net.parameters())

    def step(self, batches, target, parts=1):
        grads = None
        losses = []
        for x in batches:
            self.net.zero_grad()
            loss = sum(((self.net(p) - target(p)) ** 2).mean() for p in x.chunk(parts))
            loss.backward()
            losses.append(float(loss))
            g = [p.grad.clone() for p in self.net.parameters()]
            grads = g if grads is None else [a + b for a, b in zip(grads, g)]
        for p, g in zip(self.net.parameters(), grads):
            p.grad = g / len(batches)
        self.opt.step()
        return losses

    def params(self):
        return [p.detach().clone() for p in self.net.parameters()]


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def _fork(fn, report, gates=None):
    """run fn in a child; it ends with exit code 0 or leaves its exception."""
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        global GATE
        GATE = gates
        torch.set_num_threads(1)
        fn()
    except BaseException as e:  # noqa: B036
        code = 1
        with open(Path(report) / f"error.{rank()}.{os.getpid()}", "w") as f:
            f.write(f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
    finally:
        os._exit(code)


class Controller:
    """grants the actions of the processes in the dictated order of (rank, action)."""

    def __init__(self, n, order):
        self.order, self.lines, self.child_ends = list(order), [], []
        for _ in range(n):
            to_child, from_child = os.pipe(), os.pipe()
            self.lines.append((from_child[0], to_child[1]))
            self.child_ends.append((to_child[0], from_child[1]))

    def run(self, alive):
        """returns the actions done; every action is awaited before the next one is granted."""
        done, count, late = [], {}, []
        end = time.time() + TIMEOUT

        def await_(r, msg):
            while True:
                ready, _, _ = select.select([self.lines[r][0]], [], [], 0.2)
                if ready:
                    break
                if time.time() > end or not alive():
                    return "nothing"
            got = os.read(self.lines[r][0], 1).decode()
            return None if got == msg else repr(got)

        for r, action in self.order:
            k = count.get((r, action), 0)
            count[(r, action)] = k + 1
            wrong = await_(r, action)
            if wrong is None:
                os.write(self.lines[r][1], b"g")
                late.append(r)
                if not (action == "F" and k == 1) or len(late) == len(self.lines):
                    for q in late:
                        wrong = wrong or await_(q, "d")
                    late = []
            if wrong:
                return done + [(r, action, f"process did {wrong}")]
            done.append((r, action))
        for _, w in self.lines:  # anything more than scheduled ends the processes
            os.close(w)
        return done


def _wait(pids):
    """the exit codes; as mp.spawn does, the others are ended once one fails."""
    codes = {}
    while len(codes) < len(pids):
        pid, status = os.waitpid(-1, 0)
        if pid in pids:
            codes[pid] = os.waitstatus_to_exitcode(status)
            if codes[pid]:
                for p in pids:
                    if p not in codes:
                        os.kill(p, signal.SIGKILL)
    return codes


def fake_spawn(report, order=None):
    from multiprocessing.reduction import ForkingPickler
    import torch.multiprocessing  # noqa: F401  (registers the reductions)

    def spawn(fn, args=(), nprocs=1, join=True, **kw):
        ForkingPickler.dumps((fn, args))
        ctl = Controller(nprocs, order) if order is not None else None
        pids = [_fork(lambda r=r: fn(r, *args), report, ctl and ctl.child_ends[r]) for r in range(nprocs)]
        if ctl:
            done = ctl.run(lambda: all(os.waitid(os.P_PID, p, os.WEXITED | os.WNOHANG | os.WNOWAIT) is None
                                       for p in pids))
            with open(Path(report) / "schedule", "wb") as f:
                pickle.dump(done, f)
        codes = _wait(pids)
        if any(codes.values()):
            raise RuntimeError(f"processes ended with {sorted(codes.values())}")
    return spawn


def torchrun(n, fn, report):
    """fork the processes that torchrun would start; fn(rank) is the program."""
    port = free_port()
    # the agent of torchrun keeps the store through which the processes meet
    store = torch.distributed.TCPStore("127.0.0.1", port, n, is_master=True, wait_for_workers=False)

    def program(r):
        os.environ.update({"RANK": str(r), "LOCAL_RANK": str(r), "WORLD_SIZE": str(n), "MASTER_ADDR": "127.0.0.1",
                           "MASTER_PORT": str(port), "TORCHELASTIC_RUN_ID": "none", "TORCHELASTIC_USE_AGENT_STORE": "True"})
        fn(r)
    codes = _wait([_fork(lambda r=r: program(r), report) for r in range(n)])
    del store
    if any(codes.values()):
        raise RuntimeError(f"processes ended with {sorted(codes.values())}")


class Result:
    def __init__(self, status, value, folder):
        self.status, self.value = status, value
        self.errors = [p.read_text() for p in sorted(folder.glob("error.*"))]
        self.traces = {}
        for p in folder.glob("trace.*"):
            events = []
            with open(p, "rb") as f:
                while True:
                    try:
                        events.append(pickle.load(f))
                    except EOFError:
                        break
            self.traces[int(p.name.split(".")[1])] = events
        s = folder / "schedule"
        self.schedule = pickle.loads(s.read_bytes()) if s.exists() else None
        self.files = sorted(str(p.relative_to(folder / "work")) for p in (folder / "work").rglob("*") if p.is_file())

    def problem(self):
        if self.status != "ok":
            return f"{self.status}: {self.value} {' | '.join(e.splitlines()[0] for e in self.errors)}"[:400]


def job(program, order=None, real=False, port=True):
    """run program() in a driver process; `program` gets the report folder. Ports may be taken by others: retried."""
    for attempt in range(4):
        folder = Path(tempfile.mkdtemp(prefix="verif_dist_"))
        try:
            (folder / "work").mkdir()
            res = _job(program, folder, order, real, port)
            taken = any(s in e for e in res.errors + [str(res.value)]
                        for s in ("EADDRINUSE", "address already in use", "Address already in use", "Permission denied"))
            if not taken or attempt == 3:
                return res
        finally:
            shutil.rmtree(folder, ignore_errors=True)


def _job(program, folder, order, real, port):
    pid = os.fork()
    if not pid:
        value, status = None, "ok"
        try:
            signal.alarm(0)
            os.setpgid(0, 0)
            os.chdir(folder / "work")
            null = os.open(os.devnull, os.O_RDWR)
            out = os.open(folder / "out", os.O_RDWR | os.O_CREAT)
            os.dup2(null, 0), os.dup2(out, 1), os.dup2(out, 2)
            sys.stdout = open(1, "w", buffering=1, closefd=False)
            sys.stderr = open(2, "w", buffering=1, closefd=False)
            for k in ENV:
                os.environ.pop(k, None)
            os.environ.update({"VERIF_REPORT": str(folder), "GLOO_SOCKET_IFNAME": "lo"})
            if port:
                os.environ.update({"MASTER_ADDR": "127.0.0.1", "MASTER_PORT": str(free_port())})
            if real:  # the new processes must not run the main module of this one
                main = sys.modules["__main__"]
                main.__spec__ = None
                main.__dict__.pop("__file__", None)
            else:
                torch.multiprocessing.spawn = fake_spawn(folder, order)
            value = program(folder)
        except BaseException as e:  # noqa: B036
            status, value = "raised", f"{type(e).__name__}: {e} {traceback.format_exc()[-700:]}"
        finally:
            try:
                with open(folder / "result", "wb") as f:
                    pickle.dump((status, value), f)
            finally:
                os._exit(0)
    end = time.time() + TIMEOUT + (60 if real else 0)
    status = "hangs"
    while time.time() < end:
        if os.waitpid(pid, os.WNOHANG)[0]:
            status = None
            break
        time.sleep(0.005)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if status:
        os.waitpid(pid, 0)
        return Result(status, (folder / "out").read_text()[-200:] if (folder / "out").exists() else "", folder)
    try:
        status, value = pickle.loads((folder / "result").read_bytes())
    except Exception as e:
        status, value = "died", repr(e)
    return Result(status, value, folder)


def linear_extensions(n, epochs, batches):
    """all orders of the actions of n processes: F then S per batch; S of a batch needs all F of that batch
    (gradients are exchanged), F of an epoch's first batch needs all S of the previous epoch (the processes agree
    on whether to go on). The second F needs all processes as well (the replicas agree on their buckets): it is
    granted to all of them in a row, before any is awaited."""
    total = epochs * batches
    acts = [a for k in range(total) for a in ((k, "F"), (k, "S"))]

    def go(pos, path):
        if all(p == len(acts) for p in pos):
            yield tuple(path)
            return
        for r in range(n):
            if pos[r] == len(acts):
                continue
            k, a = acts[pos[r]]
            if a == "S" and any(p <= 2 * k for p in pos):
                continue
            if a == "F" and k and (k % batches == 0 or k == 1) and any(p < 2 * k for p in pos):
                continue
            if a == "F" and k == 1 and any(p == 2 for p in pos[:r]):
                continue
            if a == "S" and k == 1 and any(p == 2 for p in pos):
                continue
            nxt = list(pos)
            nxt[r] += 1
            yield from go(nxt, path + [(r, a)])
    yield from go([0] * n, [])


def fit(trainer, *a, **k):
    """fit, hiding the progress display."""
    return trainer.fit(*a, **k)


def state(model):
    return {k: v.detach().clone() for k, v in replica(model).state_dict().items()}


__all__ = [n for n in dir() if not n.startswith("_")] + ["copy"]
