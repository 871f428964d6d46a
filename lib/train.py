"""small deterministic training problems, a plain reference training loop and fault seams (P17, P25)."""
from __future__ import annotations

import contextlib
import copy
import io
import os
import shutil
import tempfile
from pathlib import Path

BATCH = 2


class Kill(BaseException):
    """stands for the process being killed."""


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif_train_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()):
            yield Path(d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def models():
    import torch

    class Lin(torch.nn.Module):
        def __init__(self, seed=0):
            super().__init__()
            self.w = torch.nn.Parameter(torch.tensor([0.3 + seed, -0.2 - 0.5 * seed], dtype=torch.float64))
            self.b = torch.nn.Parameter(torch.tensor(0.1 * (seed + 1), dtype=torch.float64))

        def forward(self, x):
            return (self.w * x).sum(-1, keepdim=True) + self.b

    class Adopt(Lin):
        """a class name that contains 'opt'."""

    class Other(torch.nn.Module):
        def __init__(self, seed=0):
            super().__init__()
            self.v = torch.nn.Parameter(torch.ones(3, dtype=torch.float64) * (seed + 1))

        def forward(self, x):
            return self.v.sum() * x.sum(-1, keepdim=True)

    return {"Lin": Lin, "Adopt": Adopt, "Other": Other}


OPTS = {"adam": lambda t, ps: t.optim.Adam(ps, lr=0.1), "sgd": lambda t, ps: t.optim.SGD(ps, lr=0.05, momentum=0.9),
        "rms": lambda t, ps: t.optim.RMSprop(ps, lr=0.05), "lbfgs": lambda t, ps: t.optim.LBFGS(ps, lr=0.1, max_iter=2)}


def data(n, shift=0.0):
    """n batches of BATCH samples."""
    import torch
    k = n * BATCH
    x = torch.stack([torch.linspace(-1, 1, k) + shift, torch.linspace(0.3, 0.9, k) ** 2], 1).to(torch.float64)
    y = torch.cos(2 * x.sum(-1, keepdim=True)) + shift
    return x, y


def mse(model, batch):
    x, y = batch
    d = model(x) - y
    return (d ** 2).mean(), {"mae": d.abs().mean()}


def state(model, opt):
    """deep snapshot of the parameters and the optimiser state."""
    return ({k: v.detach().clone() for k, v in model.state_dict().items()}, copy.deepcopy(opt.state_dict()))


def same(a, b, tol=1e-12):
    import torch
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        a, b = torch.as_tensor(a), torch.as_tensor(b)
        return a.shape == b.shape and bool(torch.allclose(a.to(torch.float64), b.to(torch.float64), atol=tol, rtol=0))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(map(str, a)) == set(map(str, b)) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= tol
    return a == b


def step(model, opt, batch, loss_fn=mse):
    """one optimiser step; returns the loss and metrics the closure last saw."""
    last = {}

    def closure():
        opt.zero_grad()
        loss, met = loss_fn(model, batch)
        loss.backward()
        last["l"] = (loss.detach().clone(), {k: v.detach().clone() for k, v in met.items()})
        return float(loss)
    opt.step(closure)
    return last["l"]


class Sched:
    """reference schedule: a generator of events and a plain training loop."""

    def __init__(self, torch, model, opt, batches, vbatches, cfg, start=0, gf=None, stop=None):
        self.t, self.m, self.o = torch, model, opt
        self.b, self.vb = batches, vbatches
        self.mx, self.ve = cfg["mx"], cfg["ve"]
        self.start, self.gf, self.stop = start, gf, stop
        self.trace, self.hooks = [], []
        self.train_losses, self.val_losses = [], []
        self.res = (start, None, {})
        self.stopped = False

    def ev(self, stage):
        self.trace.append((stage, self.res, {k: v.detach().clone() for k, v in self.m.state_dict().items()}))
        if self.stop:
            self.stop(self, stage)

    def batch(self, phase, e, b):
        self.ev(f"{phase}_batch_start")
        if phase == "train":
            loss, met = self.gf(self, b) if self.gf else step(self.m, self.o, b)
        else:
            with self.t.no_grad():
                loss, met = mse(self.m, b)
        met = {f"{phase}_{k}": v.detach().clone() for k, v in met.items()}
        met[f"{phase}_loss"] = loss.detach().clone()
        self.res = (e, loss.detach().clone(), met)
        self.ev(f"{phase}_batch_end")
        return self.res[1:]

    def mean(self, rs):
        return (self.t.stack([r[0] for r in rs]).mean(), {k: self.t.stack([r[1][k] for r in rs]).mean() for k in rs[0][1]})

    def epoch(self, phase, e):
        self.ev(f"{phase}_epoch_start")
        rs = [self.batch(phase, e, b) for b in (self.b if phase == "train" else self.vb)]
        self.res = (e,) + self.mean(rs)
        self.ev(f"{phase}_epoch_end")
        return rs

    def run(self):
        if self.ve:
            self.epoch("val", self.start)
        self.ev("train_start")
        e = self.start
        for e in range(self.start, self.start + self.mx + 1):
            if self.stopped:
                e -= 1
                break
            self.train_losses.append(self.epoch("train", e))
            if self.ve and e % self.ve == 0:
                self.val_losses.append(self.epoch("val", e))
        self.res = (e,) + self.mean(self.train_losses[-1])
        self.ev("train_end")
        return self


def fires(stage, it, period):
    return stage in ("train_start", "train_end") or bool(period and it and it % period == 0)
