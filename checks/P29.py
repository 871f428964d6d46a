"""P29: data, parameter, divergence, finite-difference and landscape helpers compute what they document."""
import math
import os
import random
from collections import Counter
from itertools import permutations, product
from statistics import NormalDist

import numpy as np
import torch

from lib import gen
from lib.build import Builder
from lib.common import VALS
from lib.harness import Check, Skip, guard_main

RULE = ("Loaders deliver every sample once per pass in batches of the requested size; moving data keeps it; parameter vectors "
        "read and write the trainable parameters only; divergences, finite differences and information content equal their "
        "definitions.")
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


# ------------------------------------------------------------------ data loaders
def samples(N, k, dtype=torch.float64):
    """k tensors of N rows, of different trailing shapes; row i of every tensor is recognisable."""
    shapes = [(), (2,), (1, 3)]
    return [(torch.arange(N, dtype=dtype) + 100 * j).reshape(-1, *([1] * len(shapes[j]))).expand(N, *shapes[j]).clone() for j in range(k)]


def ids(batch, k):
    """sample numbers of a batch; None if its tensors are not aligned."""
    if not isinstance(batch, (list, tuple)) or len(batch) != k:
        return None
    cols = [[int(row.reshape(-1)[0]) - 100 * j for row in t] for j, t in enumerate(batch)]
    if any(c != cols[0] for c in cols) or any(bool((row != row.reshape(-1)[0]).any()) for t in batch for row in t):
        return None
    return cols[0]


def f_loaders(case, out):
    from qadence.ml_tools import to_dataloader
    N, k, bs, infinite, shuffles = case
    old = random.shuffle
    if shuffles is not None:
        it = iter(shuffles)

        def dictated(x):
            p = next(it, tuple(range(N)))
            x[:] = [sorted(x)[i] for i in p]
        random.shuffle = dictated
    try:
        dl = to_dataloader(*samples(N, k), batch_size=bs, infinite=infinite)
        for again in range(2):
            if not infinite:
                got = [ids(b, k) for b in dl]
                want = [list(range(i, min(i + bs, N))) for i in range(0, N, bs)]
                if got != want:
                    return f"pass {again}: batches {got} instead of {want}"
                out.step(len(got))
                continue
            i, stream = iter(dl), []
            for _ in range(math.ceil((3 * N + 1) / bs)):
                b = ids(next(i), k)
                if b is None or len(b) != bs:
                    return f"pass {again}: batch {b} of size {bs}"
                stream += b
                out.step()
            for s in range(0, len(stream) - N + 1, N):
                if sorted(stream[s:s + N]) != list(range(N)):
                    return f"pass {again}: samples {stream[s:s + N]} in one pass over {N}"
    finally:
        random.shuffle = old


def f_mismatch(case, out):
    from qadence.ml_tools import to_dataloader
    sizes, infinite = case
    try:
        dl = to_dataloader(*[torch.ones(s, 1) for s in sizes], batch_size=2, infinite=infinite)
        next(iter(dl))
    except Exception:
        return None if len(set(sizes)) > 1 else "equal sizes refused"
    return None if len(set(sizes)) == 1 else "tensors of different length accepted"


def f_dict(case, out):
    from qadence.ml_tools import DictDataLoader, to_dataloader
    spec = case
    dl = DictDataLoader({f"k{j}": to_dataloader(*samples(N, 2), batch_size=bs, infinite=inf) for j, (N, bs, inf) in enumerate(spec)})
    lens = [math.ceil(N / bs) for N, bs, inf in spec if not inf]
    for again in range(2):
        got = []
        for b in dl:
            got.append({key: ids(v, 2) for key, v in b.items()})
            out.step()
            if len(got) == 7:
                break
        if len(got) != min(lens + [7]):
            return f"pass {again}: {len(got)} batches of {spec}"
        for n, b in enumerate(got):
            if set(b) != {f"k{j}" for j in range(len(spec))}:
                return f"keys {set(b)}"
            for j, (N, bs, inf) in enumerate(spec):
                v = b[f"k{j}"]
                if v is None or (not inf and v != list(range(n * bs, min(N, n * bs + bs)))) or (inf and len(v) != bs):
                    return f"pass {again}, batch {n}, key k{j}: {v}"


# ------------------------------------------------------------------ moving data
def structures():
    """descriptions of nested data."""
    leaves = [("none",), ("t", 3), ("td", 3), ("inf", 3)]
    dls = [("dl", N, bs, opt) for N in (3, 4) for bs in (1, 2, 5) for opt in ("plain", "drop", "shuffle", "collate", "sampler", "batch_sampler", "infinite")]
    dls += [("dl", 4, None, "unbatched"), ("dl", 4, None, "infinite_unbatched")]
    one = leaves + dls
    res = list(one)
    for a in leaves + dls[:7]:
        res += [("list", a), ("dict", a), ("list", a, ("t", 2)), ("dict", ("t", 2), a), ("list", ("dict", a), ("list", a))]
    for a in dls:
        for b in dls[:7]:
            res.append(("ddl", a, b))
    return res + [("list",), ("dict",)]


def collate(batch):
    return {"s": torch.stack([b[0] for b in batch]) * 2}


def make_data(s):
    from torch.utils.data import BatchSampler, DataLoader, SequentialSampler, TensorDataset
    from qadence.ml_tools import DictDataLoader
    from qadence.ml_tools.data import InfiniteTensorDataset
    k = s[0]
    if k == "none":
        return None
    if k == "t":
        return samples(s[1], 1)[0]
    if k == "td":
        return TensorDataset(*samples(s[1], 2))
    if k == "inf":
        return InfiniteTensorDataset(*samples(s[1], 2))
    if k == "list":
        return [make_data(x) for x in s[1:]]
    if k == "dict":
        return {f"k{i}": make_data(x) for i, x in enumerate(s[1:])}
    if k == "ddl":
        return DictDataLoader({f"k{i}": make_data(x) for i, x in enumerate(s[1:])})
    _, N, bs, opt = s
    ds = TensorDataset(*samples(N, 2))
    if opt.startswith("infinite"):
        return DataLoader(InfiniteTensorDataset(*samples(N, 2)), batch_size=bs)
    if opt == "unbatched":
        return DataLoader(ds, batch_size=None)
    if opt == "batch_sampler":
        return DataLoader(ds, batch_sampler=BatchSampler(SequentialSampler(range(N)), bs, False))
    kw = {"plain": {}, "drop": {"drop_last": True}, "shuffle": {"shuffle": True, "generator": torch.Generator().manual_seed(7)},
          "collate": {"collate_fn": collate}, "sampler": {"sampler": list(reversed(range(N)))}}[opt]
    return DataLoader(ds, batch_size=bs, **kw)


def observe(d, infinite_len=9):
    """everything which can be read from the data: nested lists of (device type, shape, dtype, values)."""
    from torch.utils.data import DataLoader, IterableDataset, TensorDataset
    from qadence.ml_tools import DictDataLoader
    if d is None:
        return None
    if isinstance(d, torch.Tensor):
        return (d.device.type, tuple(d.shape), str(d.dtype), None if d.device.type == "meta" else d.tolist())
    if isinstance(d, dict):
        return {k: observe(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [observe(v) for v in d]
    if isinstance(d, TensorDataset):
        return ("td", [observe(x) for x in d])
    random.seed(3)
    if isinstance(d, (DataLoader, DictDataLoader, IterableDataset)):
        res = []
        for b in d:
            res.append(observe(b))
            if len(res) == infinite_len:
                break
        return (type(d).__name__, res)
    return repr(type(d))


def f_move(case, out):
    from qadence.ml_tools.data import data_to_device
    s, device = case
    want = observe(make_data(s))
    if device == "meta":
        def meta(o):
            if isinstance(o, tuple) and len(o) == 4 and isinstance(o[1], tuple):
                return ("meta",) + o[1:3] + (None,)
            if isinstance(o, (list, tuple)):
                return type(o)(meta(x) for x in o)
            return {k: meta(v) for k, v in o.items()} if isinstance(o, dict) else o
        want = meta(want)
    src = make_data(s)
    got = observe(data_to_device(src, torch.device(device)))
    out.step()
    out.feed(repr(got)[:2000])
    if got != want:
        return f"{str(got)[:220]} instead of {str(want)[:220]}"


def f_cast(case, out):
    from qadence.ml_tools.data import data_to_device
    s, dtype = case
    want = observe(make_data(s))

    def cast(o):
        if isinstance(o, tuple):
            return o[:2] + (str(dtype),) + o[3:]
        if isinstance(o, list):
            return [cast(x) for x in o]
        return {k: cast(v) for k, v in o.items()} if isinstance(o, dict) else o
    got = observe(data_to_device(make_data(s), device=torch.device("cpu"), dtype=dtype))
    if got != cast(want):
        return f"{str(got)[:220]} instead of {str(cast(want))[:220]}"


def f_immovable(case, out):
    from qadence.ml_tools.data import data_to_device
    try:
        got = data_to_device(case[0], torch.device("cpu"))
    except Exception:
        return None
    return f"{type(case[0])} moved to {got!r}"


# ------------------------------------------------------------------ parameters
SHAPES = [(), (1,), (2,), (2, 3), (0,)]


class Net(torch.nn.Module):
    def __init__(self, spec, tied=False):
        super().__init__()
        self.sub = torch.nn.Module()
        for i, (shape, train) in enumerate(spec):
            p = torch.nn.Parameter(torch.full(shape, float(i + 1)) + torch.arange(max(1, math.prod(shape)))[:math.prod(shape)].reshape(shape) / 10, requires_grad=train)
            (self if i % 2 else self.sub).register_parameter(f"p{i}", p)
        self.register_buffer("buf", torch.tensor([7.0]))
        if tied and spec:
            self.again = (self.sub).p0


def f_parameters(case, out):
    from qadence.ml_tools.parameters import get_parameters, num_parameters, set_parameters
    spec, tied = case
    m = Net(spec, tied)
    free = [p for p in m.parameters() if p.requires_grad]
    fixed = {n: p.detach().clone() for n, p in m.named_parameters() if not p.requires_grad}
    flags = [p.requires_grad for p in m.parameters()]
    want = [float(v) for p in free for v in p.detach().reshape(-1)]
    if not free:
        raise Skip()  # nothing trainable: refused by torch
    got = get_parameters(m)
    if got.ndim != 1 or got.tolist() != want:
        return f"parameters {got.tolist()} instead of {want}"
    if num_parameters(m) != len(want):
        return f"{num_parameters(m)} parameters instead of {len(want)}"
    for k in range(2):
        theta = torch.arange(len(want), dtype=torch.float64) * (-1) ** k + 0.5 + k
        idn = [id(p) for p in m.parameters()]
        set_parameters(m, theta)
        out.step()
        if [id(p) for p in m.parameters()] != idn or [p.requires_grad for p in m.parameters()] != flags:
            return "parameters replaced"
        if [float(v) for p in free for v in p.detach().reshape(-1)] != theta.tolist():
            return f"after set_parameters({theta.tolist()}): {[p.tolist() for p in free]}"
        if get_parameters(m).tolist() != theta.tolist():
            return "get_parameters after set_parameters"
        theta += 100
        if get_parameters(m).tolist() == theta.tolist() and len(want):
            return "parameters alias the vector"
        for n, p in m.named_parameters():
            if n in fixed and p.tolist() != fixed[n].tolist():
                return f"fixed parameter {n} changed"
        if m.buf.tolist() != [7.0]:
            return "buffer changed"


def f_rand(case, out):
    """random values for exactly the features of a program."""
    from qadence import QNN, QuantumCircuit, QuantumModel
    from qadence.ml_tools.utils import rand_featureparameters
    spec, obs, kind, batch = case
    b = Builder(VALS)
    block = b.block(spec)
    feats = set()

    def walk(s):
        if isinstance(s, tuple):
            if len(s) == 2 and s[0] == "f" and isinstance(s[1], str):
                feats.add(s[1])
            else:
                for x in s:
                    walk(x)
    walk(spec)
    n = 2
    circ = QuantumCircuit(n, block)
    if kind in ("model", "qnn"):
        for o in obs:
            walk(o)
        ob = [b.block(o) for o in obs]
        if kind == "model":
            x = QuantumModel(circ, observable=ob or None)
        else:
            if not ob:
                raise Skip()
            x = QNN(circ, observable=ob, inputs=sorted(feats))
    else:
        x = {"block": block, "circuit": circ}[kind]
    if batch is None:
        got, batch = rand_featureparameters(x), 1
    else:
        got = rand_featureparameters(x, batch)
    if set(got) != feats:
        return f"values for {sorted(got)} instead of {sorted(feats)}"
    for k, v in got.items():
        if tuple(v.shape) != (batch,) or v.requires_grad or float(v.min()) < 0 or float(v.max()) > 1:
            return f"value {v} of {k}"
    if kind in ("model", "qnn") and obs:
        e = x.expectation(got)
        if e.shape[-1] != len(obs):
            return f"expectation of shape {tuple(e.shape)}"
    out.step()


# ------------------------------------------------------------------ divergences
def f_divergence(case, out):
    from qadence.divergences import js_divergence, norm_difference
    p, q = case
    keys = sorted({k for k, _ in p + q})
    P, Q = (np.array([dict(c).get(k, 0) for k in keys], float) for c in (p, q))
    if not P.sum() or not Q.sum():
        raise Skip()
    P, Q = P / P.sum(), Q / Q.sum()

    def ent(d):
        return -sum(v * math.log(v) for v in d if v > 0)
    want = ent((P + Q) / 2) - (ent(P) + ent(Q)) / 2
    cp, cq = Counter(dict(p)), Counter(dict(q))
    got = js_divergence(cp, cq)
    out.step(2)
    if not abs(got - want) < 1e-12:
        return f"Jensen-Shannon divergence {got} instead of {want}"
    got = norm_difference(cp, cq)
    want = float(np.sqrt(((P - Q) ** 2).sum()))
    if not abs(got - want) < 1e-12:
        return f"norm of the difference {got} instead of {want}"
    if list(cp.items()) != list(p) or list(cq.items()) != list(q):
        return "the count tables were changed"


# ------------------------------------------------------------------ finite differences
def f_finitediff(case, out):
    """monomial x^a y^b (z^c) differentiated along the indices."""
    from qadence.backends.utils import finitediff
    powers, idx, batch, eps = case
    x = torch.tensor([[0.7, -1.2, 0.4], [-0.5, 0.9, 1.3]], dtype=torch.float64)[:batch, :len(powers)]
    seen = []

    def f(v):
        seen.append(v.clone())
        r = torch.ones(v.shape[0], dtype=v.dtype)
        for i, k in enumerate(powers):
            r = r * v[:, i] ** k
        return r.reshape(-1, 1)
    x0 = x.clone()
    got = finitediff(f, x, idx) if eps is None else finitediff(f, x, idx, eps)
    if not torch.equal(x, x0):
        return "the point was changed"
    want = np.ones(batch)
    for i, k in enumerate(powers):
        d = idx.count(i)
        c = math.prod(range(k - d + 1, k + 1)) if d <= k else 0
        want = want * (c * x0[:, i].numpy() ** (k - d) if c else 0)
    tol = {1: 1e-7, 2: 1e-5, 3: 1e-2, 4: 0.15}[len(idx)] if eps is None else 80 * eps ** 2
    out.step(len(seen))
    if tuple(got.shape) != (batch, 1):
        return f"shape {tuple(got.shape)}"
    d = float(np.max(np.abs(got[:, 0].numpy() - want)))
    if not d < tol:
        return f"{got[:, 0].tolist()} instead of {want.tolist()}"
    if eps is not None:
        for v in seen:
            m = (v - x0) / eps
            if float((m - m.round()).abs().max()) > 1e-6:
                return f"evaluated at {(v - x0).tolist()} from the point with spacing {eps}"


# ------------------------------------------------------------------ tensors
def f_tensors(case, out):
    from qadence.ml_tools.tensors import detach_loss_metrics, numpy_to_tensor, promote_to, promote_to_tensor
    kind, grad = case
    out.step()
    if kind == "float":
        t = promote_to_tensor(0.25, requires_grad=grad)
        ok = t.tolist() == [[0.25]] and t.requires_grad == grad and promote_to(t, float) == 0.25
    elif kind == "numpy":
        a = np.array([[1.5, 2.0]])
        t = promote_to_tensor(a, requires_grad=grad)
        back = promote_to(t, np.ndarray)
        ok = t.tolist() == a.tolist() and t.requires_grad == grad and isinstance(back, np.ndarray) and back.tolist() == a.tolist()
        ok = ok and numpy_to_tensor(a, dtype=torch.float32, requires_grad=grad).dtype == torch.float32 and numpy_to_tensor(a).dtype == torch.float64
        ok = ok and numpy_to_tensor(a, requires_grad=grad).requires_grad == grad
    elif kind == "tensor":
        a = torch.ones(2, 3)
        t = promote_to_tensor(a, requires_grad=grad)
        ok = t.tolist() == a.tolist() and t.requires_grad == grad and promote_to(t, torch.Tensor) is t
    elif kind == "refused":
        ok = True
        for f in (lambda: promote_to_tensor("x"), lambda: promote_to(torch.ones(1, 1), str), lambda: promote_to(torch.ones(2, 1), float)):
            try:
                f()
                ok = False
            except (ValueError, AssertionError):
                pass
    else:
        w = torch.tensor(2.0, requires_grad=True)
        loss, met = detach_loss_metrics((w * 2, {"a": w * 3, "b": 5, "c": None}))
        ok = loss.item() == 4 and not loss.requires_grad and met["a"].item() == 6 and not met["a"].requires_grad and met["b"] == 5 and met["c"] is None
    return None if ok else "wrong"


# ------------------------------------------------------------------ information content
class Walk(torch.nn.Module):
    """records the parameters at every evaluation."""

    def __init__(self, spec):
        super().__init__()
        self.inner = Net(spec)
        self.seen = []

    def forward(self, x):
        self.seen.append({n: p.detach().clone() for n, p in self.inner.named_parameters()})
        return x


def bounds_of(ic, eps, m, eta):
    """(lower, upper) of the maximum, upper of the sensitivity, from the definitions."""
    k = int(np.argmax(ic))
    e = np.linspace(0.001, 1 / 6, 200001)
    H = (-4 * e * np.log(e) - 2 * (0.5 - 2 * e) * np.log(0.5 - 2 * e)) / math.log(6)
    q = float(e[int(np.argmin(np.abs(H - ic[k])))])
    return k, q


def close_q(got, want_q, f, rel=1e-9):
    """the q is on a grid: got must lie between f at the neighbouring grid points."""
    step = 2.5e-5
    lo, hi = sorted((f(max(want_q - step, 1e-4)), f(min(want_q + step, 1 / 6 + 1e-5))))
    return lo - 1e-9 - abs(lo) * rel <= got <= hi + 1e-9 + abs(hi) * rel


def f_information(case, out):
    from qadence.ml_tools.information import InformationContent
    slopes, spec, multiple, eps, eta = case
    m = Walk(spec)
    free = [n for n, p in m.inner.named_parameters() if p.requires_grad]
    total = sum(p.numel() for p in m.inner.parameters() if p.requires_grad)
    N = multiple * total
    state = {"loss": 0.0, "k": 0}
    used = [slopes[i % len(slopes)] for i in range(N - 1)]

    def vec(s):
        return torch.cat([s[n].reshape(-1) for n in free])

    def loss_fn(model, xs):
        model(xs)
        if len(m.seen) > 1:
            state["loss"] += used[len(m.seen) - 2] * float((vec(m.seen[-1]) - vec(m.seen[-2])).norm()) if len(m.seen) - 2 < len(used) else 0
        return torch.tensor(state["loss"]), {"ignored": 1}
    before = {n: p.detach().clone() for n, p in m.named_parameters()}
    data = torch.tensor([1.0])
    info = InformationContent(m, loss_fn, data, torch.tensor(eps), multiple)
    if N < 4:
        raise Skip()
    got = info.calculate_IC
    out.step(len(m.seen))
    if len(m.seen) != N:
        return f"{len(m.seen)} variations evaluated instead of {N}"
    for n, p in m.named_parameters():
        if p.tolist() != before[n].tolist():
            return f"parameter {n} of the model changed"
    for s in m.seen:
        for n, v in s.items():
            if v.shape != m.inner.get_parameter(n).shape:
                return f"variation of {n} has shape {tuple(v.shape)}"
            if n not in free and v.tolist() != m.inner.get_parameter(n).tolist():
                return f"fixed parameter {n} varied"
    if total and len({tuple(vec(s).tolist()) for s in m.seen}) != N:
        return "the variations are not different"
    if any(float(vec(s).min()) < 0 or float(vec(s).max()) > 2 * math.pi for s in m.seen):
        return "variations outside [0, 2 pi]"
    want = []
    for e in eps:
        d = [1 if s > e else -1 if s < -e else 0 for s in used]
        c = Counter(zip(d, d[1:]))
        ps = [c[t] / (len(d) - 1) for t in ((1, 0), (1, -1), (0, 1), (0, -1), (-1, 0), (-1, 1))]
        want.append(-sum(p * math.log(p) for p in ps if p > 0) / math.log(6))
    out.feed(np.array(want))
    if tuple(got.shape) != (len(eps),) or float((got - torch.tensor(want)).abs().max()) > 1e-6:
        return f"information content {got.tolist()} instead of {want}"
    top, at = info.max_IC()
    k = int(got.argmax())
    if abs(top - max(want)) > 1e-6 or abs(want[list(eps).index(min(eps, key=lambda v: abs(v - at)))] - max(want)) > 1e-6:
        return f"maximum {top} at {at}, of {want}"
    below = [e for e, w in zip(eps, want) if w < eta - 1e-6]
    edge = any(abs(w - eta) <= 1e-6 for w in want)
    if not edge:
        if below:
            s = info.sensitivity_IC(eta)
            if abs(s - min(below)) > 1e-6:
                return f"sensitivity epsilon {s} instead of {min(below)} ({want})"
            b = info.get_grad_norm_bounds_sensitivity_IC(eta)
            w = min(below) * math.sqrt(total) / NormalDist().inv_cdf(1 - 3 * eta / 2)
            if abs(b - w) > 1e-6 * max(1, abs(w)):
                return f"bound from the sensitivity {b} instead of {w}"
    _, q = bounds_of(want, eps, total, eta)
    lo, up = info.get_grad_norm_bounds_max_IC()
    r = at * math.sqrt(total)
    ok = close_q(lo, q, lambda v: r / NormalDist().inv_cdf(1 - 2 * v), 1e-5) and close_q(up, q, lambda v: r / NormalDist().inv_cdf(0.5 * (1 + 2 * v)), 1e-5)
    if not ok:
        return f"bounds {lo}, {up} for q={q}, epsilon {at}, {total} parameters"
    _ = k


def f_q(case, out):
    from qadence.ml_tools.information import InformationContent
    (H,) = case
    q = InformationContent.q_value(H)
    h = (-4 * q * math.log(q) - 2 * (0.5 - 2 * q) * math.log(0.5 - 2 * q)) / math.log(6)
    if abs(h - H) > 2e-4 * (1 + abs(math.log(q))):
        return f"q={q} has information content {h}"


def f_trainer_ic(case, out):
    """bounds through the trainer: as from InformationContent on the first batch."""
    from qadence.ml_tools import TrainConfig, Trainer, to_dataloader
    from qadence.ml_tools.information import InformationContent
    spec, multiple, where, eps, eta, data = case
    import tempfile
    with tempfile.TemporaryDirectory() as folder:
        m = Walk(spec)
        total = sum(p.numel() for p in m.inner.parameters() if p.requires_grad)
        rec = []

        def loss_fn(model, xs):
            rec.append(None if xs is None else [t.tolist() for t in xs])
            model(xs)
            v = torch.cat([m.seen[-1][n].reshape(-1) for n, p in m.inner.named_parameters() if p.requires_grad])
            return torch.sin(3 * v).sum() * (1 if xs is None else xs[0].sum()), {}
        dl = to_dataloader(*samples(5, 2), batch_size=2) if data else None
        other = to_dataloader(*[t + 10 for t in samples(5, 2)], batch_size=3)
        tr = Trainer(m, torch.optim.Adam(m.parameters()), TrainConfig(max_iter=1, root_folder=folder, write_every=0, checkpoint_every=0), loss_fn=loss_fn,
                     train_dataloader=dl)
        try:
            got = tr.get_ic_grad_bounds(eta, torch.tensor(eps), variation_multiple=multiple, **({"dataloader": other} if where == "arg" else {}))
        except Exception as e:
            if "numel() == 0" in str(e):
                raise Skip()
            raise
        if len(rec) != multiple * total:
            return f"{len(rec)} variations instead of {multiple * total}"
        src = other if where == "arg" else dl
        want_batch = None if src is None else [t.tolist() for t in next(iter(src))]
        if any(r != want_batch for r in rec):
            return f"evaluated on {rec[0]} instead of {want_batch}"
        seen = m.seen[:]
        # the same walk again, dictated
        m2 = Walk(spec)
        order = iter(seen)

        def replay(model, xs):
            s = next(order)
            v = torch.cat([s[n].reshape(-1) for n, p in m2.inner.named_parameters() if p.requires_grad])
            return torch.sin(3 * v).sum() * (1 if want_batch is None else torch.tensor(want_batch[0]).sum()), {}
        info = InformationContent(m2, replay, None, torch.tensor(eps), multiple)
        info.all_variations = torch.stack([torch.cat([s[n].reshape(-1) for n, p in m2.inner.named_parameters() if p.requires_grad]) for s in seen])
        want = (*info.get_grad_norm_bounds_max_IC(), info.get_grad_norm_bounds_sensitivity_IC(eta))
        out.step(len(rec))
        if not np.allclose(got, want, rtol=1e-6):
            return f"bounds {got} instead of {want}"


# ------------------------------------------------------------------ enumeration
def make():
    import qadence  # noqa: F401
    import qadence.ml_tools  # noqa: F401
    T = THOROUGH
    chk = Check("P29", RULE, bounds="datasets of 1..5 samples, batches 1..6, all shuffles of up to 3 samples; all nestings of 2 levels; up to 3 parameters of 5 shapes; "
                "all pairs of count tables over 3 keys with counts 0..2; monomials of degree <= 4 in 2 variables along up to 4 indices; all walks of 4 (5) slopes over 5 values")
    shuf = [(N, k, bs, True, (p, q)) for N in ((1, 2, 3, 4) if T else (1, 2, 3)) for k in (1, 2) for bs in (1, 2, 3) for p in permutations(range(N)) for q in permutations(range(N))]
    chk.family("loaders", [(N, k, bs, inf, None) for N in range(1, 6) for k in (1, 2, 3) for bs in range(1, 7) for inf in (False, True)] + shuf, f_loaders)
    chk.family("mismatch", [(s, inf) for r in (1, 2, 3) for s in product((1, 2, 3), repeat=r) for inf in (False, True)], f_mismatch)
    one = [(N, bs, inf) for N in (1, 3, 4) for bs in (1, 2, 5) for inf in (False, True)]
    chk.family("dict_loaders", [(a,) for a in one] + [(a, b) for a in one for b in one] + [(a, b, c) for a in one[::4] for b in one[1::4] for c in one[::5]], f_dict)
    st = structures()
    chk.family("moved", [(s, d) for s in st for d in ("cpu", "meta")], f_move)
    simple = [s for s in st if not any(x in str(s) for x in ("'td'", "'inf'", "'dl'", "'ddl'"))]
    chk.family("cast", [(s, d) for s in simple for d in (torch.float32, torch.float64, torch.complex128, torch.int64)], f_cast)
    chk.family("immovable", [(x,) for x in ("text", 3, 2.5, object())], f_immovable)
    ps = [(s, g) for s in SHAPES for g in (True, False)]
    chk.family("parameters", [(tuple(c), tied) for r in (1, 2, 3) for c in product(ps, repeat=r) for tied in (False, True)], f_parameters)
    x, y, a = ("f", "x"), ("f", "y"), ("v", "a")
    specs = [("RX", (0,), x), ("chain", ("RX", (0,), x), ("RY", (1,), ("mul", 2, y))), ("RX", (0,), ("add", x, ("mul", y, a))), ("chain", ("RX", (0,), a), ("H", (1,))),
             ("kron", ("RX", (0,), 0.5), ("RY", (1,), ("sin", x)))]
    obs = [(), (("Z", (0,)),), (("scale", x, ("Z", (0,))),), (("Z", (1,)), ("scale", ("mul", a, y), ("X", (0,)))), (("scale", ("f", "z"), ("Z", (0,))), ("scale", a, ("Z", (1,))))]
    chk.family("random_features", [(s, o, k, b) for s in specs for o in obs for k in ("block", "circuit", "model", "qnn") for b in (None, 1, 3) if not (k == "qnn" and s == specs[3])], f_rand)
    ks = ("00", "01", "10")
    tabs = []
    for c in product((None, 0, 1, 2) if not T else (None, 0, 1, 2, 5), repeat=3):
        items = [(k, v) for k, v in zip(ks, c) if v is not None]
        if sum(v for _, v in items):
            tabs += list(dict.fromkeys([tuple(items), tuple(reversed(items))]))
    chk.family("divergences", [(p, q) for p in tabs for q in tabs], f_divergence)
    fd = []
    for powers in product(range(4), repeat=2):
        for r in (1, 2, 3, 4):
            for idx in product((0, 1), repeat=r):
                fd += [(powers, idx, b, e) for b in (1, 2) for e in (None, 0.02)]
    fd += [((1, 2, 1), idx, 2, e) for r in (1, 2, 3) for idx in product((0, 1, 2), repeat=r) for e in (None, 0.02)]
    chk.family("finite_differences", fd, f_finitediff)
    chk.family("tensors", [(k, g) for k in ("float", "numpy", "tensor", "refused", "detach") for g in (False, True)], f_tensors)
    V = (-2.0, -0.5, 0.0, 0.5, 2.0)
    E = (0.05, 1.0, 3.0)
    one = ((((1,), True),), 5)
    cases = [(w, one[0], 5, E, 0.3) for w in product(V, repeat=4)]
    if T:
        cases += [(w, one[0], 6, E, 0.3) for w in product(V, repeat=5)]
    nets = [tuple(c) for r in (1, 2) for c in product([(s, g) for s in ((), (1,), (2,), (2, 3)) for g in (True, False)], repeat=r) if any(g for _, g in c)]
    cases += [((2.0, -0.5, 0.5, -2.0, 0.0, 2.0, 0.5), n, k, e, eta) for n in nets for k in (2, 4, 7) for e in ((0.1,), (3.0, 1.0, 0.1)) for eta in (0.05, 0.6)]
    chk.family("information_content", cases, f_information)
    chk.family("q_values", [(i / 200,) for i in range(82, 201)], f_q)
    nets2 = [n for n in nets if all(s for s, _ in n)][::3]
    chk.family("trainer_bounds", [(n, k, w, (0.05, 0.5, 40.0), 0.4, d) for n in nets2 for k in (5, 9) for w in ("own", "arg") for d in (True, False)], f_trainer_ic)
    return chk


_ = gen
guard_main(("P29", make))
