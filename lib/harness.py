"""Exhaustive-exploration harness.

A check registers *families*: a finite, fully enumerated list of cases (programs, histories,
schedules, crash points) and a function that replays one case on the implementation and on the
reference model.  The function returns None when they agree or a message when they do not.  Every
case of every family is explored: nothing is sampled, and a run that finds no violation is never cut short by a clock.
"""
from __future__ import annotations

import hashlib
import json
import logging
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

warnings.filterwarnings("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
THOROUGH = TIER == "thorough"
CASE_LIMIT_S = 300
# once a violation has been seen, a run that takes longer than this reports it without exploring
# the rest (code that hangs would otherwise cost one time limit per case); a run without
# violations is never cut short
CUT_S = 400 if not THOROUGH else 7200
WORKERS = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))

_FAMILIES: dict = {}
_SEEN = mp.Value("i", 0)     # violations seen by any worker
_T0 = time.time()
_KNOWN: dict = {}
_DTYPE = [None]      # default dtype the library chose on import, restored before every case


FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))   # mutation runs only: stop at the first violation


class Skip(Exception):
    """the case is outside the property's domain (documented rejection)."""


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


def digest(x) -> str:
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


class Out:
    """what one case observed: feed() bytes that identify the observed outcome."""

    def __init__(self):
        self.h = hashlib.sha1()
        self.transitions = 0
        self.fails: list[str] = []

    def feed(self, *xs):
        import numpy as np
        for x in xs:
            if hasattr(x, "detach"):
                x = x.detach().cpu().numpy()
            if isinstance(x, np.ndarray):
                x = np.round(x.astype(complex), 6) + 0.0
                self.h.update(x.tobytes())
            else:
                self.h.update(repr(x).encode())

    def step(self, k: int = 1):
        self.transitions += k

    def fail(self, msg: str):
        self.fails.append(msg)


def _quiet():
    logging.disable(logging.CRITICAL)
    warnings.filterwarnings("ignore")
    try:
        import torch
        torch.set_num_threads(1)
    except Exception:
        pass


def _run_case(fam: str, idx: int):
    name, cases, fn = _FAMILIES[fam]
    case = cases[idx]
    out = Out()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    status = "ok"
    try:
        import random
        import numpy as np
        import torch
        random.seed(SEED)
        np.random.seed(SEED % (2**32))
        torch.manual_seed(SEED)
        torch.set_default_dtype(_DTYPE[0] or torch.get_default_dtype())
        msg = fn(case, out)
        if msg:
            out.fails.append(str(msg))
    except Skip as e:
        status = "skip"
        del e
    except Timeout:
        out.fails.append(f"no answer within {CASE_LIMIT_S} s")
    except BaseException as e:  # noqa: BLE001 - any error of the code under test is an observation
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            out.fails.append(f"unexpected {type(e).__name__}")
        else:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-3:])
            out.fails.append(f"unexpected {type(e).__name__}: {str(e)[:200]} [{where}]")
    finally:
        signal.alarm(0)
    return fam, idx, status, out.h.hexdigest()[:16], max(1, out.transitions), out.fails


def _run_chunk(fam: str, idxs: list[int]):
    res = []
    for i in idxs:
        if _SEEN.value and time.time() - _T0 > CUT_S:
            res.append((fam, i, "cut", "", 0, []))
            continue
        r = _run_case(fam, i)
        if r[5] and (fam, repr(_FAMILIES[fam][1][i])) not in _KNOWN:
            _SEEN.value = 1
        res.append(r)
    return res


class Check:
    def __init__(self, pid: str, rule: str, level: str = "model_checking", assumptions=(),
                 bounds: str = "", start_method: str = "fork"):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.bounds = bounds
        self.start_method = start_method
        self.order: list[str] = []

    def family(self, name: str, cases, fn):
        _FAMILIES[name] = (name, list(cases), fn)
        self.order.append(name)

    # ------------------------------------------------------------------ known findings
    def _known(self):
        path = os.path.join(VERIF, "known_findings.json")
        try:
            with open(path) as f:
                items = json.load(f)["findings"]
        except FileNotFoundError:
            return {}
        return {(k["family"], c): k["what"] for k in items if k["property"] == self.pid
                and k.get("status", "known") == "known" for c in k["cases"]}

    def main(self):
        t0 = time.time()
        _KNOWN.update(self._known())
        _quiet()
        import torch
        _DTYPE[0] = torch.get_default_dtype()
        if len(sys.argv) > 2 and sys.argv[1] == "--replay":
            return self._replay(sys.argv[2])
        only = os.environ.get("VERIF_FAMILY")
        fams = [f for f in self.order if not only or f in only.split(",")]
        jobs = []
        for f in fams:
            n = len(_FAMILIES[f][1])
            size = max(1, min(64, n // (WORKERS * 6) or 1))
            for s in range(0, n, size):
                jobs.append((f, list(range(s, min(n, s + size)))))
        results, crashed = [], []
        if WORKERS == 1 or not jobs:
            for f, ix in jobs:
                results += _run_chunk(f, ix)
        else:
            pending = jobs
            for attempt in range(2):
                broken = []
                ctx = mp.get_context(self.start_method)
                with ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_quiet) as ex:
                    futs = {ex.submit(_run_chunk, f, ix): (f, ix) for f, ix in pending}
                    for fu in as_completed(futs):
                        try:
                            got = fu.result()
                            results += got
                            if FAILFAST and any(r[5] and (r[0], repr(_FAMILIES[r[0]][1][r[1]])) not in self._known() for r in got):
                                r = next(r for r in got if r[5])
                                print(f"FAILFAST {self.pid} {r[0]} {r[5][0][:150]}", flush=True)
                                for p in list((ex._processes or {}).values()):
                                    p.kill()
                                os._exit(1)
                        except BrokenProcessPool:
                            broken.append(futs[fu])
                        except Exception as e:  # noqa: BLE001
                            crashed.append((futs[fu], repr(e)))
                if not broken:
                    break
                pending = broken
            else:
                # isolate: one process per chunk, to name the chunk that kills its process
                for f, ix in pending:
                    for i in ix:
                        ctx = mp.get_context(self.start_method)
                        with ProcessPoolExecutor(1, mp_context=ctx, initializer=_quiet) as ex:
                            try:
                                results += ex.submit(_run_chunk, f, [i]).result()
                            except BrokenProcessPool:
                                crashed.append(((f, [i]), "process killed"))
        results.sort(key=lambda r: (fams.index(r[0]), r[1]))
        known = self._known()
        viol, hits = [], {}
        for fam, idx, status, h, tr, fails in results:
            if fails:
                case = _FAMILIES[fam][1][idx]
                key = repr(case)
                if (fam, key) in known:
                    hits.setdefault(known[(fam, key)], []).append(key)
                else:
                    viol.append((fam, idx, key, fails))
        for (f, ix), why in crashed:
            viol.append((f, ix[0], repr(_FAMILIES[f][1][ix[0]]), [why]))
        per_fam = {}
        for fam in fams:
            rs = [r for r in results if r[0] == fam]
            per_fam[fam] = {
                "cases": len(rs), "out_of_domain": sum(r[2] == "skip" for r in rs),
                "transitions": sum(r[4] for r in rs),
                "distinct_outcomes": len({r[3] for r in rs}),
            }
        done = [r for r in results if r[2] == "ok"]
        keys = {(r[0], repr(_FAMILIES[r[0]][1][r[1]])) for r in done}
        samples = []
        for fam in fams[:6]:
            cs = _FAMILIES[fam][1]
            if cs:
                samples.append({"family": fam, "case": repr(cs[len(cs) // 2])[:400]})
        cov = {
            "states": len(keys),
            "transitions": sum(r[4] for r in done),
            "traces_validated_against_impl": len(done),
            "evaluations": len(results),
            "distinct_nontrivial": len({(r[0], r[3]) for r in done}),
            "rule": self.rule,
            "bounds": self.bounds,
            "families": per_fam,
            "samples": samples,
            "exhaustive": not crashed and not only and all(r[2] != "cut" for r in results),
        }
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - t0, 2),
              "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, ks in sorted(hits.items()):
            print(f"KNOWN-FINDING: property={self.pid} {what} ({len(ks)} case(s), e.g. {ks[0][:160]})")
        print(f"{self.pid} tier={TIER} cases={len(results)} transitions={cov['transitions']} "
              f"distinct_outcomes={cov['distinct_nontrivial']} skipped="
              f"{sum(r[2] == 'skip' for r in results)} wall={ev['wall_s']}s")
        if os.environ.get("VERIF_VERBOSE"):
            for fam, d in per_fam.items():
                print("  ", fam, d)
        if viol:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            show = int(os.environ.get("VERIF_SHOW", "15"))
            path = os.path.join(rdir, f"{self.pid}_{digest(viol[0][2])}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "tier": TIER, "family": viol[0][0],
                           "index": viol[0][1], "case": viol[0][2], "fails": viol[0][3],
                           "all": [(v[0], v[2], v[3][:3]) for v in viol[:200]]}, f, indent=1)
            if os.environ.get("VERIF_GROUP"):
                import re
                groups: dict = {}
                for fam, idx, key, fails in viol:
                    g = (fam, re.sub(r"[-0-9.e]+", "#", fails[0])[:int(os.environ.get("VERIF_GL", "70"))])
                    groups.setdefault(g, []).append((key, fails[0]))
                for (fam, g), ks in groups.items():
                    print(f"  GROUP {fam} x{len(ks)}: {ks[0][1][:260]}")
                    for k in (ks[:2] + ks[-1:]):
                        print("       ", k[0][:260])
                show = 0
            for fam, idx, key, fails in viol[:show]:
                print(f"  FAIL {fam}[{idx}] {key[:300]} :: {' | '.join(fails)[:500]}")
            if len(viol) > show:
                print(f"  ... {len(viol)} failing cases in total")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.stdout.flush()
            os._exit(1)
        sys.stdout.flush()
        os._exit(0)

    def _replay(self, path):
        with open(path) as f:
            d = json.load(f)
        name, cases, fn = _FAMILIES[d["family"]]
        idx = next(i for i, c in enumerate(cases) if repr(c) == d["case"])
        r = _run_case(d["family"], idx)
        print(r)
        os._exit(1 if r[5] else 0)


def guard_main(build_check):
    """an error while *building* a check (import of the code under test fails, constructor of an
    alphabet member raises) is reported as a violation, never as an error exit."""
    pid, make = build_check
    try:
        chk = make()
    except BaseException as e:  # noqa: BLE001
        traceback.print_exc()
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}_build.txt")
        with open(path, "w") as f:
            f.write(traceback.format_exc())
        ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": "model_checking",
              "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                           "samples": [repr(e)]}, "wall_s": 0.0, "violations": 1}
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f)
        print(f"VIOLATION property={pid} replay={path}")
        sys.stdout.flush()
        os._exit(1)
    chk.main()


_ = pickle
