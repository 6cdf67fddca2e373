"""Explorer: enumerates every scenario of a finite space on the real code, in parallel, and reports what it covered.

A check is a list of spaces.  A space is a finite, deterministic, simplest-first enumeration of scenarios (JSON values)
together with a function that runs ONE scenario against the code in /repo and raises Violation if the property fails
on it.  Nothing is sampled: every scenario of every space is run unless the time limit cuts a space short, in which
case the evidence says so ("exhaustive": false and how far the enumeration got).
"""

from __future__ import annotations

import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
EVID = ROOT / "evidence"
KNOWN = ROOT / "known_findings.txt"


class Violation(Exception):
    """The property does not hold on the scenario being run."""


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class Ctx:
    """What one worker measured."""

    def __init__(self):
        self.states = set()  # distinct model states (hashes)
        self.transitions = 0  # steps of the model / of the real code that were checked
        self.traces = 0  # executions of the real code compared with the oracle
        self.evaluations = 0
        self.nontrivial = set()

    def state(self, *key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def hit(self, *key):
        """a distinct non-trivial outcome"""
        self.nontrivial.add(hash(key))


class Space:
    def __init__(self, name, bound, gen, run, share=1.0):
        self.name, self.bound, self.gen, self.run, self.share = name, bound, gen, run, share


def _jsonable(x):
    return json.loads(json.dumps(x))


def _signature(pid, space, sc):
    return f"{space} {json.dumps(sc, sort_keys=True)}"


def load_known(pid):
    """Known findings of this property: {signature: text}.  `fixed:` lines suppress nothing."""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith("finding: "):
                rec = json.loads(line[len("finding: ") :])
                if rec["property"] == pid:
                    out[rec["signature"]] = rec["what"]
    return out


def run_one(space, ctx, sc, limit):
    """None if the property holds on the scenario, else a message"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        space.run(ctx, sc)
        return None
    except Violation as e:
        return str(e)
    except Hang:
        return f"no answer within {limit} s"
    except MemoryError:
        raise
    except Exception:
        return "unexpected exception\n" + traceback.format_exc()
    finally:
        signal.alarm(0)


def _worker(w, nw, space, known, first_bad, deadline, limit, conn):
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)  # LAPACK writes there, past sys.stdout
    ctx = Ctx()
    bad, done, cut, seen_known, last = None, 0, False, [], -1
    samples = []
    try:
        # blocks keep neighbouring scenarios (shared caches) together
        block = 4
        for i, sc in enumerate(space.gen()):
            last = i
            if (i // block) % nw != w:
                continue
            if i > first_bad.value:
                break
            if time.time() > deadline:
                cut = True
                break
            sc = _jsonable(sc)
            ctx.evaluations += 1
            msg = run_one(space, ctx, sc, limit)
            done += 1
            if len(samples) < 1:
                samples.append({"space": space.name, "index": i, "scenario": sc})
            if msg is not None:
                sig = _signature(None, space.name, sc)
                if sig in known:
                    seen_known.append(sig)
                    continue
                bad = (i, sc, msg)
                with first_bad.get_lock():
                    first_bad.value = min(first_bad.value, i)
                break
        conn.send(("ok", ctx, bad, done, cut, seen_known, samples))
    except BaseException:
        conn.send(("err", traceback.format_exc()))
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(0)


def explore(pid, space, known, deadline, limit, nw):
    mpc = mp.get_context("fork")
    first_bad = mpc.Value("q", 2**62)
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nw):
        a, b = mpc.Pipe(duplex=False)
        p = mpc.Process(target=_worker, args=(w, nw, space, known, first_bad, deadline, limit, b))
        p.start()
        b.close()
        procs.append((p, a))
    total = Ctx()
    bads, done, cut, seen, samples, errs = [], 0, False, [], [], []
    for p, a in procs:
        try:
            r = a.recv()
        except EOFError:
            r = ("err", "worker died")
        p.join()
        if r[0] == "err":
            errs.append(r[1])
            continue
        _, ctx, bad, d, c, sk, sm = r
        total.states |= ctx.states
        total.nontrivial |= ctx.nontrivial
        total.transitions += ctx.transitions
        total.traces += ctx.traces
        total.evaluations += ctx.evaluations
        done += d
        cut = cut or c
        seen += sk
        samples += sm
        if bad:
            bads.append(bad)
    return total, (min(bads) if bads else None), done, cut, seen, samples[:2], errs


def main(pid, prop, spaces, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)  # recorded only: nothing here is random
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "7200"))
    limit = 120
    nw = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))
    t0 = time.time()

    if "--replay" in argv:
        rec = json.loads(Path(argv[argv.index("--replay") + 1]).read_text())
        space = {s.name: s for s in spaces}[rec["space"]]
        msg = run_one(space, Ctx(), rec["scenario"], 10 * limit)
        print(msg or "the property holds on this scenario")
        return 1 if msg else 0

    known = load_known(pid)
    only = os.environ.get("VERIF_SPACE")
    total, exhaustive, per_space, samples, seen_known = Ctx(), True, [], [], []
    violation = None
    for space in spaces:
        if only and space.name != only:
            continue
        ts = time.time()
        got, bad, done, cut, seen, sm, errs = explore(pid, space, known, t0 + budget, limit, nw)
        if errs:
            print("\n".join(errs), file=sys.stderr)
            print(f"ERROR: the check of {pid} did not finish ({space.name})")
            return 2
        for a in ("states", "nontrivial"):
            setattr(total, a, getattr(total, a) | {hash((space.name, x)) for x in getattr(got, a)})
        total.transitions += got.transitions
        total.traces += got.traces
        total.evaluations += got.evaluations
        seen_known += seen
        samples += sm
        if cut:
            exhaustive = False
        per_space.append(
            {
                "space": space.name,
                "bound": space.bound,
                "scenarios": done,
                "states": len(got.states),
                "transitions": got.transitions,
                "traces": got.traces,
                "completed": not cut and bad is None,
                "wall_s": round(time.time() - ts, 2),
            }
        )
        if bad:
            violation = (space, bad)
            break

    for sig in sorted(set(seen_known)):
        print(f"KNOWN-FINDING: property={pid} {known[sig]}")

    EVID.mkdir(exist_ok=True)
    cov = {}
    if prop["level"] == "model_checking":
        cov.update(
            states=len(total.states),
            transitions=total.transitions,
            traces_validated_against_impl=total.traces,
        )
    else:
        cov.update(
            evaluations=total.evaluations,
            distinct_nontrivial=len(total.nontrivial),
            rule="every fault pattern of the bounded space; non-trivial: the run consumed at least one injected fault and the resulting sequence of entries was compared with the fault-free run; distinct by scenario",
            traces_validated_against_impl=total.traces,
        )
    cov.update(
        scenarios=total.evaluations,
        spaces=per_space,
        samples=samples[:8],
        exhaustive=exhaustive and violation is None,
    )
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": prop["level"],
        "coverage": cov,
        "assumptions": [prop["note"], "Nothing is sampled: the seed is recorded but unused."],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if prop["level"] == "model_checking":
        ev["coverage"].pop("scenarios")
        ev["coverage"]["scenario_runs"] = total.evaluations
    else:
        ev["coverage"].pop("scenarios")
    (EVID / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")

    if violation:
        space, (i, sc, msg) = violation
        d = EVID / "replay"
        d.mkdir(exist_ok=True)
        path = d / f"{pid}.json"
        path.write_text(
            json.dumps({"property": pid, "space": space.name, "index": i, "scenario": sc, "message": msg}, indent=1)
            + "\n"
        )
        print(msg)
        print(f"scenario {space.name}[{i}]: {json.dumps(sc)[:2000]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    n = sum(s["scenarios"] for s in per_space)
    print(
        f"{pid}: held on {n} scenarios, {len(total.states)} states, {total.transitions} steps, {total.traces} runs of the real code"
        f" ({'complete' if exhaustive else 'cut by the time limit'}, {time.time() - t0:.1f} s)"
    )
    return 0
