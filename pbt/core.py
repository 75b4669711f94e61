"""Core of the property checks: case running, sharding, shrinking, evidence, replays.

A property module defines SUBS, a list of Sub. A Sub couples a strategy producing
JSON-able cases with a function deciding one case; the deciding function never draws
randomness, so a saved case is a complete reproduction."""
from __future__ import annotations

import collections
import contextlib
import dataclasses
import hashlib
import json
import logging
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import warnings
from typing import Any, Callable, Dict, List, Optional

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("VT_SCRATCH") or "/tmp"
SHRINK_SECONDS = 25
CPU_LIMIT = 90  # CPU seconds in one case (a case takes well under one second)
WALL_LIMIT = 240  # wall seconds in one case: harness error, never a verdict


class Violation(Exception):
    """The property does not hold for the current case."""


class Skip(Exception):
    """The case lies outside the property's domain."""


class HarnessError(Exception):
    pass


class CaseCpuLimit(BaseException):
    pass


class CaseWallLimit(BaseException):
    pass


class Ctx:
    """Per-case context handed to deciding functions."""

    def __init__(self, env, tier: str) -> None:
        self.env = env
        self.tier = tier
        self.tags: set = set()
        self.nontrivial = False

    def tag(self, *names: str) -> None:
        self.tags.update(names)

    def check(self, cond: Any, msg: str, *args: Any) -> None:
        if not cond:
            raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def must_succeed(what: str):
    """Wraps a call into the code under test that has to succeed in the property's domain."""
    try:
        yield
    except (Violation, Skip, HarnessError):
        raise
    except Exception as exc:  # pylint: disable=broad-except
        tb = traceback.extract_tb(exc.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "/subsetter/" in f.filename]
        raise Violation(
            f"{what}: unexpected {type(exc).__name__}: {str(exc)[:600]} (at {' > '.join(where[-4:])})"
        ) from exc


@dataclasses.dataclass
class Sub:
    name: str
    run: Callable[[Any, Ctx], None]
    strategy: Optional[Callable[..., Any]] = None  # (dialect, tier) -> hypothesis strategy
    cases: Optional[Callable[..., Any]] = None  # (dialect, tier) -> iterable, enumerated instead of generated
    dialects: tuple = ("sqlite",)  # "none" for no database
    quick: Any = 40  # cases per shard: int or {dialect: int}
    thorough: Any = 400
    shards: Any = None  # {dialect: shards} for generated cases
    rule: str = ""

    def count(self, tier: str, dialect: str) -> int:
        n = self.quick if tier == "quick" else self.thorough
        return n[dialect] if isinstance(n, dict) else n

    def nshards(self, dialect: str) -> int:
        dflt = {"sqlite": 5, "none": 5, "postgres": 2, "mysql": 1}
        sh = self.shards or {}
        return sh.get(dialect, dflt.get(dialect, 1))


def canon(case: Any) -> str:
    return json.dumps(case, sort_keys=True, ensure_ascii=False)


def digest(case: Any) -> str:
    return hashlib.sha1(canon(case).encode("utf-8", "surrogatepass")).hexdigest()[:16]


def _on_cpu(_s, _f):
    raise CaseCpuLimit()


def _on_wall(_s, _f):
    raise CaseWallLimit()


def decide(sub: Sub, case: Any, env, tier: str):
    """Run one case. Returns (tags, nontrivial); raises Violation / Skip / HarnessError."""
    ctx = Ctx(env, tier)
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.signal(signal.SIGALRM, _on_wall)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        sub.run(case, ctx)
    except (Violation, Skip):
        raise
    except CaseCpuLimit as exc:
        raise Violation(f"no result after {CPU_LIMIT}s of CPU time (non-termination)") from exc
    except CaseWallLimit as exc:
        raise HarnessError(f"case took over {WALL_LIMIT}s wall time\n{traceback.format_exc()}\ncase={canon(case)[:3000]}") from exc
    except Exception as exc:
        raise HarnessError(f"{traceback.format_exc()}\ncase={canon(case)[:3000]}") from exc
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        if env is not None:
            env.end_case()
    return ctx.tags, ctx.nontrivial


@dataclasses.dataclass
class Job:
    prop: str
    sub: str
    dialect: str
    shard: int
    nshards: int
    seed: int
    count: int
    tier: str
    budget: float


class JobResult:
    def __init__(self, job: Job) -> None:
        self.job = job
        self.evaluations = 0
        self.skipped = 0
        self.unrun = 0
        self.nontrivial: set = set()
        self.tags: collections.Counter = collections.Counter()
        self.samples: List[Any] = []
        self.violation: Optional[tuple] = None  # (case, msg)
        self.error: Optional[str] = None
        self.seconds = 0.0


def plain_generation() -> None:
    """Hypothesis spends most of a small budget on mutants of earlier cases (the same choices
    repeated elsewhere). Structured cases profit more from fresh draws."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner

        ConjectureRunner.generate_mutations_from = lambda self, data: None
    except Exception:  # pylint: disable=broad-except
        pass


def run_job(job: Job, sub: Sub, env, stop) -> JobResult:
    import hypothesis

    plain_generation()
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    res = JobResult(job)
    t0 = time.time()
    fail_time: List[float] = []

    def one(case) -> None:
        if res.error is not None:
            return
        if stop.is_set() and not fail_time:
            res.unrun += 1
            return
        if time.time() - t0 > job.budget and not fail_time:
            res.unrun += 1
            return
        if fail_time and time.time() - fail_time[0] > SHRINK_SECONDS:
            return
        res.evaluations += 1
        try:
            tags, nontrivial = decide(sub, case, env, job.tier)
        except Skip as exc:
            res.skipped += 1
            res.tags["skip:" + str(exc)[:60]] += 1
            return
        except Violation as exc:
            if not fail_time:
                fail_time.append(time.time())
            res.violation = (case, str(exc))
            raise
        except HarnessError as exc:
            res.error = str(exc)
            raise
        res.tags.update(tags)
        if nontrivial:
            d = digest(case)
            if d not in res.nontrivial:
                res.nontrivial.add(d)
                if len(res.samples) < 2 and len(canon(case)) < 6000:
                    res.samples.append({"sub": sub.name, "dialect": job.dialect, "tags": sorted(tags), "case": case})

    try:
        if sub.cases is not None:
            for idx, case in enumerate(sub.cases(job.dialect, job.tier)):
                if idx % job.nshards != job.shard:
                    continue
                one(case)
                if res.error:
                    break
        else:
            test = given(sub.strategy(job.dialect, job.tier))(one)
            test = hypothesis.seed(job.seed)(test)
            test = settings(
                max_examples=max(1, job.count),
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
                verbosity=Verbosity.quiet,
                print_blob=False,
            )(test)
            test()
    except Violation:
        pass
    except HarnessError:
        pass
    except BaseException as exc:  # hypothesis reports (Flaky, groups) after our own records
        if res.violation is None and res.error is None:
            res.error = "".join(traceback.format_exception(exc))
    res.seconds = time.time() - t0
    return res


def load_subs(prop: str) -> List[Sub]:
    import importlib

    mod = importlib.import_module(f"checks.{prop.lower()}")
    return mod.SUBS


_EVENT = None


def _worker_init(event) -> None:
    global _EVENT
    _EVENT = event
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def _worker(job: Job) -> JobResult:
    import db

    res = JobResult(job)
    try:
        sub = next(s for s in load_subs(job.prop) if s.name == job.sub)
        env = db.make_env(job.dialect, f"{job.sub}-{job.shard}", job.shard)
        try:
            res = run_job(job, sub, env, _EVENT)
        finally:
            if env is not None:
                env.close()
    except BaseException as exc:  # pylint: disable=broad-except
        res.error = "".join(traceback.format_exception(exc))
    if res.violation is not None:
        _EVENT.set()
    return res


def known_findings(prop: str) -> List[dict]:
    path = os.path.join(ROOT, "known_findings.json")
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    return [k for k in data["known"] if k["property"] == prop]


def write_replay(prop: str, sub: str, dialect: str, case: Any, msg: str) -> str:
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", f"{prop}-{sub}-{digest(case)}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "sub": sub, "dialect": dialect, "message": msg, "case": case}, f, indent=1)
    return path


def replay(prop: str, path: str, tier: str) -> int:
    import db

    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    sub = next(s for s in load_subs(prop) if s.name == data["sub"])
    db.start_servers({data["dialect"]} | set(getattr(sub, "needs", ())))
    _worker_init(mp.Event())
    env = db.make_env(data["dialect"], "replay", 0)
    try:
        for attempt in range(5):
            try:
                tags, nt = decide(sub, data["case"], env, tier)
                print("replay passed", sorted(tags), nt)
            except Skip as exc:
                print("replay skipped:", exc)
            except Violation as exc:
                print("violation:", exc)
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            if "random" not in data["sub"]:
                break
    finally:
        env.close() if env is not None else None
    return 0


def main(prop: str, tier: str, seed: int, only: Optional[str] = None, scale: float = 1.0, dialect_only=None, workers=8) -> int:
    import db

    t0 = time.time()
    subs = load_subs(prop)
    if only:
        subs = [s for s in subs if re.fullmatch(only, s.name)]
    jobs: List[Job] = []
    budget = 240.0 if tier == "quick" else 600.0
    for si, sub in enumerate(subs):
        for dialect in sub.dialects:
            if dialect_only and dialect not in dialect_only:
                continue
            n = sub.nshards(dialect)
            for shard in range(n):
                cnt = int(max(1, sub.count(tier, dialect) * scale))
                jseed = (seed * 1000003 + si * 10007 + shard * 101 + hash(dialect) % 97) & 0x7FFFFFFF
                jseed = int(hashlib.sha1(f"{seed}/{prop}/{sub.name}/{dialect}/{shard}".encode()).hexdigest()[:8], 16)
                jobs.append(Job(prop, sub.name, dialect, shard, n, jseed, cnt, tier, budget))
    kinds = {j.dialect for j in jobs}
    for s in subs:
        kinds |= set(getattr(s, "needs", ()))
    prio = {"mysql": 0, "postgres": 1, "all": 0}
    jobs.sort(key=lambda j: (prio.get(j.dialect, 2), j.shard, j.sub))
    db.start_servers(kinds)
    violations: List[tuple] = []
    known_lines: List[str] = []
    errors: List[str] = []
    event = mp.Event()

    # known findings first: each is one specific case
    known = known_findings(prop)
    if known and not only:
        _worker_init(event)
        for k in known:
            if dialect_only and k["dialect"] not in dialect_only:
                continue
            ksub = next((s for s in load_subs(prop) if s.name == k["sub"]), None)
            if ksub is None:
                errors.append(f"known finding {k['id']} names unknown sub {k['sub']}")
                continue
            env = db.make_env(k["dialect"], "known", 0)
            try:
                decide(ksub, k["case"], env, tier)
            except Skip:
                pass
            except Violation as exc:
                if re.search(k["match"], str(exc), re.S):
                    known_lines.append(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
                else:
                    violations.append((k["sub"], k["dialect"], k["case"], str(exc)))
            except HarnessError as exc:
                errors.append(str(exc))
            finally:
                if env is not None:
                    env.close()

    results: List[JobResult] = []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(workers, max(1, len(jobs))), initializer=_worker_init, initargs=(event,), maxtasksperchild=1) as pool:
        for res in pool.imap_unordered(_worker, jobs, chunksize=1):
            results.append(res)
    db.stop_servers()

    results.sort(key=lambda r: (r.job.sub, r.job.dialect, r.job.shard))
    for r in results:
        if r.violation:
            violations.append((r.job.sub, r.job.dialect, r.violation[0], r.violation[1]))
        if r.error:
            errors.append(f"[{r.job.sub}/{r.job.dialect}/{r.job.shard}] {r.error}")

    nontrivial = set()
    tags: Dict[str, collections.Counter] = collections.defaultdict(collections.Counter)
    per: Dict[str, dict] = collections.defaultdict(lambda: {"evaluations": 0, "skipped": 0, "not_run": 0, "nontrivial": 0})
    samples: List[Any] = []
    for r in results:
        key = f"{r.job.sub}/{r.job.dialect}"
        per[key]["evaluations"] += r.evaluations
        per[key]["skipped"] += r.skipped
        per[key]["not_run"] += r.unrun
        fresh = {f"{r.job.sub}/{r.job.dialect}/{d}" for d in r.nontrivial} - nontrivial
        per[key]["nontrivial"] += len(fresh)
        nontrivial |= fresh
        tags[key].update(r.tags)
        if r.samples and sum(1 for s in samples if s["sub"] == r.job.sub) < 2 and len(samples) < 6:
            samples.append(r.samples[0])
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r.evaluations for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": " | ".join(f"{s.name}: {s.rule}" for s in subs),
            "samples": samples,
            "per_subcheck": per,
            "case_classes": {k: dict(sorted(v.items())) for k, v in tags.items()},
            "known_findings": known_lines,
            "job_seconds": {f"{r.job.sub}/{r.job.dialect}/{r.job.shard}": round(r.seconds, 1) for r in results},
        },
        "assumptions": [],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only and not dialect_only:
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True)
    for line in known_lines:
        print(line)
    for key, val in sorted(per.items()):
        print(f"{prop} {key}: {val}")
        if os.environ.get("VT_TAGS"):
            for t, n in sorted(tags[key].items()):
                print(f"     {t}: {n}")
    print(f"{prop}: {evidence['coverage']['evaluations']} cases, {len(nontrivial)} distinct non-trivial, {evidence['wall_s']}s")
    if os.environ.get("VT_TAGS"):
        print(evidence["coverage"]["job_seconds"])
    for err in errors[:3]:
        print("HARNESS ERROR:", err, file=sys.stderr)
    if violations:
        # prefer the smallest reproduction
        violations.sort(key=lambda v: len(canon(v[2])))
        for sub, dialect, case, msg in violations[:3]:
            path = write_replay(prop, sub, dialect, case, msg)
            print(f"  [{sub}/{dialect}] {msg[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        return 2
    if not nontrivial and not only:
        print("HARNESS ERROR: no non-trivial case was generated", file=sys.stderr)
        return 2
    return 0
