"""Driving the code under test through its public interfaces."""
from __future__ import annotations

import os
import sys
import traceback
from typing import Any, Dict, List, Optional

from core import HarnessError, Violation, must_succeed
from model import Refuse, RefPlan, Sampled
import worlds

CRASHES = (KeyError, IndexError, AttributeError, TypeError, AssertionError, NameError, RecursionError, UnboundLocalError)


def load(env, w: dict, *, remap: bool = False, shared: bool = False) -> None:
    env.begin(remap=remap, shared=shared)
    env.create("src", w["tables"])
    for t in w["tables"]:
        env.insert("src", t, w["rows"][t["name"]])


def create_dst(env, tables: List[dict], fk=True) -> None:
    names = {t["name"] for t in tables}
    env.create("dst", tables, env.dst, (lambda ref: ref in names) if fk is True else (fk if callable(fk) else (lambda ref: False)))


def src_config(env, **kw):
    from subsetter.common import DatabaseConfig

    return DatabaseConfig(**{**env.cfg("src"), **kw})


def make_plan(env, cfg: dict):
    from subsetter.config_model import PlannerConfig
    from subsetter.planner import Planner

    return Planner(src_config(env), PlannerConfig(**worlds.real_planner(cfg, env.q))).plan()


def output_cfg(env, **kw) -> dict:
    out = {"mode": "database", **env.cfg("dst")}
    remap = env.remap_cfg()
    if remap:
        out["remap"] = remap
    out.update(kw)
    return out


def run_sample(env, plan, sampler: Optional[dict] = None, output: Optional[dict] = None, *, create=False, truncate=False) -> None:
    from subsetter.config_model import SamplerConfig
    from subsetter.sampler import Sampler

    cfg = dict(sampler or {})
    cfg["output"] = output or output_cfg(env)
    # both are off unless asked for
    flags = {k: True for k, v in (("create", create), ("truncate", truncate)) if v}
    Sampler(src_config(env), SamplerConfig(**cfg)).sample(plan, **flags)


def refused(what: str, func, *args, **kw):
    """The call has to fail with a proper error. Returns the exception."""
    try:
        func(*args, **kw)
    except CRASHES as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        if any("/subsetter/" in f.filename for f in tb):
            raise Violation(f"{what}: crashed with {type(exc).__name__}: {exc} instead of refusing") from exc
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return exc
    raise Violation(f"{what}: accepted, should have been refused")


def ref_plan(w: dict, cfg: dict):
    """Returns (RefPlan, None) or (None, Refuse)."""
    try:
        return RefPlan(w, cfg), None
    except Refuse as exc:
        return None, exc


def read_all(env, where: str, tables: List[dict], name_map=lambda n: n) -> Sampled:
    out = Sampled(tables)
    for t in tables:
        out.set(t["name"], env.rows(where, t, name_map(t["name"])))
    return out


def plan_or_refuse(env, w: dict, cfg: dict, ctx):
    """Plan with the code under test and the model. Returns (plan, refplan) or (None, None)
    when planning is refused as it must be."""
    ref, refuse = ref_plan(w, cfg)
    if refuse is not None:
        refused(f"plan ({refuse.kind} {refuse.detail!r})", make_plan, env, cfg)
        ctx.tag("refused:" + refuse.kind)
        return None, None
    with must_succeed("planning"):
        plan = make_plan(env, cfg)
    return plan, ref


def planned(w: dict, plan) -> List[dict]:
    return [t for t in w["tables"] if t["name"] in plan.queries]


# ------------------------------------------------------------------ CLI in a child process


def run_cli(argv: List[str], *, cwd: str, env: Optional[Dict[str, str]] = None, stdin: bytes = b"") -> tuple:
    """Run the command line tool in a forked child. Returns (status, stdout, stderr)."""
    import tempfile

    fin = tempfile.TemporaryFile()
    fout = tempfile.TemporaryFile()
    ferr = tempfile.TemporaryFile()
    fin.write(stdin)
    fin.seek(0)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            import logging
            import signal

            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.alarm(200)
            os.dup2(fin.fileno(), 0)
            os.dup2(fout.fileno(), 1)
            os.dup2(ferr.fileno(), 2)
            sys.stdin = os.fdopen(0, "r", encoding="utf-8")
            sys.stdout = os.fdopen(1, "w", encoding="utf-8")
            sys.stderr = os.fdopen(2, "w", encoding="utf-8", errors="backslashreplace")
            os.chdir(cwd)
            os.environ.update(env or {})
            sys.argv = ["subsetter"] + argv
            logging.disable(logging.NOTSET)
            import db
            from subsetter.__main__ import main

            db._ENGINES.clear()
            try:
                main()
                code = 0
            except SystemExit as exc:
                code = exc.code if isinstance(exc.code, int) else (0 if exc.code is None else 1)
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                code = 98
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:  # pylint: disable=broad-except
            code = 97
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    res = []
    for f in (fout, ferr):
        f.seek(0)
        res.append(f.read().decode("utf-8", "replace"))
        f.close()
    fin.close()
    if os.WIFSIGNALED(status):
        raise HarnessError(f"CLI child killed by signal {os.WTERMSIG(status)}")
    code = os.WEXITSTATUS(status)
    if code in (97, 99):
        raise HarnessError(f"CLI child failed: {res[1][-2000:]}")
    return code, res[0], res[1]
