"""C08: the source database is never modified."""
import os
import shutil

from hypothesis import strategies as st

import db
import flow
import pipe
import worlds
from core import Skip, Sub, must_succeed

SRC = ("s1", "s2")


def strategy(dialect, tier):
    o = worlds.Opts(dialect=dialect, min_tables=1, max_tables=5, max_rows=6, schemas=2, auto=True, pk_kinds=("int", "str", "comp", "fkcomp", "shared", "none", "none"))
    p = worlds.POpts(max_targets=3, random=True)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = draw(worlds.planner(w, p))
        names = [t["name"] for t in w["tables"]]
        sampler = {}
        if draw(st.booleans()):
            sampler["compact"] = pipe.gen_compact(draw, w, names, dialect)
        if draw(st.integers(0, 2)) == 0:
            sampler["multiplicity"] = pipe.gen_multiplicity(draw, w, names)
        if draw(st.integers(0, 2)) == 0:
            sampler["filters"] = pipe.gen_filters(draw, w, names)
            if draw(st.integers(0, 5)) == 0:
                sampler["filters"][names[0]] = [{"op": "null", "columns": ["no_such_column"]}]
        if draw(st.integers(0, 3)) == 0:
            sampler["infer_foreign_keys"] = draw(st.sampled_from(["schema", "all"]))
        out = {}
        if draw(st.booleans()):
            out["conflict_strategy"] = draw(st.sampled_from(["error", "replace", "skip"]))
        if draw(st.integers(0, 2)) == 0:
            out["merge"] = True
        return {
            "world": w, "cfg": cfg, "sampler": sampler, "output": out,
            "mode": draw(st.sampled_from(["separate", "shared", "shared", "directory"])),
            "remap": draw(st.booleans()), "create": draw(st.booleans()), "truncate": draw(st.booleans()),
            "dst": draw(st.sampled_from(["empty", "tables", "tables", "full", "full", "part"])),
            "fault": draw(st.one_of(st.none(), st.tuples(st.sampled_from(["insert", "delete"]), st.integers(0, len(names) - 1), st.integers(0, 3)))),
            "runs": draw(st.integers(1, 2)),
            "seqs": draw(st.booleans()),
        }

    return build()


def state(env, names):
    cat = env.catalog("src")
    if env.dialect == "sqlite":
        cat = {k: v for k, v in cat.items() if k in SRC}
    elif env.dialect == "postgres":
        # cols: schema first; constraints: "schema.table"; relations: schema first
        cat = {
            "cols": [r for r in cat["cols"] if r[0] in SRC],
            "cons": [r for r in cat["cons"] if str(r[0]).startswith("s")],
            "rels": [r for r in cat["rels"] if r[0] in SRC],
        }
    tables = sorted(t for t in env.table_names("src") if t.split(".")[0] in SRC)
    other = sorted(t for t in env.table_names("src") if t.split(".")[0] not in SRC + ("o1", "o2"))
    return {"catalog": cat, "tables": tables, "other": other, "rows": env.snapshot("src", tables), "generators": env.generators("src", SRC)}


def run(case, ctx):
    env, w, cfg = ctx.env, case["world"], case["cfg"]
    flow.load(env, w, remap=case["remap"], shared=case["mode"] == "shared")
    names = [t["name"] for t in w["tables"]]
    dirname = None
    if case["mode"] == "directory":
        dirname = os.path.join(db.SCRATCH, f"c08-{os.getpid()}")
        out = {"mode": "directory", "directory": dirname}
    else:
        out = flow.output_cfg(env, **case["output"])
        tabs = w["tables"]
        if case["dst"] == "empty":
            tabs = []
        elif case["dst"] == "part":
            # without the tables that refer to a missing one
            tabs = []
            for i, t in enumerate(w["tables"]):
                have = {x["name"] for x in tabs}
                if i % 2 == 0 and all(fk["ref"] in have for fk in t["fks"]):
                    tabs.append(t)
        flow.create_dst(env, tabs)
        if case["dst"] == "full":
            for t in tabs:
                env.insert("dst", t, w["rows"][t["name"]][: 1 + len(w["rows"][t["name"]]) // 2], name=env.dst(t["name"])) if not t["fks"] else None
        if case["fault"]:
            kind, i, n = case["fault"]
            tname = names[i]
            if tname in {t["name"] for t in tabs}:
                env.add_fault("dst", env.dst(tname), kind, n)
    before = state(env, names)
    fine = wrote = False
    for _ in range(case["runs"]):
        try:
            plan = flow.make_plan(env, cfg)
        except Exception as exc:  # pylint: disable=broad-except
            ctx.tag("plan:" + type(exc).__name__)
            break
        try:
            flow.run_sample(env, plan, case["sampler"], dict(out), create=case["create"], truncate=case["truncate"])
            ctx.tag("run:ok")
            fine = True
        except Exception as exc:  # pylint: disable=broad-except
            ctx.tag("run:" + type(exc).__name__)
    after = state(env, names)
    if dirname:
        shutil.rmtree(dirname, ignore_errors=True)
    for k in before:
        if before[k] != after[k]:
            if isinstance(before[k], dict):
                d = {x: (before[k].get(x), after[k].get(x)) for x in sorted(set(before[k]) | set(after[k])) if before[k].get(x) != after[k].get(x)}
            else:
                d = (before[k], after[k])
            ctx.check(False, "source %s changed: %s", k, str(d)[:1500])
    if case["mode"] != "directory":
        for t in env.table_names("dst"):
            if t.split(".")[0] in (("o1", "o2") if env.remap else SRC) and env.select("dst", f"SELECT 1 FROM {env.fq(t)} LIMIT 1"):
                wrote = True
    ctx.tag("mode:" + case["mode"], "dst:" + case["dst"])
    ctx.nontrivial = wrote or (fine and case["mode"] == "directory")


def readonly_strategy(dialect, tier):
    o = worlds.Opts(dialect=dialect, min_tables=2, max_tables=5, max_rows=6, schemas=2, auto=True, pk_kinds=("int", "str", "comp", "fkcomp", "shared", "none", "none"))
    p = worlds.POpts(max_targets=3, random=True)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        names = [t["name"] for t in w["tables"]]
        sampler = {"compact": pipe.gen_compact(draw, w, names, dialect)} if draw(st.integers(0, 2)) == 0 else {}
        if draw(st.integers(0, 3)) == 0:
            sampler["infer_foreign_keys"] = draw(st.sampled_from(["schema", "all"]))
        return {"world": w, "cfg": worlds.accepted_planner(draw, w, p), "sampler": sampler, "create": draw(st.booleans())}

    return build()


def run_readonly(case, ctx):
    """An account that may only read and create temporary tables is enough."""
    from subsetter.common import DatabaseConfig
    from subsetter.config_model import PlannerConfig, SamplerConfig
    from subsetter.planner import Planner
    from sqlalchemy.exc import IntegrityError
    from subsetter.sampler import Sampler

    env, w, cfg = ctx.env, case["world"], case["cfg"]
    flow.load(env, w, remap=True)
    plan, _ = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        return
    tabs = flow.planned(w, plan)
    flow.create_dst(env, tabs if not case["create"] else [], fk=False)
    try:
        flow.run_sample(env, plan, case["sampler"], create=case["create"])
    except Exception as exc:  # pylint: disable=broad-except
        raise Skip("sampling fails") from exc
    source = env.readonly_cfg()
    with must_succeed("planning with a read-only account"):
        again = Planner(DatabaseConfig(**source), PlannerConfig(**worlds.real_planner(cfg, env.q))).plan()
    with must_succeed("sampling with a read-only account"):
        try:
            Sampler(DatabaseConfig(**source), SamplerConfig(**case["sampler"], output=flow.output_cfg(env))).sample(again, truncate=True)
        except IntegrityError as exc:
            # an ignored foreign key that random targets met the first time only
            raise Skip("constraint of the destination") from exc
    ctx.nontrivial = any(fk["ref"] in plan.queries for t in tabs for fk in t["fks"])


SUBS = [
    Sub(
        name="runs",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 100, "postgres": 50, "mysql": 30},
        thorough={"sqlite": 2500, "postgres": 900, "mysql": 500},
        rule="plan and sample with any mix of features, succeeding or failing, into a separate or the same database server or a directory; catalog, rows and generators of the source before = after; non-trivial if something was written",
    ),
    Sub(
        name="readonly",
        run=run_readonly,
        strategy=readonly_strategy,
        dialects=("postgres", "mysql"),
        quick={"postgres": 25, "mysql": 20},
        thorough={"postgres": 500, "mysql": 300},
        rule="what an account with all privileges can plan and sample, one that may only read the source and create temporary tables can too; non-trivial if a planned table refers to another",
    ),
]
