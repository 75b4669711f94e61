"""C02: each table's sample is exactly the documented set of rows."""
from hypothesis import strategies as st

import flow
import model
import worlds
from core import Sub, must_succeed


def strategy(dialect, tier):
    big = tier == "thorough"
    o = worlds.Opts(dialect=dialect, min_tables=1, max_tables=7 if big else 6, max_rows=9 if big else 7, schemas=2, dangling=dialect == "sqlite")
    p = worlds.POpts(max_targets=3, random=True)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = draw(worlds.planner(w, p))
        return {"world": w, "cfg": cfg, "remap": draw(st.booleans())}

    return build()


def run(case, ctx):
    env, w, cfg = ctx.env, case["world"], case["cfg"]
    flow.load(env, w, remap=case["remap"])
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        ctx.nontrivial = True
        return
    tabs = flow.planned(w, plan)
    flow.create_dst(env, tabs, fk=False)
    with must_succeed("sampling"):
        flow.run_sample(env, plan)
    src = flow.read_all(env, "src", w["tables"])
    got = flow.read_all(env, "dst", tabs, env.dst)
    partial = False
    for t in tabs:
        n = t["name"]
        if n in ref.passthrough:
            ctx.check(
                sorted(map(repr, map(model.hashable, [tuple(r.values()) for r in got.rows[n]])))
                == sorted(map(repr, map(model.hashable, [tuple(r.values()) for r in src.rows[n]]))),
                "passthrough table %s is not copied in full: %r instead of %r", n, got.rows[n], src.rows[n],
            )
            ctx.tag("passthrough")
            continue
        if n not in ref.tables:
            continue  # C05 decides what the plan covers
        msg = model.check_table(ref, n, src, got)
        ctx.check(msg is None, "%s (phase %s; target %r; constraints %r)", msg, ref.phase[n], cfg["targets"].get(n), ref.constraints.get(n))
        if got.rows[n] and len(got.rows[n]) < len(src.rows[n]):
            partial = True
        if n in cfg["targets"]:
            for k in cfg["targets"][n]:
                ctx.tag("target:" + k)
            if ref.union_of[n]:
                ctx.tag("target+dependency")
                if model.is_random(cfg["targets"][n]):
                    ctx.tag("target+dependency:random")
        elif ref.inter_of[n]:
            ctx.tag("intersection" if len(ref.inter_of[n]) > 1 else "single-parent")
        elif ref.union_of[n]:
            ctx.tag("union" if len(ref.union_of[n]) > 1 else "single-child")
        if ref.constraints.get(n):
            ctx.tag("constraint:target" if n in cfg["targets"] else "constraint")
        if ref.phase[n] > 2:
            ctx.tag("phase3+")
    ctx.nontrivial = partial


SUBS = [
    Sub(
        name="rows",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 120, "postgres": 50, "mysql": 30},
        thorough={"sqlite": 2500, "postgres": 900, "mysql": 500},
        rule="a generated schema, rows and planner configuration, every table compared with the reference evaluator; non-trivial if some planned table is sampled partially (neither empty nor complete) or the configuration has to be refused",
    )
]
