"""C01: every foreign key value that resolves in the source resolves in the output."""
from hypothesis import strategies as st

import flow
import worlds
from core import Sub, must_succeed


def strategy(dialect, tier):
    big = tier == "thorough"
    o = worlds.Opts(dialect=dialect, min_tables=2, max_tables=7 if big else 6, max_rows=9 if big else 7, schemas=2, dangling=dialect == "sqlite")
    p = worlds.POpts(max_targets=3, random=True)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = draw(worlds.planner(w, p))
        if flow.ref_plan(w, cfg)[0] is None:
            # refusals are the business of C02, C04 and C05
            for key in ("table_constraints", "ignore", "passthrough", "extra_fks", "infer_foreign_keys", "include_dependencies"):
                cfg.pop(key, None)
                if flow.ref_plan(w, cfg)[0] is not None:
                    break
            else:
                cfg["select"] = ["s1.*", "s2.*"]
        return {"world": w, "cfg": cfg, "remap": draw(st.booleans()), "create": draw(st.booleans())}

    return build()


def fk_groups(fks):
    return [(fk, tuple(fk.cols), tuple(fk.rcols)) for fk in fks]


def run(case, ctx):
    env, w, cfg = ctx.env, case["world"], case["cfg"]
    flow.load(env, w, remap=case["remap"])
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        return
    tabs = flow.planned(w, plan)
    # with foreign keys deliberately given up, the destination must not enforce them
    strict = not cfg.get("ignore_fks") and cfg.get("include_dependencies", True)
    names = {t["name"] for t in tabs}
    strict = strict and all(fk["ref"] in names for t in tabs for fk in t["fks"]) and not cfg.get("ignore")
    if case["create"] and strict:
        ctx.tag("created-by-tool")
    else:
        flow.create_dst(env, tabs, fk=strict)
    with must_succeed("sampling"):
        flow.run_sample(env, plan, create=case["create"] and strict)
    src = flow.read_all(env, "src", w["tables"])
    got = flow.read_all(env, "dst", tabs, env.dst)
    refs = 0
    for fk in ref.kept_fks():
        if fk.src not in got.rows or fk.dst not in got.rows:
            continue
        there = got.values(fk.dst, fk.rcols)
        exist = src.values(fk.dst, fk.rcols)
        for r in got.rows[fk.src]:
            kv = tuple(r[c] for c in fk.cols)
            if None in kv or kv not in exist:
                continue
            refs += 1
            if kv not in there:
                ctx.check(False, "sampled row %r of %s refers to %s%r = %r, which exists in the source but not in the output", r, fk.src, fk.dst, fk.rcols, kv)
        ctx.tag("fk:" + fk.origin)
        if len(fk.cols) > 1:
            ctx.tag("fk:composite")
        if ref.phase.get(fk.src, 0) >= 3 or ref.phase.get(fk.dst, 0) >= 3:
            ctx.tag("phase3+")
        if fk.dst in ref.passthrough:
            ctx.tag("fk:to-passthrough")
    pairs = [(fk.src, fk.dst) for fk in ref.kept_fks()]
    if len(set(pairs)) < len(pairs):
        ctx.tag("fk:parallel")
    dropped = sum(len(src.rows[n]) - len(got.rows[n]) for n in got.rows)
    if refs and dropped:
        ctx.nontrivial = True
    ctx.tag(f"targets:{len(cfg['targets'])}", "refs" if refs else "no-refs", "dropped" if dropped else "all-rows")


SUBS = [
    Sub(
        name="refs",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 110, "postgres": 50, "mysql": 30},
        thorough={"sqlite": 2500, "postgres": 900, "mysql": 500},
        rule="a generated schema, rows and planner configuration; non-trivial if at least one sampled reference resolves in the source and at least one source row of a planned table was left out",
    )
]
