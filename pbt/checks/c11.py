"""C11: compaction renumbers keys without gaps and keeps references intact."""
from hypothesis import strategies as st

import flow
import pipe
import worlds
from core import Skip, Sub, must_succeed
from model import Refuse


def strategy(dialect, tier):
    big = tier == "thorough"
    o = worlds.Opts(
        dialect=dialect, min_tables=1, max_tables=6 if big else 5, max_rows=8, schemas=2, auto=True,
        pk_kinds=("int", "int", "int", "int", "comp", "fkcomp", "shared", "none", "str"), key_types=("int", "int", "str"),
    )
    p = worlds.POpts(max_targets=3, extra_fks=False, ignore_fks=False, sql=True, infer=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = worlds.accepted_planner(draw, w, p)
        names = [t["name"] for t in w["tables"]]
        sampler = {"compact": pipe.gen_compact(draw, w, names, dialect)}
        pipe.maybe_infer(draw, w, cfg, sampler)
        if draw(st.integers(0, 2)) == 0:
            w = pipe.with_notes(draw, w, sampler)
        return {"world": w, "cfg": cfg, "sampler": sampler, "remap": draw(st.booleans()), "fk": draw(st.booleans())}

    return build()


def run(case, ctx):
    env, w, cfg, sampler = ctx.env, case["world"], case["cfg"], case["sampler"]
    flow.load(env, w, remap=case["remap"])
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        raise Skip("plan refused")
    tabs = flow.planned(w, plan)
    names = [t["name"] for t in tabs]
    flow.create_dst(env, tabs, fk=True)
    try:
        p = pipe.Pipe(w, ref, names, sampler, env.dialect)
    except Refuse as exc:
        flow.refused(f"compaction ({exc.kind} {exc.detail!r})", flow.run_sample, env, plan, sampler)
        for t in tabs:
            ctx.check(not env.rows("dst", t, env.dst(t["name"])), "rows written to %s by a refused run", t["name"])
        ctx.tag("refused")
        return
    if p.ambiguous or p.partial:
        raise Skip("column refers to two renumbered keys")
    for t in tabs:
        if t["name"] in p.compact and not t["pk"]:
            for dt, _, _ in p.remote.values():
                if dt == t["name"]:
                    raise Skip("references into a compacted table without primary key")
    src = flow.read_all(env, "src", w["tables"])
    plain = pipe.exact_sample(ref, src, tabs)
    want = pipe.filter_notes(sampler, p.compacted(plain, pipe.key_order(env, w, names)))
    if p.lacking():
        raise Skip("reference to no row, in a column that must have a value")
    with must_succeed("sampling"):
        flow.run_sample(env, plan, sampler)
    got = flow.read_all(env, "dst", tabs, env.dst)
    for t in tabs:
        n = t["name"]
        cols = [c["n"] for c in t["cols"]]
        comp = sorted(p.compact.get(n, ()))
        if comp:
            ids = list(range(p.start, p.start + len(plain.rows[n])))
            for c in comp:
                ctx.check(sorted(r[c] for r in got.rows[n]) == ids, "%s.%s: %r instead of %r", n, c, sorted(r[c] for r in got.rows[n]), ids)
            if len(ids) > 1:
                ctx.tag("compacted-rows")
        fixed = [c for c in cols if (n, c) not in p.unresolved and (t["pk"] or c not in comp)]
        msg = pipe.diff(got.rows[n], want.rows[n], fixed)
        ctx.check(msg is None, "%s: %s (compact %r, refers %r)", n, msg, p.compact, {k: v for k, v in p.remote.items() if k[0] == n})
        for c in cols:
            if (n, c) in p.remote and any(r[c] is not None for r in got.rows[n]):
                ctx.nontrivial = True
                ctx.tag("reference")
                if not any(fk.src == n and c in fk.cols and fk.dst == p.remote[(n, c)][0] for fk in p.fks):
                    ctx.tag("reference-chain")
                if len([1 for fk in p.fks if fk.src == n and fk.dst == p.remote[(n, c)][0]]) > 1:
                    ctx.tag("parallel-references")
        if n in p.passthrough and sampler["compact"].get("columns", {}).get(n):
            ctx.tag("passthrough-listed")


SUBS = [
    Sub(
        name="rows",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 350, "postgres": 80, "mysql": 45},
        thorough={"sqlite": 3000, "postgres": 1000, "mysql": 600},
        rule="world, plan and compaction settings; output compared with the renumbered exact sample; non-trivial if some output row refers to a renumbered key",
    )
]
