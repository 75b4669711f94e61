"""C13: multiplicity yields m disjoint copies, each isomorphic to the plain sample."""
from hypothesis import strategies as st

import flow
import pipe
import values
import worlds
from core import Skip, Sub, must_succeed
from model import Refuse


def strategy(dialect, tier):
    big = tier == "thorough"
    o = worlds.Opts(
        dialect=dialect, min_tables=1, max_tables=6 if big else 5, max_rows=7, schemas=2, auto=True,
        pk_kinds=("int", "int", "int", "int", "comp", "fkcomp", "shared", "none", "str") if tier == "x" else ("int", "int", "int", "comp", "fkcomp", "shared", "none", "int"),
        key_types=("int", "int", "int", "int", "int", "int", "str"),
    )
    p = worlds.POpts(max_targets=3, extra_fks=False, ignore_fks=False, infer=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = worlds.accepted_planner(draw, w, p)
        names = [t["name"] for t in w["tables"]]
        mult = pipe.gen_multiplicity(draw, w, names)
        ign = mult.setdefault("ignore_primary_key_columns", {})
        still = set(cfg.get("passthrough", [])) | set(mult.get("ignore_tables", []))
        for t in w["tables"]:
            fixed = [c for fk in t["fks"] if fk["ref"] in still for c in fk["cols"] if c in t["pk"]]
            if fixed and draw(st.integers(0, 3)):
                ign[t["name"]] = sorted(set(fixed))
        for t in w["tables"]:
            # unique values repeat unless they are multiplied, too
            types = {c["n"]: c["t"] for c in t["cols"]}
            ints = [u[0] for u in t["uniq"] if types[u[0]] == "int"]
            if ints and draw(st.integers(0, 7)):
                lst = mult.setdefault("extra_columns", {}).setdefault(t["name"], [])
                lst += [c for c in ints if c not in lst]
        sampler = {"multiplicity": mult}
        if draw(st.integers(0, 2)) == 0:
            sampler["compact"] = pipe.gen_compact(draw, w, names, dialect)
        pipe.maybe_infer(draw, w, cfg, sampler)
        if draw(st.integers(0, 2)) == 0:
            w = pipe.with_notes(draw, w, sampler)
        if draw(st.integers(0, 7)) == 0:
            # a column that is no integer cannot be multiplied
            t = draw(st.sampled_from(w["tables"]))
            typ = draw(st.sampled_from([x for x in values.TYPES[dialect] if x not in ("int", "big", "bool", "json")]))
            extra = {"n": "vx", "t": typ, "null": True}
            w = {**w, "tables": [{**x, "cols": [*x["cols"], extra]} if x is t else x for x in w["tables"]], "rows": {**w["rows"], t["name"]: [[*r, draw(st.one_of(st.none(), values.value(typ, dialect)))] for r in w["rows"][t["name"]]]}}
            mult.setdefault("extra_columns", {}).setdefault(t["name"], []).append("vx")
        return {"world": w, "cfg": cfg, "sampler": sampler, "remap": draw(st.booleans())}

    return build()


def run(case, ctx):
    env, w, cfg, sampler = ctx.env, case["world"], case["cfg"], case["sampler"]
    flow.load(env, w, remap=case["remap"])
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        raise Skip("plan refused")
    tabs = flow.planned(w, plan)
    names = [t["name"] for t in tabs]
    flow.create_dst(env, tabs, fk=True)
    try:
        p = pipe.Pipe(w, ref, names, sampler, env.dialect)
    except Refuse as exc:
        flow.refused(f"multiplicity ({exc.kind} {exc.detail!r})", flow.run_sample, env, plan, sampler)
        for t in tabs:
            ctx.check(not env.rows("dst", t, env.dst(t["name"])), "rows written to %s by a refused run", t["name"])
        ctx.tag("refused:" + exc.kind)
        return
    if p.ambiguous or p.partial:
        raise Skip("column must change and must not change")
    src = flow.read_all(env, "src", w["tables"])
    plain = pipe.exact_sample(ref, src, tabs)
    want = pipe.filter_notes(sampler, p.multiplied(p.compacted(plain, pipe.key_order(env, w, names))))
    if p.unresolved:
        raise Skip("partially null reference to a renumbered key")
    for t in tabs:
        for key in [t["pk"]] + t["uniq"]:
            kvs = [tuple(r[c] for c in key) for r in want.rows[t["name"]] if all(r[c] is not None for c in key)]
            if key and len(set(kvs)) < len(kvs):
                raise Skip("unique values would repeat")
        if t["name"] in p.compact and not t["pk"]:
            raise Skip("compacted table without primary key")
    with must_succeed("sampling"):
        flow.run_sample(env, plan, sampler)
    got = flow.read_all(env, "dst", tabs, env.dst)
    for t in tabs:
        n = t["name"]
        cols = [c["n"] for c in t["cols"]]
        msg = pipe.diff(got.rows[n], want.rows[n], cols)
        ctx.check(msg is None, "%s: %s (multiplier %r, multiplied %r, compacted %r)", n, msg, p.m, p.mult.get(n), p.compact.get(n))
        if p.m > 1 and n in p.mult_tables and got.rows[n]:
            fkc = {c for fk in p.fks if fk.src == n for c in fk.cols} & p.mult[n]
            if any(r[c] is not None for r in got.rows[n] for c in fkc):
                ctx.nontrivial = True
                ctx.tag("multiplied-reference")
                if any(fk.src == n and a in fkc and a != b for fk in p.fks for a, b in zip(fk.cols, fk.rcols)):
                    ctx.tag("differently-named-reference")
            if any(r[c] is None for r in got.rows[n] for c in p.mult[n]):
                ctx.tag("null")
            if any(fk.src == n and fk.dst in p.passthrough for fk in p.fks):
                ctx.tag("reference-to-passthrough")
        if p.m > 1 and n not in p.mult_tables and got.rows[n]:
            ctx.tag("written-once")
        if p.m > 1 and p.compact.get(n):
            ctx.tag("with-compaction")


SUBS = [
    Sub(
        name="rows",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 350, "postgres": 80, "mysql": 45},
        thorough={"sqlite": 3000, "postgres": 1000, "mysql": 600},
        rule="world, plan, multiplicity and compaction settings; output compared with the multiplied exact sample; non-trivial if a multiplied foreign key value is written",
    )
]
