"""C23: all dialects, and copies across dialects, give the same sample."""
from hypothesis import strategies as st

import flow
import pipe
import values
import worlds
from core import HarnessError, Skip, Sub, Violation
from model import Refuse

DIALECTS = ("sqlite", "postgres", "mysql")
TYPES = ("int", "big", "str", "text", "float", "dec", "bool", "date", "dt", "time", "bin", "json")


def strategy(dialect, tier):
    big = tier == "thorough"
    o = worlds.Opts(dialect="sqlite", min_tables=1, max_tables=6 if big else 5, max_rows=8, schemas=2, auto=False)
    p = worlds.POpts(max_targets=3, random=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        for t in w["tables"]:
            for i in range(draw(st.sampled_from([0, 1, 0, 2, 3]))):
                typ = draw(st.sampled_from(TYPES if t["pk"] else [x for x in TYPES if x != "json"]))
                t["cols"] = t["cols"] + [{"n": f"v{i}", "t": typ, "null": True}]
                w["rows"][t["name"]] = [
                    r + [None if typ != "json" and draw(st.integers(0, 5)) == 0 else draw(values.value(typ, "mysql"))] for r in w["rows"][t["name"]]
                ]
        cfg = worlds.accepted_planner(draw, w, p) if draw(st.integers(0, 9)) else draw(worlds.planner(w, p))
        names = [t["name"] for t in w["tables"]]
        sampler = {}
        if draw(st.integers(0, 1)):
            sampler["compact"] = pipe.gen_compact(draw, w, names, "sqlite")
            if sampler["compact"].pop("auto_increment_keys", None):
                # every integer key increments by itself on sqlite
                sampler["compact"]["primary_keys"] = True
        if draw(st.integers(0, 2)) == 0:
            sampler["multiplicity"] = pipe.gen_multiplicity(draw, w, names)
        pipe.maybe_infer(draw, w, cfg, sampler)
        out = {}
        mode = draw(st.sampled_from(["plain", "plain", "merge", "skip", "replace", "filters"]))
        before = {}
        if mode == "filters":
            sampler["filters"] = {n: [f if f["op"] in ("null", "omit", "constant") else {"op": "zero", "columns": f["columns"]} for f in fs] for n, fs in pipe.gen_filters(draw, w, names).items()}
        elif mode != "plain":
            out = {"merge": True} if mode == "merge" else {"conflict_strategy": mode}
            for t in w["tables"]:
                if t["pk"]:
                    before[t["name"]] = [list(r) for r in w["rows"][t["name"]][: draw(st.integers(0, 3))]]
        runs = draw(st.sampled_from([1, 1, 2])) if mode == "merge" else 1
        return {"world": w, "cfg": cfg, "sampler": sampler, "output": out, "before": before, "runs": runs, "to": draw(st.permutations(list(DIALECTS))), "uniq": mode == "plain", "create": mode in ("plain", "filters") and draw(st.integers(0, 3)) == 0}

    return build()


def canonical(x):
    """A plan without the order of its joins, unions and conditions, which follows the order of reflected foreign keys, and join hints."""
    if isinstance(x, dict):
        out = {k: canonical(v) for k, v in x.items() if k != "half_unique"}
        for k in ("joins", "statements", "conditions", "passthrough"):
            if isinstance(out.get(k), list):
                out[k] = sorted(out[k], key=repr)
        return out
    if isinstance(x, list):
        return [canonical(y) for y in x]
    return x


def attempt(what, act):
    try:
        return act(), None
    except flow.CRASHES as exc:
        raise Violation(f"{what}: crashed with {type(exc).__name__}: {exc}") from exc
    except (Violation, HarnessError, Skip):
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return None, exc


def make_plan(env, cfg):
    """Planning with the very same configuration everywhere (names need no quotes)."""
    from subsetter.config_model import PlannerConfig
    from subsetter.planner import Planner

    return Planner(flow.src_config(env), PlannerConfig(**worlds.real_planner(cfg, lambda x: x))).plan()


def run(case, ctx):
    w, cfg, sampler = case["world"], case["cfg"], case["sampler"]
    envs = ctx.env
    plans, refused = {}, {}
    for d in DIALECTS:
        flow.load(envs[d], w, remap=True)
    for d in DIALECTS:
        plan, exc = attempt(f"planning on {d}", lambda: make_plan(envs[d], cfg))  # pylint: disable=cell-var-from-loop
        if plan is None:
            refused[d] = exc
        else:
            plans[d] = plan
    ctx.check(not refused or not plans, "plan refused on %s but not on %s", {d: str(e)[:300] for d, e in refused.items()}, sorted(plans))
    if refused:
        ctx.tag("refused")
        return
    data = {}
    for d, plan in plans.items():
        data[d] = canonical(plan.model_dump(by_alias=True))
    for d in DIALECTS:
        ctx.check(data[d] == data["sqlite"], "plans differ: on %s %r, on sqlite %r", d, data[d], data["sqlite"])
    ref, refuse = flow.ref_plan(w, cfg)
    if refuse is not None:
        raise Skip("plan should be refused")
    tabs = flow.planned(w, plans["sqlite"])
    names = [t["name"] for t in tabs]
    try:
        p = pipe.Pipe(w, ref, names, sampler, "sqlite")
        if p.ambiguous or p.partial:
            raise Skip("column must change and must not change")
        if any(not t["pk"] and t["name"] in p.compact for t in tabs):
            raise Skip("compacted table without primary key")
    except Refuse:
        ctx.tag("sampling-refused")
    dtabs = [t if case["uniq"] else {**t, "uniq": []} for t in tabs]
    got, failed = {}, {}
    for d, to in zip(DIALECTS, case["to"]):
        src, dst = envs[d], envs[to]
        create = case["create"] and d == to
        if not create:
            flow.create_dst(dst, dtabs, fk=False)
        for t in tabs:
            if case["before"].get(t["name"]):
                dst.insert("dst", t, case["before"][t["name"]], name=dst.dst(t["name"]))

        def act():
            from subsetter.config_model import SamplerConfig
            from subsetter.sampler import Sampler

            for _ in range(case["runs"]):
                out = flow.output_cfg(dst, **case["output"])  # pylint: disable=cell-var-from-loop
                Sampler(flow.src_config(src), SamplerConfig(**sampler, output=out)).sample(plans[d], create=create)  # pylint: disable=cell-var-from-loop
            return True

        ok, exc = attempt(f"sampling from {d} into {to}", act)
        if ok:
            rows = flow.read_all(dst, "dst", tabs, dst.dst)
            got[d, to] = {n: pipe.bag(rows.rows[n]) for n in names}
            ctx.tag(f"{d}>{to}")
        else:
            failed[d, to] = f"{type(exc).__name__}: {str(exc)[:500]}"
    if case["create"] and failed:
        # a created destination enforces foreign keys, others do not
        raise Skip("creation failed")
    ctx.check(not got or not failed, "sampling fails for %s but not for %s", failed, sorted(got))
    if failed:
        ctx.tag("failed")
        return
    first = sorted(got)[0]
    for pair, have in got.items():
        for n in names:
            a, b = got[first][n], have[n]
            ctx.check(a == b, "%s: %s > %s gives %s, %s > %s gives %s instead", n, *pair, dict(b - a), *first, dict(a - b))
    if any(got[first].values()):
        ctx.nontrivial = True
        ctx.tag(*sampler, *map(str, case["output"].values()), *(["created"] if case["create"] else []))
        if any(a != b for a, b in got):
            ctx.tag("across")
        for t in tabs:
            if got[first][t["name"]]:
                ctx.tag(*("type:" + c["t"] for c in t["cols"]))


SUBS = [
    Sub(
        name="same",
        run=run,
        strategy=strategy,
        dialects=("all",),
        shards={"all": 2},
        quick={"all": 70},
        thorough={"all": 250},
        rule="portable schemas with typed columns, planner and sampler configurations, loaded into all three dialects; plans compared, then each dialect sampled into a permutation of the dialects and all outputs compared; non-trivial if rows are sampled",
    ),
]
