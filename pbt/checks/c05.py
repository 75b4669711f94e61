"""C05: plans cover exactly the right tables; unsafe setups are refused."""
import json

from hypothesis import strategies as st

import flow
import model
import worlds
from core import Sub, must_succeed


@st.composite
def config(draw, w):
    """Configurations that stress table selection."""
    names = [t["name"] for t in w["tables"]]
    schemas = sorted({n.split(".")[0] for n in names})
    parts = st.sampled_from(names + [f"{s}.*" for s in schemas] + ["*", "*.t1", "*.t[0-2]", "s?.t[!1]", "s1.t?", "nope.*", "s1.T1", "*t3"])
    cfg = {}
    if draw(st.integers(0, 2)):
        cfg["select"] = [f"{s}.*" for s in schemas]
    else:
        cfg["select"] = draw(st.lists(parts, min_size=1, max_size=4, unique=True))
    k = draw(st.sampled_from([j for j in (1, 1, 2, 3) if j <= len(names)]))
    targets = draw(st.permutations(names))[:k]
    cfg["targets"] = {t: draw(st.sampled_from([{"all": True}, {"amount": 1}, {"percent": 50}])) for t in targets}
    if draw(st.integers(0, 19)) == 0:
        cfg["targets"]["s1.missing"] = {"all": True}
    rest = [n for n in names if n not in targets]
    some = st.lists(st.sampled_from(rest + ["s1.missing"]), max_size=3, unique=True)
    if draw(st.integers(0, 2)) == 0:
        cfg["ignore"] = draw(some)
    if draw(st.integers(0, 2)) == 0:
        cfg["passthrough"] = draw(some)
    if draw(st.integers(0, 39)) == 0:
        cfg.setdefault("ignore", []).append(targets[0])
    edges = sorted({(t["name"], fk["ref"]) for t in w["tables"] for fk in t["fks"]})
    # references of one table to tables of the same name
    short = lambda e: (e[0], e[1].split(".")[1])  # noqa: E731
    twins = [e for e in edges if sum(short(e) == short(x) for x in edges) > 1]
    if edges and draw(st.integers(0, 1 if twins else 2)) == 0:
        some = st.lists(st.sampled_from(edges), min_size=1, max_size=3, unique=True)
        if twins:
            some = st.one_of(st.sampled_from(twins).map(lambda e: [e]), some)
        cfg["ignore_fks"] = [{"src_table": a, "dst_table": b} for a, b in draw(some)]
    if draw(st.integers(0, 2)) == 0:
        cfg["include_dependencies"] = False
    p = worlds.POpts(random=False, constraints=False)
    if draw(st.integers(0, 2)) == 0:
        more = draw(worlds.planner(w, p))
        for key in ("extra_fks", "infer_foreign_keys"):
            if key in more:
                cfg[key] = more[key]
    return cfg


def strategy(dialect, tier):
    o = worlds.Opts(dialect=dialect, min_tables=2, max_tables=9 if tier == "thorough" else 7, max_rows=3, schemas=2)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = draw(config(w))
        case = {"world": w, "cfg": cfg, "sample": draw(st.booleans())}
        if dialect == "postgres" and draw(st.integers(0, 2)) == 0:
            # the default schema must work like any other
            case = json.loads(json.dumps(case).replace('"s2.', '"public.'))
        return case

    return build()


def run(case, ctx):
    env, w, cfg = ctx.env, case["world"], case["cfg"]
    flow.load(env, w)
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        ctx.nontrivial = True
        return
    want = ref.tables | ref.passthrough
    ctx.check(set(plan.queries) == want, "plan covers %r instead of %r", sorted(plan.queries), sorted(want))
    ctx.check(set(plan.passthrough) == ref.passthrough, "plan has passthrough tables %r instead of %r", sorted(plan.passthrough), sorted(ref.passthrough))
    ctx.check(len(plan.passthrough) == len(set(plan.passthrough)), "passthrough tables are listed twice: %r", plan.passthrough)
    if len(want) < len(w["tables"]):
        ctx.nontrivial = True
    for key in ("ignore", "passthrough", "ignore_fks", "include_dependencies", "extra_fks", "infer_foreign_keys"):
        if key in cfg:
            ctx.tag(key)
    sel = {n for n in (t["name"] for t in w["tables"]) if any(model.fnmatchcase(n, p) for p in cfg["select"])}
    if ref.tables - sel:
        ctx.tag("dependency-beyond-select")
    if any(fk.src in want and fk.dst not in want for fk in model.declared(w)):
        ctx.tag("reference-out-of-plan")
    if any("public." in t["name"] for t in w["tables"]):
        ctx.tag("public")
    if case["sample"]:
        tabs = flow.planned(w, plan)
        flow.create_dst(env, tabs, fk=False)
        with must_succeed("sampling"):
            flow.run_sample(env, plan)
        ctx.tag("sampled")


SUBS = [
    Sub(
        name="coverage",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 160, "postgres": 150, "mysql": 50},
        thorough={"sqlite": 4000, "postgres": 1200, "mysql": 600},
        rule="a generated schema and table selection; non-trivial if the plan has to leave out a table or must be refused",
    )
]
