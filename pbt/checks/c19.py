"""C19: foreign key inference links exactly the unambiguous key columns."""
import copy

from hypothesis import strategies as st

import flow
import model
import pipe
import worlds
from core import Skip, Sub, must_succeed
from model import Refuse

POOL = ["a_id", "b_id", "id", "c_id", "d_id", "A_ID"]


@st.composite
def schema(draw, dialect, tier):
    """Tables whose columns are named after keys of a small pool."""
    pool = [p for p in POOL if dialect == "postgres" or p != "A_ID"]
    n = draw(st.integers(2, 7 if tier == "thorough" else 6))
    two = draw(st.booleans())
    tables, rows = [], {}
    fresh = draw(st.permutations(pool))
    for i in range(n):
        name = f"{'s2' if two and draw(st.booleans()) else 's1'}.t{i}"
        if tables and two and draw(st.integers(0, 2)) == 0:
            # the same name in the other schema
            name = {"s1": "s2", "s2": "s1"}[tables[-1]["name"][:2]] + tables[-1]["name"][2:]
            if name in rows:
                name = f"s1.t{i}"
        k = draw(st.sampled_from(["own", "own", "own", "any", "comp", "none", "uniq"]))
        pk = [fresh[i % len(fresh)]] if k in ("own",) else [draw(st.sampled_from(pool))] if k == "any" else draw(st.lists(st.sampled_from(pool), min_size=2, max_size=2, unique=True)) if k == "comp" else []
        uniq = [[draw(st.sampled_from(pool))]] if k == "uniq" else []
        others = [c for c in draw(st.lists(st.sampled_from(pool), max_size=3, unique=True)) if c not in pk]
        cols = [{"n": c, "t": "int", "null": False} for c in pk] + [{"n": c, "t": "int", "null": draw(st.booleans())} for c in others]
        if uniq and uniq[0][0] not in others:
            cols.append({"n": uniq[0][0], "t": "int", "null": False})
        if not cols or draw(st.booleans()):
            cols.append({"n": "x", "t": "int", "null": True})
        cols = draw(st.permutations(cols))
        fks = []
        for c in cols:
            cand = [t for t in tables if len(t["pk"]) == 1 and (dialect != "sqlite" or t["name"][:2] == name[:2])]
            if c["n"] != "x" and cand and draw(st.integers(0, 5)) == 0:
                ref = draw(st.sampled_from(cand))
                fks.append({"cols": [c["n"]], "ref": ref["name"], "rcols": ref["pk"]})
        t = {"name": name, "cols": list(cols), "pk": pk, "uniq": uniq, "fks": fks}
        lst, seen = [], set()
        for _ in range(draw(st.integers(0, 6))):
            r = {}
            for c in t["cols"]:
                fk = next((f for f in fks if f["cols"] == [c["n"]]), None)
                if fk:
                    p = worlds.by_name({"tables": tables})[fk["ref"]]
                    j = [x["n"] for x in p["cols"]].index(p["pk"][0])
                    have = [x[j] for x in rows[fk["ref"]]]
                    if not have and not c["null"]:
                        break
                    r[c["n"]] = draw(st.sampled_from(have)) if have and (not c["null"] or draw(st.integers(0, 3))) else None
                elif c["null"] and draw(st.integers(0, 4)) == 0:
                    r[c["n"]] = None
                else:
                    r[c["n"]] = draw(st.integers(1, 6))
            else:
                keys = [tuple(r[c] for c in key) for key in [pk] + uniq if key]
                keys = [(j, kv) for j, kv in enumerate(keys) if None not in kv]
                if not seen & set(keys):
                    seen |= set(keys)
                    lst.append([r[c["n"]] for c in t["cols"]])
        rows[name] = lst
        tables.append(t)
    return {"tables": tables, "rows": rows}


def strategy(dialect, tier):
    @st.composite
    def build(draw):
        w = draw(schema(dialect, tier))
        names = [t["name"] for t in w["tables"]]
        cfg, sampler = {}, {}
        for _ in range(6):
            mode = draw(st.sampled_from(["schema", "all", "all", "schema", "none"]))
            k = draw(st.integers(1, min(2, len(names))))
            cfg = {"select": ["*"] if draw(st.integers(0, 3)) else draw(st.lists(st.sampled_from(names + ["s1.*", "s2.*"]), min_size=1, max_size=4, unique=True)), "targets": {}, "infer_foreign_keys": mode}
            for t in draw(st.permutations(names))[:k]:
                tab = worlds.by_name(w)[t]
                col = draw(st.sampled_from(tab["cols"]))["n"]
                cfg["targets"][t] = draw(st.sampled_from([{"all": True}, {"in": {col: [1, 2, 3]}}, {"in": {col: [1, 4, 6]}}]))
            rest = [x for x in names if x not in cfg["targets"]]
            if rest and draw(st.integers(0, 5)) == 0:
                cfg["ignore"] = [draw(st.sampled_from(rest))]
            if rest and draw(st.integers(0, 5)) == 0:
                cfg["passthrough"] = [draw(st.sampled_from(rest))]
            try:
                model.RefPlan(w, cfg)
            except Refuse:
                continue
            break
        smode = mode if draw(st.integers(0, 4)) else draw(st.sampled_from(["none", "schema", "all"]))
        k = draw(st.integers(0, 4))
        if k in (0, 1):
            sampler["compact"] = draw(st.sampled_from([{"primary_keys": True}, {"primary_keys": True, "start_key": 50}, {"auto_increment_keys": True}]))
        if k in (2, 3):
            sampler["multiplicity"] = {"multiplier": draw(st.sampled_from([2, 3]))}
        if smode != "none" or draw(st.booleans()):
            sampler["infer_foreign_keys"] = smode
        return {"world": w, "cfg": cfg, "sampler": sampler, "remap": draw(st.booleans())}

    return build()


def sample(env, w, cfg, sampler, ref, ctx, want_refuse):
    """Plan and sample. Returns the rows, or None if refused."""
    with must_succeed("planning"):
        plan = flow.make_plan(env, cfg)
    want = ref.tables | ref.passthrough
    ctx.check(set(plan.queries) == want, "plan covers %r instead of %r", sorted(plan.queries), sorted(want))
    tabs = flow.planned(w, plan)
    # references that are not fulfilled may become NULL
    flow.create_dst(env, [{**t, "uniq": [], "pk": [], "cols": [{**c, "null": True} for c in t["cols"]]} for t in tabs], fk=False)
    if want_refuse is not None:
        flow.refused(f"sampling ({want_refuse.kind} {want_refuse.detail!r})", flow.run_sample, env, plan, sampler)
        return None
    with must_succeed("sampling"):
        flow.run_sample(env, plan, sampler)
    return flow.read_all(env, "dst", tabs, env.dst)


def twin_of(w, ref):
    """The same database with the inferred keys declared."""
    tw = copy.deepcopy(w)
    for t in tw["tables"]:
        t["fks"] = t["fks"] + [{"cols": list(fk.cols), "ref": fk.dst, "rcols": list(fk.rcols)} for fk in ref.fks if fk.src == t["name"] and fk.origin == "inferred"]
    return tw


def load_twin(env, w, tw, remap):
    """Create the tables with rows that may not fulfil the keys."""
    env.begin(remap=remap)
    if env.dialect == "sqlite":
        env.create("src", tw["tables"])
    else:
        env.create("src", w["tables"])
    for t in w["tables"]:
        env.insert("src", t, w["rows"][t["name"]])
    if env.dialect == "postgres":
        old = worlds.by_name(w)
        for t in tw["tables"]:
            for fk in t["fks"][len(old[t["name"]]["fks"]) :]:
                env.run(
                    "src",
                    [f"ALTER TABLE {env.fq(t['name'])} ADD FOREIGN KEY ({env.q(fk['cols'][0])}) REFERENCES {env.fq(fk['ref'])} ({env.q(fk['rcols'][0])}) NOT VALID"],
                )


def run(case, ctx):
    env, w, cfg, sampler = ctx.env, case["world"], case["cfg"], case["sampler"]
    flow.load(env, w, remap=case["remap"])
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        ctx.nontrivial = True
        return
    names = [t["name"] for t in w["tables"] if t["name"] in ref.tables | ref.passthrough]
    refuse = None
    try:
        p = pipe.Pipe(w, ref, names, sampler, env.dialect)
    except Refuse as exc:
        refuse, p = exc, None
    if p and (p.ambiguous or p.partial):
        raise Skip("ambiguous compaction")
    if p:
        for t in w["tables"]:
            if t["name"] in p.compact and not t["pk"] and any(dt == t["name"] for dt, _, _ in p.remote.values()):
                raise Skip("references into a compacted table without primary key")
        src = flow.read_all(env, "src", w["tables"])
        tabs = [t for t in w["tables"] if t["name"] in names]
        want = p.multiplied(p.compacted(pipe.exact_sample(ref, src, tabs), pipe.key_order(env, w, names)))
        if p.lacking():
            raise Skip("reference to no row, in a column that must have a value")
    got = sample(env, w, cfg, sampler, ref, ctx, refuse)
    inferred = [fk for fk in ref.fks if fk.origin == "inferred"]
    live = [fk for fk in inferred if fk.src in ref.tables and fk.dst in ref.tables]
    if live:
        ctx.tag("inferred-in-plan")
        ctx.nontrivial = True
    if cfg["infer_foreign_keys"] == "all" and any(fk.src.split(".")[0] != fk.dst.split(".")[0] for fk in live):
        ctx.tag("across-schemas")
    if set(map(lambda f: f.key(), model.inferred_any(w["tables"]))) - {fk.key() for fk in ref.fks}:
        ctx.tag("not-inferred")
        ctx.nontrivial = True
    if got is None:
        ctx.tag("sampler-refused")
        return
    for t in tabs:
        n = t["name"]
        cols = [c["n"] for c in t["cols"] if (n, c["n"]) not in p.unresolved and (t["pk"] or c["n"] not in p.compact.get(n, ()))]
        msg = pipe.diff(got.rows[n], want.rows[n], cols)
        ctx.check(msg is None, "%s: %s", n, msg)
    if p.remote:
        ctx.tag("compacted-reference")
    if any(set(cs) - set(worlds.by_name(w)[t]["pk"]) for t, cs in p.mult.items()):
        ctx.tag("multiplied-reference")


def twin_strategy(dialect, tier):
    @st.composite
    def build(draw):
        case = draw(strategy(dialect, tier))
        case["cfg"]["select"] = ["*"]
        if case["cfg"]["infer_foreign_keys"] == "none":
            case["cfg"]["infer_foreign_keys"] = draw(st.sampled_from(["schema", "all"]))
        case["sampler"]["infer_foreign_keys"] = case["cfg"]["infer_foreign_keys"]
        return case

    return build()


def run_twin(case, ctx):
    """Sample with inferred keys and with the same keys declared: no difference."""
    env, w, cfg, sampler = ctx.env, case["world"], case["cfg"], case["sampler"]
    ref, refuse = flow.ref_plan(w, cfg)
    if refuse:
        raise Skip("plan refused")
    inferred = [fk for fk in ref.fks if fk.origin == "inferred"]
    if not inferred:
        raise Skip("nothing inferred")
    if env.dialect == "sqlite" and any(fk.src.split(".")[0] != fk.dst.split(".")[0] for fk in inferred):
        raise Skip("sqlite cannot declare keys across schemas")
    names = [t["name"] for t in w["tables"] if t["name"] in ref.tables | ref.passthrough]
    inside = {fk.key() for fk in ref.fks if fk.src in names and fk.dst in names}
    if {fk.key() for fk in pipe.sampler_fks(w, names, cfg["infer_foreign_keys"]) if fk.dst in names} != inside:
        raise Skip("the sampler sees fewer tables and infers other keys")
    refuse = None
    try:
        p = pipe.Pipe(w, ref, names, sampler, env.dialect)
        if p.ambiguous or p.partial or any(not t["pk"] for t in w["tables"] if t["name"] in p.compact):
            raise Skip("ambiguous compaction")
    except Refuse as exc:
        refuse = exc
    flow.load(env, w, remap=case["remap"])
    got = sample(env, w, cfg, sampler, ref, ctx, refuse)
    tw = twin_of(w, ref)
    load_twin(env, w, tw, case["remap"])
    tcfg = {**cfg, "infer_foreign_keys": "none"}
    tsampler = {k: v for k, v in sampler.items() if k != "infer_foreign_keys"}
    tref, trefuse = flow.ref_plan(tw, tcfg)
    if trefuse:
        raise Skip("twin refused")
    # the tables were created anew, so is the destination
    tgot = sample(env, w, tcfg, tsampler, tref, ctx, refuse)
    ctx.nontrivial = True
    if got is None:
        ctx.tag("both-refused")
        return
    for t in w["tables"]:
        n = t["name"]
        if n in names:
            msg = pipe.diff(got.rows[n], tgot.rows[n], [c["n"] for c in t["cols"]])
            ctx.check(msg is None, "%s: with declared keys %s", n, msg)
    if sampler.get("compact"):
        ctx.tag("compact")
    if sampler.get("multiplicity"):
        ctx.tag("multiplicity")


SUBS = [
    Sub(
        name="reference",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 250, "postgres": 50, "mysql": 40},
        thorough={"sqlite": 5000, "postgres": 1200, "mysql": 700},
        rule="tables whose columns are named after keys of a small pool, so that many names are ambiguous; plan and rows compared with a reference; non-trivial if a key within the plan is inferred or one must not be",
    ),
    Sub(
        name="twin",
        run=run_twin,
        strategy=twin_strategy,
        dialects=("sqlite", "postgres"),
        quick={"sqlite": 150, "postgres": 50},
        thorough={"sqlite": 3000, "postgres": 1000},
        rule="output compared with that of the same database in which the inferred keys are declared; non-trivial always",
    ),
]
