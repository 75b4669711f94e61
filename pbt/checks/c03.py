"""C03: untransformed rows arrive once, complete and unchanged."""
from hypothesis import strategies as st

import flow
import model
import values
from core import Sub, must_succeed


def strategy(dialect, tier):
    @st.composite
    def build(draw):
        n = draw(st.integers(1, 4 if tier == "thorough" else 3))
        plain = draw(st.booleans())
        tnames = [f"t{i}" for i in range(n)] if plain else draw(values.names(n, n, dialect=dialect))
        two = draw(st.booleans())
        tables, rows = [], {}
        for i in range(n):
            schema = "s2" if two and i % 2 and dialect != "sqlite" else "s1"
            ncols = draw(st.integers(1, 6))
            cn = [f"c{j}" for j in range(ncols + 2)] if draw(st.booleans()) else draw(values.names(ncols + 2, ncols + 2, dialect=dialect))
            cols, pk, fks = [], [], []
            keyed = draw(st.integers(0, 4)) > 0
            if keyed:
                cols.append({"n": cn[0], "t": "int", "null": False})
                pk = [cn[0]]
            ref = None
            keyedtabs = [t for t in tables if t["pk"] and t["name"].startswith(schema if dialect == "sqlite" else "s")]
            if keyedtabs and draw(st.booleans()):
                ref = draw(st.sampled_from(keyedtabs))
                cols.append({"n": cn[1], "t": "int", "null": True})
                fks.append({"cols": [cn[1]], "ref": ref["name"], "rcols": ref["pk"]})
            for j in range(ncols):
                cols.append({"n": cn[2 + j], "t": draw(st.sampled_from(values.TYPES[dialect])), "null": True})
            if not keyed:
                # without a key, identical rows may only be told apart by number
                cols = [c for c in cols if c["t"] not in ("json",)] or [{"n": cn[2], "t": "str", "null": True}]
                fks = [fk for fk in fks if fk["cols"][0] in {c["n"] for c in cols}]
            gen = None
            ints = [c["n"] for c in cols if c["t"] == "int" and c["n"] not in pk and all(c["n"] not in fk["cols"] for fk in fks)]
            if ints and draw(st.integers(0, 3)) == 0:
                used = {c["n"].lower() for c in cols}
                gen = next(x for x in ("gx", "g2") if x not in used)
                cols.append({"n": gen, "t": "int", "null": True, "of": ints[0]})
            cols = draw(st.permutations(cols))
            t = {"name": f"{schema}.{tnames[i]}", "cols": cols, "pk": pk, "uniq": [], "fks": fks}
            nrows = draw(st.integers(0, 6))
            out = []
            ids = draw(st.lists(st.integers(1, 40), min_size=nrows, max_size=nrows, unique=True))
            for r in range(nrows):
                row = []
                for c in cols:
                    if c["n"] in pk:
                        row.append(ids[r])
                    elif any(c["n"] in fk["cols"] for fk in fks):
                        i_ref = [x["n"] for x in ref["cols"]].index(ref["pk"][0])
                        opts = [x[i_ref] for x in rows[ref["name"]]]
                        row.append(draw(st.sampled_from(opts)) if opts and draw(st.integers(0, 4)) else None)
                    elif c.get("of"):
                        row.append(None)
                    elif c["t"] not in ("json", "jsonb") and draw(st.integers(0, 4)) == 0:
                        row.append(None)
                    else:
                        row.append(draw(values.value(c["t"], dialect, wide=True)))
                out.append(row)
            if gen:
                gi = [c["n"] for c in cols].index(gen)
                oi = [c["n"] for c in cols].index(cols[gi]["of"])
                for row in out:
                    row[gi] = 5 if row[oi] is None else row[oi]
            tables.append(t)
            rows[t["name"]] = out
        targets = {}
        for t in tables[::-1]:
            if t is tables[-1] or draw(st.integers(0, 2)) == 0:
                if t["pk"] and draw(st.integers(0, 3)) == 0:
                    k = [c["n"] for c in t["cols"]].index(t["pk"][0])
                    targets[t["name"]] = {"in": {t["pk"][0]: [r[k] for r in rows[t["name"]]][:4]}}
                else:
                    targets[t["name"]] = {"all": True}
        cfg = {"select": ["*"], "targets": targets}
        rest = [t["name"] for t in tables if t["name"] not in targets and not t["fks"]]
        if rest and draw(st.booleans()):
            cfg["passthrough"] = rest[:1]
        return {"world": {"tables": tables, "rows": rows}, "cfg": cfg, "remap": draw(st.booleans()), "create": draw(st.booleans()), "over": draw(st.booleans()), "extra": draw(st.booleans()), "flavour": draw(st.integers(0, 3))}

    return build()


DEFAULTS = {"int": "77", "str": "'dflt'", "big": "78", "date": "'2001-02-03'"}


def real_tables(env, tables):
    """Fill in dialect specific DDL of computed columns."""
    out = []
    for t in tables:
        cols = []
        for c in t["cols"]:
            c = dict(c)
            if c.get("of"):
                c["gen"] = f"COALESCE({env.q(c['of'])}, 5)"
            cols.append(c)
        out.append({**t, "cols": cols})
    return out


def run(case, ctx):
    env, cfg = ctx.env, case["cfg"]
    w = {"tables": real_tables(env, case["world"]["tables"]), "rows": case["world"]["rows"]}
    flow.load(env, w, remap=case["remap"])
    src = flow.read_all(env, "src", w["tables"])
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        return
    tabs = flow.planned(w, plan)
    gen = any(c.get("gen") for t in tabs for c in t["cols"])
    create = case["create"] and not gen
    dst_tabs = tabs
    if create:
        ctx.tag("created-by-tool")
    else:
        if case["extra"] and tabs:
            # the destination may list its columns in another order
            dst_tabs = [{**t, "cols": t["cols"][::-1]} for t in tabs]
            ctx.tag("column-order")
        if case.get("flavour", 0) & 1:
            # values the destination would fill in if they were not given
            dst_tabs = [{**t, "cols": [{**c, "default": DEFAULTS[c["t"]]} if c["t"] in DEFAULTS and c["n"] not in t["pk"] and not c.get("gen") else c for c in t["cols"]]} for t in dst_tabs]
            ctx.tag("defaults")
        if case.get("flavour", 0) & 2 and env.dialect != "sqlite":
            auto = "seq" if env.dialect == "mysql" else ["seq", "identity", "identity"][len(w["tables"][0]["cols"]) % 3]
            dst_tabs = [{**t, "cols": [{**c, "auto": auto} if [c["n"]] == t["pk"] else c for c in t["cols"]]} for t in dst_tabs]
            ctx.tag("generated-keys")
        flow.create_dst(env, dst_tabs, fk=True)
    with must_succeed("sampling"):
        flow.run_sample(env, plan, create=create or case.get("over", False))
    got = flow.read_all(env, "dst", tabs, env.dst)
    for t in tabs:
        n = t["name"]
        if n in ref.passthrough:
            a, b = (sorted(repr(model.hashable(tuple(r.values()))) for r in x.rows[n]) for x in (src, got))
            ctx.check(a == b, "passthrough %s: %r instead of %r", n, b, a)
        elif n in ref.tables:
            msg = model.check_table(ref, n, src, got)
            ctx.check(msg is None, "%s", msg)
        if got.rows[n]:
            ctx.nontrivial = True
            for c in t["cols"]:
                ctx.tag("type:" + c["t"])
    if gen:
        ctx.tag("computed-column")
    if any(not fk_ok(t) for t in tabs):
        ctx.tag("odd-names")


def fk_ok(t):
    return t["name"].split(".")[1].isidentifier() and all(c["n"].isidentifier() for c in t["cols"])


def batch_strategy(dialect, tier):
    edge = [0, 1, 2, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2050, 3072, 3075]
    n = st.one_of(st.sampled_from(edge), st.sampled_from(edge), st.integers(0, 6000 if tier == "thorough" else 2600))
    return st.fixed_dictionaries({"parents": n, "children": n, "pk": st.booleans(), "mode": st.sampled_from(["all", "children", "parents", "pass"]), "step": st.sampled_from([1, 3])})


def run_batches(case, ctx):
    env = ctx.env
    np_, nc = case["parents"], case["children"]
    parent = {"name": "s1.parent", "cols": [{"n": "id", "t": "int", "null": False}, {"n": "v", "t": "str"}], "pk": ["id"], "uniq": [], "fks": []}
    child = {
        "name": "s1.child", "cols": [{"n": "cid", "t": "int", "null": False}, {"n": "pid", "t": "int"}], "pk": ["cid"] if case["pk"] else [], "uniq": [],
        "fks": [{"cols": ["pid"], "ref": "s1.parent", "rcols": ["id"]}],
    }
    step = case["step"]
    w = {
        "tables": [parent, child],
        "rows": {
            "s1.parent": [[1 + i * step, f"v{i % 7}"] for i in range(np_)],
            "s1.child": [[1 + i, 1 + (i * 7 % np_) * step if np_ and i % 5 else None] for i in range(nc)],
        },
    }
    flow.load(env, w, remap=False)
    src = flow.read_all(env, "src", w["tables"])
    cfg = {"select": ["s1.*"]}
    if case["mode"] == "all":
        cfg["targets"] = {"s1.parent": {"all": True}, "s1.child": {"all": True}}
    elif case["mode"] == "children":
        cfg["targets"] = {"s1.child": {"all": True}}
    elif case["mode"] == "parents":
        cfg["targets"] = {"s1.parent": {"all": True}}
    else:
        cfg["targets"] = {"s1.child": {"all": True}}
        cfg["passthrough"] = ["s1.parent"]
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    tabs = flow.planned(w, plan)
    flow.create_dst(env, tabs)
    with must_succeed("sampling"):
        flow.run_sample(env, plan)
    got = flow.read_all(env, "dst", tabs, env.dst)
    for t in tabs:
        n = t["name"]
        if n in ref.passthrough:
            a, b = (sorted(map(repr, x.rows[n])) for x in (src, got))
            ctx.check(a == b, "passthrough %s: %d rows instead of %d (or changed)", n, len(b), len(a))
            continue
        msg = model.check_table(ref, n, src, got)
        ctx.check(msg is None, "%s (parents %d, children %d)", msg, np_, nc)
    if any(len(r) > 1023 for r in got.rows.values()):
        ctx.nontrivial = True
    ctx.tag(*(f"rows:{len(r) // 1024}k" for r in got.rows.values()))


SUBS = [
    Sub(
        name="values",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 110, "postgres": 70, "mysql": 45},
        thorough={"sqlite": 2500, "postgres": 1000, "mysql": 500},
        rule="generated tables with every column type, odd names and values, foreign keys, computed columns, created or differently ordered destination; non-trivial if at least one row is copied",
    ),
    Sub(
        name="batches",
        run=run_batches,
        strategy=batch_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        shards={"sqlite": 2, "postgres": 1},
        quick={"sqlite": 18, "postgres": 16, "mysql": 12},
        thorough={"sqlite": 200, "postgres": 200, "mysql": 120},
        rule="two linked tables with row counts around multiples of the batch size; non-trivial if a table of over 1023 rows is copied",
    ),
]
