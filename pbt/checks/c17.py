"""C17: a failing run reports it, leaves no dangling rows and can be redone."""
import collections
import json
import os
import shutil

from hypothesis import strategies as st

import flow
import pipe
import worlds
from checks import c07
from core import Skip, Sub, must_succeed
from model import FK, Refuse


def strategy(dialect, tier):
    big = tier == "thorough"

    @st.composite
    def build(draw):
        feature = draw(st.sampled_from(["none", "none", "compact", "multiply", "filter"]))
        o = worlds.Opts(
            dialect=dialect, min_tables=1, max_tables=6 if big else 5, max_rows=5, schemas=2, auto=True, uniq=feature != "multiply", fk_to_uniq=feature != "multiply",
            pk_kinds=("int", "int", "comp", "fkcomp", "shared", "none") if feature != "multiply" else ("int", "int", "comp", "fkcomp"),
            key_types=("int",) if feature in ("compact", "multiply") else ("int", "str"),
        )
        p = worlds.POpts(max_targets=3, extra_fks=False, ignore_fks=False, infer=False)
        w = draw(worlds.world(o))
        cfg = worlds.accepted_planner(draw, w, p)
        names = [t["name"] for t in w["tables"]]
        sampler = {}
        if feature == "compact":
            sampler["compact"] = {"primary_keys": True}
        if feature == "multiply":
            sampler["multiplicity"] = {"multiplier": 2}
        if feature == "filter":
            sampler["filters"] = {}
            for t in w["tables"]:
                cols = [c for c in pipe.data_columns(w, t) if c["t"] in ("int", "str")]
                if cols:
                    sampler["filters"][t["name"]] = [{"op": "zero", "columns": [cols[0]["n"]]}]
        lost = []
        if feature in ("none", "filter") and draw(st.integers(0, 2)) == 0:
            # foreign keys that only the destination has; then every row is sampled
            allk = [(i, j) for i, t in enumerate(w["tables"]) for j in range(len(t["fks"]))]
            if allk:
                lost = sorted(draw(st.lists(st.sampled_from(allk), min_size=1, max_size=3, unique=True)))
                cfg = {"select": ["*"], "targets": {n: {"all": True} for n in names}}
        faults = draw(st.lists(st.tuples(st.integers(0, len(names) - 1), st.sampled_from(["insert", "insert", "insert", "delete"]), st.sampled_from([0, 1, 1, 2, 2, 3, 4])), min_size=1, max_size=5, unique=True))
        return {
            "world": w, "cfg": cfg, "sampler": sampler, "faults": [list(f) for f in faults], "every": draw(st.integers(0, 4)) == 0, "prior": draw(st.booleans()),
            "lost": [list(x) for x in lost], "strategy": draw(st.sampled_from(["error", "error", "skip", "replace"])), "remap": draw(st.booleans()), "via": draw(st.sampled_from(["api", "api", "api", "cli"])),
        }

    return build()


def dangling(fks, tabs, got):
    """A reference without a counterpart, if any."""
    for fk in fks:
        if fk.src not in tabs or fk.dst not in tabs:
            continue
        keys = {tuple(r[c] for c in fk.rcols) for r in got[fk.dst]}
        for r in got[fk.src]:
            v = tuple(r[c] for c in fk.cols)
            if None not in v and v not in keys:
                return f"{fk.src}{fk.cols} = {v} has no row in {fk.dst}"
    return None


def run(case, ctx):
    env, w, cfg, sampler = ctx.env, case["world"], case["cfg"], case["sampler"]
    full = worlds.by_name(w)
    lost = [(w["tables"][i]["name"], w["tables"][i]["fks"][j]) for i, j in case["lost"]]
    w = {**w, "tables": [{**t, "fks": [fk for j, fk in enumerate(t["fks"]) if [i, j] not in case["lost"]]} for i, t in enumerate(w["tables"])]}
    flow.load(env, w, remap=case["remap"])
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        raise Skip("plan refused")
    tabs = flow.planned(w, plan)
    names = [t["name"] for t in tabs]
    try:
        p = pipe.Pipe(w, ref, names, sampler, env.dialect)
    except Refuse as exc:
        raise Skip("refused") from exc
    if p.ambiguous or p.partial:
        raise Skip("ambiguous keys")
    flow.create_dst(env, [full[n] for n in names])
    src = flow.read_all(env, "src", w["tables"])
    want = p.multiplied(p.compacted(pipe.exact_sample(ref, src, tabs), pipe.key_order(env, w, names)))
    if p.unresolved:
        raise Skip("partially null reference to a renumbered key")
    for t in tabs:
        cols = {c["n"]: c["t"] for c in t["cols"]}
        for f in sampler.get("filters", {}).get(t["name"], []):
            for r in want.rows[t["name"]]:
                for c in f["columns"]:
                    if r[c] is not None:
                        r[c] = 0 if cols[c] == "int" else ""
        for key in [t["pk"]] + t["uniq"]:
            kvs = [tuple(r[c] for c in key) for r in want.rows[t["name"]] if all(r[c] is not None for c in key)]
            if key and len(set(kvs)) < len(kvs):
                raise Skip("unique values would repeat")
    # rows that dangle in the source anyway (references outside the sample are not in question)
    fks = [fk for fk in p.fks if fk.dst in names] + [FK(n, tuple(fk["cols"]), fk["ref"], tuple(fk["rcols"]), "schema") for n, fk in lost]
    if dangling(fks, names, want.rows):
        raise Skip("source has dangling rows")
    out = flow.output_cfg(env, conflict_strategy=case["strategy"])
    cli = None
    if case["via"] == "cli":
        import yaml

        cli = c07.scratch(env)
        with open(os.path.join(cli, "subsetter.yaml"), "w", encoding="utf-8") as f:
            yaml.safe_dump(json.loads(json.dumps({"source": env.cfg("src"), "planner": worlds.real_planner(cfg, env.q), "sampler": {**sampler, "output": out}})), f)

    def attempt():
        """Returns None or what the run reports as an error."""
        if cli:
            code, _, err = flow.run_cli(["subset", "--truncate"], cwd=cli)
            return f"status {code} {err[-300:]}" if code else None
        try:
            flow.run_sample(env, plan, sampler, dict(out), truncate=True)
        except Exception as exc:  # pylint: disable=broad-except
            return f"{type(exc).__name__}: {exc}"
        return None

    def complete(what):
        got = flow.read_all(env, "dst", tabs, env.dst)
        for t in tabs:
            msg = pipe.diff(got.rows[t["name"]], want.rows[t["name"]], [c["n"] for c in t["cols"]])
            ctx.check(msg is None, "%s: %s: %s", what, t["name"], msg)

    try:
        if case["prior"]:
            msg = attempt()
            ctx.check(msg is None, "undisturbed run fails: %s", msg)
            complete("undisturbed run")
        wnames = [t["name"] for t in w["tables"]]
        faults = [(wnames[i], kind, n) for i, kind, n in case["faults"] if wnames[i] in names]
        if case["every"] and not cli:
            faults = [(n, "insert", k) for n in names for k in range(min(len(want.rows[n]), 3))][:8]
        for k, (n, kind, pos) in enumerate(faults):
            have = len(env.rows("dst", next(t for t in tabs if t["name"] == n), env.dst(n)))
            hit = pos < len(want.rows[n]) if kind == "insert" else have > 0
            if not hit:
                continue
            env.add_fault("dst", env.dst(n), kind, pos)
            msg = attempt()
            env.drop_fault("dst", env.dst(n), kind)
            what = f"{kind} into {n} rejected at row {pos}" if kind == "insert" else f"delete from {n} rejected"
            ctx.check(msg is not None, "%s, but the run reports success", what)
            ctx.check("vt rejected" in msg or cli, "%s: the run reports %s", what, msg)
            got = flow.read_all(env, "dst", tabs, env.dst)
            for t in tabs:
                cols = [c["n"] for c in t["cols"]]
                more = pipe.bag(got.rows[t["name"]], cols) - pipe.bag(want.rows[t["name"]], cols)
                ctx.check(not more, "%s: %s has rows outside the sample: %s", what, t["name"], more)
            msg = dangling([fk for fk in fks if env.dialect != "sqlite" or fk.src.split(".")[0] == fk.dst.split(".")[0]], names, got.rows)
            ctx.check(msg is None, "%s: %s", what, msg)
            if lost:
                ctx.tag("destination-only-key")
            ctx.tag("fault:" + kind, "via:" + case["via"])
            if any(got.rows[t["name"]] for t in tabs):
                ctx.nontrivial = True
                ctx.tag("partly-written")
            if k % 3 == 2:
                msg = attempt()
                ctx.check(msg is None, "redo after %s fails: %s", what, msg)
                complete(f"redo after {what}")
        msg = attempt()
        ctx.check(msg is None, "redo fails: %s", msg)
        complete("redo")
    finally:
        if cli:
            shutil.rmtree(cli)


# ------------------------------------------------------------------ beyond one batch


def batch_strategy(dialect, tier):
    n = st.sampled_from([1030, 1500, 2050, 2100])
    return st.fixed_dictionaries({"parents": n, "children": n, "where": st.sampled_from(["parent", "child", "child", "both"]), "at": st.sampled_from([0, 1, 1023, 1024, 1025, 1026, 1029, 2049]), "strategy": st.sampled_from(["error", "skip", "replace"]), "reverse": st.booleans()})


def run_batches(case, ctx):
    env = ctx.env
    np_, nc = case["parents"], case["children"]
    # names sort both ways relative to the order of writing
    pn, cn = ("s1.a", "s1.b") if case["reverse"] else ("s1.b", "s1.a")
    parent = {"name": pn, "cols": [{"n": "id", "t": "int", "null": False}, {"n": "v", "t": "str", "null": True}], "pk": ["id"], "uniq": [], "fks": []}
    child = {"name": cn, "cols": [{"n": "cid", "t": "int", "null": False}, {"n": "pid", "t": "int", "null": True}], "pk": ["cid"], "uniq": [], "fks": [{"cols": ["pid"], "ref": pn, "rcols": ["id"]}]}
    w = {"tables": [parent, child], "rows": {pn: [[i + 1, f"v{i % 7}"] for i in range(np_)], cn: [[i + 1, np_ - i * 7 % np_] for i in range(nc)]}}
    flow.load(env, w, remap=False)
    plan, _ = flow.plan_or_refuse(env, w, {"select": ["s1.*"], "targets": {pn: {"all": True}, cn: {"all": True}}}, ctx)
    flow.create_dst(env, w["tables"])
    out = flow.output_cfg(env, conflict_strategy=case["strategy"])
    hit = False
    for t, n in ((pn, np_), (cn, nc)):
        if case["where"] == "both" or t == (pn if case["where"] == "parent" else cn):
            env.add_fault("dst", env.dst(t), "insert", case["at"])
            hit = hit or case["at"] < n
    err = None
    try:
        flow.run_sample(env, plan, {}, dict(out), truncate=True)
    except Exception as exc:  # pylint: disable=broad-except
        err = exc
    ctx.check((err is not None) == hit, "write rejected at row %d of %s: run reports %r", case["at"], case["where"], err)
    got = flow.read_all(env, "dst", w["tables"], env.dst)
    have = {r["id"] for r in got.rows[pn]}
    lost = [r for r in got.rows[cn] if r["pid"] not in have]
    ctx.check(not lost, "dangling rows %s", lost[:5])
    for t in (pn, cn):
        cols = [c["n"] for c in (parent if t == pn else child)["cols"]]
        more = pipe.bag(got.rows[t], cols) - collections.Counter(map(tuple, w["rows"][t]))
        ctx.check(not more, "%s has rows outside the sample: %s", t, more)
    for t in (pn, cn):
        if case["where"] == "both" or t == (pn if case["where"] == "parent" else cn):
            env.drop_fault("dst", env.dst(t), "insert")
    with must_succeed("redo"):
        flow.run_sample(env, plan, {}, dict(out), truncate=True)
    got = flow.read_all(env, "dst", w["tables"], env.dst)
    for t in (parent, child):
        cols = [c["n"] for c in t["cols"]]
        msg = pipe.bag(got.rows[t["name"]], cols) == collections.Counter(map(tuple, w["rows"][t["name"]]))
        ctx.check(msg, "redo: %s differs", t["name"])
    ctx.nontrivial = hit
    ctx.tag("where:" + case["where"])


# ------------------------------------------------------------------ rows the destination does not accept


def reject_strategy(dialect, tier):
    kinds = ["column", "check", "null", "fk"] + ([] if dialect == "sqlite" else ["short", "range"])

    @st.composite
    def build(draw):
        n = draw(st.integers(1, 6))
        return {
            "kind": draw(st.sampled_from(kinds)), "strategy": draw(st.sampled_from(["error", "skip", "replace"])), "merge": draw(st.integers(0, 4)) == 0,
            "rows": [[draw(st.one_of(st.none(), st.integers(0, 9), st.sampled_from([70000]))), draw(st.sampled_from([None, "", "a", "bb", "cccc", "dddd"]))] for _ in range(n)],
            "pre": draw(st.lists(st.integers(1, 8), max_size=4, unique=True)), "child": draw(st.booleans()), "first": draw(st.booleans()),
        }

    return build()


def run_rejects(case, ctx):
    env, kind = ctx.env, case["kind"]
    main = "s1.m" if case["first"] else "s1.z"
    t = {"name": main, "cols": [{"n": "id", "t": "int", "null": False}, {"n": "ob", "t": "int", "null": True}, {"n": "os", "t": "str", "null": True}], "pk": ["id"], "uniq": [], "fks": []}
    child = {"name": "s1.n", "cols": [{"n": "cid", "t": "int", "null": False}, {"n": "mid", "t": "int", "null": False}], "pk": ["cid"], "uniq": [], "fks": [{"cols": ["mid"], "ref": main, "rcols": ["id"]}]}
    rows = [[i + 1, a, b] for i, (a, b) in enumerate(case["rows"])]
    w = {"tables": [t] + ([child] if case["child"] else []), "rows": {main: rows, "s1.n": [[i + 1, i + 1] for i in range(len(rows))]}}
    flow.load(env, w, remap=False)
    cfg = {"select": ["s1.*"], "targets": {("s1.n" if case["child"] else main): {"all": True}}}
    plan, _ = flow.plan_or_refuse(env, w, cfg, ctx)
    q = env.q
    d = {**t, "cols": [dict(c) for c in t["cols"]]}
    more = []
    if kind == "column":
        d["cols"].append({"n": "xtra", "t": "int", "null": False})
    elif kind == "check":
        d["checks"] = [f"{q('ob')} < 5"]
    elif kind == "null":
        d["cols"][1]["null"] = False
    elif kind == "fk":
        more = [{"name": "s1.other", "cols": [{"n": "oid", "t": "int", "null": False}], "pk": ["oid"], "uniq": [], "fks": []}]
        d["fks"] = [{"cols": ["ob"], "ref": "s1.other", "rcols": ["oid"]}]
    elif kind == "short":
        d["cols"][2]["t"] = "raw:VARCHAR(2)"
    else:
        d["cols"][1]["t"] = "raw:SMALLINT"

    def bad(r):
        return {"column": True, "check": r[1] is not None and r[1] >= 5, "null": r[1] is None, "fk": r[1] is not None and r[1] not in (1, 2, 3), "short": r[2] is not None and len(r[2]) > 2, "range": r[1] == 70000}[kind]

    flow.create_dst(env, more + [d] + w["tables"][1:])
    if more:
        env.insert("dst", more[0], [[1], [2], [3]], name=env.dst("s1.other"))
    pre = [[i, 1, "o"] + ([5] if kind == "column" else []) for i in case["pre"]]
    env.insert("dst", d, pre, name=env.dst(main))
    dcols = [c["n"] for c in t["cols"]]
    before = sorted(env.select("dst", f"SELECT id, ob, os FROM {env.fq(env.dst(main))}"))
    out = {"merge": True} if case["merge"] else {}
    if not case["merge"]:
        out["conflict_strategy"] = case["strategy"]
    cfgo = flow.output_cfg(env, **out)
    if env.dialect == "sqlite":
        cfgo["session_sqls"] = ["PRAGMA foreign_keys = ON"]
    new = rows if case["merge"] else [r for r in rows if r[0] not in case["pre"]]
    old = [] if case["merge"] else [r for r in rows if r[0] in case["pre"]]
    err = None
    try:
        flow.run_sample(env, plan, {}, cfgo)
    except Exception as exc:  # pylint: disable=broad-except
        err = exc
    after = sorted(env.select("dst", f"SELECT id, ob, os FROM {env.fq(env.dst(main))}"))
    must_fail = any(bad(r) for r in new) or (old and not case["merge"] and (case["strategy"] == "error" or (case["strategy"] == "replace" and kind != "column" and any(bad(r) for r in old))))
    may_fail = must_fail or any(bad(r) for r in old)
    what = f"{kind} ({'merge' if case['merge'] else case['strategy']}) with rows {rows} and {before} present"
    if must_fail:
        ctx.check(err is not None, "%s: the run reports success, leaving %s", what, after)
        ctx.check(after == before, "%s: the failed run leaves %s (%s)", what, after, err)
        ctx.nontrivial = True
        if case["child"]:
            ctx.check(not env.rows("dst", child, env.dst("s1.n")), "%s: rows of the table written later are there", what)
        ctx.tag("reject:" + kind)
    elif not may_fail:
        ctx.check(err is None, "%s: the run fails with %r", what, err)
        ctx.tag("fine")
    if err is not None and not must_fail:
        ctx.check(after == before, "%s: the failed run leaves %s (%s)", what, after, err)


SUBS = [
    Sub(
        name="faults",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 110, "postgres": 30, "mysql": 25},
        thorough={"sqlite": 2500, "postgres": 800, "mysql": 400},
        rule="a run with writes rejected at several points, one after the other (also all positions of small samples), then undisturbed; non-trivial if a rejected run left rows behind",
    ),
    Sub(
        name="batches",
        run=run_batches,
        strategy=batch_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        shards={"sqlite": 1, "postgres": 1},
        quick={"sqlite": 14, "postgres": 5, "mysql": 4},
        thorough={"sqlite": 200, "postgres": 100, "mysql": 60},
        rule="two linked tables of over 1024 rows, writes rejected around batch limits; non-trivial if a write is rejected",
    ),
    Sub(
        name="rejects",
        run=run_rejects,
        strategy=reject_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        shards={"sqlite": 2, "postgres": 1},
        quick={"sqlite": 120, "postgres": 55, "mysql": 50},
        thorough={"sqlite": 2000, "postgres": 1000, "mysql": 600},
        rule="a destination with constraints that some sampled rows violate, every conflict strategy and merging; non-trivial if the run has to fail",
    ),
]
