"""C09: only the intended destination tables are touched."""
import re

from hypothesis import strategies as st

import flow
import model
import pipe
import worlds
from core import Skip, Sub, must_succeed

BASE = {"search": "^s(\\d)\\.", "replace": "o\\1."}


def gen_remap(draw, names, dialect):
    """Remap patterns; destination schemas are o1 / o2 (or s1 / s2 without any pattern)."""
    kind = draw(st.sampled_from(["plain", "plain", "none", "renames", "renames", "swap", "chain", "suffix"]))
    if kind == "none" and dialect != "mysql":
        return []
    out = [dict(BASE)]
    if kind in ("renames", "chain"):
        for n in names:
            if draw(st.booleans()):
                s = "o" + n[1:]
                to = f"{draw(st.sampled_from(['o1', 'o2']))}.{draw(st.sampled_from(['x', 'Moved', 'y_']))}{n.split('.t')[1]}"
                out.append({"search": "^" + re.escape(s) + "$", "replace": to})
                if kind == "chain" and draw(st.booleans()):
                    out.append({"search": "(x|y_)(\\d)$", "replace": "\\g<2>\\1"})
    elif kind == "swap" and len(names) > 1:
        a, b = ("o" + n[1:] for n in names[:2])
        out += [
            {"search": f"^{re.escape(a)}$", "replace": "o1.between"},
            {"search": f"^{re.escape(b)}$", "replace": a},
            {"search": "^o1\\.between$", "replace": b},
        ]
    elif kind == "suffix":
        out.append({"search": "t(\\d)", "replace": "t\\1_copy"})
    return out


def apply_remap(remap, name):
    for p in remap:
        name = re.sub(p["search"], p["replace"], name)
    return name


def gen_world(draw, dialect, tier, max_rows=6):
    o = worlds.Opts(
        dialect=dialect, min_tables=2, max_tables=5, max_rows=max_rows, schemas=2,
        pk_kinds=("int", "int", "int", "str", "comp", "shared", "none"), fk_counts=(1, 0, 1, 2),
    )
    return draw(worlds.world(o))


P = worlds.POpts(max_targets=3, infer=False, extra_fks=False)


def rename(w, cfg, old, new):
    """Another name for a table of a world and its configuration."""
    for t in w["tables"]:
        if t["name"] == old:
            t["name"] = new
        for fk in t["fks"]:
            if fk["ref"] == old:
                fk["ref"] = new
    w["rows"][new] = w["rows"].pop(old)
    for k in ("targets", "table_constraints"):
        if old in cfg.get(k, {}):
            cfg[k] = {new if n == old else n: v for n, v in cfg[k].items()}
    for k in ("passthrough", "ignore"):
        if k in cfg:
            cfg[k] = [new if n == old else n for n in cfg[k]]
    for e in cfg.get("ignore_fks", []):
        for k in ("src_table", "dst_table"):
            if e[k] == old:
                e[k] = new
    # a pattern matching only the new name
    cfg["select"] = ["".join(f"[{c}]" if c in "*?[" else c for c in new) if s == old else s for s in cfg["select"]]


def strategy(dialect, tier):
    @st.composite
    def build(draw):
        w = gen_world(draw, dialect, tier)
        names = [t["name"] for t in w["tables"]]
        remap = gen_remap(draw, names, dialect)
        cfgs = [worlds.accepted_planner(draw, w, P) for _ in range(draw(st.integers(1, 2)))]
        odd = None
        if len(cfgs) == 1 and draw(st.integers(0, 3)) == 0:
            # a name that is a pattern matching other tables, too
            old = draw(st.sampled_from(names))
            odd = [old, old.split(".")[0] + "." + draw(st.sampled_from(["t*", "t?", "t[0-9]", "t[!9]"]))]
        return {
            "world": w, "remap": remap, "cfgs": cfgs, "odd": odd,
            # further destination tables: (referenced destination tables by index, ...)
            "others": draw(
                st.lists(
                    st.fixed_dictionaries({"kind": st.sampled_from(["ref", "ref", "refref", "alone", "parent", "near", "case"]), "of": st.integers(0, 9), "rows": st.integers(0, 3), "uniq": st.booleans()}),
                    max_size=5,
                )
            ),
            "missing": draw(st.booleans()),  # destination lacks unplanned tables
            "pre": {n: draw(st.integers(0, 3)) for n in names},
            "runs": draw(
                st.lists(
                    st.fixed_dictionaries(
                        {"cfg": st.integers(0, 1), "truncate": st.booleans(), "strategy": st.sampled_from(["error", "replace", "skip"]), "again": st.booleans(), "over": st.booleans(), "feature": st.sampled_from(["", "", "", "merge", "compact", "multiply"])}
                    ),
                    min_size=1,
                    max_size=3,
                )
            ),
        }

    return build()


class Dst:
    """The destination: table descriptions under destination names, and who refers to whom."""

    def __init__(self, case, env, w, union):
        self.env, self.w = env, w
        self.remap = case["remap"]
        self.tables = []
        self.rows = {}
        self.planned_of = {}
        names = [t["name"] for t in w["tables"]]
        self.map = {n: apply_remap(self.remap, n) for n in names}
        if len(set(self.map.values())) < len(names):
            raise Skip("colliding names")
        lower = [n.lower() for n in self.map.values()]
        if len(set(lower)) < len(lower):
            raise Skip("colliding names")
        keep = [n for n in names if n in union or not case["missing"]]
        for t in w["tables"]:
            if t["name"] not in keep:
                continue
            dn = self.map[t["name"]]
            fks = [{**fk, "ref": self.map[fk["ref"]]} for fk in t["fks"] if fk["ref"] in keep]
            if env.dialect == "sqlite":
                fks = [fk for fk in fks if fk["ref"].split(".")[0] == dn.split(".")[0]]
            self.tables.append({**t, "name": dn, "cols": [dict(c) for c in t["cols"]], "fks": fks})
            rows = [list(r) for r in w["rows"][t["name"]]]
            k = case["pre"].get(t["name"], 0)
            have = {x["name"]: self.rows[x["name"]] for x in self.tables[:-1]}
            if k == 0:
                rows = []
            elif k == 1:
                rows = rows[:1]
            cols = [c["n"] for c in t["cols"]]
            for fk in fks:
                ref = next(x for x in self.tables if x["name"] == fk["ref"])
                rc = [c["n"] for c in ref["cols"]]
                keys = {tuple(r[rc.index(c)] for c in fk["rcols"]) for r in have[fk["ref"]]}
                rows = [r for r in rows if None in [r[cols.index(c)] for c in fk["cols"]] or tuple(r[cols.index(c)] for c in fk["cols"]) in keys]
            # data that tells existing rows from sampled ones
            data = {c["n"] for c in pipe.data_columns(w, t)}
            rows = [[(4000 + i if c["t"] == "int" else f"old{i}") if c["n"] in data else v for c, v in zip(t["cols"], r)] for i, r in enumerate(rows)]
            if not t["pk"] and not fks:
                rows = rows[:2]
            self.rows[dn] = rows
        base = list(self.tables)
        taken = {t["name"].lower() for t in base} | {"o1.between"}
        for i, x in enumerate(case["others"]):
            pool = [t for t in self.tables if t["pk"] or t["uniq"]]
            ref = None
            if x["kind"] in ("ref", "refref") and pool:
                if x["kind"] == "refref":
                    pool = [t for t in pool if t not in base] or pool
                ref = pool[x["of"] % len(pool)]
            near = base[x["of"] % len(base)]["name"]
            schema, short = near.split(".", 1)
            name = f"{ref['name'].split('.')[0] if ref and env.dialect == 'sqlite' else schema}.other{i}"
            if x["kind"] == "near":
                other = {"1": "2", "2": "1"}[schema[1]]
                name = [f"{schema}.{short}_old", f"{schema}.x{short}", f"{schema[0]}{other}.{short}", f"{schema}.{short[:-1]}5"][x["of"] % 4]
            elif x["kind"] == "case" and env.dialect != "sqlite":
                name = f"{schema}.{short.upper() if short.upper() != short else short.lower()}"
            if name in {t["name"] for t in self.tables} or (env.dialect == "sqlite" and name.lower() in taken):
                continue
            t = {"name": name, "cols": [{"n": "oid", "t": "int", "null": False}, {"n": "x", "t": "int", "null": True}], "pk": ["oid"], "uniq": [], "fks": []}
            rows = [[j + 1, 60 + j] for j in range(x["rows"])]
            if ref is not None:
                key = (ref["uniq"] + [ref["pk"]])[0] if x["uniq"] and ref["uniq"] else (ref["pk"] or ref["uniq"][0])
                rc = [c["n"] for c in ref["cols"]]
                typ = {c["n"]: c["t"] for c in ref["cols"]}
                for j, c in enumerate(key):
                    t["cols"].append({"n": f"r{j}", "t": typ[c], "null": True})
                t["fks"] = [{"cols": [f"r{j}" for j in range(len(key))], "ref": ref["name"], "rcols": list(key)}]
                there = [[r[rc.index(c)] for c in key] for r in self.rows[ref["name"]]]
                there = [k for k in there if None not in k]
                rows = [r + (there[j % len(there)] if there and j % 3 != 2 else [None] * len(key)) for j, r in enumerate(rows)]
            elif x["kind"] == "parent":
                # referred to by a planned table, must never be emptied
                child = base[x["of"] % len(base)]
                if env.dialect == "sqlite":
                    t["name"] = name = f"{child['name'].split('.')[0]}.other{i}"
                if name in {y["name"] for y in self.tables}:
                    continue
                child["cols"] = child["cols"] + [{"n": f"px{i}", "t": "int", "null": True}]
                child["fks"] = child["fks"] + [{"cols": [f"px{i}"], "ref": name, "rcols": ["oid"]}]
                self.rows[child["name"]] = [r + [rows[0][0] if rows else None] for r in self.rows[child["name"]]]
                self.tables.insert(0, t)
                self.rows[name] = rows
                taken.add(name.lower())
                continue
            self.tables.append(t)
            self.rows[name] = rows
            taken.add(name.lower())
        self.by = {t["name"]: t for t in self.tables}

    def build(self):
        env = self.env
        order, placed = [], set()
        todo = list(self.tables)
        while todo:
            n = len(todo)
            for t in list(todo):
                if all(fk["ref"] in placed for fk in t["fks"]):
                    order.append(t)
                    placed.add(t["name"])
                    todo.remove(t)
            if len(todo) == n:
                raise Skip("destination keys form a cycle")
        env.create("dst", order)
        for t in order:
            env.insert("dst", t, self.rows[t["name"]])

    def dependants(self, planned):
        dead = set(planned)
        while True:
            more = {t["name"] for t in self.tables if any(fk["ref"] in dead for fk in t["fks"])} - dead
            if not more:
                return dead
            dead |= more

    def read(self):
        return flow.read_all(self.env, "dst", self.tables)

    def config(self, **kw):
        out = {"mode": "database", **self.env.cfg("dst"), **kw}
        if self.remap:
            out["remap"] = self.remap
        return out


def run(case, ctx):
    env, w = ctx.env, case["world"]
    cfgs = case["cfgs"]
    if case["odd"]:
        rename(w, cfgs[0], *case["odd"])
        case["pre"][case["odd"][1]] = case["pre"].pop(case["odd"][0])
    flow.load(env, w, remap=bool(case["remap"]))
    plans = []
    for cfg in cfgs:
        plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
        if plan is None:
            raise Skip("plan refused")
        plans.append((plan, ref, flow.planned(w, plan)))
    dst = Dst(case, env, w, {t["name"] for _, _, tabs in plans for t in tabs})
    dst.build()
    src = flow.read_all(env, "src", w["tables"])
    for run_no, step in enumerate(case["runs"]):
        cfg, (plan, ref, tabs) = cfgs[step["cfg"] % len(plans)], plans[step["cfg"] % len(plans)]
        planned = {dst.map[t["name"]]: t for t in tabs}
        plain = pipe.exact_sample(ref, src, tabs)
        before = dst.read()
        closure = dst.dependants(planned)
        sampler, out = {}, dst.config(conflict_strategy=step["strategy"])
        if step["feature"] == "merge":
            out["merge"] = True
        elif step["feature"] == "compact":
            sampler["compact"] = {"primary_keys": True}
        elif step["feature"] == "multiply":
            sampler["multiplicity"] = {"multiplier": 2}
        # what the insertion must cope with, when nothing is emptied
        clash = False
        for t in tabs:
            have = [] if step["truncate"] else before.rows[dst.map[t["name"]]]
            for key in ([t["pk"]] if t["pk"] else []) + t["uniq"]:
                old = {tuple(r[c] for c in key) for r in have}
                clash |= any(tuple(r[c] for c in key) in old and None not in [r[c] for c in key] for r in plain.rows[t["name"]])
        exc = None
        try:
            flow.run_sample(env, plan, sampler, out, truncate=step["truncate"], create=step["over"])
        except Exception as e:  # pylint: disable=broad-except
            exc = e
        got = dst.read()
        ok = exc is None
        simple = not step["feature"]
        loses = dst_loses_fk(dst, tabs) or cfg.get("ignore_fks")
        if not ok and simple and (step["truncate"] or not clash) and not loses:
            with must_succeed(f"run {run_no}"):
                raise exc
        for t in dst.tables:
            n = t["name"]
            cols = [c["n"] for c in t["cols"]]
            if n not in planned and not (step["truncate"] and n in closure):
                msg = pipe.diff(got.rows[n], before.rows[n], cols)
                ctx.check(msg is None, "run %d changed unrelated table %s: %s", run_no, n, msg)
                if n not in {dst.map[x["name"]] for x in w["tables"]} and got.rows[n]:
                    ctx.tag("unrelated-kept")
            elif n not in planned:
                # emptied along (in a failed run maybe not yet)
                if ok:
                    ctx.check(not got.rows[n], "run %d: rows of %s, which refers to emptied tables, remain: %s", run_no, n, got.rows[n][:3])
                else:
                    ctx.check(not pipe.bag(got.rows[n], cols) - pipe.bag(before.rows[n], cols), "run %d: new rows in %s", run_no, n)
                if before.rows[n]:
                    ctx.tag("dependant-emptied")
                    ctx.nontrivial = True
            elif not step["truncate"]:
                a, b = pipe.bag(before.rows[n], cols), pipe.bag(got.rows[n], cols)
                lost = a - b
                if step["strategy"] == "replace" and t["uniq"] and env.dialect == "mysql":
                    # another unique value in common makes it a conflict, too
                    ctx.check(len(got.rows[n]) >= len(before.rows[n]), "run %d: existing rows of %s lost", run_no, n)
                elif step["strategy"] == "replace":
                    keys = {tuple(r[c] for c in t["pk"]) for r in got.rows[n]} if t["pk"] else set()
                    sampled = {tuple(r[c] for c in t["pk"]) for r in plain.rows[planned[n]["name"]]} if t["pk"] else set()
                    for r in before.rows[n]:
                        if model.hashable(tuple(r[c] for c in cols)) in lost:
                            k = tuple(r[c] for c in t["pk"])
                            replaced = t["pk"] and k in keys and (k in sampled or step["feature"])
                            ctx.check(replaced, "run %d: existing row of %s lost: %s", run_no, n, r)
                            ctx.tag("replaced")
                else:
                    ctx.check(not lost, "run %d: existing rows of %s lost: %s", run_no, n, model.fmt(lost))
                if before.rows[n]:
                    ctx.tag("existing-kept")
                    ctx.nontrivial = True
            elif ok and simple:
                scols = [c["n"] for c in planned[n]["cols"]]
                msg = pipe.diff(got.rows[n], plain.rows[planned[n]["name"]], scols)
                ctx.check(msg is None, "run %d with truncate, %s: %s", run_no, n, msg)
                if before.rows[n]:
                    ctx.tag("emptied")
                    ctx.nontrivial = True
        if ok and step["truncate"] and step["again"]:
            with must_succeed("repeating the run with truncate"):
                flow.run_sample(env, plan, sampler, dict(out), truncate=True)
            rep = dst.read()
            loose = step["feature"] == "compact"  # rows without a key may be numbered in any order
            for t in dst.tables:
                if loose and any(not x["pk"] for x in w["tables"]):
                    continue
                msg = pipe.diff(rep.rows[t["name"]], got.rows[t["name"]], [c["n"] for c in t["cols"]])
                ctx.check(msg is None, "repeating run %d with truncate changed %s: %s", run_no, t["name"], msg)
            ctx.tag("repeated")
        if not ok:
            ctx.tag("failed:" + type(exc).__name__)
    if case["odd"]:
        ctx.tag("pattern-like-name")


def dst_loses_fk(dst, tabs):
    """The planned rows may refer to rows that an unplanned table would have to provide."""
    planned = {dst.map[t["name"]] for t in tabs}
    return any(fk["ref"] not in planned and not fk["cols"][0].startswith("px") for n in planned for fk in dst.by[n]["fks"])


# ------------------------------------------------------------------ early failures


def early_strategy(dialect, tier):
    @st.composite
    def build(draw):
        w = gen_world(draw, dialect, tier, max_rows=5)
        names = [t["name"] for t in w["tables"]]
        return {
            "world": w,
            "cfg": {"select": ["*"], "targets": {names[0]: {"all": True}}, "passthrough": []},
            "kind": draw(st.sampled_from(["collision", "missing", "filter", "filter", "compact-fk", "compact-unknown", "multiply", "multiply-unknown", "multiply-passthrough"])),
            "pick": draw(st.integers(0, 9)), "pick2": draw(st.integers(0, 38)),
            "truncate": draw(st.booleans()), "create": draw(st.booleans()),
            "strategy": draw(st.sampled_from(["error", "replace", "skip"])), "merge": draw(st.booleans()),
            "all_targets": draw(st.booleans()),
            "through": draw(st.lists(st.sampled_from(names), max_size=1)),
        }

    return build()


BAD_FILTERS = [
    lambda t, c: {"op": "null", "columns": ["nope"]},
    lambda t, c: {"op": "null", "columns": [c, c]},
    lambda t, c: {"op": "zero", "columns": []},
    lambda t, c: {"op": "constant", "columns": [c], "values": [1, 2]},
    lambda t, c: {"op": "omit", "columns": ["nope"]},
    lambda t, c: {"op": "plugin", "columns": [c], "module": "no_such_module", "class": "X"},
    lambda t, c: {"op": "multiplex", "column": "nope", "conditions": []},
    lambda t, c: {"op": "multiplex", "column": c, "conditions": [{"op": "is", "value": None, "apply": {"op": "omit", "columns": [c]}}]},
    lambda t, c: {"op": "random_string", "columns": [c], "length": 4, "alphabet": "custom"},
    lambda t, c: {"op": "no_such_filter", "columns": [c]},
    lambda t, c: [{"op": "omit", "columns": [c]}, {"op": "null", "columns": [c]}],
    lambda t, c: [{"op": "omit", "columns": [c]}, {"op": "omit", "columns": [c]}],
    lambda t, c: [{"op": "omit", "columns": [c]}, {"op": "multiplex", "column": c, "conditions": []}],
]


def run_early(case, ctx):
    env, w = ctx.env, case["world"]
    names = [t["name"] for t in w["tables"]]
    cfg = {"select": ["*"] if env.dialect != "mysql" else ["s?.*"], "targets": {n: {"all": True} for n in (names if case["all_targets"] else names[:1])}}
    through = [n for n in case["through"] if n not in cfg["targets"]]
    if through:
        cfg["passthrough"] = through
    flow.load(env, w, remap=True)
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        raise Skip("plan refused")
    tabs = flow.planned(w, plan)
    kind = case["kind"]
    sampler = {}
    out = flow.output_cfg(env, conflict_strategy=case["strategy"], merge=case["merge"])
    missing = set()
    create = case["create"]
    t = tabs[case["pick"] % len(tabs)]
    if kind == "collision":
        if len(tabs) < 2:
            raise Skip("one table")
        rest = [x for x in tabs if x is not t]
        other = rest[case["pick2"] % len(rest)]
        a, b = env.dst(t["name"]), env.dst(other["name"])
        out["remap"] = out["remap"] + [{"search": "^" + re.escape(a) + "$", "replace": b}]
    elif kind == "missing":
        create = False
        missing = {t["name"]}
    elif kind == "filter":
        bad = BAD_FILTERS[case["pick2"] % len(BAD_FILTERS)](t, t["cols"][0]["n"])
        good = [{"op": "null", "columns": [t["cols"][-1]["n"]]}] if len(t["cols"]) > 1 and case["pick2"] % 2 else []
        sampler["filters"] = {t["name"]: good + (bad if isinstance(bad, list) else [bad])}
    elif kind == "compact-fk":
        inside = {x["name"] for x in tabs}
        cand = [(x, fk) for x in tabs for fk in x["fks"] if fk["ref"] in inside and x["name"] not in through]
        if not cand:
            raise Skip("no key")
        x, fk = cand[case["pick2"] % len(cand)]
        sampler["compact"] = {"columns": {x["name"]: [fk["cols"][0]]}}
    elif kind == "compact-unknown":
        if t["name"] in through:
            raise Skip("passthrough")
        sampler["compact"] = {"columns": {t["name"]: ["nope"]}}
    elif kind in ("multiply", "multiply-unknown"):
        if t["name"] in through:
            raise Skip("passthrough")
        strs = [c["n"] for c in t["cols"] if c["t"] == "str"]
        if not strs and kind == "multiply":
            raise Skip("no text column")
        sampler["multiplicity"] = {"multiplier": 2, "extra_columns": {t["name"]: [strs[case["pick2"] % len(strs)] if kind == "multiply" else "nope"]}}
    else:
        inside = {x["name"] for x in tabs}
        cand = [x["name"] for x in tabs if x["name"] not in through and any(fk["ref"] in inside and fk["ref"] not in through and fk["rcols"] == worlds.by_name(w)[fk["ref"]]["pk"] for fk in x["fks"])]
        if not cand:
            raise Skip("no key")
        sampler["multiplicity"] = {"multiplier": 2, "ignore_tables": [cand[case["pick2"] % len(cand)]]}
    there = [x for x in w["tables"] if x["name"] not in missing and not any(fk["ref"] in missing for fk in x["fks"])]
    if create and case["pick2"] % 3 == 0:
        there = [x for x in there if not x["fks"]]
    flow.create_dst(env, there)
    tbl = {"name": "o1.unrelated", "cols": [{"n": "a", "t": "int"}], "pk": [], "uniq": [], "fks": []}
    env.create("dst", [tbl])
    env.insert("dst", tbl, [[1], [2]])
    for x in there:
        # what the source has, without the rows' data: conflicts and truncation would both show
        env.insert("dst", x, w["rows"][x["name"]], name=env.dst(x["name"]))
    before = env.snapshot("dst", [env.dst(x["name"]) for x in there] + ["o1.unrelated"])
    exc = flow.refused(f"{kind} {sampler} {out.get('remap')}", flow.run_sample, env, plan, sampler, out, create=create, truncate=case["truncate"])
    after = env.snapshot("dst", before)
    for n in before:
        ctx.check(before[n] == after[n], "%s failed (%s), but %s changed: %s -> %s", kind, exc, n, before[n][:4], after[n][:4])
    for n in env.table_names("dst"):
        if n.split(".")[0] in ("o1", "o2") and n not in before:
            ctx.check(not env.select("dst", f"SELECT 1 FROM {env.fq(n)} LIMIT 1"), "%s: rows written to %s", kind, n)
    ctx.tag(kind, f"truncate:{case['truncate']}")
    ctx.nontrivial = any(before.values())


SUBS = [
    Sub(
        name="history",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 250, "postgres": 35, "mysql": 30},
        thorough={"sqlite": 3000, "postgres": 900, "mysql": 500},
        rule="history of runs with and without truncate into a destination with rows and further tables (unrelated, referring to or referred to by sampled ones, similar names); every table outside the planned ones and their dependants is unchanged; non-trivial if there were rows to keep or empty",
    ),
    Sub(
        name="early",
        run=run_early,
        strategy=early_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 120, "postgres": 40, "mysql": 25},
        thorough={"sqlite": 1500, "postgres": 600, "mysql": 300},
        rule="a run that has to be refused (colliding or missing tables, bad filter, impossible compaction or multiplicity) leaves every destination row as it was; non-trivial if rows were there",
    ),
]
