"""C16: configured filters reach every output row, in every mode."""
import collections
import glob
import json
import os
import shutil
import tempfile

from hypothesis import strategies as st

import flow
import pipe
import worlds
from checks import c15
from core import SCRATCH, Skip, Sub, must_succeed
from model import Refuse

TEXT_FAKES = [k for k in c15.FAKES if k not in ("latitude", "longitude")]


def simple(draw, typ, cols, nullable, omit, strict=False):
    """A filter of columns of one type."""
    kinds = {"text": ["zero", "constant", "random_string", "uuid", "random_uuid", "plugin", "fake", "fake"], "big": ["zero", "constant", "random_int"], "float": ["zero", "constant", "random_float", "fake"]}[typ]
    kinds = kinds + (["null", "null"] if nullable else []) + (["omit", "omit"] if omit else [])
    k = draw(st.sampled_from([x for x in kinds if not strict or x not in ("fake",) or typ == "text"]))
    f = {"op": k, "columns": cols}
    if k == "constant":
        f["values"] = [None if nullable and draw(st.integers(0, 3)) == 0 else {"text": "CONST", "big": 77, "float": 0.5}[typ] for _ in cols]
    elif k == "random_string":
        f.update(length=draw(st.sampled_from([0, 3, 30])), alphabet="alpha_upper")
    elif k == "random_int":
        f.update(low=900, high=999)
    elif k == "random_float":
        f.update(low=0.25, high=0.75)
    elif k == "plugin":
        f.update({"module": "vtplugin", "class": "Mask", "kwargs": {"prefix": "m"}})
    elif k == "fake":
        kind = draw(st.sampled_from(TEXT_FAKES if typ == "text" else ["latitude", "longitude"]))
        f["op"] = "fake_" + kind
        if kind in c15.WIDE and kind != "latitude" and draw(st.booleans()):
            f["unique"] = True
    return f


def gen_filters(draw, t, sens, lacking_ok):
    """A chain of filters on the sensitive columns; returns (filters, omitted columns)."""
    out, gone, done = [], [], set()
    if draw(st.integers(0, 2)) == 0:
        on = draw(st.sampled_from(["rid"] + [c["n"] for c in sens]))
        conds = []
        for _ in range(draw(st.integers(1, 3))):
            if on == "rid":
                op, val = draw(st.sampled_from([("<", 3), (">=", 2), ("in", [1, 3, 5]), ("not in", [2]), ("=", 1), ("!=", 1)]))
            else:
                op, val = draw(st.sampled_from([("is", None), ("is not", None), ("=", None), ("!=", 5)]))
            c = draw(st.sampled_from(sens))
            conds.append({"op": op, "value": val, "apply": simple(draw, c["t"], [c["n"]], c["null"], False, strict=True)})
        out.append({"op": "multiplex", "column": on, "conditions": conds})
    for _ in range(draw(st.integers(0 if out else 1, 3))):
        free = [c for c in sens if c["n"] not in done]
        if not free:
            break
        c = draw(st.sampled_from(free))
        cols = [c] + [x for x in free if x is not c and x["t"] == c["t"] and draw(st.booleans())]
        null = all(x["null"] for x in cols)
        f = simple(draw, c["t"], [x["n"] for x in cols], null, null or lacking_ok)
        done |= set(f["columns"])
        if f["op"] == "omit":
            gone += f["columns"]
        out.append(f)
    fkc = [c["n"] for c in t["cols"] if c.get("null") and c["n"] not in t["pk"] and any(c["n"] in fk["cols"] for fk in t["fks"])]
    if fkc and draw(st.integers(0, 5)) == 0:
        out.insert(draw(st.integers(0, len(out))), {"op": "null", "columns": [draw(st.sampled_from(fkc))]})
    return out, gone


def with_sensitive(draw, w):
    tables, rows = [], {}
    for ti, t in enumerate(w["tables"]):
        sens = [{"n": f"sv{j}", "t": draw(st.sampled_from(["text", "text", "big", "float"])), "null": draw(st.booleans())} for j in range(draw(st.integers(1, 3)))]
        cols = t["cols"] + [{"n": "rid", "t": "big", "null": False}] + sens
        lst = []
        for i, r in enumerate(w["rows"][t["name"]]):
            new = list(r) + [i + 1]
            for j, c in enumerate(sens):
                if c["null"] and draw(st.integers(0, 4)) == 0:
                    new.append(None)
                else:
                    k = ti * 10000 + j * 1000 + i
                    new.append({"text": f"MARKER-{k}-", "big": 7000000 + k, "float": 7000000.5 + k}[c["t"]])
            lst.append(new)
        if draw(st.integers(0, 3)) == 0:
            # computed by the database, so no filter sees it written
            cols = cols + [{"n": "gz", "t": "big", "null": True, "gen": "rid + 5"}]
            for r in lst:
                r.append(r[len(t["cols"])] + 6 - 1)
        perm = list(range(len(cols)))
        if draw(st.booleans()):
            perm = draw(st.permutations(perm))
        tables.append({**t, "cols": [cols[i] for i in perm]})
        rows[t["name"]] = [[r[i] for i in perm] for r in lst]
    return {"tables": tables, "rows": rows}


def strategy(dialect, tier):
    @st.composite
    def build(draw):
        feature = draw(st.sampled_from(["none", "none", "compact", "multiply", "both", "merge", "skip", "replace", "truncate"]))
        if feature == "merge":
            kinds = ("int",)
        elif feature in ("skip", "replace"):
            kinds = ("int", "int", "comp", "fkcomp", "shared", "str")
        elif feature in ("multiply", "both"):
            kinds = ("int", "int", "comp", "fkcomp")
        else:
            kinds = ("int", "int", "comp", "fkcomp", "shared", "none", "str")
        o = worlds.Opts(dialect=dialect, min_tables=1, max_tables=4, max_rows=6, schemas=2, auto=True, uniq=False, fk_to_uniq=False, single_fk=feature == "merge", pk_kinds=kinds, key_types=("int",) if feature not in ("none", "truncate", "skip", "replace") else ("int", "str"))
        p = worlds.POpts(max_targets=3, extra_fks=False, ignore_fks=False, infer=False, nodeps=feature != "merge", ignore=feature != "merge")
        w = with_sensitive(draw, draw(worlds.world(o)))
        cfg = worlds.accepted_planner(draw, w, p)
        names = [t["name"] for t in w["tables"]]
        sampler = {}
        if feature in ("compact", "both"):
            sampler["compact"] = {"primary_keys": True, **({"start_key": 50} if draw(st.booleans()) else {})}
        if feature in ("multiply", "both"):
            sampler["multiplicity"] = {"multiplier": draw(st.integers(2, 3))}
        mode = draw(st.sampled_from(["plain", "remap", "remap", "directory", "create"] if feature in ("none", "compact", "multiply", "both", "truncate") else ["plain", "remap"]))
        filters, gone = {}, {}
        for t in w["tables"]:
            if draw(st.integers(0, 3)):
                sens = [c for c in t["cols"] if c["n"].startswith("sv")]
                filters[t["name"]], gone[t["name"]] = gen_filters(draw, t, sens, mode != "create")
        if draw(st.integers(0, 9)) == 0:
            filters["s1.unknown"] = [{"op": "null", "columns": ["x"]}]
        if feature in ("compact", "both"):
            # renumbered columns that filters act on as well
            comp = {}
            for t in w["tables"]:
                conds = {f["column"] for f in filters.get(t["name"], []) if f["op"] == "multiplex"}
                free = [c["n"] for c in t["cols"] if c["n"].startswith("sv") and c["t"] == "big" and c["n"] not in conds]
                if free and draw(st.booleans()):
                    comp[t["name"]] = draw(st.lists(st.sampled_from(free), min_size=1, max_size=2, unique=True))
            if comp:
                sampler["compact"]["columns"] = comp
        sampler["filters"] = filters
        lack = {n: [c for c in cs if draw(st.booleans())] for n, cs in gone.items() if cs}
        return {"world": w, "cfg": cfg, "sampler": sampler, "feature": feature, "mode": mode, "lack": lack}

    return build()


def norm(v):
    return float(v) if isinstance(v, c15.decimal.Decimal) else v


def judge(ctx, env, w, names, sampler, src, got, counts):
    """Decide all output rows (dicts of column -> value; absent = omitted) of each table."""
    filters = sampler["filters"]
    forbidden = {}
    output = collections.defaultdict(list)
    for t in w["tables"]:
        n = t["name"]
        if n not in names:
            continue
        chain = filters.get(n, [])
        omitted = {c for f in chain if f["op"] == "omit" for c in f["columns"]}
        keys = set(t["pk"]) | {c for fk in t["fks"] for c in fk["cols"]}
        for o in w["tables"]:
            keys |= {c for fk in o["fks"] if fk["ref"] == n for c in fk["rcols"]}
        keys |= set(sampler.get("compact", {}).get("columns", {}).get(n, []))
        base = {r["rid"]: r for r in src.rows[n]}
        seen = collections.Counter(r["rid"] for r in got[n])
        ctx.check(dict(seen) == {k: v for k, v in counts[n].items() if v}, "%s: rows %s are output instead of %s", n, dict(seen), dict(counts[n]))
        for r in got[n]:
            try:
                (res,) = functools_apply(chain, base[r["rid"]])
            except c15.Unsure:
                ctx.tag("unsure")
                continue
            for c, v in r.items():
                output[repr(v)].append((n, c, r["rid"]))
                if c in omitted:
                    ctx.check(v is None, "%s.%s (omitted): %r in row %d", n, c, v, r["rid"])
                    continue
                kind = res[c]
                if kind == ("is", base[r["rid"]][c]) and c in keys:
                    continue  # keys may be renumbered
                ctx.check(c15.fulfils(kind, v) or (kind[0] == "fake" and kind[1] in ("latitude", "longitude") and c15.fulfils(kind, norm(v))), "%s.%s: %r in row %d instead of %s (source %r)", n, c, v, r["rid"], kind, base[r["rid"]][c])
            for c, v in base[r["rid"]].items():
                if v is not None and c.startswith("sv") and (c in omitted or res[c] != ("is", v)):
                    forbidden[repr(v)] = (n, c)
                    ctx.nontrivial = True
        for f in chain:
            if got[n]:
                ctx.tag("op:" + f["op"])
        if chain and max(counts[n].values(), default=0) > 1:
            ctx.tag("repeated-rows")
    for v in set(forbidden) & set(output):
        ctx.check(False, "value %s of %s.%s leaks into %s.%s (row %d)", v, *forbidden[v], *output[v][0])


def functools_apply(chain, row):
    res = [{c: ("is", v) for c, v in row.items()}]
    for i, f in enumerate(chain):
        res = [x for r in res for x in c15.apply(f, i, r)]
    return res


def run(case, ctx):
    env, w, cfg, sampler, feature, mode = ctx.env, case["world"], case["cfg"], case["sampler"], case["feature"], case["mode"]
    if mode == "plain" and env.dialect == "mysql":
        mode = "remap"
    flow.load(env, w, remap=mode == "remap" or (mode == "create" and env.dialect == "mysql"))
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        raise Skip("plan refused")
    tabs = flow.planned(w, plan)
    names = [t["name"] for t in tabs]
    try:
        p = pipe.Pipe(w, ref, names, sampler, env.dialect)
    except Refuse as exc:
        raise Skip("refused") from exc
    if p.ambiguous or p.partial:
        raise Skip("ambiguous keys")
    src = flow.read_all(env, "src", w["tables"])
    plain = pipe.exact_sample(ref, src, tabs)
    if sampler.get("compact") and any(fk.dst not in names for fk in p.fks):
        raise Skip("reference to an unplanned table")
    if feature == "multiply" or feature == "both":
        want = p.multiplied(p.compacted(plain, pipe.key_order(env, w, names)))
        for t in tabs:
            keys = [tuple(r[c] for c in t["pk"]) for r in want.rows[t["name"]]]
            if t["pk"] and len(set(keys)) < len(keys):
                raise Skip("keys would repeat")
    if feature in ("merge", "skip", "replace") and any(not t["pk"] for t in tabs):
        raise Skip("no key")
    if feature == "merge" and any(len(t["pk"]) != 1 for t in tabs):
        raise Skip("merge needs a single key")
    counts = {n: collections.Counter(r["rid"] for r in plain.rows[n]) for n in names}
    for n in names:
        times = p.m if n in p.mult_tables else 1
        if feature == "merge" and n not in ref.passthrough:
            times = 2
        counts[n] = {k: v * times for k, v in counts[n].items()}
    if mode == "directory":
        top = tempfile.mkdtemp(dir=SCRATCH)
        try:
            for _ in range(2 if feature == "truncate" else 1):
                with must_succeed("sampling into a directory"):
                    flow.run_sample(env, plan, sampler, {"mode": "directory", "directory": top})
            got = {}
            for t in tabs:
                path = os.path.join(top, t["name"] + ".json")
                got[t["name"]] = []
                if os.path.exists(path):
                    with open(path, encoding="utf-8") as f:
                        got[t["name"]] = [{c: unjson(t, c, v) for c, v in json.loads(line).items()} for line in f]
                omitted = {c for f in sampler["filters"].get(t["name"], []) if f["op"] == "omit" for c in f["columns"]}
                for r in got[t["name"]]:
                    ctx.check(set(r) == {c["n"] for c in t["cols"]} - omitted, "%s has the columns %s", t["name"], sorted(r))
            ctx.check(len(glob.glob(os.path.join(top, "*"))) <= len(tabs), "additional files: %s", os.listdir(top))
        finally:
            shutil.rmtree(top)
    else:
        dtabs = [{**t, "cols": [c for c in t["cols"] if c["n"] not in case["lack"].get(t["name"], [])]} for t in tabs]
        if mode != "create":
            # omitted columns that exist take NULL
            gone = {t["name"]: {c for f in sampler["filters"].get(t["name"], []) if f["op"] == "omit" for c in f["columns"]} for t in tabs}
            dtabs = [{**t, "cols": [{**c, "null": True} if c["n"] in gone[t["name"]] else c for c in t["cols"]]} for t in dtabs]
            flow.create_dst(env, dtabs)
        else:
            dtabs = tabs
        out = {"merge": True} if feature == "merge" else {"conflict_strategy": feature} if feature in ("skip", "replace") else {}
        for rnd in range(2 if feature in ("merge", "skip", "replace", "truncate") else 1):
            with must_succeed(f"sampling ({mode}, {feature}, run {rnd + 1})"):
                flow.run_sample(env, plan, sampler, flow.output_cfg(env, **out), create=mode == "create", truncate=feature == "truncate")
        got = {}
        for t in dtabs:
            cols = [c["n"] for c in t["cols"]]
            got[t["name"]] = [dict(zip(cols, r)) for r in env.rows("dst", t, env.dst(t["name"]), cols)]
    judge(ctx, env, w, names, sampler, src, got, counts)
    ctx.tag("mode:" + mode, "feature:" + feature)


def unjson(t, c, v):
    typ = next(x["t"] for x in t["cols"] if x["n"] == c)
    return float(v) if typ == "float" and isinstance(v, (int, str)) else v


def batch_strategy(dialect, tier):
    @st.composite
    def build(draw):
        edge = [1, 1024, 1025, 1026, 2049, 2050, 2300]
        out = {
            "parents": draw(st.sampled_from(edge)), "children": draw(st.sampled_from(edge)), "mode": draw(st.sampled_from(["plain", "directory"])), "feature": draw(st.sampled_from(["none", "skip", "replace", "multiply", "compact"])),
            "passthrough": draw(st.booleans()),
        }
        for t in ("parent", "child"):
            sens = [{"n": "sv0", "t": "text", "null": draw(st.booleans())}, {"n": "sv1", "t": "big", "null": False}]
            out[t] = {"sens": sens, "filters": gen_filters(draw, {"cols": [], "fks": [], "pk": []}, sens, True)[0]}
        return out

    return build()


def run_batches(case, ctx):
    np_, nc = case["parents"], case["children"]
    sens = {t: case[t]["sens"] for t in ("parent", "child")}
    parent = {"name": "s1.parent", "cols": [{"n": "id", "t": "int", "null": False}, {"n": "rid", "t": "big", "null": False}] + sens["parent"], "pk": ["id"], "uniq": [], "fks": []}
    child = {
        "name": "s1.child", "cols": [{"n": "cid", "t": "int", "null": False}, {"n": "pid", "t": "int", "null": True}, {"n": "rid", "t": "big", "null": False}] + sens["child"], "pk": ["cid"], "uniq": [],
        "fks": [{"cols": ["pid"], "ref": "s1.parent", "rcols": ["id"]}],
    }
    w = {
        "tables": [parent, child],
        "rows": {
            "s1.parent": [[i * 2 + 1, i + 1, f"MARKER-{i}-", 7000000 + i] for i in range(np_)],
            "s1.child": [[i + 1, (i * 7 % np_) * 2 + 1, i + 1, None if i % 9 == 0 and sens["child"][0]["null"] else f"MARKER-c{i}-", 8000000 + i] for i in range(nc)],
        },
    }
    cfg = {"select": ["s1.*"], "targets": {"s1.child": {"all": True}}}
    if case["passthrough"]:
        cfg["passthrough"] = ["s1.parent"]
    else:
        cfg["targets"]["s1.parent"] = {"all": True}
    sampler = {"filters": {"s1." + t: case[t]["filters"] for t in ("parent", "child")}}
    feature = case["feature"]
    if feature == "multiply":
        sampler["multiplicity"] = {"multiplier": 2, "ignore_tables": []}
        if case["passthrough"]:
            feature = "none"
            sampler.pop("multiplicity")
    if feature == "compact":
        sampler["compact"] = {"primary_keys": True}
    mode = case["mode"] if feature not in ("skip", "replace") else "plain"
    # names of a few thousand rows are not always unique
    for t in ("parent", "child"):
        for f in case[t]["filters"]:
            f.pop("unique", None)
            for cond in f.get("conditions", []):
                cond["apply"].pop("unique", None)
    run({"world": w, "cfg": cfg, "sampler": sampler, "feature": feature, "mode": mode, "lack": {}}, ctx)
    if max(np_, nc) < 1025:
        ctx.nontrivial = False


SUBS = [
    Sub(
        name="modes",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 220, "postgres": 60, "mysql": 40},
        thorough={"sqlite": 3000, "postgres": 1000, "mysql": 500},
        rule="world with unique values in filtered columns, filter chains, every output mode and sampler feature; each output cell is judged by the contract of its filters; non-trivial if a value had to disappear",
    ),
    Sub(
        name="batches",
        run=run_batches,
        strategy=batch_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        shards={"sqlite": 1, "postgres": 1},
        quick={"sqlite": 8, "postgres": 6, "mysql": 4},
        thorough={"sqlite": 120, "postgres": 100, "mysql": 60},
        rule="two linked tables with up to 2300 rows; non-trivial if over 1024 rows are written and a value had to disappear",
    ),
]
