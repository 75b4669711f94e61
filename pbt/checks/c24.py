"""C24: directory output holds one JSON object per sampled row."""
import ast
import datetime
import decimal
import json
import os
import shutil

from hypothesis import strategies as st

import flow
import pipe
import values
import worlds
from checks.c07 import scratch
from checks.c10 import RAW
from core import Skip, Sub, must_succeed
from db import from_driver

SPECIAL = {
    "sqlite": {"REAL": ["9e999", "-9e999", "NULL"], "VARCHAR(10)": ["char(127)", "''", "NULL"]},
    "postgres": {"REAL": ["'NaN'", "'-Infinity'"], "DOUBLE PRECISION": ["'NaN'", "'Infinity'", "0.1"], "NUMERIC": ["'NaN'", "1e30"], "DOUBLE PRECISION[]": ["'{1.5,NULL,NaN}'", "'{1,Infinity}'"]},
    "mysql": {"BIT(3)": ["b'101'"], "DECIMAL(30, 10)": ["1.5"], "TIME": ["'-100:00:01'", "'10:11:12'"]},
}


def no_constant(x):
    raise ValueError(f"{x} is not JSON")


def read(path):
    """Every line of a file as a JSON object; its keys must be distinct."""
    def pairs(items):
        if len({k for k, _ in items}) < len(items):
            raise ValueError("key repeated")
        return dict(items)

    with open(path, encoding="utf-8", newline="") as f:
        text = f.read()
    if text and not text.endswith("\n"):
        raise ValueError("last line not ended")
    out = [json.loads(line, parse_constant=no_constant, object_pairs_hook=pairs) for line in text.split("\n")[:-1]]
    if not all(isinstance(x, dict) for x in out):
        raise ValueError("not an object")
    return out


def plain(typ, v):
    """A value of a file -> the form database values are compared in; None if it is not one."""
    if v is None:
        return None
    if typ in ("json", "jsonb", "iarr"):
        return v
    if typ in ("int", "big"):
        return v if isinstance(v, int) and not isinstance(v, bool) else ("odd", v)
    if typ == "float":
        return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else ("odd", v)
    if typ == "bool":
        return bool(v) if v in (0, 1) and isinstance(v, (int, bool)) else ("odd", v)
    if typ == "dec" and isinstance(v, (int, float)) and not isinstance(v, bool):
        return from_driver("", "dec", v)
    if not isinstance(v, str):
        return ("odd", v)
    try:
        if typ == "dec":
            return str(decimal.Decimal(v).quantize(decimal.Decimal("0.0001")))
        if typ == "date":
            return datetime.date.fromisoformat(v).isoformat()
        if typ == "dt":
            return datetime.datetime.fromisoformat(v).isoformat(sep=" ", timespec="microseconds")
        if typ == "tz":
            return datetime.datetime.fromisoformat(v).astimezone(datetime.timezone.utc).isoformat(sep=" ", timespec="microseconds")
        if typ == "time":
            return datetime.time.fromisoformat(v.rjust(8, "0") if "." not in v else v.rjust(15, "0")).isoformat(timespec="microseconds")
        if typ == "bin":
            return ast.literal_eval(v).hex()
    except (ValueError, SyntaxError, ArithmeticError):
        return ("odd", v)
    return v


def strategy(dialect, tier):
    big = tier == "thorough"
    o = worlds.Opts(dialect=dialect, min_tables=1, max_tables=6 if big else 4, max_rows=7, schemas=2, auto=True)
    p = worlds.POpts(max_targets=3, random=False, sql=True)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        for t in w["tables"]:
            n = draw(st.sampled_from([0, 1, 2, 3, 4]))
            used = {c["n"].lower() for c in t["cols"]}
            # SQLAlchemy mistakes %(x)s for a parameter if there is a column x (sqlite)
            used.add("%(x)s")
            names = [x if x.lower() not in used else f"v{i}" for i, x in enumerate(draw(values.names(n, n, dialect=dialect)) if draw(st.booleans()) else [f"v{i}" for i in range(n)])]
            for name in names:
                typ = draw(st.sampled_from([x for x in values.TYPES[dialect] if t["pk"] or x != "json"]))
                t["cols"] = t["cols"] + [{"n": name, "t": typ, "null": True}]
                w["rows"][t["name"]] = [r + [None if typ not in ("json", "jsonb") and draw(st.integers(0, 5)) == 0 else draw(values.value(typ, dialect, wide=True))] for r in w["rows"][t["name"]]]
        if draw(st.booleans()):
            w = pipe.shuffle_columns(draw, w)
        cfg = worlds.accepted_planner(draw, w, p)
        names = [t["name"] for t in w["tables"]]
        sampler = {}
        if draw(st.integers(0, 2)) == 0:
            sampler["compact"] = pipe.gen_compact(draw, w, names, dialect)
        if draw(st.integers(0, 2)) == 0:
            sampler["multiplicity"] = pipe.gen_multiplicity(draw, w, names)
        if draw(st.integers(0, 2)) == 0:
            drawn = pipe.gen_filters(draw, w, names)
            sampler["filters"] = {n: [f if f["op"] in ("null", "omit", "constant") else {"op": "zero", "columns": f["columns"]} for f in fs] for n, fs in drawn.items()}
        pipe.maybe_infer(draw, w, cfg, sampler)
        return {"world": w, "cfg": cfg, "sampler": sampler, "old": draw(st.sampled_from(["", "", "rerun", "longer", "deep"]))}

    return build()


def run(case, ctx):
    env, w, cfg, sampler = ctx.env, case["world"], case["cfg"], case["sampler"]
    flow.load(env, w, remap=True)
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        raise Skip("plan refused")
    tabs = flow.planned(w, plan)
    gone = {t["name"]: {c for f in sampler.get("filters", {}).get(t["name"], ()) if f["op"] == "omit" for c in f["columns"]} for t in tabs}
    # nothing at the destination stands in the way of any row
    dtabs = [{**t, "uniq": [], "fks": [], "pk": [], "cols": [{"n": c["n"], "t": "big" if c["t"] == "int" else c["t"], "null": True} for c in t["cols"]]} for t in tabs]
    flow.create_dst(env, dtabs, fk=False)
    try:
        p = pipe.Pipe(w, ref, [t["name"] for t in tabs], sampler, env.dialect)
        if p.ambiguous or p.partial:
            raise Skip("column refers to two renumbered keys")
    except pipe.Refuse:
        flow.refused("sampling", flow.run_sample, env, plan, sampler, {"mode": "directory", "directory": scratch(env)})
        ctx.tag("refused")
        return
    base = scratch(env)
    d = os.path.join(base, "a", "b") if case["old"] == "deep" else base
    out = {"mode": "directory", "directory": d}
    try:
        if case["old"] == "longer":
            for t in tabs:
                with open(os.path.join(d, t["name"] + ".json"), "w", encoding="utf-8") as f:
                    f.write('{"old": 1}\n' * 500)
        with must_succeed("sampling to a directory"):
            flow.run_sample(env, plan, sampler, out)
            if case["old"] == "rerun":
                flow.run_sample(env, plan, sampler, out)
        with must_succeed("sampling to a database"):
            flow.run_sample(env, plan, sampler)
        have = sorted(os.listdir(d))
        ctx.check(have == sorted(t["name"] + ".json" for t in tabs), "files %s for tables %s", have, [t["name"] for t in tabs])
        for t in tabs:
            n = t["name"]
            cols = [c for c in t["cols"] if c["n"] not in gone[n]]
            path = os.path.join(d, n + ".json")
            try:
                lines = read(path)
            except ValueError as exc:
                ctx.check(False, "%s: %s: %r", n, exc, open(path, encoding="utf-8", errors="replace").read()[:300])
            for x in lines:
                ctx.check(set(x) == {c["n"] for c in cols}, "%s: keys %s, columns are %s", n, sorted(x), sorted(c["n"] for c in cols))
            rows = [{c["n"]: plain(c["t"], x[c["n"]]) for c in cols} for x in lines]
            want = [
                {k: None if isinstance(v, str) and v == "\0json null" else v for k, v in zip([c["n"] for c in t["cols"]], r) if k not in gone[n]}
                for r in env.rows("dst", t, env.dst(n))
            ]
            msg = pipe.diff(rows, want, [c["n"] for c in cols])
            ctx.check(msg is None, "%s: file compared with database output: %s", n, msg)
            if rows:
                ctx.nontrivial = True
                ctx.tag(*("type:" + c["t"] for c in cols))
                if gone[n]:
                    ctx.tag("omitted")
        ctx.tag(*sampler, "old:" + case["old"])
    finally:
        shutil.rmtree(base, ignore_errors=True)


def strategy_types(dialect, tier):
    @st.composite
    def build(draw):
        pool = {k: list(v) for k, v in RAW[dialect].items()}
        for k, v in SPECIAL[dialect].items():
            pool[k] = pool.get(k, []) + v
        tabs = []
        n = draw(st.integers(1, 3))
        for name in draw(values.names(n, n, [x for x in values.NAMES + ["sl/ash"] * 3 if dialect != "sqlite" or x != "%(x)s"], dialect=dialect)):
            k = draw(st.integers(1, 5))
            types = draw(st.lists(st.sampled_from(sorted(pool)), min_size=k, max_size=k))
            cn = draw(values.names(k, k, [x for x in values.NAMES if x != "id"], dialect=dialect))
            rows = [[draw(st.sampled_from(pool[x] + ["NULL"])) for x in types] for _ in range(draw(st.integers(0, 3)))]
            tabs.append({"name": "s1." + name, "types": types, "cols": cn, "rows": rows})
        return {"tabs": tabs}

    return build()


def run_types(case, ctx):
    env = ctx.env
    env.begin(remap=False)
    if env.dialect == "postgres":
        env.run("src", ["CREATE TYPE s1.mood AS ENUM ('sad', 'ok')", "CREATE TYPE public.mood2 AS ENUM ('a', 'b')"])
    for t in case["tabs"]:
        ddl = ", ".join(["id INTEGER PRIMARY KEY"] + [f"{env.q(c)} {x}" + (" NULL" if "TIMESTAMP NULL" not in x else "") for c, x in zip(t["cols"], t["types"])])
        env.run("src", [f"CREATE TABLE {env.fq(t['name'])} ({ddl})"] + [f"INSERT INTO {env.fq(t['name'])} VALUES ({', '.join([str(i + 1)] + r)})" for i, r in enumerate(t["rows"])])
    with must_succeed("planning"):
        plan = flow.make_plan(env, {"select": ["s1.*"], "targets": {t["name"]: {"all": True} for t in case["tabs"]}})
    d = scratch(env)
    try:
        with must_succeed("sampling"):
            flow.run_sample(env, plan, {}, {"mode": "directory", "directory": d})
        have = sorted(os.listdir(d))
        want = {t["name"]: t["name"] + ".json" for t in case["tabs"] if "/" not in t["name"]}
        rest = sorted(set(have) - set(want.values()))
        for t in case["tabs"]:
            # some other name in the same directory
            if "/" in t["name"] and rest:
                want[t["name"]] = rest[0]
                ctx.tag("slash")
        ctx.check(have == sorted(want.values()) and len(want) == len(case["tabs"]), "files %s for tables %s", have, [t["name"] for t in case["tabs"]])
        for t in case["tabs"]:
            path = os.path.join(d, want[t["name"]])
            try:
                lines = read(path)
            except ValueError as exc:
                ctx.check(False, "%s: %s: %r", t["name"], exc, open(path, encoding="utf-8", errors="replace").read()[:300])
            rows = env.select("src", f"SELECT * FROM {env.fq(t['name'])} ORDER BY id")
            ctx.check(sorted(x.get("id") for x in lines) == [r[0] for r in rows], "%s: ids %s instead of %s", t["name"], [x.get("id") for x in lines], [r[0] for r in rows])
            for x, r in zip(sorted(lines, key=lambda y: y["id"]), rows):
                ctx.check(set(x) == {"id", *t["cols"]}, "%s: keys %s", t["name"], sorted(x))
                for c, typ, v in zip(t["cols"], t["types"], r[1:]):
                    got = x[c]
                    if v is None:
                        ok = got is None
                    elif typ in ("JSON", "JSONB"):
                        ok = got == (json.loads(v) if isinstance(v, (str, bytes)) else v)
                    elif isinstance(v, float) and v - v != 0 or isinstance(v, decimal.Decimal) and not v.is_finite():
                        # JSON has no number for it
                        ok = got is None or isinstance(got, str)
                    elif isinstance(v, bool) or typ in ("BOOLEAN", "TINYINT(1)"):
                        ok = got in (0, 1) and bool(got) == bool(v)
                    elif isinstance(v, decimal.Decimal) or typ.startswith(("DECIMAL", "NUMERIC")):
                        ok = not isinstance(got, bool) and isinstance(got, (str, int, float)) and decimal.Decimal(str(got)) == decimal.Decimal(str(v))
                    elif isinstance(v, int):
                        ok = got == v and isinstance(got, int)
                    elif isinstance(v, float):
                        ok = isinstance(got, (int, float)) and float(got) == v
                    elif isinstance(v, str) and (typ.startswith(("VARCHAR", "CHAR", "NVARCHAR", "ENUM", "s1.", "public.")) or typ.endswith("TEXT")) and "[]" not in typ:
                        ok = got == v
                    elif typ.startswith("BIT") and isinstance(v, bytes):
                        ok = got == int.from_bytes(v, "big") or isinstance(got, str)
                    elif isinstance(v, list):
                        ok = isinstance(got, list) and len(got) == len(v)
                    else:
                        ok = isinstance(got, str) and got != ""
                    ctx.check(ok, "%s.%s (%s): %r instead of %r", t["name"], c, typ, got, v)
                ctx.nontrivial = True
                ctx.tag(*("type:" + x for x in t["types"]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


SUBS = [
    Sub(
        name="rows",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 150, "postgres": 60, "mysql": 40},
        thorough={"sqlite": 2500, "postgres": 900, "mysql": 600},
        rule="world with typed columns and odd column names, plan, filters, compaction and multiplicity; files compared with what database output holds; non-trivial if rows are written",
    ),
    Sub(
        name="types",
        run=run_types,
        strategy=strategy_types,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 80, "postgres": 60, "mysql": 50},
        thorough={"sqlite": 1500, "postgres": 900, "mysql": 600},
        rule="tables with odd names and columns of many SQL types and special values; every line strict JSON with the driver's value; non-trivial if rows are written",
    ),
]
