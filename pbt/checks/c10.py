"""C10: create mode reproduces missing tables and leaves existing ones alone."""
import collections

from hypothesis import strategies as st

import flow
import pipe
import values
import worlds
from core import Skip, Sub, must_succeed

# column types and a few values, as SQL literals
RAW = {
    "sqlite": {
        "SMALLINT": ["1", "-5"], "REAL": ["1.5"], "FLOAT": ["0.25"], "CHAR(5)": ["'abc'"], "NVARCHAR(10)": ["'é'"], "DECIMAL(10, 2)": ["1.25"], "VARCHAR": ["'x'"], "BIGINT": ["77"],
        "BOOLEAN": ["1", "0"], "DATE": ["'2020-02-29'"], "TIMESTAMP": ["'2020-02-29 10:11:12.000000'"], "TIME": ["'10:11:12.000000'"], "BLOB": ["x'00ff'"], "JSON": ["'{\"a\": 1}'"], "TEXT": ["'long'"],
    },
    "postgres": {
        "SMALLINT": ["1", "-5"], "REAL": ["1.5"], "NUMERIC": ["1.23456"], "NUMERIC(5)": ["123"], "NUMERIC(12, 3)": ["5.125"], "CHAR(5)": ["'abc'"], "VARCHAR": ["'x'"], "VARCHAR(3)[]": ["'{a,b}'"],
        "INTERVAL": ["'1 day 2 hours'"], "INET": ["'10.0.0.1'"], "BIT(3)": ["B'101'"], "TIMESTAMP(3)": ["'2020-02-29 10:11:12.123'"], "TIME WITH TIME ZONE": ["'10:11:12+02'"], "TEXT[]": ["'{x,NULL}'"],
        "VARCHAR(10) COLLATE \"C\"": ["'x'"], "s1.mood": ["'sad'", "'ok'"], "public.mood2": ["'b'"], "UUID": ["'6f2c2d2c-4c5c-4b0e-9d52-0d1c0a6a2d10'"], "JSONB": ["'{\"a\": 1}'"], "BYTEA": ["'\\x00ff'"],
        "BOOLEAN": ["true"], "DATE": ["'2020-02-29'"], "BIGINT": ["77"], "DOUBLE PRECISION": ["0.1"], "TIMESTAMP WITH TIME ZONE": ["'2020-02-29 10:11:12+00'"], "INT4RANGE": ["'[1,5)'"],
    },
    "mysql": {
        "SMALLINT": ["1", "-5"], "TINYINT": ["5"], "TINYINT(1)": ["1"], "INT UNSIGNED": ["4000000000"], "BIGINT UNSIGNED": ["18000000000000000000"], "MEDIUMINT": ["9"], "FLOAT": ["1.5"], "DOUBLE": ["0.1"],
        "DECIMAL(5, 0)": ["123"], "DECIMAL(12, 3)": ["5.125"], "CHAR(5)": ["'abc'"], "TINYTEXT": ["'x'"], "MEDIUMTEXT": ["'x'"], "LONGTEXT": ["'x'"], "VARBINARY(5)": ["'ab'"], "BINARY(3)": ["'abc'"],
        "ENUM('a', 'b''c')": ["'a'", "'b''c'"], "SET('a', 'b')": ["'a,b'"], "YEAR": ["2020"], "DATETIME": ["'2020-02-29 10:11:12'"], "DATETIME(6)": ["'2020-02-29 10:11:12.123456'"], "TIMESTAMP NULL": ["'2020-02-29 10:11:12'"],
        "TIME": ["'10:11:12'"], "DATE": ["'2020-02-29'"], "VARCHAR(10) CHARACTER SET latin1": ["'x'"], "VARCHAR(10) COLLATE utf8mb4_bin": ["'x'"], "JSON": ["'{\"a\": 1}'"], "BLOB": ["'ab'"],
    },
}
LONG = {"sqlite": "l" * 90, "postgres": "l" * 60, "mysql": "l" * 54}


def odd_names(draw, w, dialect):
    """Give the tables and columns of a world names that need care."""
    tmap, cmap = {}, {}
    n = len(w["tables"])
    # SQLAlchemy mistakes %(x)s for a parameter if there is a column x (sqlite)
    shorts = draw(values.names(n, n, [x for x in values.NAMES if dialect != "sqlite" or x != "%(x)s"], dialect=dialect))
    if draw(st.booleans()):
        shorts[draw(st.integers(0, n - 1))] = LONG[dialect]
    for t, s in zip(w["tables"], shorts):
        tmap[t["name"]] = t["name"].split(".")[0] + "." + s
    for t in w["tables"]:
        cn = draw(values.names(len(t["cols"]), len(t["cols"]), dialect=dialect, keys=True)) if draw(st.booleans()) else [c["n"] for c in t["cols"]]
        for c, x in zip(t["cols"], cn):
            cmap[(t["name"], c["n"])] = x
    tables = []
    for t in w["tables"]:
        m = lambda c, t=t: cmap[(t["name"], c)]  # noqa: E731
        tables.append(
            {
                **t, "name": tmap[t["name"]], "cols": [{**c, "n": m(c["n"])} for c in t["cols"]], "pk": [m(c) for c in t["pk"]],
                "uniq": [[m(c) for c in u] for u in t["uniq"]],
                "fks": [{**fk, "cols": [m(c) for c in fk["cols"]], "ref": tmap[fk["ref"]], "rcols": [cmap[(fk["ref"], c)] for c in fk["rcols"]]} for fk in t["fks"]],
            }
        )
    return {"tables": tables, "rows": {tmap[k]: v for k, v in w["rows"].items()}}


def strategy(dialect, tier):
    o = worlds.Opts(dialect=dialect, min_tables=1, max_tables=5, max_rows=5, schemas=2, auto=True)
    p = worlds.POpts(max_targets=3, infer=False, ignore_fks=False, extra_fks=False, nodeps=False, passthrough=False, select=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        if draw(st.integers(0, 2)) == 0:
            w = odd_names(draw, w, dialect)
        extra = {}
        for t in w["tables"]:
            # columns of further types, further indexes, checks
            used = {c["n"].lower() for c in t["cols"]}
            cols = []
            for j in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
                typ = draw(st.sampled_from(sorted(RAW[dialect])))
                null = draw(st.booleans())
                if f"e{j}" not in used:
                    cols.append([{"n": f"e{j}", "t": "raw:" + typ, "null": null}, [draw(st.one_of(st.none(), st.sampled_from(RAW[dialect][typ]))) if null and "JSON" not in typ else draw(st.sampled_from(RAW[dialect][typ])) for _ in w["rows"][t["name"]]]])
            idx = []
            plain = [c["n"] for c in t["cols"] if c["t"] in ("int", "str")]
            for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2, 2, 12]))):
                kind = draw(st.sampled_from(["plain", "plain", "unique", "expr", "partial", "desc"]))
                ix = {"cols": draw(st.lists(st.sampled_from(plain), min_size=1, max_size=2, unique=True)), "kind": kind, "unique": False}
                vals = [tuple(r[[c["n"] for c in t["cols"]].index(x)] for x in ix["cols"]) for r in w["rows"][t["name"]]]
                vals = [v for v in vals if None not in v]
                if kind == "unique":
                    ix["unique"] = len(set(vals)) == len(vals)
                idx.append(ix)
            extra[t["name"]] = {"cols": cols, "idx": idx, "check": draw(st.sampled_from([None, None, "mod", "colon", "pct"])), "fknames": draw(st.booleans())}
        cfg = worlds.accepted_planner(draw, w, p)
        rest = [t["name"] for t in w["tables"] if t["name"] not in cfg["targets"] and not t["fks"]]
        if rest and draw(st.integers(0, 3)) == 0:
            cfg["passthrough"] = rest[:1]
        names = [t["name"] for t in w["tables"]]
        return {
            "world": w, "extra": extra, "cfg": cfg, "mode": draw(st.sampled_from(["plain", "remap", "remap", "join", "copy"])),
            "exist": draw(st.lists(st.sampled_from(names), max_size=3, unique=True)) if draw(st.booleans()) else [],
            "exist_fk": draw(st.booleans()), "exist_extra": draw(st.booleans()), "again": draw(st.booleans()), "truncate": draw(st.booleans()),
        }

    return build()


def full_tables(env, case):
    """Table descriptions with all additions, and the literals of the additional columns."""
    out, lits = [], {}
    q = env.q
    for t in case["world"]["tables"]:
        x = case["extra"][t["name"]]
        t = {**t, "cols": [dict(c) for c in t["cols"]] + [dict(c) for c, _ in x["cols"]], "idx": [], "checks": [], "fks": [dict(fk) for fk in t["fks"]]}
        typ = {c["n"]: c["t"] for c in t["cols"]}
        for ix in x["idx"]:
            d = {"cols": ix["cols"], "unique": ix["unique"]}
            cols = [q(c) for c in ix["cols"]]
            if ix["kind"] == "expr" and env.dialect != "mysql":
                # unique, but only thanks to the expression on the whole key
                key = [q(c) for c in t["pk"]]
                d["sql"] = ", ".join([f"(COALESCE({c}, {c}))" for c in key] + cols) if key else ", ".join(cols)
                d["unique"] = bool(key)
            elif ix["kind"] == "partial" and env.dialect != "mysql":
                d["where"], d["unique"] = f"{cols[0]} IS NULL AND {cols[-1]} IS NOT NULL", True
            elif ix["kind"] == "function":  # known finding, not generated
                d["sql"], d["unique"] = f"{cols[0]}, (LOWER({cols[1]}))", True
            elif ix["kind"] == "desc":
                d["sql"] = ", ".join(c + " DESC" for c in cols)
            t["idx"].append(d)
        first = next((c["n"] for c in t["cols"] if typ[c["n"]] == "int" and not c.get("auto")), None)
        text = next((c["n"] for c in t["cols"] if typ[c["n"]] == "str"), None)
        if x["check"] == "mod" and first and not any(first in fk["cols"] for fk in t["fks"]):
            t["checks"].append(f"{q(first)} % 1000 < 999")
        if x["check"] == "colon" and text and not any(text in fk["cols"] for fk in t["fks"]):
            t["checks"].append(f"{q(text)} <> ':b' AND {q(text)} <> 'a:c'")
        if x["check"] == "pct" and text and not any(text in fk["cols"] for fk in t["fks"]):
            t["checks"].append(f"{q(text)} NOT LIKE 'zz%y'")
        if x["fknames"]:
            for i, fk in enumerate(t["fks"]):
                # names are unique per schema on MySQL
                fk["name"] = f"fk{i}" if env.dialect != "mysql" else f"fk_{sorted(y['name'] for y in case['world']['tables'] if y['name'].split('.')[0] == t['name'].split('.')[0]).index(t['name'])}_{i}"
        out.append(t)
        lits[t["name"]] = [(c["n"], v) for c, v in x["cols"]]
    return out, lits


def describe(env, where, table):
    """Columns, keys, unique column sets and foreign keys of a table, from the database's catalog."""
    schema, short = table.split(".", 1)
    lit = lambda s: "'" + s.replace("'", "''").replace("\\", "\\\\" if env.dialect == "mysql" else "\\") + "'"  # noqa: E731
    if env.dialect == "sqlite":
        def pragma(name, of):
            return env.select(where, f"PRAGMA {env.q(schema)}.{name}({env.q(of)})")

        info = pragma("table_info", short)
        pk = [r[1] for r in sorted((r for r in info if r[5]), key=lambda r: r[5])]
        cols = [(r[1], r[2].upper().replace(" ", ""), not r[3] and r[1] not in pk) for r in info]
        uniq = set()
        for r in pragma("index_list", short):
            if r[2] and r[3] != "pk" and not r[4]:
                uniq.add(frozenset(x[2] for x in pragma("index_info", r[1])))
        fks = collections.defaultdict(lambda: ["", []])
        for r in pragma("foreign_key_list", short):
            fks[r[0]][0] = f"{schema}.{r[2]}"
            fks[r[0]][1].append((r[1], r[3], r[4]))
        return {"cols": cols, "pk": pk, "uniq": {u for u in uniq if None not in u}, "fks": sorted((ref, sorted((a, b) for _, a, b in m)) for ref, m in fks.values())}
    if env.dialect == "postgres":
        rel = f"(SELECT c.oid FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace WHERE n.nspname = {lit(schema)} AND c.relname = {lit(short)})"
        info = env.select(where, f"SELECT attnum, attname, format_type(atttypid, atttypmod), NOT attnotnull, attcollation::regcollation::text FROM pg_attribute WHERE attrelid = {rel} AND attnum > 0 AND NOT attisdropped ORDER BY attnum")
        num = {r[0]: r[1] for r in info}
        cols = [(r[1], f"{r[2]} {r[4]}", r[3]) for r in info]
        pk, uniq = [], set()
        for key, prim in env.select(where, f"SELECT indkey::text, indisprimary FROM pg_index WHERE indrelid = {rel} AND indisunique AND indpred IS NULL AND indexprs IS NULL"):
            key = [num[int(k)] for k in key.split()]
            if prim:
                pk = key
            else:
                uniq.add(frozenset(key))
        fks = []
        for ns, rn, a, b in env.select(
            where,
            "SELECT n.nspname, c.relname, ARRAY(SELECT attname::text FROM unnest(conkey) WITH ORDINALITY u(k, o) JOIN pg_attribute ON attrelid = conrelid AND attnum = k ORDER BY o),"
            " ARRAY(SELECT attname::text FROM unnest(confkey) WITH ORDINALITY u(k, o) JOIN pg_attribute ON attrelid = confrelid AND attnum = k ORDER BY o)"
            f" FROM pg_constraint x JOIN pg_class c ON c.oid = confrelid JOIN pg_namespace n ON n.oid = c.relnamespace WHERE contype = 'f' AND conrelid = {rel}",
        ):
            fks.append((f"{ns}.{rn}", sorted(zip(a, b))))
        return {"cols": cols, "pk": pk, "uniq": uniq, "fks": sorted(fks)}
    cond = f"TABLE_SCHEMA = {lit(schema)} AND TABLE_NAME = {lit(short)}"
    cols = [
        (n, f"{t} {c} {p}", nu == "YES")
        for n, t, nu, c, p in env.select(where, f"SELECT COLUMN_NAME, COLUMN_TYPE, IS_NULLABLE, COLLATION_NAME, DATETIME_PRECISION FROM information_schema.COLUMNS WHERE {cond} ORDER BY ORDINAL_POSITION")
    ]
    keys = collections.defaultdict(list)
    for iname, c in env.select(where, f"SELECT INDEX_NAME, COLUMN_NAME FROM information_schema.STATISTICS WHERE {cond} AND NON_UNIQUE = 0 ORDER BY INDEX_NAME, SEQ_IN_INDEX"):
        keys[iname].append(c)
    fks = collections.defaultdict(lambda: ["", []])
    for n, c, rs, rt, rc in env.select(
        where, f"SELECT CONSTRAINT_NAME, COLUMN_NAME, REFERENCED_TABLE_SCHEMA, REFERENCED_TABLE_NAME, REFERENCED_COLUMN_NAME FROM information_schema.KEY_COLUMN_USAGE WHERE {cond} AND REFERENCED_TABLE_NAME IS NOT NULL"
    ):
        fks[n][0] = f"{rs}.{rt}"
        fks[n][1].append((c, rc))
    return {"cols": cols, "pk": keys.pop("PRIMARY", []), "uniq": {frozenset(v) for v in keys.values()}, "fks": sorted((a, sorted(b)) for a, b in fks.values())}


def run(case, ctx):
    env, w0 = ctx.env, case["world"]
    tabs, lits = full_tables(env, case)
    w = {"tables": tabs, "rows": w0["rows"]}
    mode = case["mode"]
    if (mode, env.dialect) in (("plain", "mysql"), ("copy", "sqlite")):
        # (sqlite locks the file it reads from)
        mode = "remap"
    env.begin(remap=mode in ("remap", "join"), shared=mode == "copy")
    if env.dialect == "postgres":
        types = ["CREATE TYPE s1.mood AS ENUM ('sad', 'ok')", "CREATE TYPE public.mood2 AS ENUM ('a', 'b')"]
        env.run("src", types)
    env.create("src", tabs)
    for t in tabs:
        base = [c["n"] for c in next(x for x in w0["tables"] if x["name"] == t["name"])["cols"]]
        rows = w["rows"][t["name"]]
        if not lits[t["name"]]:
            env.insert("src", t, rows)
            continue
        # additional columns take literals; their NOT NULL forbids a later update
        stmts = []
        for i, r in enumerate(rows):
            vals = []
            for v in r:
                vals.append("NULL" if v is None else str(v) if isinstance(v, int) else "'" + v.replace("'", "''") + "'")
            vals += [v[i] or "NULL" for _, v in lits[t["name"]]]
            names = ", ".join(env.q(c) for c in base + [n for n, _ in lits[t["name"]]])
            stmts.append(f"INSERT INTO {env.fq(t['name'])} ({names}) VALUES ({', '.join(vals)})")
        env.run("src", stmts)

    def dn(name):
        if mode == "copy":
            return name + "_c"
        if mode == "join":
            return "o1." + name.split(".", 1)[1]
        return env.dst(name)

    remap = [] if mode == "plain" else env.remap_cfg()
    if mode == "copy":
        remap = [{"search": "(.)$", "replace": "\\1_c"}]
    elif mode == "join":
        remap = [{"search": "^s\\d\\.", "replace": "o1."}]
    if len({dn(t["name"]).lower() for t in tabs}) < len(tabs):
        raise Skip("colliding names")
    cfg = case["cfg"]
    plan, ref = flow.plan_or_refuse(env, {**w, "tables": w0["tables"]}, cfg, ctx)
    if plan is None:
        raise Skip("plan refused")
    ptabs = flow.planned(w, plan)
    planned = {t["name"] for t in ptabs}
    exist = [t for t in tabs if t["name"] in case["exist"]]
    if len(planned - {t["name"] for t in exist}) == 0:
        exist = exist[:-1]
    made = {t["name"] for t in exist}
    etabs = []
    for t in exist:
        fks = [{k: v for k, v in fk.items() if k != "name"} for fk in t["fks"] if case["exist_fk"] and fk["ref"] in made]
        fks = [{**fk, "ref": dn(fk["ref"])} for fk in fks]
        if env.dialect == "sqlite":
            fks = [fk for fk in fks if fk["ref"].split(".")[0] == dn(t["name"]).split(".")[0]]
        cols = [dict(c) for c in t["cols"]]
        if case["exist_extra"]:
            cols = [{"n": "xx1", "t": "int", "null": True}] + cols[::-1]
        uniq = t["uniq"] + [list(ix["cols"]) for ix in t["idx"] if ix["unique"] and "sql" not in ix and "where" not in ix]
        etabs.append({**t, "name": dn(t["name"]), "cols": cols, "fks": fks, "idx": [], "checks": [], "uniq": uniq})
    if env.dialect == "postgres" and mode != "copy" and any(c["t"] in ("raw:s1.mood", "raw:public.mood2") for t in etabs for c in t["cols"]):
        if mode in ("remap", "join"):
            env.run("dst", ["CREATE SCHEMA IF NOT EXISTS s1"])
        env.run("dst", types)
    elif env.dialect == "postgres" and mode in ("remap", "join"):
        env.run("dst", ["CREATE SCHEMA IF NOT EXISTS s1"])
    env.create("dst", etabs)
    # rows of existing tables outside the sample
    for t in etabs:
        if not t["fks"] and t["pk"] and all(c["t"] == "int" for c in t["cols"] if c["n"] in t["pk"]) and all(c["null"] or c["t"] in ("int", "str") for c in t["cols"]):
            row = [900 if c["n"] in t["pk"] else (901 if c["t"] == "int" else "zz") if c["t"] in ("int", "str") else None for c in t["cols"]]
            env.insert("dst", t, [row])
    before = {t["name"]: (describe(env, "dst", t["name"]), env.snapshot("dst", [t["name"]])) for t in etabs}
    src_desc = {t["name"]: describe(env, "src", t["name"]) for t in ptabs}
    src = flow.read_all(env, "src", w0["tables"])
    plain = pipe.exact_sample(ref, src, [t for t in w0["tables"] if t["name"] in planned])
    out = {"mode": "database", **env.cfg("dst")}
    if remap:
        out["remap"] = remap
    with must_succeed("sampling with create"):
        flow.run_sample(env, plan, output=out, create=True, truncate=case["truncate"])
    for rnd in range(2 if case["again"] else 1):
        if rnd:
            with must_succeed("sampling again with create and truncate"):
                flow.run_sample(env, plan, output=dict(out), create=True, truncate=True)
        gone = case["truncate"] or rnd
        for t in etabs:
            have = describe(env, "dst", t["name"])
            ctx.check(have == before[t["name"]][0], "existing table %s changed: %s -> %s", t["name"], before[t["name"]][0], have)
            rows = env.snapshot("dst", [t["name"]])[t["name"]]
            if not gone or t["name"] not in {dn(n) for n in planned}:
                lost = collections.Counter(before[t["name"]][1][t["name"]]) - collections.Counter(rows)
                ctx.check(not lost or gone, "rows of existing table %s lost: %s", t["name"], lost)
            ctx.tag("existing")
        for t in ptabs:
            n = t["name"]
            if n not in made:
                have, want = describe(env, "dst", dn(n)), dict(src_desc[n])
                want["fks"] = sorted((dn(r), m) for r, m in want["fks"] if r in planned)
                for k in want:
                    ctx.check(have[k] == want[k], "created table %s: %s are %s instead of %s", dn(n), k, have[k], want[k])
                if want["fks"]:
                    ctx.tag("created-fk")
                if want["uniq"]:
                    ctx.tag("created-unique")
                if rnd == 0 and len(src_desc[n]["fks"]) > len(want["fks"]):
                    ctx.tag("fk-to-unplanned-left-out")
                ctx.nontrivial = True
            base = [c["n"] for c in next(x for x in w0["tables"] if x["name"] == n)["cols"]]
            got = [dict(zip(base, r)) for r in env.rows("dst", t, dn(n), base)]
            if n in made and not gone:
                missing = pipe.bag(plain.rows[n], base) - pipe.bag(got, base)
                ctx.check(not missing, "%s: missing rows %s", dn(n), missing)
            else:
                msg = pipe.diff(got, plain.rows[n], base)
                ctx.check(msg is None, "%s: %s", dn(n), msg)
            if lits[n] and n in planned and n not in made and (t["pk"]):
                # the additional columns, as the driver reads them
                cols = [c["n"] for c in t["cols"]]
                sel = ", ".join(env.q(c) + ("::text" if env.dialect == "postgres" else "") for c in cols)
                a = {repr(r) for r in env.select("src", f"SELECT {sel} FROM {env.fq(n)}")}
                b = {repr(r) for r in env.select("dst", f"SELECT {sel} FROM {env.fq(dn(n))}")}
                if not any(c["t"] == "raw:JSON" for c in t["cols"]):  # formatted anew
                    ctx.check(b <= a, "%s: rows differ from the source: %s", dn(n), sorted(b - a)[:3])
                for c, _ in lits[n]:
                    ctx.tag("type:" + next(x["t"] for x in t["cols"] if x["n"] == c)[4:])
    ctx.tag("mode:" + mode)


# ------------------------------------------------------------------ what the created table accepts


CHECKS = {
    "sqlite": ["{x} < 100", "{x} IS NOT NULL OR {v} = 'a'", "{v} <> 'it''s'", "{x} BETWEEN 1 AND 50", "{v} LIKE 'a%'", "{x} % 2 = 0", "{v} IN ('a', 'b', ':x', '%s')", "length({v}) < 3", "{x} + {id} < 50", "NOT ({x} = 3)", "{v} <> ' :v'", "({x} > 5 AND {v} = 'a') OR {x} <= 5"],
}
CHECKS["postgres"] = CHECKS["mysql"] = CHECKS["sqlite"]


def accept_strategy(dialect, tier):
    @st.composite
    def build(draw):
        v = st.sampled_from([None, "", "a", "ab", "abc", "b", "it's", ":x", " :v", "%s", "a%"])
        x = st.sampled_from([None, 0, 1, 2, 3, 4, 5, 6, 49, 50, 60, 99, 100, 101])
        row = st.tuples(st.integers(1, 60), v, x, st.sampled_from([None, 1, 2, 9])).map(list)
        return {
            "names": draw(st.sampled_from([["s1.t", "v", "x"], ["s1.t", "v w", "X"], ["s1.a b", "%", "x%s"], ["s1.t", "v", "select"]])),
            "checks": draw(st.lists(st.sampled_from(CHECKS[dialect]), max_size=2, unique=True)),
            "uniq": draw(st.sampled_from([[], ["v"], ["x"], ["v", "x"]])), "notnull": draw(st.sampled_from([[], [], ["v"], ["x"]])), "fk": draw(st.booleans()),
            "rows": draw(st.lists(row, max_size=6)), "probes": draw(st.lists(row, min_size=4, max_size=10)), "remap": draw(st.booleans()), "over": draw(st.booleans()),
        }

    return build()


def accepts(env, where, t, name, row):
    """Whether a row can be inserted; it is not kept."""
    con = env.conn(where)
    mark = "?" if env.dialect == "sqlite" else "%s"
    sql = f"INSERT INTO {env.fq(name)} (" + ", ".join(env.q(c["n"]) for c in t["cols"]) + ") VALUES ("
    if env.dialect != "sqlite":
        sql = sql.replace("%", "%%")
    cur = con.cursor()
    try:
        cur.execute(sql + ", ".join([mark] * len(row)) + ")", tuple(row))
        return True
    except Exception as exc:  # pylint: disable=broad-except
        # MySQL reports violated checks as operational errors
        if "IntegrityError" not in [c.__name__ for c in type(exc).__mro__] and "heck constraint" not in str(exc):
            raise
        return False
    finally:
        cur.close()
        con.rollback()


def run_accept(case, ctx):
    env = ctx.env
    name, vn, xn = case["names"]
    p = {"name": "s1.p", "cols": [{"n": "id", "t": "int", "null": False}], "pk": ["id"], "uniq": [], "fks": []}
    real = {"v": vn, "x": xn}
    cols = [{"n": "id", "t": "int", "null": False}, {"n": vn, "t": "str", "null": "v" not in case["notnull"]}, {"n": xn, "t": "int", "null": "x" not in case["notnull"]}, {"n": "p", "t": "int", "null": True}]
    t = {"name": name, "cols": cols, "pk": ["id"], "uniq": [[real[c] for c in case["uniq"]]] if case["uniq"] else [], "fks": [{"cols": ["p"], "ref": "s1.p", "rcols": ["id"]}] if case["fk"] else []}
    t["checks"] = [c.format(id=env.q("id"), v=env.q(vn), x=env.q(xn)) for c in case["checks"]]
    flow.load(env, {"tables": [p, t], "rows": {"s1.p": [[1], [2]], name: []}}, remap=case["remap"])
    if env.dialect == "sqlite":
        env.run("src", ["PRAGMA foreign_keys = ON"])
        env.run("dst", ["PRAGMA foreign_keys = ON"])
    for row in case["rows"]:
        if accepts(env, "src", t, name, row):
            env.insert("src", t, [row])
    plan = flow.make_plan(env, {"select": ["s1.*"], "targets": {"s1.p": {"all": True}, name: {"all": True}}})
    if case["over"]:
        flow.create_dst(env, [p])
    with must_succeed("sampling with create"):
        flow.run_sample(env, plan, create=True)
    src = env.rows("src", t)
    ctx.check(collections.Counter(src) == collections.Counter(env.rows("dst", t, env.dst(name))), "rows differ")
    for row in case["probes"]:
        a, b = accepts(env, "src", t, name, row), accepts(env, "dst", t, env.dst(name), row)
        ctx.check(a == b, "row %s is %s by the source and %s by the created table (checks %s, unique %s, not null %s)", row, *("accepted" if y else "rejected" for y in (a, b)), t["checks"], t["uniq"], case["notnull"])
        if not a:
            ctx.nontrivial = True
    for c in case["checks"]:
        ctx.tag("check:" + c)


SUBS = [
    Sub(
        name="create",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 150, "postgres": 70, "mysql": 45},
        thorough={"sqlite": 2500, "postgres": 1200, "mysql": 700},
        rule="schemas with keys, unique constraints, indexes, checks and columns of all types, created into an empty or partly populated destination under other names; catalogs of source and destination are compared; non-trivial if a table was created",
    ),
    Sub(
        name="accepts",
        run=run_accept,
        strategy=accept_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 80, "postgres": 30, "mysql": 20},
        thorough={"sqlite": 800, "postgres": 300, "mysql": 150},
        rule="a table with NOT NULL, UNIQUE, CHECK and foreign key constraints is created; it accepts a generated row exactly if the source table does; non-trivial if a row is rejected",
    ),
]
