"""C21: configuration is layered, strict and completed from the environment."""
import json
import os
import shutil
import sqlite3

from hypothesis import strategies as st

import db
import flow
import pipe
import values
import worlds
from core import HarnessError, Skip, Sub, Violation, must_succeed
from model import Refuse

from checks.c07 import scratch

# ------------------------------------------------------------------ reference


def merge(a, b):
    if not (isinstance(a, dict) and isinstance(b, dict)):
        return b
    out = {k: merge(v, b[k]) if k in b else v for k, v in a.items()}
    out.update((k, v) for k, v in b.items() if k not in a)
    return out


def merge_all(docs):
    out = {}
    for d in docs:
        out = merge(out, d)
    return out


# ------------------------------------------------------------------ layers

JUNK = [None, 0, 7, -1, True, "", "x", "all", [], ["x"], [1, 2], {}, {"x": 1}, {"a": {"b": [1]}}, 2.5, "database", [{"op": "zero"}]]


def fragments(draw, value, low, n):
    """Layer number -> document; merging them in order gives the value."""
    if isinstance(value, dict) and value and draw(st.integers(0, 5)):
        start = draw(st.integers(low, n - 1)) if draw(st.integers(0, 3)) == 0 else low
        out = {}
        for k in draw(st.permutations(sorted(value))):
            for i, part in fragments(draw, value[k], start, n).items():
                out.setdefault(i, {})[k] = part
        first = min(out)
        if first > low and draw(st.integers(0, 2)) == 0:
            out[draw(st.integers(low, first - 1))] = draw(st.sampled_from([x for x in JUNK if not isinstance(x, dict)]))
        if draw(st.integers(0, 5)) == 0:
            i = draw(st.integers(first, n - 1))
            out.setdefault(i, {})
        return out
    at = draw(st.integers(low, n - 1))
    out = {at: value}
    if at > low and draw(st.integers(0, 1)) == 0:
        # something that is overridden
        junk = [x for x in JUNK if not (isinstance(x, dict) and isinstance(value, dict) and x)]
        if isinstance(value, list):
            junk += [value + value, value[:-1], value[::-1]]
        if isinstance(value, int):
            junk += [value + 1]
        out[draw(st.integers(low, at - 1))] = draw(st.sampled_from(junk))
    return out


def paths(doc, at=()):
    for k, v in doc.items():
        yield at + (k,)
        if isinstance(v, dict):
            yield from paths(v, at + (k,))


def layers_strategy(dialect, tier):
    o = worlds.Opts(dialect=dialect, min_tables=1, max_tables=4, max_rows=6, schemas=2)
    p = worlds.POpts(max_targets=3, random=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = worlds.accepted_planner(draw, w, p)
        names = [t["name"] for t in w["tables"]]
        sampler = {}
        if draw(st.booleans()):
            sampler["compact"] = pipe.gen_compact(draw, w, names, dialect, explicit=False)
        if draw(st.integers(0, 2)) == 0:
            sampler["multiplicity"] = {"multiplier": draw(st.integers(1, 3))}
        if draw(st.booleans()):
            sampler["filters"] = {n: [f if f["op"] in ("null", "omit", "constant") else {"op": "zero", "columns": f["columns"]} for f in fs] for n, fs in pipe.gen_filters(draw, w, names).items()}
        n = draw(st.integers(1, 4))
        # the database settings are only known when the case runs; placeholders stand for them
        full = {
            "source": {"dialect": "sqlite", "sqlite_databases": {"s1": "@src/s1", "s2": "@src/s2"}, "session_sqls": ["PRAGMA cache_size=-300", "PRAGMA busy_timeout=900"]},
            "planner": json.loads(json.dumps(worlds.real_planner(cfg, lambda x: f'"{x}"'))),
            "sampler": {**sampler, "output": {"mode": "database", "dialect": "sqlite", "sqlite_databases": {"s1": "@dst/s1", "s2": "@dst/s2"}}},
        }
        if draw(st.integers(0, 4)) == 0:
            full["sampler"]["output"] = {"mode": "directory", "directory": "out"}
        if draw(st.integers(0, 5)) == 0:
            del full["planner"]
        elif draw(st.integers(0, 5)) == 0:
            del full["sampler"]
        # unset things may be written as null
        nulls = [("source", "host"), ("source", "port"), ("source", "database"), ("source", "isolation_level")]
        nulls += [("planner", "targets", t, k) for t in full.get("planner", {}).get("targets", {}) for k in ("percent", "amount", "sql") if k not in full["planner"]["targets"][t]]
        for path in draw(st.lists(st.sampled_from(nulls), max_size=2, unique=True)):
            d = full
            for k in path[:-1]:
                d = d[k]
            d[path[-1]] = None
        got = fragments(draw, full, 0, n) if n > 1 else {0: full}
        docs = [got.get(i, {}) for i in range(n)]
        docs = [d if isinstance(d, dict) else {} for d in docs]
        if draw(st.integers(0, 3)) == 0:
            docs.insert(draw(st.integers(0, n)), {})
        return {
            "world": w,
            "cfg": cfg,
            "docs": docs,
            "full": full,
            "stdin": draw(st.one_of(st.none(), st.none(), st.integers(0, len(docs) - 1))),
            "flow": draw(st.sampled_from([None, True, False])),
            "verbose": draw(st.integers(0, 5)),
            "action": draw(st.sampled_from(["plan", "subset"])),
        }

    return build()


def settle(env, value):
    """Replace placeholders of database files."""
    if isinstance(value, dict):
        return {k: settle(env, v) for k, v in value.items()}
    if isinstance(value, list):
        return [settle(env, v) for v in value]
    if isinstance(value, str) and value.startswith("@"):
        where, s = value[1:].split("/")
        return env.cfg(where)["sqlite_databases"][s]
    return value


def dump(doc, style):
    import yaml

    if style is None:
        return json.dumps(doc)
    return yaml.safe_dump(doc, default_flow_style=style, allow_unicode=True, sort_keys=False)


def put(path, text):
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8"))


def files_in(d):
    out = {}
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            with open(os.path.join(d, n), encoding="utf-8") as f:
                out[n] = sorted(f)
    return out


def run_layers(case, ctx):
    env, w = ctx.env, case["world"]
    docs = case["docs"]
    if merge_all(docs) != case["full"]:
        raise HarnessError(f"layers {docs} do not give {case['full']}")
    flow.load(env, w, remap=False)
    d, d2 = scratch(env), scratch(env)
    try:
        env_cfg = env.cfg("src")["sqlite_databases"]
        if set(env_cfg) != {"s1", "s2"}:
            raise HarnessError("unexpected databases")
        argv, stdin = [], b""
        for i, doc in enumerate(docs):
            text = dump(settle(env, doc), case["flow"])
            if not doc and i % 3:
                text = ["", "# nothing\n"][i % 2]
            if case["stdin"] == i:
                stdin = text.encode("utf-8")
                argv += ["-c", "-"]
            else:
                name = "subsetter.yaml" if len(docs) == 1 else f"c{i}.yaml"
                put(os.path.join(d, name), text)
                if len(docs) > 1:
                    argv += ["-c" if i % 2 else "--config", name]
        if case["verbose"] == 0 and len(docs) > 1:
            argv = ["-v"] + argv
        put(os.path.join(d2, "subsetter.yaml"), dump(settle(env, case["full"]), False))
        act = ["plan"] if case["action"] == "plan" else ["subset", "--create", "--truncate"]
        res = []
        for where, args, inp in ((d2, [], b""), (d, argv, stdin)):
            code, out, err = flow.run_cli(args + act, cwd=where, stdin=inp)
            state = {"stdout": out, "files": {n: files_in(os.path.join(where, n)) for n in ("out", "output")}}
            if code == 0 and case["full"].get("sampler", {}).get("output", {}).get("mode") == "database" and case["action"] == "subset":
                state["rows"] = {t: sorted(map(repr, env.select("dst", f"SELECT * FROM {env.fq(t)}"))) for t in sorted(env.table_names("dst"))}
                if any(state["rows"].values()):
                    ctx.tag("rows")
            res.append((code, state, err))
        (code, want, err), (code2, got, err2) = res
        ctx.check((code == 0) == (code2 == 0), "merged file: status %d (%s); layers: status %d (%s)", code, err[-600:], code2, err2[-600:])
        ctx.check(got == want, "merged file gives %r, layers give %r", want, got)
        if "planner" not in case["full"]:
            ctx.check(code != 0, "planning without a planner section succeeds")
            ctx.tag("no-planner")
        if code == 0:
            ctx.tag(case["action"])
            if len(docs) > 1:
                ctx.nontrivial = True
                shared = [set(paths(x)) for x in docs]
                if any(len(p) > 2 and sum(p in s for s in shared) > 1 for p in set().union(*shared)):
                    ctx.tag("overridden")
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d2, ignore_errors=True)


# ------------------------------------------------------------------ rejected configurations

FILTERS = [
    {"op": "zero", "columns": ["x"]},
    {"op": "null", "columns": ["x"]},
    {"op": "constant", "columns": ["x"], "values": [1]},
    {"op": "random_int", "columns": ["x"], "low": 1, "high": 5},
    {"op": "random_string", "columns": ["s"], "length": 3, "alphabet": "hex"},
    {"op": "fake_email", "columns": ["s"], "unique": False},
    {"op": "random_uuid", "columns": ["s"]},
    {"op": "omit", "columns": ["x"]},
    {"op": "plugin", "columns": ["s"], "module": "vtplugin", "class": "Mask", "kwargs": {}},
    {"op": "multiplex", "column": "id", "conditions": [{"op": "=", "value": 1, "apply": {"op": "zero", "columns": ["x"]}}]},
]


def base_config():
    return {
        "source": {"dialect": "sqlite", "sqlite_databases": {"s1": "@src/s1"}, "session_sqls": ["CREATE TABLE IF NOT EXISTS s1.touched(x)"]},
        "planner": {
            "select": ["s1.*"],
            "targets": {"s1.t": {"all": True}, "s1.u": {"in": {"id": [1, 2]}}},
            "ignore_fks": [{"src_table": "s1.v", "dst_table": "s1.t"}],
            "extra_fks": [{"src_table": "s1.u", "src_columns": ["t"], "dst_table": "s1.t", "dst_columns": ["id"]}],
            "table_constraints": {"s1.u": [{"column": "id", "operator": "<", "value": 50}]},
            "passthrough": [],
            "include_dependencies": True,
            "infer_foreign_keys": "none",
        },
        "sampler": {
            "output": {"mode": "database", "dialect": "sqlite", "sqlite_databases": {"s1": "@dst/s1"}, "session_sqls": ["CREATE TABLE IF NOT EXISTS s1.touched(x)"], "remap": [{"search": "^q", "replace": "z"}]},
            "multiplicity": {"multiplier": 1, "extra_columns": {}},
            "compact": {"primary_keys": False, "columns": {}},
            "filters": {"s1.t": []},
        },
    }


# where unknown keys must be refused
PLACES = [
    (),
    ("planner",),
    ("planner", "targets", "s1.t"),
    ("planner", "targets", "s1.u"),
    ("planner", "ignore_fks", 0),
    ("planner", "extra_fks", 0),
    ("planner", "table_constraints", "s1.u", 0),
    ("sampler",),
    ("sampler", "output"),
    ("sampler", "output", "ssl"),
    ("sampler", "output", "ssl", "client"),
    ("sampler", "output", "ssl", "server"),
    ("sampler", "output", "remap", 0),
    ("sampler", "multiplicity"),
    ("sampler", "compact"),
    ("sampler", "filters", "s1.t", 0),
    ("sampler", "filters", "s1.t", -1),
    ("sampler", "filters", "s1.t", "condition"),
    ("sampler", "filters", "s1.t", "apply"),
]
TYPOS = {
    (): ["plan", "sampling", "sources", "Planner"],
    ("planner",): ["ignore_fk", "extra_fk", "selects", "target", "passthru", "table_constraint", "infer_fks", "Select", "include_dependency"],
    ("planner", "targets", "s1.t"): ["percentage", "amounts", "All", "limit", "all_", "in_"],
    ("planner", "targets", "s1.u"): ["likes", "where", "not_in", "amout"],
    ("planner", "ignore_fks", 0): ["src_columns", "columns", "dst"],
    ("planner", "extra_fks", 0): ["src_column", "columns", "deferrable"],
    ("planner", "table_constraints", "s1.u", 0): ["op", "values", "columns"],
    ("sampler",): ["filter", "compaction", "multiplier", "outputs", "merge", "infer_fks"],
    ("sampler", "output"): ["merg", "conflict", "conflict_strategi", "conflictstrategy", "directory", "truncate", "create", "remaps", "databse", "session_sql", "isolation"],
    ("sampler", "output", "ssl"): ["requires", "require_", "verify", "servers", "ca"],
    ("sampler", "output", "ssl", "client"): ["certificate", "keyfile"],
    ("sampler", "output", "ssl", "server"): ["root", "verify_", "cert"],
    ("sampler", "output", "remap", 0): ["pattern", "flags"],
    ("sampler", "multiplicity"): ["multiply", "ignore", "extra", "ignore_primary_keys"],
    ("sampler", "compact"): ["primary_key", "auto_increment", "start", "ignore_tables"],
    ("sampler", "filters", "s1.t", 0): ["column_", "where", "uniq", "seed", "nullable"],
    ("sampler", "filters", "s1.t", -1): ["cols", "if", "probability"],
    ("sampler", "filters", "s1.t", "condition"): ["values", "column", "then", "else"],
    ("sampler", "filters", "s1.t", "apply"): ["cols", "where"],
}
WRONG = [
    (("planner",), "x"),
    (("planner",), []),
    (("planner", "select"), "s1.t"),
    (("planner", "select"), {"s1.t": True}),
    (("planner", "select"), None),
    (("planner", "targets"), ["s1.t"]),
    (("planner", "targets"), None),
    (("planner", "targets", "s1.t"), [1]),
    (("planner", "targets", "s1.t", "amount"), "many"),
    (("planner", "targets", "s1.t", "amount"), 2.5),
    (("planner", "targets", "s1.t", "percent"), "half"),
    (("planner", "targets", "s1.t", "in"), {"id": 1}),
    (("planner", "targets", "s1.t", "in"), ["id"]),
    (("planner", "targets", "s1.t", "in"), {"id": [[1]]}),
    (("planner", "targets", "s1.t", "like"), {"s": "a"}),
    (("planner", "targets", "s1.t", "sql"), ["1=1"]),
    (("planner", "infer_foreign_keys"), "maybe"),
    (("planner", "infer_foreign_keys"), "ALL"),
    (("planner", "include_dependencies"), "perhaps"),
    (("planner", "table_constraints", "s1.u", 0, "operator"), "~"),
    (("planner", "table_constraints", "s1.u", 0, "operator"), "<="),
    (("planner", "table_constraints", "s1.u", 0, "value"), {"a": 1}),
    (("planner", "extra_fks", 0, "src_columns"), []),
    (("planner", "extra_fks", 0, "src_columns"), ["t", "id"]),
    (("planner", "extra_fks", 0), {"src_table": "s1.u", "src_columns": ["t", "t"], "dst_table": "s1.t", "dst_columns": ["id", "x"]}),
    (("planner", "extra_fks", 0), {"src_table": "s1.u", "src_columns": ["t", "id"], "dst_table": "s1.t", "dst_columns": ["id", "id"]}),
    (("planner", "extra_fks", 0), {"src_table": "s1.u", "src_columns": [], "dst_table": "s1.t", "dst_columns": []}),
    (("planner", "extra_fks", 0), {"src_table": "s1.u", "dst_table": "s1.t", "dst_columns": ["id"]}),
    (("planner", "ignore_fks", 0), {"src_table": "s1.v"}),
    (("planner", "ignore_fks", 0), "s1.v"),
    (("sampler",), [1]),
    (("sampler",), "all"),
    (("sampler", "output"), "output"),
    (("sampler", "output"), {"directory": "out"}),
    (("sampler", "output"), {"mode": "directory"}),
    (("sampler", "output"), {"mode": "directory", "directory": "out", "merge": True}),
    (("sampler", "output", "mode"), "tape"),
    (("sampler", "output", "conflict_strategy"), "ignore"),
    (("sampler", "output", "merge"), "often"),
    (("sampler", "output", "dialect"), "oracle"),
    (("sampler", "output", "port"), "abc"),
    (("sampler", "output", "isolation_level"), "SNAPSHOT"),
    (("sampler", "output", "ssl"), {"server": {"verify": "full"}}),
    (("sampler", "output", "ssl"), {"require": "sure"}),
    (("sampler", "output", "session_sqls"), "SELECT 1"),
    (("sampler", "output", "remap"), {"search": "a"}),
    (("sampler", "output", "remap", 0), {"search": "a"}),
    (("sampler", "output", "sqlite_databases"), ["s1"]),
    (("sampler", "multiplicity", "multiplier"), "two"),
    (("sampler", "multiplicity", "multiplier"), 1.5),
    (("sampler", "multiplicity", "ignore_tables"), "s1.t"),
    (("sampler", "multiplicity", "extra_columns"), {"s1.t": "x"}),
    (("sampler", "compact"), True),
    (("sampler", "compact", "start_key"), "one"),
    (("sampler", "compact", "columns"), ["s1.t"]),
    (("sampler", "compact", "primary_keys"), "some"),
    (("sampler", "infer_foreign_keys"), "yes please"),
    (("sampler", "filters"), []),
    (("sampler", "filters", "s1.t"), {"op": "zero", "columns": ["x"]}),
    (("sampler", "filters", "s1.t"), [{"columns": ["x"]}]),
    (("sampler", "filters", "s1.t"), [{"op": "zero"}]),
    (("sampler", "filters", "s1.t"), [{"op": "zero", "columns": "x"}]),
    (("sampler", "filters", "s1.t"), [{"op": None, "columns": ["x"]}]),
    (("sampler", "filters", "s1.t"), [{"op": "random_int", "columns": ["x"], "low": 1}]),
    (("sampler", "filters", "s1.t"), [{"op": "random_int", "columns": ["x"], "low": "a", "high": 3}]),
    (("sampler", "filters", "s1.t"), [{"op": "random_string", "columns": ["s"], "length": 3, "alphabet": "greek"}]),
    (("sampler", "filters", "s1.t"), [{"op": "constant", "columns": ["x"]}]),
    (("sampler", "filters", "s1.t"), [{"op": "constant", "columns": ["x"], "values": [[1]]}]),
    (("sampler", "filters", "s1.t"), [{"op": "plugin", "columns": ["x"], "module": "m"}]),
    (("sampler", "filters", "s1.t"), [{"op": "multiplex", "column": "id", "conditions": [{"op": "~", "value": 1, "apply": {"op": "zero", "columns": ["x"]}}]}]),
    (("sampler", "filters", "s1.t"), [{"op": "multiplex", "column": "id", "conditions": [{"op": "=", "value": 1}]}]),
    (("source",), []),
    (("source", "dialect"), "mssql"),
    (("source", "port"), "http"),
    (("source", "session_sqls"), "SELECT 1"),
    (("source", "isolation_level"), "NONE"),
    (("source", "ssl"), {"server": {"verify": True}}),
    (("source", "sqlite_databases"), "s1.db"),
]
OPS = ["zeros", "Zero", "mask", "fake", "fake_emails", "hash", "random", "nul", "nullify", "", "fake_ssn", "uuid4", "omit ", "fake_licence_plate", "multiplexer"]
TEXTS = ["a: [", "source: {", "\tx: 1", "a: b: c", "'", "- [", "%YAML 9.9", "--- {}\n--- {}\n", "!!python/object/apply:os.getcwd []", "!foo {}", "&a [*b]", "\x00", "a: 1\n b: 2", "? {a: 1}\n: 2\n}", "@x", "`x`"]
NOT_MAPS = ["[]", "[1, 2]", "text", "42", "true", "- source: {}", "'{}'", "2020-01-01"]
PLANS = ["[]", "text", "{}", "queries: []", "queries: {s1.t: 5}", "queries: {s1.t: {statement: {type: magic}}}", "queries: {s1.t: {statement: [1]}}", "queries: null", "a: [", "\t", "- queries", "\x00", "!!python/name:os.getcwd"]


def strict_strategy(dialect, tier):
    @st.composite
    def build(draw):
        kind = draw(st.sampled_from(["key", "key", "key", "wrong", "wrong", "op", "text", "notmap", "missing", "bytes", "required", "noplanner", "planfile"]))
        case = {"kind": kind, "action": draw(st.sampled_from(["plan", "sample", "subset"])), "layer": draw(st.integers(0, 2)), "flow": draw(st.sampled_from([None, True, False])), "verbose": draw(st.integers(0, 8))}
        if kind == "key":
            place = draw(st.sampled_from(PLACES))
            case["place"] = list(place)
            case["key"] = draw(st.one_of(st.sampled_from(TYPOS[place]), st.sampled_from(TYPOS[place]), st.text("abcdefgxyz_", min_size=3, max_size=8).map(lambda x: "zz_" + x)))
            case["value"] = draw(st.sampled_from([None, 1, True, "x", [], {}, ["s1.t"], {"s1.t": ["x"]}]))
            if "filters" in place:
                case["filters"] = draw(st.lists(st.sampled_from(FILTERS[:-1]), max_size=3))
                if place[-1] in ("condition", "apply"):
                    case["filters"].append(FILTERS[-1])
                elif not case["filters"]:
                    case["filters"] = [draw(st.sampled_from(FILTERS))]
        elif kind == "wrong":
            case["wrong"] = [[list(path), value] for path, value in draw(st.lists(st.sampled_from(WRONG), min_size=4, max_size=4))]
        elif kind == "op":
            case["op"] = draw(st.sampled_from(OPS))
            case["nested"] = draw(st.booleans())
        elif kind == "text":
            case["text"] = draw(st.sampled_from(TEXTS))
        elif kind == "notmap":
            case["text"] = draw(st.sampled_from(NOT_MAPS))
        elif kind == "required":
            case["place"] = draw(st.sampled_from([["planner", "select"], ["planner", "targets"], ["sampler", "output", "mode"], ["planner", "ignore_fks", 0, "dst_table"], ["planner", "table_constraints", "s1.u", 0, "operator"]]))
        elif kind == "noplanner":
            case["action"] = draw(st.sampled_from(["plan", "subset"]))
            case["null"] = draw(st.booleans())
        elif kind == "planfile":
            case["action"] = "sample"
            case["text"] = draw(st.one_of(st.sampled_from(PLANS), st.none()))
        return case

    return build()


def walk(doc, path):
    for k in path:
        if isinstance(doc, dict):
            doc = doc.setdefault(k, {})
        else:
            doc = doc[k]
    return doc


def run_strict(case, ctx):
    if case["kind"] != "wrong":
        return run_defect(case, ctx)
    for i, (place, value) in enumerate(case["wrong"]):
        if [place, value] not in case["wrong"][:i]:
            if i:
                ctx.env.begin()
            run_defect({**case, "place": place, "value": value}, ctx)


def run_defect(case, ctx):
    env = ctx.env
    kind = case["kind"]
    cols = [{"n": "id", "t": "int", "null": False}, {"n": "x", "t": "int", "null": True}, {"n": "s", "t": "str", "null": True}]
    t = {"name": "s1.t", "cols": cols, "pk": ["id"], "uniq": [], "fks": []}
    u = {"name": "s1.u", "cols": [cols[0], {"n": "t", "t": "int", "null": True}], "pk": ["id"], "uniq": [], "fks": []}
    v = {**u, "name": "s1.v", "fks": [{"cols": ["t"], "ref": "s1.t", "rcols": ["id"]}]}
    w = {"tables": [t, u, v], "rows": {"s1.t": [[1, 2, "a"], [2, 3, "b"]], "s1.u": [[1, 1], [3, 2]], "s1.v": [[1, 2]]}}
    flow.load(env, w, remap=False)
    flow.create_dst(env, w["tables"])
    for name, rows in (("s1.t", [[8, 8, "old"]]), ("s1.u", [[9, 8]])):
        env.insert("dst", worlds.by_name(w)[name], rows)
    cfg = base_config()
    d = scratch(env)
    try:
        docs = None
        raw = None
        if kind == "key":
            place = case["place"]
            if "filters" in place:
                fl = json.loads(json.dumps(case["filters"]))
                cfg["sampler"]["filters"]["s1.t"] = fl
                node = fl[-1] if place[-1] == -1 else fl[0]
                if place[-1] in ("condition", "apply"):
                    node = fl[-1]["conditions"][0]
                    if place[-1] == "apply":
                        node = node["apply"]
            else:
                node = walk(cfg, place)
            if case["key"] in node:
                raise Skip("known key")
            node[case["key"]] = case["value"]
        elif kind == "wrong":
            node = walk(cfg, case["place"][:-1])
            node[case["place"][-1]] = case["value"]
        elif kind == "required":
            node = walk(cfg, case["place"][:-1])
            del node[case["place"][-1]]
        elif kind == "op":
            f = {"op": case["op"], "columns": ["x"]}
            if case["nested"]:
                f = {"op": "multiplex", "column": "id", "conditions": [{"op": "=", "value": 1, "apply": f}]}
            cfg["sampler"]["filters"]["s1.t"] = [f]
        elif kind == "noplanner":
            if case["null"]:
                cfg["planner"] = None
            else:
                del cfg["planner"]
        texts = [dump(settle(env, cfg), case["flow"]).encode("utf-8")]
        if kind in ("text", "notmap", "bytes", "missing"):
            bad = {"text": lambda: case["text"].encode("utf-8"), "notmap": lambda: case["text"].encode("utf-8"), "bytes": lambda: b"source: {database: \xff\xfe}\n", "missing": lambda: None}[kind]()
            if case["layer"] == 0:
                texts = [bad]
            elif case["layer"] == 1:
                texts = [bad] + texts
            else:
                texts = texts + [bad]
            raw = bad
        elif case["layer"] and kind not in ("required", "noplanner"):
            # the same settings in two files
            a, b = {k: v for k, v in cfg.items() if k != "sampler"}, {k: v for k, v in cfg.items() if k == "sampler"}
            docs = [a, b] if case["layer"] == 1 else [b, a]
            texts = [dump(settle(env, x), case["flow"]).encode("utf-8") for x in docs]
        argv = []
        for i, text in enumerate(texts):
            if text is not None:
                put(os.path.join(d, f"c{i}.yaml"), text)
            elif case["verbose"] % 2:
                os.mkdir(os.path.join(d, f"c{i}.yaml"))
            argv += ["-c", f"c{i}.yaml"]
        argv += ["-" + "v" * case["verbose"]] if 0 < case["verbose"] < 4 else []
        out = os.path.join(d, "saved.yaml")
        put(out, "kept")
        if kind == "planfile":
            if case["text"] is not None:
                put(os.path.join(d, "plan.yaml"), case["text"])
        else:
            plan = {"queries": {"s1.t": {"statement": {"from": {"schema": "s1", "table": "t"}}}}, "passthrough": []}
            put(os.path.join(d, "plan.yaml"), json.dumps({"queries": {"s1.t": {"type": "select"}}}) if case["verbose"] == 7 else json.dumps(plan))
        act = {"plan": ["plan", "-o", "saved.yaml"], "sample": ["sample", "--truncate", "--create"], "subset": ["subset", "--truncate", "--create"]}[case["action"]]
        before = [(env.catalog(x), env.snapshot(x, [t["name"] for t in w["tables"]])) for x in ("src", "dst")]
        code, sout, serr = flow.run_cli(argv + act, cwd=d)
        ctx.check(code != 0, "%s succeeds although the configuration is invalid; stdout %r, stderr %r", " ".join(act), sout[-300:], serr[-300:])
        ctx.check(code == 1, "status %d instead of 1; stderr %s", code, serr[-1500:])
        ctx.check(serr.strip(), "nothing is reported")
        after = [(env.catalog(x), env.snapshot(x, [t["name"] for t in w["tables"]])) for x in ("src", "dst")]
        ctx.check(before == after, "a database was touched although the configuration is invalid (stderr %s)", serr[-300:])
        with open(out, encoding="utf-8") as f:
            ctx.check(f.read() == "kept", "the plan file was overwritten")
        left = sorted(x for x in os.listdir(d) if not x.startswith("c") and x not in ("saved.yaml", "plan.yaml"))
        ctx.check(not left, "files %s were written", left)
        ctx.check(not sout.strip(), "output %r is written", sout[:200])
        ctx.nontrivial = True
        ctx.tag(kind, kind + ":" + (".".join(map(str, case["place"])) if "place" in case else ""))
        del raw
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ environment: what the driver is told


SETTINGS = ["dialect", "host", "port", "database", "username", "password"]
WORD = st.text("abcdefghijkl0123456789_-", min_size=1, max_size=9).map(lambda x: "w" + x)


def env_strategy(dialect, tier):
    @st.composite
    def build(draw):
        d = draw(st.sampled_from(["mysql", "postgres", "sqlite"]))
        real = {
            "dialect": d,
            "host": draw(st.one_of(WORD, st.sampled_from(["127.0.0.1", "db.example.org", "::1"]))),
            "port": draw(st.integers(1, 65535)),
            "database": draw(WORD),
            "username": draw(st.one_of(WORD, st.sampled_from(["a@b", "ü", "x y", "a:b/c"]))),
            "password": draw(st.one_of(WORD, st.sampled_from(["p@ss:w/rd", "%41", "#?&=", "ü€", " s ", "'\"\\"]))),
        }
        where = {k: draw(st.sampled_from(["cfg", "env", "both", "none"] if k != "dialect" or d == "mysql" else ["cfg", "env", "both"])) for k in SETTINGS}
        if d == "sqlite" and where["database"] == "none":
            where["database"] = "env"
        ssl = None
        if d != "sqlite" and draw(st.booleans()):
            ssl = {
                "require": True,
                "verify": draw(st.sampled_from(["none", "cert", "identity"])),
                "rootcert": draw(st.sampled_from([None, "ca1.pem", "ca2.pem"])),
                "client": draw(st.sampled_from([None, "client1", "client2"])),
            }
            ssl["where"] = {k: draw(st.sampled_from(["cfg", "env", "both"])) for k in ("require", "verify", "rootcert", "client")}
            ssl["word"] = draw(st.sampled_from(["1", "true", "yes", "TRUE", "on"]))
            ssl["null"] = draw(st.booleans())
        elif d != "sqlite":
            # switched off explicitly, or not at all
            ssl = {"require": False, "off": draw(st.sampled_from(["cfg", "null-env", "empty", "unset"]))}
        return {"settings": real, "where": where, "ssl": ssl, "side": draw(st.sampled_from(["source", "output"])), "wrong": {k: draw(WORD) for k in SETTINGS if k not in ("dialect", "port")}, "wrong_port": draw(st.sampled_from(["1", "9999", "x", "-"])), "nulls": draw(st.booleans()), "invalid": draw(st.sampled_from(INVALID)) if d != "sqlite" and draw(st.integers(0, 7)) == 0 else None}

    return build()


INVALID = [("DIALECT", "oracle"), ("DIALECT", "MySQL"), ("PORT", "abc"), ("PORT", "12.5"), ("SSL_SERVER_VERIFY", "full"), ("SSL_SERVER_VERIFY", "Identity"), ("SSL_SERVER_VERIFY", "verify-full"), ("SSL_SERVER_VERIFY", "true")]
CERTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "certs")


class Recorded(Exception):
    pass


def spy(action):
    """Arguments of the first connection attempt."""
    import psycopg2
    import pymysql
    import sqlite3.dbapi2 as lite

    seen = []

    real = lite.connect

    def fake(kind, error):
        def connect(*args, **kw):
            if kind == "sqlite" and args[:1] == (":memory:",):
                return real(*args, **kw)  # the source, when the destination is of interest
            seen.append((kind, args, kw))
            raise error("recorded")

        return connect

    saved = psycopg2.connect, pymysql.connect, lite.connect, sqlite3.connect
    psycopg2.connect = fake("postgres", psycopg2.OperationalError)
    pymysql.connect = fake("mysql", pymysql.err.OperationalError)
    lite.connect = sqlite3.connect = fake("sqlite", sqlite3.OperationalError)
    try:
        action()
    except (Exception,) as exc:  # pylint: disable=broad-except
        if not seen:
            raise Violation(f"failed before connecting: {type(exc).__name__}: {exc}") from exc
    finally:
        psycopg2.connect, pymysql.connect, lite.connect, sqlite3.connect = saved
        db.dispose_engines()
    return seen[0] if seen else None


def normal(call):
    """Driver arguments as plain data."""
    import ssl as tls

    if call is None:
        return None
    kind, args, kw = call
    out = {}
    for k, v in kw.items():
        if isinstance(v, tls.SSLContext):
            v = {"mode": v.verify_mode.name, "host": v.check_hostname, "ca": sorted(repr(c.get("subject")) for c in v.get_ca_certs())}
        out[k] = v
    return kind, [str(a) for a in args], out


def with_env(variables, action):
    saved = dict(os.environ)
    for k in list(os.environ):
        if k.startswith("SUBSET_"):
            del os.environ[k]
    os.environ.update(variables)
    try:
        return action()
    finally:
        os.environ.clear()
        os.environ.update(saved)


def connect_with(side, cfg, variables):
    from subsetter.common import DatabaseConfig
    from subsetter.config_model import PlannerConfig, SamplerConfig
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler
    from subsetter.plan_model import SubsetPlan

    def action():
        if side == "source":
            Planner(DatabaseConfig(**cfg), PlannerConfig(select=["s.*"], targets={"s.t": {"all": True}})).plan()
        else:
            plan = SubsetPlan(queries={}, passthrough=[])
            sampler = Sampler(DatabaseConfig(dialect="sqlite", database=":memory:"), SamplerConfig(output={"mode": "database", **cfg}))
            # connecting to the source is not of interest
            sampler.sample(plan)

    return with_env(variables, lambda: spy(action))


def run_invalid(case, ctx):
    """Values that would be refused in the configuration are refused in the environment."""
    d = case["settings"]["dialect"]
    prefix = {"source": "SUBSET_SOURCE_", "output": "SUBSET_DESTINATION_"}[case["side"]]
    name, value = case["invalid"]
    variables = {prefix + "DIALECT": d, prefix + "PORT": "5", prefix + "HOST": "h", prefix + name: value}
    if name == "SSL_SERVER_VERIFY":
        variables[prefix + "SSL_REQUIRE"] = "1"
    try:
        call = connect_with(case["side"], {}, variables)
    except Violation:
        call = None
    ctx.check(call is None or call[0] != d, "%s=%r is accepted: %r", prefix + name, value, call)
    ctx.tag("invalid:" + name)
    ctx.nontrivial = True


def run_env(case, ctx):
    if case["invalid"]:
        return run_invalid(case, ctx)
    s, where = case["settings"], case["where"]
    d = s["dialect"]
    prefix = {"source": "SUBSET_SOURCE_", "output": "SUBSET_DESTINATION_"}[case["side"]]
    other = {"source": "SUBSET_DESTINATION_", "output": "SUBSET_SOURCE_"}[case["side"]]
    cfg, variables, full = {}, {}, {}
    for k in SETTINGS:
        at = where[k]
        if at == "none":
            if case["nulls"]:
                cfg[k] = None
            continue
        full[k] = s[k]
        if at in ("cfg", "both"):
            cfg[k] = s[k]
        elif case["nulls"]:
            cfg[k] = None
        if at == "env":
            variables[prefix + k.upper()] = str(s[k])
        elif at == "both":
            variables[prefix + k.upper()] = {"dialect": "sqlite" if d != "sqlite" else "mysql", "port": case["wrong_port"]}.get(k, case["wrong"].get(k))
        variables[other + k.upper()] = {"dialect": "sqlite", "port": "1"}.get(k, "other")
    variables.pop(other + "DIALECT", None)
    ssl = case["ssl"]
    if ssl and ssl["require"]:
        conf = {"client": {}, "server": {}}
        whole = {"require": True, "client": {}, "server": {"verify": ssl["verify"]}}
        at = ssl["where"]
        path = lambda n: os.path.join(CERTS, n)
        if at["require"] in ("cfg", "both"):
            conf["require"] = True
        if at["require"] in ("env", "both"):
            variables[prefix + "SSL_REQUIRE"] = ssl["word"] if at["require"] == "env" else ""
        if at["verify"] in ("cfg", "both"):
            conf["server"]["verify"] = ssl["verify"]
        if at["verify"] == "env":
            variables[prefix + "SSL_SERVER_VERIFY"] = ssl["verify"]
        elif at["verify"] == "both":
            variables[prefix + "SSL_SERVER_VERIFY"] = "identity" if ssl["verify"] == "none" else "none"
        if ssl["rootcert"]:
            whole["server"]["rootcert"] = path(ssl["rootcert"])
            if at["rootcert"] in ("cfg", "both"):
                conf["server"]["rootcert"] = path(ssl["rootcert"])
            if at["rootcert"] != "cfg":
                variables[prefix + "SSL_SERVER_ROOTCERT"] = path(ssl["rootcert"]) if at["rootcert"] == "env" else "/nonexistent"
        if ssl["client"]:
            pair = {"cert": path(ssl["client"] + ".pem"), "key": path(ssl["client"] + ".key")}
            whole["client"] = pair
            if at["client"] in ("cfg", "both"):
                conf["client"] = pair
            if at["client"] != "cfg":
                variables[prefix + "SSL_CLIENT_CERT"] = pair["cert"] if at["client"] == "env" else "/nonexistent"
                variables[prefix + "SSL_CLIENT_KEY"] = pair["key"] if at["client"] == "env" else "/nonexistent"
        conf = {k: v for k, v in conf.items() if v != {} or ssl["null"]}
        if conf or ssl["null"]:
            cfg["ssl"] = conf
        full["ssl"] = whole
        variables[other + "SSL_REQUIRE"] = ""
        variables[other + "SSL_SERVER_VERIFY"] = "identity"
    elif ssl:
        if ssl["off"] == "cfg":
            cfg["ssl"] = {"require": False, "server": {"verify": "identity"}}
            variables[prefix + "SSL_REQUIRE"] = "1"
        elif ssl["off"] == "empty":
            variables[prefix + "SSL_REQUIRE"] = ""
            variables[prefix + "SSL_SERVER_VERIFY"] = "cert"
        elif case["side"] == "source":
            variables[other + "SSL_REQUIRE"] = "1"
    got = normal(connect_with(case["side"], cfg, variables))
    want = normal(connect_with(case["side"], full, {}))
    if case["side"] == "output" and got is None and want is None:
        raise Skip("the destination is not used")
    ctx.check(got == want, "settings from %s and %r give %r, configured explicitly they give %r", cfg, variables, got, want)
    # and it is what was asked for
    kind, args, kw = got
    ctx.check(kind == d, "dialect %s used instead of %s", kind, d)
    if d == "sqlite":
        ctx.check(len(args) == 1 and os.path.basename(args[0]) == s["database"], "database %r opened instead of %r", args, s["database"])
    else:
        name = {"username": "user", "password": "password"}
        for k, n in name.items():
            value = s[k] if where[k] != "none" else None
            have = kw.get(n)
            ctx.check((have.decode() if isinstance(have, bytes) else have) == value, "%s: %r instead of %r", k, have, value)
        host = s["host"] if where["host"] != "none" else "localhost"
        ctx.check(kw.get("host") == host, "host %r instead of %r", kw.get("host"), host)
        port = s["port"] if where["port"] != "none" else {"mysql": 3306, "postgres": 5432}[d]
        ctx.check(kw.get("port") == port, "port %r instead of %r", kw.get("port"), port)
        if d == "postgres":
            value = s["database"] if where["database"] != "none" else None
            have = kw.get("dbname", kw.get("database"))
            ctx.check(have == value, "database %r instead of %r", have, value)
            mode = {"none": "require", "cert": "verify-ca", "identity": "verify-full"}[ssl["verify"]] if ssl["require"] else None
            ctx.check(kw.get("sslmode") == mode, "sslmode %r instead of %r", kw.get("sslmode"), mode)
        elif not ssl["require"]:
            ctx.check(not kw.get("ssl"), "TLS is used although it is not required")
        else:
            ctx.check(kw.get("ssl"), "TLS is not used although it is required")
    ctx.tag(d, case["side"], *(f"{k}:{v}" for k, v in where.items()))
    if any(v in ("env", "both") for v in where.values()):
        ctx.nontrivial = True


# ------------------------------------------------------------------ environment: live


def live_strategy(dialect, tier):
    o = worlds.Opts(dialect=dialect, min_tables=1, max_tables=3, max_rows=5, schemas=2)
    p = worlds.POpts(max_targets=2, random=False, infer=False, ignore_fks=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = worlds.accepted_planner(draw, w, p)
        place = lambda: {k: draw(st.sampled_from(["cfg", "env", "env", "both"])) for k in SETTINGS}
        return {"world": w, "cfg": cfg, "src": place(), "dst": place(), "sampler": draw(st.sampled_from(["database", "database", "omitted"])), "action": draw(st.sampled_from(["subset", "two"]))}

    return build()


def split_settings(conf, where, prefix):
    out, variables = {}, {}
    for k, v in conf.items():
        at = where.get(k, "cfg")
        if at in ("cfg", "both"):
            out[k] = v
        if at == "env":
            variables[prefix + k.upper()] = str(v)
        elif at == "both":
            variables[prefix + k.upper()] = {"dialect": "mysql" if v != "mysql" else "sqlite", "port": "1"}.get(k, "wrong")
    return out, variables


def run_live(case, ctx):
    env, w, cfg = ctx.env, case["world"], case["cfg"]
    flow.load(env, w, remap=True)
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        raise Skip("plan refused")
    tabs = flow.planned(w, plan)
    out = flow.output_cfg(env)
    keep = {k: v for k, v in out.items() if k in ("mode", "remap")}
    src, v1 = split_settings(env.cfg("src"), case["src"], "SUBSET_SOURCE_")
    dst, v2 = split_settings({k: v for k, v in out.items() if k not in keep}, case["dst"], "SUBSET_DESTINATION_")
    doc = {"source": src, "planner": worlds.real_planner(cfg, env.q), "sampler": {"output": {**keep, **dst}}}
    if not src:
        del doc["source"]
    if case["sampler"] == "omitted":
        del doc["sampler"]
    d = scratch(env)
    try:
        put(os.path.join(d, "subsetter.yaml"), dump(json.loads(json.dumps(doc)), False))
        flags = ["--create"] if case["sampler"] != "omitted" else []
        steps = [["subset"] + flags] if case["action"] == "subset" else [["plan", "-o", "plan.yaml"], ["sample"] + flags]
        for step in steps:
            code, _, err = flow.run_cli(step, cwd=d, env={**v1, **v2})
            ctx.check(code == 0, "%s fails with settings %r and environment %r: %s", step, {**doc, "planner": 0}, {**v1, **v2}, err[-1200:])
        want = pipe.exact_sample(ref, flow.read_all(env, "src", w["tables"]), tabs)
        if case["sampler"] == "omitted":
            where = os.path.join(d, "output")
            ctx.check(os.path.isdir(where), "no directory 'output'; files: %s", os.listdir(d))
            have = {n: len(x) for n, x in files_in(where).items()}
            ctx.check({n: k for n, k in have.items() if k} == {f"{t['name']}.json": len(want.rows[t["name"]]) for t in tabs if want.rows[t["name"]]}, "files %s", have)
            ctx.check(not env.table_names("dst"), "tables %s were created", env.table_names("dst"))
            # exactly what the explicit defaults give
            d2 = os.path.join(d, "two")
            os.mkdir(d2)
            doc["sampler"] = {
                "output": {"mode": "directory", "directory": "output"},
                "filters": {},
                "infer_foreign_keys": "none",
                "multiplicity": {"multiplier": 1, "ignore_tables": [], "extra_columns": {}, "ignore_primary_key_columns": {}},
                "compact": {"primary_keys": False, "auto_increment_keys": False, "columns": {}, "start_key": 1},
            }
            put(os.path.join(d2, "subsetter.yaml"), dump(json.loads(json.dumps(doc)), False))
            code, _, err = flow.run_cli(["subset"], cwd=d2, env=v1)
            ctx.check(code == 0, "explicit defaults fail: %s", err[-1200:])
            ctx.check(files_in(where) == files_in(os.path.join(d2, "output")), "omitted sampler section gives %s, the defaults give %s", files_in(where), files_in(os.path.join(d2, "output")))
            ctx.tag("defaults")
        else:
            have = flow.read_all(env, "dst", tabs, env.dst)
            for t in tabs:
                msg = pipe.diff(have.rows[t["name"]], want.rows[t["name"]], [c["n"] for c in t["cols"]])
                ctx.check(msg is None, "%s: %s", t["name"], msg)
        if any(want.rows[t["name"]] for t in tabs) and (v1 or v2):
            ctx.nontrivial = True
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ session statements


def session_strategy(dialect, tier):
    o = worlds.Opts(dialect=dialect, min_tables=1, max_tables=4, max_rows=5, schemas=2)
    p = worlds.POpts(max_targets=2, random=True, infer=False, ignore_fks=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = worlds.accepted_planner(draw, w, p)
        names = [t["name"] for t in w["tables"]]
        sampler = {}
        if draw(st.booleans()):
            sampler["compact"] = pipe.gen_compact(draw, w, names, dialect, explicit=False)
        levels = {"sqlite": ["SERIALIZABLE", "READ UNCOMMITTED"], "postgres": ["READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE", "READ UNCOMMITTED"], "mysql": ["READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE", "READ UNCOMMITTED"]}[dialect]
        side = lambda: {"words": draw(st.lists(st.sampled_from("abcdef"), min_size=1, max_size=4)), "level": draw(st.one_of(st.none(), st.sampled_from(levels)))}
        return {"world": w, "cfg": cfg, "sampler": sampler, "src": side(), "dst": side(), "create": draw(st.booleans()), "runs": draw(st.integers(1, 2)), "drop": draw(st.lists(st.booleans(), max_size=3))}

    return build()


def statements(dialect, side, words):
    """Statements that leave side:words in the session."""
    out = []
    for i, x in enumerate([side + ":"] + list(words)):
        if dialect == "sqlite":
            out.append(f"CREATE TEMP TABLE vt{i} AS SELECT {'' if not i else f'(SELECT x FROM vt{i - 1}) ||'} '{x}' AS x")
        elif dialect == "postgres":
            out.append(f"SELECT set_config('vt.log', coalesce(current_setting('vt.log', true), '') || '{x}', false)")
        else:
            out.append(f"SET @vt = CONCAT(COALESCE(@vt, ''), '{x}')")
    return out


def probe(dialect, con):
    cur = con.cursor()
    try:
        if dialect == "sqlite":
            n = len(cur.execute("SELECT name FROM sqlite_temp_master WHERE name GLOB 'vt[0-9]*'").fetchall())
            log = cur.execute(f"SELECT x FROM vt{n - 1}").fetchone()[0] if n else None
            level = "READ UNCOMMITTED" if cur.execute("PRAGMA read_uncommitted").fetchone()[0] else "SERIALIZABLE"
        elif dialect == "postgres":
            cur.execute("SELECT current_setting('vt.log', true)")
            log = cur.fetchone()[0]
            cur.execute("SHOW transaction_isolation")
            level = cur.fetchone()[0].upper()
        else:
            cur.execute("SELECT @vt, @@transaction_isolation")
            log, level = cur.fetchone()
            level = level.replace("-", " ")
            log = log.decode() if isinstance(log, bytes) else log
        return log, level
    finally:
        cur.close()


def run_session(case, ctx):
    import sqlalchemy as sa

    env, w, cfg = ctx.env, case["world"], case["cfg"]
    flow.load(env, w, remap=True)
    plan, _ = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        raise Skip("plan refused")
    tabs = flow.planned(w, plan)
    try:
        pipe.Pipe(w, flow.ref_plan(w, cfg)[0], [t["name"] for t in tabs], case["sampler"], env.dialect)
    except Refuse as exc:
        raise Skip("sampling refused") from exc
    if not case["create"]:
        flow.create_dst(env, [{**t, "pk": t["pk"], "uniq": []} for t in tabs], fk=False)
    default = "SERIALIZABLE" if env.dialect == "sqlite" else "READ COMMITTED"
    want = {side + ":" + "".join(case[side]["words"]): (case[side]["level"] or default) for side in ("src", "dst")}
    bad, seen, returned = [], {}, []

    def look(con, when):
        idle = env.dialect == "postgres" and con.get_transaction_status() == 0
        log, level = probe(env.dialect, con)
        if idle:
            con.rollback()
        seen[log] = seen.get(log, 0) + 1
        if log not in want:
            bad.append(f"{when}: the session statements did not run ({log!r}, one of {sorted(want)} expected)")
        elif level != want[log]:
            bad.append(f"{when}: isolation level {level} instead of {want[log]} ({log})")

    def checkout(con, rec, proxy):
        look(con, "connection taken")

    def checkin(con, rec):
        if con is not None:
            look(con, "connection returned")
            returned.append(1)
            if case["drop"] and case["drop"][len(returned) % len(case["drop"])]:
                # the connection is lost while idle; the pool opens another one
                rec.invalidate()

    extra = {s: {"session_sqls": statements(env.dialect, s, case[s]["words"]), **({"isolation_level": case[s]["level"]} if case[s]["level"] else {})} for s in ("src", "dst")}
    from subsetter.config_model import PlannerConfig, SamplerConfig
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler

    db.dispose_engines()
    sa.event.listen(sa.pool.Pool, "checkout", checkout)
    sa.event.listen(sa.pool.Pool, "checkin", checkin)
    try:
        source = flow.src_config(env, **extra["src"])
        output = flow.output_cfg(env, **extra["dst"])
        with must_succeed("planning"):
            Planner(source, PlannerConfig(**worlds.real_planner(cfg, env.q))).plan()
        for i in range(case["runs"]):
            with must_succeed("sampling"):
                Sampler(source, SamplerConfig(**case["sampler"], output=output)).sample(plan, create=case["create"], truncate=i > 0)
        n = sum(seen.values())
        db.dispose_engines()
    finally:
        sa.event.remove(sa.pool.Pool, "checkout", checkout)
        sa.event.remove(sa.pool.Pool, "checkin", checkin)
    ctx.check(not bad, "%s (%d times in %d)", bad[0] if bad else "", len(bad), n)
    ctx.check(set(seen) == set(want), "connections with session state %s only", sorted(seen, key=str))
    ctx.nontrivial = True


SUBS = [
    Sub(
        name="layers",
        run=run_layers,
        strategy=layers_strategy,
        dialects=("sqlite",),
        quick={"sqlite": 120},
        thorough={"sqlite": 2500},
        rule="a configuration spread over 1-4 files (mappings split, lists and scalars overridden, mappings over scalars), compared with the single merged file; non-trivial if several files give a successful run",
    ),
    Sub(
        name="strict",
        run=run_strict,
        strategy=strict_strategy,
        dialects=("sqlite",),
        quick={"sqlite": 200},
        thorough={"sqlite": 3000},
        rule="a valid configuration with one defect (unknown key, wrong value, unknown filter operation, malformed or missing file or plan); exit status 1 and databases and files untouched; always non-trivial",
    ),
    Sub(
        name="env",
        run=run_env,
        strategy=env_strategy,
        dialects=("none",),
        quick={"none": 400},
        thorough={"none": 8000},
        rule="settings spread over configuration and environment, the driver must be called as with explicit settings; non-trivial if a variable is set",
    ),
    Sub(
        name="live",
        run=run_live,
        strategy=live_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 60, "postgres": 20, "mysql": 15},
        thorough={"sqlite": 1000, "postgres": 300, "mysql": 200},
        rule="command line runs with settings from the environment, compared with the exact sample; omitted sampler section compared with explicit defaults; non-trivial if rows are sampled and variables set",
    ),
    Sub(
        name="session",
        run=run_session,
        strategy=session_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 60, "postgres": 25, "mysql": 15},
        thorough={"sqlite": 1000, "postgres": 400, "mysql": 250},
        rule="session statements that leave a trace and isolation levels, probed whenever a connection is taken from or returned to a pool; always non-trivial",
    ),
]
