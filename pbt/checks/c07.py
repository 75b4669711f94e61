"""C07: plans survive the YAML file and depend only on schema and configuration."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

import flow
import model
import worlds
from core import HarnessError, Sub

ODD = ["", "a", "no", "007", "1e3", "null", "~", "- x", "a: b", "it's", 'q"q', "ü", "#c", "%", "tab\tx", "\u2028", " lead", "x\ny", "{", "2020-01-01", "0x1f", "=", "é\\n"]


def strategy(dialect, tier):
    o = worlds.Opts(dialect=dialect, min_tables=1, max_tables=5, max_rows=6, schemas=2)
    p = worlds.POpts(max_targets=3, random=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = draw(worlds.planner(w, p))
        # values that YAML could mistake for something else
        for name, t in cfg["targets"].items():
            cols = [c for c in worlds.by_name(w)[name]["cols"] if c["t"] == "str"]
            if cols and draw(st.booleans()):
                t.setdefault("in", {}).setdefault(draw(st.sampled_from(cols))["n"], []).extend(draw(st.lists(st.sampled_from(ODD), max_size=3)))
            if cols and draw(st.integers(0, 3)) == 0:
                t.setdefault("like", {}).setdefault(draw(st.sampled_from(cols))["n"], []).append(draw(st.sampled_from(ODD)))
        for name, t in w["rows"].items():
            names = worlds.by_name(w)[name]
            for j, c in enumerate(names["cols"]):
                if c["n"].startswith("d") and c["t"] == "str" and c["n"] not in names["pk"] and all(c["n"] not in fk["cols"] for fk in names["fks"]):
                    for row in t:
                        if draw(st.integers(0, 2)) == 0:
                            row[j] = draw(st.sampled_from(ODD))
        # ignored references need not be fulfilled in the destination
        loose = bool(cfg.get("ignore_fks"))
        return {"world": w, "cfg": cfg, "loose": loose, "stdout": draw(st.booleans()), "create": draw(st.booleans()) and not loose, "same_file": draw(st.booleans()), "verbose": draw(st.sampled_from([[], [], ["-v"], ["-vv"], ["-vvv"], ["-v", "-v"], ["--verbose"]]))}

    return build()


def norm(plan):
    """A plan as plain data; the order of the passthrough list means nothing."""
    out = plan if isinstance(plan, dict) else plan.model_dump(by_alias=True)
    return {**out, "passthrough": sorted(out.get("passthrough", []))}


def write_config(env, case, directory):
    import yaml

    cfg = {"source": env.cfg("src"), "planner": worlds.real_planner(case["cfg"], env.q), "sampler": {"output": flow.output_cfg(env)}}
    cfg = json.loads(json.dumps(cfg))
    path = os.path.join(directory, "subsetter.yaml")
    with open(path, "w", encoding="utf-8") as f:
        yaml.safe_dump(cfg, f, allow_unicode=bool(len(directory) % 2), sort_keys=False)
    return path


def scratch(env):
    import tempfile

    import db

    return tempfile.mkdtemp(prefix="cli", dir=db.SCRATCH)


def run(case, ctx):
    import shutil

    import yaml

    from subsetter.plan_model import SubsetPlan

    env, w = ctx.env, case["world"]
    flow.load(env, w, remap=True)
    d = scratch(env)
    try:
        write_config(env, case, d)
        plan, ref = flow.plan_or_refuse(env, w, case["cfg"], ctx)
        planfile = os.path.join(d, "plan.yaml")
        args = case["verbose"] + (["plan"] if case["stdout"] else ["plan", "-o", planfile])
        code, out, err = flow.run_cli(args, cwd=d)
        if plan is None:
            ctx.check(code != 0, "plan command succeeds although planning is refused")
            code, _, _ = flow.run_cli(["subset", "--create"], cwd=d)
            ctx.check(code != 0, "subset command succeeds although planning is refused")
            return
        ctx.check(code == 0, "plan command fails: %s", err[-1500:])
        if case["stdout"]:
            with open(planfile, "w", encoding="utf-8") as f:
                f.write(out)
        with open(planfile, encoding="utf-8") as f:
            text = f.read()
        try:
            back = SubsetPlan.model_validate(yaml.safe_load(text))
        except (yaml.YAMLError, ValueError) as exc:
            ctx.check(False, "plan cannot be read back: %s: %s", str(exc)[:300], text[:300])
        ctx.check(norm(back) == norm(plan), "plan read back differs: %r instead of %r", norm(back), norm(plan))
        tabs = flow.planned(w, plan)
        if not case["create"]:
            flow.create_dst(env, tabs, fk=not case["loose"])
        flag = ["--create"] if case["create"] else []
        code, _, err = flow.run_cli([*case["verbose"], "sample", *flag], cwd=d) if case["same_file"] else flow.run_cli([*case["verbose"], "sample", "-p", "-", *flag], cwd=d, stdin=open(planfile, "rb").read())
        ctx.check(code == 0, "sample command fails: %s", err[-1500:])
        one = flow.read_all(env, "dst", tabs, env.dst)
        code, _, err = flow.run_cli([*case["verbose"], "subset", "--truncate", *flag], cwd=d)
        ctx.check(code == 0, "subset command fails: %s", err[-1500:])
        two = flow.read_all(env, "dst", tabs, env.dst)
        src = flow.read_all(env, "src", w["tables"])
        for t in tabs:
            n = t["name"]
            a, b = (sorted(repr(tuple(r.values())) for r in x.rows[n]) for x in (one, two))
            ctx.check(a == b, "%s: plan + sample gives %r, subset gives %r", n, a, b)
            if n in ref.tables:
                msg = model.check_table(ref, n, src, one)
                ctx.check(msg is None, "%s", msg)
            if a and len(a) < len(src.rows[n]):
                ctx.nontrivial = True
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ independence of order and hash seed


def stable_strategy(dialect, tier):
    o = worlds.Opts(dialect="sqlite", min_tables=3, max_tables=8, max_rows=1, schemas=2, fk_counts=(1, 2, 3, 2))
    p = worlds.POpts(max_targets=3, random=True)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = draw(worlds.planner(w, p))
        n = len(w["tables"])
        perm = draw(st.permutations(list(range(n))))
        fkperm = [draw(st.permutations(list(range(len(t["fks"]))))) for t in w["tables"]]
        cfg2 = dict(cfg)
        for key in ("select", "ignore", "passthrough"):
            if key in cfg:
                cfg2[key] = draw(st.permutations(cfg[key]))
        cfg2["targets"] = {k: cfg["targets"][k] for k in draw(st.permutations(list(cfg["targets"])))}
        return {"world": w, "cfg": cfg, "cfg2": cfg2, "perm": perm, "fkperm": fkperm}

    return build()


WORKERS = {}


def ask(seed, req):
    """Plan in a process with the given hash seed."""
    key = (os.getpid(), seed)
    if key not in WORKERS:
        env = {**os.environ, "PYTHONHASHSEED": str(seed)}
        WORKERS[key] = subprocess.Popen(  # pylint: disable=consider-using-with
            [sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "planworker.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True,
        )
    p = WORKERS[key]
    p.stdin.write(json.dumps(req) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise HarnessError("plan worker died")
    return json.loads(line)


def run_stable(case, ctx):
    env, w = ctx.env, case["world"]
    answers = []
    for variant in (0, 1):
        env.begin()
        tables = w["tables"]
        if variant:
            tables = [{**tables[i], "fks": [tables[i]["fks"][j] for j in case["fkperm"][i]]} for i in case["perm"]]
        env.create("src", tables)
        cfg = worlds.real_planner(case["cfg2" if variant else "cfg"], env.q)
        req = {"source": env.cfg("src"), "planner": cfg}
        for seed in (11, 12, 13) if variant else (11,):
            answers.append((variant, seed, ask(seed, req)))
    first = answers[0][2]
    for variant, seed, ans in answers[1:]:
        how = f"variant {variant}, hash seed {seed}"
        ctx.check(("plan" in ans) == ("plan" in first), "%s: %r instead of %r", how, ans, first)
        if "plan" in first:
            ctx.check(norm(ans["plan"]) == norm(first["plan"]), "%s: plan differs: %s instead of %s", how, json.dumps(norm(ans["plan"])), json.dumps(norm(first["plan"])))
            # the order of the queries is part of the file a user compares
            order = [[n for n in a["plan"]["queries"] if n not in a["plan"].get("passthrough", [])] for a in (first, ans)]
            ctx.check(order[0] == order[1], "%s: queries in the order %s instead of %s", how, order[1], order[0])
    if "plan" in first:
        ctx.tag("planned")
        ctx.nontrivial = len(first["plan"]["queries"]) > 2
    else:
        ctx.tag("refused")


# ------------------------------------------------------------------ malformed plan files

BAD = ["none", "drop-queries", "queries-list", "no-type", "bad-type", "no-from", "bad-operator", "columns-str", "statement-str", "not-yaml", "scalar", "empty", "missing", "no-schema", "binary", "passthrough-int", "unknown-table", "no-query"]


def bad_strategy(dialect, tier):
    return st.fixed_dictionaries({"kind": st.sampled_from(BAD), "table": st.integers(0, 2), "stdin": st.booleans()})


def mutate(kind, plan, key):
    st_ = plan["queries"][key]["statement"]
    if kind == "drop-queries":
        del plan["queries"]
    elif kind == "queries-list":
        plan["queries"] = list(plan["queries"])
    elif kind == "no-type":
        del st_["type"]
    elif kind == "bad-type":
        st_["type"] = "selekt"
    elif kind == "no-from":
        st_.pop("from")
    elif kind == "bad-operator":
        st_["where"] = {"type": "operator", "operator": "~~", "column": "id", "value": 1}
    elif kind == "columns-str":
        st_["columns"] = "id"
    elif kind == "statement-str":
        plan["queries"][key]["statement"] = "SELECT 1"
    elif kind == "no-schema":
        plan["queries"]["noschema"] = plan["queries"].pop(key)
    elif kind == "passthrough-int":
        plan["passthrough"] = 5
    elif kind == "unknown-table":
        plan["queries"]["s1.nowhere"] = plan["queries"].pop(key)
    elif kind == "no-query":
        plan["queries"][key] = {}


def run_bad(case, ctx):
    import shutil

    import yaml

    env = ctx.env
    tables = [{"name": f"s1.t{i}", "cols": [{"n": "id", "t": "int", "null": False}], "pk": ["id"], "uniq": [], "fks": []} for i in range(3)]
    w = {"tables": tables, "rows": {t["name"]: [[1], [2]] for t in tables}}
    flow.load(env, w, remap=True)
    flow.create_dst(env, tables)
    d = scratch(env)
    try:
        write_config(env, {"cfg": {"select": ["s1.*"], "targets": {t["name"]: {"all": True} for t in tables}}}, d)
        path = os.path.join(d, "plan.yaml")
        code, _, err = flow.run_cli(["plan", "-o", path], cwd=d)
        ctx.check(code == 0, "plan command fails: %s", err[-800:])
        with open(path, encoding="utf-8") as f:
            plan = yaml.safe_load(f)
        kind = case["kind"]
        mutate(kind, plan, f"s1.t{case['table']}")
        data = yaml.safe_dump(plan).encode()
        if kind == "not-yaml":
            data = data[:-10] + b"\n: : [\n"
        elif kind == "scalar":
            data = b"hello\n"
        elif kind == "empty":
            data = b""
        elif kind == "binary":
            data = b"\x00\xff\xfe" + data
        with open(path, "wb") as f:
            f.write(data)
        if kind == "missing":
            os.unlink(path)
            code, _, err = flow.run_cli(["sample"], cwd=d)
        elif case["stdin"]:
            code, _, err = flow.run_cli(["sample", "-p", "-"], cwd=d, stdin=data)
        else:
            code, _, err = flow.run_cli(["sample"], cwd=d)
        got = flow.read_all(env, "dst", tables, env.dst)
        ctx.tag(kind)
        if kind == "none":
            ctx.check(code == 0, "valid plan is refused: %s", err[-800:])
            return
        ctx.nontrivial = True
        ctx.check(code not in (0, 98), "%s: exit status %d: %s", kind, code, err[-800:])
        ctx.check(kind == "no-query" or not any(got.rows.values()), "%s: rows were written before the plan was refused", kind)
    finally:
        shutil.rmtree(d, ignore_errors=True)


SUBS = [
    Sub(
        name="file",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        shards={"postgres": 1},
        quick={"sqlite": 30, "postgres": 15, "mysql": 8},
        thorough={"sqlite": 600, "postgres": 300, "mysql": 150},
        rule="plan, sample and subset commands on a generated schema; non-trivial if some table is sampled partially",
    ),
    Sub(
        name="stable",
        run=run_stable,
        strategy=stable_strategy,
        dialects=("sqlite",),
        quick=60,
        thorough=2000,
        rule="one schema planned with permuted DDL, permuted lists and three hash seeds; non-trivial if more than two tables are planned",
    ),
    Sub(
        name="malformed",
        run=run_bad,
        strategy=bad_strategy,
        dialects=("sqlite",),
        quick=14,
        thorough=60,
        shards={"sqlite": 3},
        rule="a damaged plan file; non-trivial unless undamaged",
    ),
]
