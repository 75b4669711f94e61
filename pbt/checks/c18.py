"""C18: ids generated by the destination never collide after sampling."""
import re

from hypothesis import strategies as st

import flow
from core import Sub, Violation, must_succeed

NAMES = ["t", "Users", "MiXed", "order", "with space", "ünï", "a%b", "per%s", "q'uote", "x:y", "dash-ed", 'dq"x', "UPPER", "semi;x"]
KEYS = ["id", "Id", "key", "t_id", "q'id", "a%b", "sp id", "ID2"]
INT_MAX = 2**31 - 1


def ids(kind):
    return {
        "small": st.integers(1, 12),
        "sparse": st.integers(1, 5000),
        "low": st.integers(-6, 4),
        "high": st.integers(10**6, 10**6 + 40),
        "huge": st.integers(10**9, 10**9 + 9),
    }[kind]


@st.composite
def table(draw, dialect, i, name, prev):
    kinds = ["auto", "auto", "auto", "big", "plain"]
    if dialect == "postgres":
        kinds += ["identity", "identity", "start", "owned", "loose"]
    if dialect != "sqlite":
        kinds.append("comp")
    kind = draw(st.sampled_from(kinds))
    key = draw(st.sampled_from([k for k in KEYS if dialect == "postgres" or "(" not in k]))
    ranges = ["small", "small", "sparse", "low", "high"] + (["huge"] if kind == "big" else [])
    vals = draw(st.lists(ids(draw(st.sampled_from(ranges))), max_size=9, unique=True))
    fk = prev if prev and kind != "comp" and draw(st.booleans()) else None
    return {"name": f"{'s2' if dialect != 'sqlite' and draw(st.integers(0, 3)) == 0 else 's1'}.{name}", "kind": kind, "key": key, "ids": vals, "fk": fk, "first": draw(st.booleans())}


def strategy(dialect, tier):
    big = tier == "thorough"

    @st.composite
    def build(draw):
        n = draw(st.integers(1, 3))
        odd = draw(st.booleans())
        pool = [x for x in NAMES if not (dialect == "sqlite" and x == 'dq"x')] if odd else ["t0", "t1", "t2"]
        names = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique_by=str.lower))
        tables = []
        for i, x in enumerate(names):
            roots = [t["name"] for t in tables if t["kind"] != "comp"]
            prev = draw(st.sampled_from(roots)) if roots else None
            t = draw(table(dialect, i, x, prev))
            tables.append(t)
        full = [t["name"] for t in tables]
        leaf = [t["name"] for t in tables if not any(o["fk"] == t["name"] for o in tables) and t["kind"] != "comp"]
        steps = []
        for _ in range(draw(st.integers(2, 9 if big else 6))):
            k = draw(st.sampled_from(["run", "run", "run", "gen", "gen", "explicit", "src", "restart"]))
            if k == "run" or not steps:
                comp = {}
                c = draw(st.integers(0, 5))
                if c in (0, 1):
                    comp = {"primary_keys": True} if c else {"auto_increment_keys": True}
                    comp["start_key"] = draw(st.sampled_from([1, 1, 0, 50, 7000]))
                steps.append(
                    {
                        "do": "run", "merge": draw(st.integers(0, 2)) == 0, "strategy": draw(st.sampled_from(["error", "replace", "replace", "skip", "skip"])), "compact": comp,
                        "mult": draw(st.sampled_from([1, 1, 1, 2, 3])), "truncate": draw(st.integers(0, 5)) == 0, "low": draw(st.one_of(st.none(), st.none(), st.integers(0, 9))),
                        "targets": sorted(set(draw(st.lists(st.sampled_from(full), min_size=1, max_size=3)))),
                        "filter": draw(st.sampled_from([None, None, None, "omit", "add"])), "on": draw(st.sampled_from(leaf)) if leaf else None,
                    }
                )
            elif k == "gen":
                steps.append({"do": "gen", "on": draw(st.sampled_from(full)), "n": draw(st.integers(1, 3))})
            elif k == "explicit":
                steps.append({"do": "explicit", "on": draw(st.sampled_from(full)), "id": draw(st.sampled_from([5, 300, 20, 10**6 + 100]))})
            elif k == "src":
                steps.append({"do": "src", "on": draw(st.sampled_from(full)), "id": draw(st.sampled_from([14, 2, 6000, 1]))})
            else:
                steps.append({"do": "restart", "on": draw(st.sampled_from(full)), "ahead": draw(st.sampled_from([1, 10, 1000]))})
        if draw(st.integers(0, 3)) == 0:
            # the last thing done to a generator may be done before any run
            steps.insert(0, {"do": "restart", "on": draw(st.sampled_from(full)), "ahead": draw(st.sampled_from([10, 1000]))})
        return {"tables": tables, "steps": steps, "remap": draw(st.booleans()), "create": draw(st.booleans()), "dauto": draw(st.integers(0, 4)) == 0, "over": draw(st.booleans())}

    return build()


def describe(env, case):
    out = []
    for t in case["tables"]:
        typ = "big" if t["kind"] == "big" and env.dialect != "sqlite" else "int"
        auto = {"plain": False, "identity": "identity", "start": "identity:START WITH 40 INCREMENT BY 5 MINVALUE 3", "owned": "owned", "loose": "loose"}.get(t["kind"], "seq")
        key = {"n": t["key"], "t": typ, "null": False, "auto": auto}
        cols = [{"n": "x", "t": "int", "null": True}]
        pk = [t["key"]]
        fks = []
        if t["kind"] == "comp":
            cols.append({"n": "k", "t": "int", "null": False, "default": "7"})
            pk.append("k")
        if t["fk"]:
            p = next(o for o in case["tables"] if o["name"] == t["fk"])
            if env.dialect != "sqlite" or p["name"].split(".")[0] == t["name"].split(".")[0]:
                cols.append({"n": "ref", "t": "big" if p["kind"] == "big" and env.dialect != "sqlite" else "int", "null": True})
                fks.append({"cols": ["ref"], "ref": t["fk"], "rcols": [p["key"]]})
        cols = [key] + cols if t["first"] else cols + [key]
        out.append({"name": t["name"], "cols": cols, "pk": pk, "uniq": [], "fks": fks})
    return out


def rows_of(case, t, d):
    """Rows for a table, in the order of its ids."""
    out = []
    for i, k in enumerate(t["ids"]):
        r = {t["key"]: k, "x": i, "k": 7}
        if t["fk"]:
            p = next(o for o in case["tables"] if o["name"] == t["fk"])
            r["ref"] = p["ids"][i % len(p["ids"])] if p["ids"] and i % 3 else None
        out.append([r[c["n"]] for c in d["cols"]])
    return out


class Generators:
    """The next id each table would get, where that can be asked without using it up."""

    def __init__(self, env):
        self.env = env

    def sequence(self, name, key):
        env = self.env
        lit = lambda s: "'" + s.replace("'", "''") + "'"  # noqa: E731
        seq = env.select("dst", f"SELECT pg_get_serial_sequence({lit(env.fq(name))}, {lit(key)})")[0][0]
        if seq is None and env.select("dst", f"SELECT to_regclass({lit(env.loose_sequence(name))}) IS NOT NULL")[0][0]:
            seq = env.loose_sequence(name)
        return seq

    def next(self, table, key):
        env = self.env
        name = env.dst(table)
        if env.dialect == "postgres":
            seq = self.sequence(name, key)
            if seq is None:
                return None
            last, called = env.select("dst", f"SELECT last_value, is_called FROM {seq}")[0]
            return last + called
        if env.dialect == "mysql":
            ddl = env.select("dst", f"SHOW CREATE TABLE {env.fq(name)}")[0][1]
            m = re.search(r"^\).*AUTO_INCREMENT=(\d+)", ddl, re.M)
            return int(m.group(1)) if m else None
        schema, short = name.split(".", 1)
        return (env.generators("dst", [schema]) or {}).get(name)

    def restart(self, table, key, value):
        env = self.env
        name = env.dst(table)
        if env.dialect == "postgres":
            seq = self.sequence(name, key)
            if seq:
                env.run("dst", [f"ALTER SEQUENCE {seq} RESTART WITH {value}"])
        elif env.dialect == "mysql":
            env.run("dst", [f"ALTER TABLE {env.fq(name)} AUTO_INCREMENT = {value}"])


def generate(env, table, key, comp):
    """Insert a row without key."""
    fq = env.fq(env.dst(table))
    before = {r[0] for r in env.select("dst", f"SELECT {env.q(key)} FROM {fq}")}
    env.run("dst", [f"INSERT INTO {fq} (x, k) VALUES (55, 7)" if comp else f"INSERT INTO {fq} (x) VALUES (55)"])
    new = [r[0] for r in env.select("dst", f"SELECT {env.q(key)} FROM {fq}")]
    new = [v for v in new if v not in before] or new
    return max(new)


def settings(case, s):
    sampler, out = {}, {"conflict_strategy": s["strategy"]}
    if s["compact"]:
        sampler["compact"] = dict(s["compact"])
    if s["mult"] > 1:
        sampler["multiplicity"] = {"multiplier": s["mult"]}
    if s["merge"]:
        out["merge"] = True
    t = next((o for o in case["tables"] if o["name"] == s["on"]), None)
    if t and s["filter"] and not s["merge"]:
        if s["filter"] == "omit" and t["kind"] != "plain":
            sampler["filters"] = {t["name"]: [{"op": "omit", "columns": [t["key"]]}]}
        if s["filter"] == "add":
            sampler["filters"] = {t["name"]: [{"op": "plugin", "module": "vtplugin", "class": "Plus", "columns": [t["key"]], "kwargs": {"n": 37}}]}
    return sampler, out


def run(case, ctx):
    from subsetter.config_model import PlannerConfig
    from subsetter.planner import Planner

    env = ctx.env
    descr = describe(env, case)
    dby = {d["name"]: d for d in descr}
    tby = {t["name"]: t for t in case["tables"]}
    flow.load(env, {"tables": descr, "rows": {t["name"]: rows_of(case, t, dby[t["name"]]) for t in case["tables"]}}, remap=case["remap"])
    if not case["create"]:
        ddescr = descr
        if case["dauto"]:
            # a destination may generate keys where the source does not
            ddescr = [{**d, "cols": [{**c, "auto": "seq"} if c["n"] == tby[d["name"]]["key"] and tby[d["name"]]["kind"] == "plain" else c for c in d["cols"]]} for d in descr]
        flow.create_dst(env, ddescr)
    gens = Generators(env)
    top, last = {}, {}  # highest sampled and latest generated id

    def made():
        have = set(env.table_names("dst"))
        return [n for n in dby if env.dst(n) in have]

    def auto(n):
        return env.dialect == "sqlite" or tby[n]["kind"] != "plain" or (case["dauto"] and not case["create"])

    def steady(n):
        """Emptying the table leaves the generator alone."""
        return env.dialect == "postgres" or (env.dialect == "sqlite" and not case["create"] and tby[n]["kind"] != "plain")

    def keys(where, n):
        return [r[0] for r in env.select(where, f"SELECT {env.q(tby[n]['key'])} FROM {env.fq(env.dst(n) if where == 'dst' else n)}")]

    def given(where, n, k):
        d = dby[n]
        env.insert(where, d, [[{tby[n]["key"]: k, "k": 7}.get(c["n"]) for c in d["cols"]]], name=env.dst(n) if where == "dst" else None)

    def gen(n, where):
        if not auto(n) or n not in made():
            return
        with must_succeed(f"{where}, {n}: inserting a row without key"):
            k = generate(env, n, tby[n]["key"], tby[n]["kind"] == "comp")
        ctx.check(n not in top or k > top[n], "%s, %s: generated id %s, but ids up to %s have been sampled", where, n, k, top.get(n))
        ctx.check(n not in last or k > last[n], "%s, %s: generated id %s after %s", where, n, k, last.get(n))
        last[n] = k
        if n in top:
            ctx.nontrivial = True
            ctx.tag("generated:" + tby[n]["kind"])

    for i, s in enumerate(case["steps"]):
        n = s.get("on")
        if s["do"] == "gen":
            for _ in range(s["n"]):
                gen(n, f"step {i}")
        elif s["do"] == "explicit":
            if n not in made() or s["id"] in keys("dst", n) or (gens.next(n, tby[n]["key"]) or 0) > s["id"]:
                continue
            given("dst", n, s["id"])  # its sequence moves along
            if tby[n]["kind"] == "loose" and (gens.next(n, tby[n]["key"]) or 0) <= s["id"]:
                gens.restart(n, tby[n]["key"], s["id"] + 1)
            ctx.tag("explicit")
        elif s["do"] == "src":
            if s["id"] not in keys("src", n):
                given("src", n, s["id"])
        elif s["do"] == "restart":
            if n in made() and auto(n):
                high = max(keys("dst", n) + [top.get(n, 0), last.get(n, 0), 3, gens.next(n, tby[n]["key"]) or 0])
                gens.restart(n, tby[n]["key"], high + s["ahead"])
                ctx.tag("restarted")
        else:
            target = {"all": True} if s["low"] is None else {"in": {"x": list(range(s["low"] + 1))}}
            sampler, out = settings(case, s)
            with must_succeed(f"step {i}: planning"):
                plan = Planner(flow.src_config(env), PlannerConfig(select=["*"], targets={t: target for t in s["targets"]})).plan()
            used = [t for t in dby if t in plan.queries]
            sampler["filters"] = {k: v for k, v in sampler.get("filters", {}).items() if k in used}
            before = made()
            held = {t: keys("dst", t) for t in before}
            was = {t: gens.next(t, tby[t]["key"]) for t in before}
            try:
                flow.run_sample(env, plan, sampler, flow.output_cfg(env, **out), create=case["create"] or case["over"], truncate=s["truncate"])
                ctx.tag("run")
            except Exception as exc:  # pylint: disable=broad-except
                # with "error" a run may fail on a conflict; what it wrote has been sampled all the same
                if type(exc).__name__ != "IntegrityError" or s["strategy"] != "error":
                    raise Violation(f"step {i}: the run failed with {type(exc).__name__}: {exc}") from exc
                ctx.tag("run-failed")
            for t in made():
                if s["truncate"] and not steady(t):
                    top.pop(t, None)
                    last.pop(t, None)
                new = set(keys("dst", t)) - (set() if s["truncate"] else set(held.get(t, ())))
                if t in used and new:
                    top[t] = max(new | {top.get(t, min(new))})
                    ctx.tag("sampled:" + tby[t]["kind"])
                if was.get(t) is not None and (steady(t) or not s["truncate"]):
                    k = gens.next(t, tby[t]["key"])
                    ctx.check(k is not None and k >= was[t], "step %d, %s: the next generated id was to be %s, now it is %s", i, t, was[t], k)
            for kk in ("merge", "truncate", "compact"):
                if s[kk]:
                    ctx.tag(kk)
    for n in made():
        gen(n, "at the end")


def broken_strategy(dialect, tier):
    return st.fixed_dictionaries(
        {
            "n": st.sampled_from([1500, 1026, 2300, 2051, 1025, 3, 1]), "at": st.sampled_from([1300, 1025, 2060, 1100, 2049, 1024, 2, 0, 3000]), "down": st.booleans(), "start": st.sampled_from([1, -5, 4000]), "identity": st.booleans(),
            "merge": st.booleans(), "strategy": st.sampled_from(["error", "skip", "replace"]), "remap": st.booleans(), "second": st.booleans(),
        }
    )


def run_broken(case, ctx):
    """The destination rejects a row halfway: what was written before stays and must not collide."""
    from subsetter.config_model import PlannerConfig
    from subsetter.planner import Planner

    env = ctx.env
    ids = [case["start"] + 2 * i for i in range(case["n"])]
    if case["down"]:
        ids.reverse()
    auto = "identity" if case["identity"] else "seq"
    t = {"name": "s1.Big", "cols": [{"n": "id", "t": "int", "null": False, "auto": auto}, {"n": "x", "t": "int", "null": True}], "pk": ["id"], "uniq": [], "fks": []}
    b = {"name": "s1.z", "cols": [{"n": "id", "t": "int", "null": False, "auto": auto}, {"n": "x", "t": "int", "null": True}, {"n": "big", "t": "int", "null": True}], "pk": ["id"], "uniq": [], "fks": [{"cols": ["big"], "ref": "s1.Big", "rcols": ["id"]}]}
    tabs = [t, b]
    flow.load(env, {"tables": tabs, "rows": {"s1.Big": [[k, 1] for k in ids], "s1.z": [[k, 1, k] for k in ids[:3]]}}, remap=case["remap"])
    flow.create_dst(env, tabs)
    on = "s1.z" if case["second"] else "s1.Big"
    env.add_fault("dst", env.dst(on), "insert", case["at"] % 3 if case["second"] else case["at"])
    with must_succeed("planning"):
        plan = Planner(flow.src_config(env), PlannerConfig(select=["*"], targets={"s1.Big": {"all": True}, "s1.z": {"all": True}})).plan()
    hit = (case["at"] % 3 < min(3, case["n"])) if case["second"] else case["at"] < case["n"]
    out = flow.output_cfg(env, conflict_strategy=case["strategy"], merge=case["merge"])
    if hit:
        flow.refused("rejected rows", flow.run_sample, env, plan, {}, out)
        ctx.tag("rejected")
    else:
        with must_succeed("sampling"):
            flow.run_sample(env, plan, {}, out)
    env.drop_fault("dst", env.dst(on), "insert")
    for n in ("s1.Big", "s1.z"):
        have = [r[0] for r in env.select("dst", f"SELECT id FROM {env.fq(env.dst(n))}")]
        with must_succeed(f"{n}: inserting a row without key after {len(have)} of {case['n']} rows"):
            k = generate(env, n, "id", False)
        ctx.check(not have or k > max(have), "%s: generated id %s, but ids up to %s have been sampled", n, k, max(have, default=None))
        if have:
            ctx.nontrivial = True
            if hit and n == on:
                ctx.tag("partly-written")


SUBS = [
    Sub(
        name="history",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 200, "postgres": 45, "mysql": 45},
        thorough={"sqlite": 3000, "postgres": 1500, "mysql": 1200},
        rule="histories of runs, inserts, source growth and generator restarts; non-trivial if a key was generated for a table after rows had been sampled into it",
    ),
    Sub(
        name="broken",
        run=run_broken,
        strategy=broken_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        shards={"sqlite": 1, "postgres": 1},
        quick={"sqlite": 20, "postgres": 20, "mysql": 10},
        thorough={"sqlite": 300, "postgres": 300, "mysql": 150},
        rule="runs that the destination interrupts at some row, possibly after whole batches have been written; non-trivial if rows have been written",
    ),
]
