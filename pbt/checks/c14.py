"""C14: conflict strategies error / replace / skip do exactly what they say."""
from hypothesis import strategies as st

import flow
import pipe
import worlds
from core import Skip, Sub, must_succeed


def strategy(dialect, tier):
    big = tier == "thorough"
    o = worlds.Opts(
        dialect=dialect, min_tables=1, max_tables=4, max_rows=7, schemas=2, auto=True,
        pk_kinds=("int", "int", "str", "comp", "shared", "fkcomp", "none"), fk_counts=(1, 0, 1, 2),
        data_cols=("int", "str", "int"),
    )
    p = worlds.POpts(max_targets=3, infer=False, ignore_fks=False, extra_fks=False, ignore=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        names = [t["name"] for t in w["tables"]]
        steps = []
        for _ in range(draw(st.integers(1, 4 if big else 3))):
            steps.append(
                {
                    "cfg": worlds.accepted_planner(draw, w, p),
                    "strategy": draw(st.sampled_from(["error", "replace", "replace", "skip", "skip"])),
                    "edit_src": draw(st.booleans()),
                    "edit_dst": draw(st.one_of(st.none(), st.sampled_from(names))),
                    "truncate": draw(st.integers(0, 9)) == 0, "over": draw(st.booleans()),
                }
            )
        omit = {}
        for t in w["tables"]:
            cols = [c["n"] for c in pipe.data_columns(w, t) if c["null"]]
            if cols and draw(st.integers(0, 3)) == 0:
                omit[t["name"]] = draw(st.lists(st.sampled_from(cols), min_size=1, unique=True))
        omit_pk = [
            t["name"]
            for t in w["tables"]
            if len(t["pk"]) == 1 and any(c.get("auto") for c in t["cols"]) and not any(fk["ref"] == t["name"] for o2 in w["tables"] for fk in o2["fks"]) and draw(st.integers(0, 2)) == 0
        ]
        return {
            "world": w, "steps": steps, "omit": omit, "omit_pk": omit_pk, "lack": draw(st.booleans()), "extra": draw(st.integers(0, 2)),
            "order": draw(st.booleans()), "remap": draw(st.booleans()), "pre": {n: draw(st.integers(0, 4)) for n in names}, "fk": draw(st.booleans()), "defaults": draw(st.booleans()),
        }

    return build()


def run(case, ctx):
    env, w = ctx.env, case["world"]
    flow.load(env, w, remap=case["remap"])
    steps = []
    for s in case["steps"]:
        plan, ref = flow.plan_or_refuse(env, w, s["cfg"], ctx)
        if plan is not None:
            steps.append((s, plan, ref, flow.planned(w, plan)))
    if not steps:
        raise Skip("plan refused")
    union = {t["name"] for _, _, _, tabs in steps for t in tabs}
    omit = {n: set(c) for n, c in case["omit"].items()}
    for n in case["omit_pk"]:
        omit.setdefault(n, set()).update(worlds.by_name(w)[n]["pk"])
    # destination tables: extra columns, possibly without the omitted ones, another order
    dtabs = []
    for t in w["tables"]:
        if t["name"] not in union:
            continue
        cols = [dict(c) for c in t["cols"] if not (case["lack"] and c["n"] in omit.get(t["name"], ()) and c["n"] not in t["pk"])]
        if not cols:
            cols = [dict(c) for c in t["cols"]]
        if case["defaults"]:
            for c in cols:
                if c["n"] in {x["n"] for x in pipe.data_columns(w, t)} - omit.get(t["name"], set()):
                    c["default"] = "77" if c["t"] == "int" else "'dd'"
        if case["extra"]:
            cols.append({"n": "extra1", "t": "int", "null": True})
        if case["extra"] == 2:
            cols.append({"n": "extra2", "t": "int", "null": True, "default": "5"})
        if case["order"]:
            cols = cols[::-1]
        dtabs.append({**t, "cols": cols, "fks": [fk for fk in t["fks"] if fk["ref"] in union]})
    dby = {t["name"]: t for t in dtabs}
    flow.create_dst(env, dtabs, fk=case["fk"])
    # initial rows: same keys and references as in the source, other data
    whole = set()  # tables whose every row is there
    for t in w["tables"]:
        n = t["name"]
        if n not in union:
            continue
        k = case["pre"][n]
        rows = [dict(zip([c["n"] for c in t["cols"]], r)) for r in w["rows"][n]]
        if k == 0 or (case["fk"] and any(fk["ref"] in union and fk["ref"] not in whole for fk in t["fks"])):
            continue
        if k < 4 and not (case["fk"] and any(fk["ref"] == n for x in dtabs for fk in x["fks"])):
            rows = rows[k - 1 :: 2]
        else:
            whole.add(n)
        data = {c["n"] for c in pipe.data_columns(w, t)}
        out = []
        for i, r in enumerate(rows):
            r = {c: (v if c not in data else (None if i % 3 == 2 and next(x for x in t["cols"] if x["n"] == c)["null"] else (500 + i if next(x for x in t["cols"] if x["n"] == c)["t"] == "int" else f"old{i}"))) for c, v in r.items()}
            r["extra1"], r["extra2"] = 70 + i, 80 + i
            out.append([r.get(c["n"]) for c in dby[n]["cols"]])
        if t["pk"] and not t["fks"] and not t["uniq"] and all(c["t"] == "int" for c in t["cols"] if c["n"] in t["pk"]):
            r = {c["n"]: (900 if c["n"] in t["pk"] else 1 if c["t"] == "int" else "z") for c in t["cols"]}
            r["extra1"], r["extra2"] = 1, 2
            out.append([r.get(c["n"]) for c in dby[n]["cols"]])
        env.insert("dst", dby[n], out, name=env.dst(n))
    filters = {n: [{"op": "omit", "columns": sorted(c)}] for n, c in omit.items() if n in union and len(c) < len(worlds.by_name(w)[n]["cols"])}
    omit = {n: c for n, c in omit.items() if n in filters}
    if case["lack"]:
        for n in dby:
            need = {c["n"] for c in worlds.by_name(w)[n]["cols"]} - omit.get(n, set())
            if not need <= {c["n"] for c in dby[n]["cols"]}:
                raise Skip("destination lacks a column")
    for i, (s, plan, ref, tabs) in enumerate(steps):
        if s["edit_src"]:
            for t in w["tables"]:
                for c in pipe.data_columns(w, t):
                    if c["t"] == "int":
                        env.run("src", [f"UPDATE {env.fq(t['name'])} SET {env.q(c['n'])} = COALESCE({env.q(c['n'])}, 0) + {1000 * (i + 1)}"])
        if s["edit_dst"] in dby and case["extra"]:
            env.run("dst", [f"UPDATE {env.fq(env.dst(s['edit_dst']))} SET extra1 = {3000 + i}"])
        # conditions may look at the data, so plan rows are those of the current source
        src = flow.read_all(env, "src", w["tables"])
        plain = pipe.exact_sample(ref, src, tabs)
        before = flow.read_all(env, "dst", dtabs, env.dst)
        want, conflicts = {n: [dict(r) for r in before.rows[n]] for n in before.rows}, 0
        if s["truncate"]:
            dead = {t["name"] for t in tabs}
            changed = True
            while changed and case["fk"]:
                more = {x["name"] for x in dtabs if any(fk["ref"] in dead for fk in x["fks"])} - dead
                dead |= more
                changed = bool(more)
            for n in dead:
                want[n] = []
        free = {}
        for t in tabs:
            n = t["name"]
            cols = [c["n"] for c in t["cols"] if c["n"] not in omit.get(n, ())]
            dcols = [c["n"] for c in dby[n]["cols"]]
            keyed = t["pk"] and not set(t["pk"]) & omit.get(n, set())
            free[n] = bool(t["pk"]) and not keyed
            at = {tuple(r[c] for c in t["pk"]): r for r in want[n]} if keyed else {}
            for r in plain.rows[n]:
                new = {c: (5 if c == "extra2" else None) for c in dcols}
                new.update({c: r[c] for c in cols})
                old = at.get(tuple(r[c] for c in t["pk"])) if keyed else None
                if old is None:
                    want[n].append(new)
                    continue
                conflicts += 1
                if s["strategy"] == "replace":
                    old.update({c: r[c] for c in cols})
                    ctx.tag("replaced")
                elif s["strategy"] == "skip":
                    ctx.tag("skipped")
                if s["strategy"] != "error" and [c for c in dcols if c not in cols]:
                    ctx.tag("unsampled-columns-kept")
        for n in dby:
            for u in dby[n]["uniq"]:
                vals = [tuple(r.get(c) for c in u) for r in want[n]]
                vals = [v for v in vals if None not in v]
                if len(set(vals)) < len(vals):
                    raise Skip("unique values of another row")
        out = flow.output_cfg(env, conflict_strategy=s["strategy"])
        sampler = {"filters": filters} if filters else {}
        if s["strategy"] == "error" and conflicts:
            ctx.tag("conflict-error")
            ctx.nontrivial = True
            flow.refused("conflicting rows", flow.run_sample, env, plan, sampler, out, truncate=s["truncate"], create=s["over"])
            got = flow.read_all(env, "dst", dtabs, env.dst)
            for n in dby:
                cols = [c["n"] for c in dby[n]["cols"] if not (free.get(n) and c["n"] in dby[n]["pk"])]
                base = [] if s["truncate"] and n in dead else before.rows[n]
                a, b, mx = pipe.bag(base, cols), pipe.bag(got.rows[n], cols), pipe.bag(want[n] + [r for r in base], cols)
                ctx.check(not a - b, "step %d, %s: rows lost or changed in a failed run: %s", i, n, (a - b))
                ctx.check(not b - (mx | a), "step %d, %s: unexpected rows after a failed run: %s", i, n, b - (mx | a))
            continue
        with must_succeed(f"step {i} ({s['strategy']})"):
            flow.run_sample(env, plan, sampler, out, truncate=s["truncate"], create=s["over"])
        got = flow.read_all(env, "dst", dtabs, env.dst)
        for n in dby:
            cols = [c["n"] for c in dby[n]["cols"] if not (free.get(n) and c["n"] in dby[n]["pk"])]
            msg = pipe.diff(got.rows[n], want[n], cols)
            ctx.check(msg is None, "step %d (%s), %s: %s", i, s["strategy"], n, msg)
            if free.get(n):
                ctx.tag("generated-key")
                old = {r[dby[n]["pk"][0]] for r in before.rows[n]} if not (s["truncate"] and n in dead) else set()
                ctx.check(old <= {r[dby[n]["pk"][0]] for r in got.rows[n]}, "step %d, %s: existing keys changed", i, n)
            if not dby[n]["pk"] and len(got.rows[n]) > len(before.rows[n]):
                ctx.tag("appended")
        if conflicts and (len(want) > 0):
            ctx.nontrivial = True
        ctx.tag("strategy:" + s["strategy"])


def batch_strategy(dialect, tier):
    return st.fixed_dictionaries(
        {
            "n": st.sampled_from([1023, 1024, 1025, 1026, 2050, 2051, 1500]),
            "old": st.lists(st.integers(0, 2060), min_size=1, max_size=6, unique=True),
            "edge": st.sampled_from([1, 1024, 1025, 1026, 2050]),
            "strategy": st.sampled_from(["error", "replace", "skip"]),
        }
    )


def run_batches(case, ctx):
    env = ctx.env
    t = {"name": "s1.t", "cols": [{"n": "id", "t": "int", "null": False}, {"n": "v", "t": "int"}], "pk": ["id"], "uniq": [], "fks": []}
    w = {"tables": [t], "rows": {"s1.t": [[i, i % 7] for i in range(1, case["n"] + 1)]}}
    flow.load(env, w, remap=False)
    flow.create_dst(env, [t])
    old = sorted(set(case["old"]) | {case["edge"]})
    env.insert("dst", t, [[i, -1] for i in old], name=env.dst("s1.t"))
    plan = flow.make_plan(env, {"select": ["s1.*"], "targets": {"s1.t": {"all": True}}})
    hit = [i for i in old if 1 <= i <= case["n"]]
    want = {i: -1 for i in old}
    for i in range(1, case["n"] + 1):
        if case["strategy"] == "replace" or i not in want:
            want[i] = i % 7
    out = flow.output_cfg(env, conflict_strategy=case["strategy"])
    if case["strategy"] == "error" and hit:
        flow.refused("conflicting rows", flow.run_sample, env, plan, {}, out)
        got = dict(env.rows("dst", t, env.dst("s1.t")))
        ctx.check(all(got.get(i) == -1 for i in old), "existing rows changed: %r", {i: got.get(i) for i in old})
        ctx.check(all(got[i] == i % 7 for i in got if i not in old), "wrong rows written")
    else:
        with must_succeed("sampling"):
            flow.run_sample(env, plan, {}, out)
        got = dict(env.rows("dst", t, env.dst("s1.t")))
        bad = {i: (got.get(i), want.get(i)) for i in set(got) | set(want) if got.get(i) != want.get(i)}
        ctx.check(not bad, "%s: %d wrong rows, e.g. (got, expected) %r", case["strategy"], len(bad), dict(list(bad.items())[:5]))
    ctx.tag(case["strategy"])
    ctx.nontrivial = bool(hit)


# ------------------------------------------------------------------ rows the destination rejects


def reject_strategy(dialect, tier):
    kinds = ["notnull", "check", "fk"] + ([] if dialect == "sqlite" else ["length"])
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(kinds),
            "strategy": st.sampled_from(["error", "replace", "skip", "skip"]),
            "n": st.integers(1, 8),
            "bad": st.lists(st.integers(1, 8), max_size=2, unique=True),
            "old": st.lists(st.integers(1, 12), max_size=4, unique=True),
            "pk": st.sampled_from(["int", "str", "none"]),
            "passthrough": st.booleans(),
            "remap": st.booleans(),
            "over": st.booleans(),
            "names": st.sampled_from([["s1.t", "v", "x"], ["s1.t", "v", "x"], ["s1.t", "v%", "x"], ["s1.t", "v", "x%s"], ["s1.t%", "v", "x"], ["s1.%(t)s", "%d", "x"], ["s1.a b", "v w", "%%"], ["s1.t", "v\"", "x"]]),
        }
    )


def run_reject(case, ctx):
    env, kind = ctx.env, case["kind"]
    key = {"n": "id", "t": "str" if case["pk"] == "str" else "int", "null": False}
    k = str if case["pk"] == "str" else int
    name, vn, xn = case["names"]
    t = {"name": name, "cols": [key, {"n": vn, "t": "str", "null": True}, {"n": xn, "t": "int", "null": True}], "pk": [] if case["pk"] == "none" else ["id"], "uniq": [], "fks": []}
    bad_v, bad_x = {"notnull": (None, 1), "check": ("ok", 500), "fk": ("ok", 7), "length": ("far too long", 1)}[kind]
    bad = {k(i) for i in case["bad"] if i <= case["n"]}
    src = {k(i): (bad_v, bad_x) if k(i) in bad else ("ok", 1) for i in range(1, case["n"] + 1)}
    flow.load(env, {"tables": [t], "rows": {name: [[i, *v] for i, v in src.items()]}}, remap=case["remap"])
    d = {**t, "cols": [dict(c) for c in t["cols"]]}
    dtabs = [d]
    if kind == "notnull":
        d["cols"][1]["null"] = False
    elif kind == "check":
        d["checks"] = [f"{env.q(xn)} < 100"]
    elif kind == "length":
        d["cols"][1]["t"] = "raw:VARCHAR(4)"
    else:
        p = {"name": "s1.p", "cols": [{"n": "id", "t": "int", "null": False}], "pk": ["id"], "uniq": [], "fks": []}
        d["fks"] = [{"cols": [xn], "ref": "s1.p", "rcols": ["id"]}]
        dtabs = [p, d]
    flow.create_dst(env, dtabs)
    if kind == "fk":
        env.insert("dst", dtabs[0], [[1], [2]], name=env.dst("s1.p"))
    old = {k(i): ("old", 2) for i in case["old"]}
    typed = {**d, "cols": t["cols"]}
    env.insert("dst", typed, [[i, *v] for i, v in old.items()], name=env.dst(name))
    cfg = {"select": ["s1.*"], "targets": {name: {"all": True}}}
    if case["passthrough"]:
        cfg = {"select": ["s1.*"], "targets": {}, "passthrough": [name]}
    plan = flow.make_plan(env, cfg)
    extra = {"session_sqls": ["PRAGMA foreign_keys = ON"]} if env.dialect == "sqlite" else {}
    out = flow.output_cfg(env, conflict_strategy=case["strategy"], **extra)
    clash = set(src) & set(old) if t["pk"] else set()
    new_bad = bad - clash
    must_fail = bool(new_bad) or (clash and case["strategy"] == "error") or (bad and case["strategy"] == "replace")
    if must_fail:
        flow.refused(f"rows the destination rejects ({kind}, {case['strategy']})", flow.run_sample, env, plan, {}, out, create=case["over"])
        ctx.nontrivial = bool(new_bad)
        failed = True
    elif bad:
        # a row that is skipped may be rejected all the same
        try:
            flow.run_sample(env, plan, {}, out)
            failed = False
        except Exception:  # pylint: disable=broad-except
            failed = True
    else:
        with must_succeed(f"sampling ({kind}, {case['strategy']})"):
            flow.run_sample(env, plan, {}, out, create=case["over"])
        failed = False
    got = [(r[0], (r[1], r[2])) for r in env.rows("dst", typed, env.dst(name))]
    have = pipe.collections.Counter(got)
    base = pipe.collections.Counter(old.items())
    new = pipe.collections.Counter((i, v) for i, v in src.items() if i not in clash)
    for i in clash:
        if case["strategy"] == "replace":
            if failed and (i, old[i]) in have:
                continue
            base[(i, old[i])] -= 1
            base[(i, src[i])] += 1
    base = +base
    ctx.check(not base - have, "%s, %s: rows lost or changed: %s, table holds %s", kind, case["strategy"], base - have, got)
    ctx.check(not (have - base) - new, "%s, %s: unexpected rows: %s", kind, case["strategy"], (have - base) - new)
    if not failed:
        ctx.check(have == base + new, "%s, %s: %s instead of %s although the run succeeded", kind, case["strategy"], have, base + new)
    ctx.tag(kind, "strategy:" + case["strategy"], "failed" if failed else "ok")


SUBS = [
    Sub(
        name="history",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 300, "postgres": 55, "mysql": 35},
        thorough={"sqlite": 3000, "postgres": 900, "mysql": 500},
        rule="history of runs with differing strategies, plans, edits of source and destination, omitted and additional columns, compared with a reference destination; non-trivial if sampled keys were already present",
    ),
    Sub(
        name="batches",
        run=run_batches,
        strategy=batch_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        shards={"sqlite": 1, "postgres": 1},
        quick={"sqlite": 15, "postgres": 10, "mysql": 8},
        thorough={"sqlite": 150, "postgres": 100, "mysql": 80},
        rule="over 1000 sampled rows with conflicts around the batch boundaries; non-trivial if a conflict exists",
    ),
    Sub(
        name="rejected",
        run=run_reject,
        strategy=reject_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 60, "postgres": 40, "mysql": 30},
        thorough={"sqlite": 400, "postgres": 300, "mysql": 200},
        rule="destination whose NOT NULL, CHECK, length or foreign key constraint rejects some sampled rows: the run fails under every strategy instead of dropping them, and succeeds without such rows; non-trivial if a row without a counterpart is rejected",
    ),
]
