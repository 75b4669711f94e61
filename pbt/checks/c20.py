"""C20: random targets sample the requested share and stay self-consistent."""
import math

from hypothesis import strategies as st

import db
import flow
import model
import pipe
import worlds
from core import Skip, Sub, must_succeed
from model import Refuse

EPS = 1e-13  # of a single statistical comparison

# ------------------------------------------------------------------ exact counts


def col(n, t="int", null=True):
    return {"n": n, "t": t, "null": null}


def plain_table(name, key):
    return {"name": name, "cols": [col("id", null=False), col("m"), col("s", "str")], "pk": ["id"] if key else [], "uniq": [], "fks": []}


def plain_rows(n):
    return [[i + 1, i % 3, "ab"[i % 2]] for i in range(n)]


COND = {
    "none": ({"all": False}, lambda r: True),
    "in": ({"in": {"m": [0, 2]}}, lambda r: r["m"] in (0, 2)),
    "like": ({"like": {"s": ["a%"]}}, lambda r: r["s"] == "a"),
    "sql": ({"sql": "m = 0 OR s = 'b'"}, lambda r: r["m"] == 0 or r["s"] == "b"),
    "both": ({"in": {"m": [1]}, "like": {"s": ["b"]}}, lambda r: r["m"] == 1 and r["s"] == "b"),
    "constraint": ({}, lambda r: r["m"] < 1),
}


def setup(case):
    """World, planner settings and the matching rows of the table s1.t."""
    t = plain_table("s1.t", case["key"])
    rows = plain_rows(case["rows"])
    target, hit = COND[case["cond"]]
    target = {k: v for k, v in target.items() if k != "all"}
    target.update(case["random"])
    cfg = {"select": ["*"], "targets": {"s1.t": target}}
    if case["cond"] == "constraint":
        cfg["table_constraints"] = {"s1.t": [{"column": "m", "operator": "<", "value": 1}]}
    tabs, data = [t], {"s1.t": rows}
    if case["need"] and case["key"] and case["cond"] != "constraint":
        # another target refers to some of the rows
        u = {"name": "s1.u", "cols": [col("id", null=False), col("t")], "pk": ["id"], "uniq": [], "fks": [{"cols": ["t"], "ref": "s1.t", "rcols": ["id"]}]}
        tabs.append(u)
        data["s1.u"] = [[i + 1, k + 1] for i, k in enumerate(case["need"]) if k < case["rows"]]
        cfg["targets"]["s1.u"] = {"all": True}
    names = [c["n"] for c in t["cols"]]
    match = {r[0] for r in rows if hit(dict(zip(names, r)))}
    needed = {r[1] for r in data.get("s1.u", ())}
    return {"tables": tabs, "rows": data}, cfg, match, needed


def plan_it(env, cfg):
    from subsetter.config_model import PlannerConfig
    from subsetter.planner import Planner

    with must_succeed("planning"):
        return Planner(flow.src_config(env), PlannerConfig(**cfg)).plan()


def draws(env, w, cfg, runs):
    """The ids of s1.t (and s1.b) in the output of repeated runs."""
    plan = plan_it(env, cfg)
    flow.create_dst(env, [{**t, "pk": []} for t in w["tables"]], fk=False)
    for i in range(runs):
        with must_succeed("sampling"):
            flow.run_sample(env, plan, truncate=i > 0)
        db.dispose_engines()
        yield [[r[0] for r in env.select("dst", f"SELECT id FROM {env.fq(env.dst(t))}")] for t in ("s1.t", "s1.b") if t in plan.queries]


def count_strategy(dialect, tier):
    return st.fixed_dictionaries(
        {
            "rows": st.sampled_from([0, 1, 5, 12, 40]),
            "key": st.sampled_from([True, True, False]),
            "cond": st.sampled_from(sorted(COND)),
            "random": st.one_of(
                st.fixed_dictionaries({"amount": st.sampled_from([0, 1, 2, 4, 5, 11, 12, 13, 27, 39, 40, 41, 1000])}),
                st.fixed_dictionaries({"amount": st.sampled_from([0, 1, 2, 4, 5, 11, 12, 13, 27, 39, 40, 41, 1000])}),
                st.fixed_dictionaries({"percent": st.sampled_from([0, 0.0, 100, 100.0, 150, 250.5])}),
                st.fixed_dictionaries({"percent": st.sampled_from([0, 100, 120]), "amount": st.sampled_from([0, 1, 3, 50])}),
            ),
            "need": st.one_of(st.just([]), st.lists(st.integers(0, 11), max_size=4)),
            "remap": st.booleans(),
        }
    )


def run_count(case, ctx):
    env = ctx.env
    w, cfg, match, needed = setup(case)
    flow.load(env, w, remap=case["remap"])
    rnd = case["random"]
    share = rnd.get("percent", 100)
    want = 0 if share <= 0 else len(match)
    want = min(want, rnd.get("amount", want))
    for got in draws(env, w, cfg, 2):
        ids = got[0]
        ctx.check(len(ids) == len(set(ids)), "rows are repeated: %s", sorted(ids))
        out = set(ids)
        ctx.check(out <= match | needed, "rows %s do not match", sorted(out - match - needed))
        ctx.check(needed <= out, "rows %s that others need are missing", sorted(needed - out))
        if needed:
            ctx.tag("needed")
            drawn = len(out - needed)
            ctx.check(want - len(needed & match) <= drawn <= want, "%d rows beyond the needed ones, %d were to be drawn", drawn, want)
            ctx.check(len(out) >= min(want, len(match)), "%d rows, %d were to be drawn", len(out), want)
        else:
            ctx.check(len(out) == want, "%d rows of %d matching instead of %d", len(out), len(match), want)
    if 0 < want < len(match):
        ctx.nontrivial = True
        ctx.tag("partial")
    if "percent" in rnd and match:
        ctx.nontrivial = True
        ctx.tag("percent:all" if want else "percent:none")


# ------------------------------------------------------------------ shares


def tails(n, p, k):
    """min(P(X <= k), P(X >= k)) of a binomial distribution."""
    if p <= 0 or p >= 1:
        return 1.0 if k == round(n * p) else 0.0

    def pmf(i):
        return math.exp(math.lgamma(n + 1) - math.lgamma(i + 1) - math.lgamma(n - i + 1) + i * math.log(p) + (n - i) * math.log1p(-p))

    if k < n * p:
        return math.fsum(pmf(i) for i in range(0, k + 1))
    return math.fsum(pmf(i) for i in range(k, n + 1))


def likely(ctx, n, p, k, what):
    if n:
        ctx.check(tails(n, p, k) > EPS, "%s: %d of %d, expected %.1f", what, k, n, n * p)


def share_strategy(dialect, tier):
    percent = st.one_of(st.sampled_from([50, 10, 90, 33.3, 0.5, 99, 1, 66.6]), st.floats(2, 98).map(lambda x: round(x, 2)))
    return st.fixed_dictionaries(
        {
            "rows": st.sampled_from([2000, 1500, 3000]),
            "key": st.booleans(),
            "cond": st.sampled_from(["none", "none", "in", "like", "sql", "constraint"]),
            "random": st.fixed_dictionaries({"percent": percent}),
            "other": percent,
            "need": st.just([]),
            "remap": st.booleans(),
        }
    )


def fraction_strategy(dialect, tier):
    percent = st.sampled_from([0.4, 0.3, 0.25, 0.49, 0.2])
    return st.fixed_dictionaries(
        {
            "rows": st.sampled_from([20000, 25000] if dialect != "mysql" else [20000]), "key": st.booleans(), "cond": st.just("none"),
            "random": st.fixed_dictionaries({"percent": percent}), "other": percent, "need": st.just([]), "remap": st.booleans(),
        }
    )


def run_share(case, ctx):
    env = ctx.env
    w, cfg, match, _ = setup(case)
    b = plain_table("s1.b", case["key"])
    w["tables"].append(b)
    w["rows"]["s1.b"] = plain_rows(case["rows"])
    cfg["targets"]["s1.b"] = {"percent": case["other"]}
    flow.load(env, w, remap=case["remap"])
    p, q = case["random"]["percent"] / 100, case["other"] / 100
    last = None
    for got in draws(env, w, cfg, 2):
        out, other = map(set, got)
        ctx.check(len(out) == len(got[0]) and out <= match, "rows repeated or not matching")
        likely(ctx, len(match), p, len(out), "sampled rows")
        likely(ctx, case["rows"], q, len(other), "sampled rows of the second target")
        # independence of neighbours, of thirds of the table, of the targets and of the runs
        order = sorted(match)
        pairs = list(zip(order[::2], order[1::2]))
        likely(ctx, len(pairs), p * p, sum(x in out and y in out for x, y in pairs), "pairs of rows sampled together")
        third = len(order) // 3
        for i in range(3):
            part = order[i * third : (i + 1) * third]
            likely(ctx, len(part), p, len(out.intersection(part)), f"sampled rows of the {i + 1}. third")
        likely(ctx, len(order), p * q, len(out & other), "rows with the same id in both targets")
        if last is not None:
            likely(ctx, len(order), p * p, len(out & last), "rows sampled in both runs")
        last = out
    ctx.nontrivial = True
    ctx.tag("cond:" + case["cond"])


# ------------------------------------------------------------------ every row can appear


def spread_strategy(dialect, tier):
    return st.fixed_dictionaries(
        {
            "rows": st.sampled_from([4, 5, 3, 6, 8]),
            "key": st.booleans(),
            "cond": st.sampled_from(["none", "none", "in", "like", "sql"]),
            "random": st.one_of(
                st.fixed_dictionaries({"amount": st.sampled_from([2, 1, 3, 4])}),
                st.fixed_dictionaries({"amount": st.sampled_from([2, 1, 3, 4])}),
                st.fixed_dictionaries({"percent": st.sampled_from([50, 40.5, 70])}),
                st.fixed_dictionaries({"percent": st.sampled_from([60]), "amount": st.sampled_from([2, 3])}),
            ),
            "need": st.one_of(st.just([]), st.just([1])),
            "remap": st.booleans(),
        }
    )


def run_spread(case, ctx):
    env = ctx.env
    w, cfg, match, needed = setup(case)
    rnd = case["random"]
    free = sorted(match)
    if not free:
        raise Skip("nothing matches")
    # the probability of a row to be drawn, at least
    n = len(free)
    if "percent" not in rnd:
        p = min(1.0, rnd["amount"] / n)
    elif "amount" not in rnd:
        p = rnd["percent"] / 100
    else:
        r = rnd["percent"] / 100
        p = r * sum(math.comb(n - 1, j) * r**j * (1 - r) ** (n - 1 - j) * min(1, rnd["amount"] / (j + 1)) for j in range(n))
    runs = 1 if p >= 1 else math.ceil(math.log(EPS / n) / math.log1p(-p))
    limit = 130 if env.dialect == "sqlite" else 90
    if runs > limit:
        raise Skip("too many runs needed")
    flow.load(env, w, remap=case["remap"])
    seen = {k: 0 for k in free}
    for got in draws(env, w, cfg, runs):
        for k in got[0]:
            if k in seen:
                seen[k] += 1
    for k, c in seen.items():
        ctx.check(c > 0, "row %s of %s was never drawn in %d runs (expected share %.2f); counts %s", k, free, runs, p, seen)
        if k not in needed:
            ctx.check(tails(runs, p, c) > EPS, "row %s of %s was drawn %d times in %d runs, expected %.1f; counts %s", k, free, c, runs, runs * p, seen)
    if p < 1:
        ctx.nontrivial = True
    ctx.tag("+".join(sorted(rnd)))


# ------------------------------------------------------------------ consistency


def consist_strategy(dialect, tier):
    big = tier == "thorough"
    o = worlds.Opts(dialect=dialect, min_tables=2, max_tables=7 if big else 5, max_rows=8, schemas=2, auto=True)
    p = worlds.POpts(max_targets=2, random=True, extra_fks=False, infer=False, nodeps=False, ignore_fks=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        for t in w["tables"]:
            t["cols"] = t["cols"] + [col("mark")]
            w["rows"][t["name"]] = [r + [1000 + i] for i, r in enumerate(w["rows"][t["name"]])]
        cfg = worlds.accepted_planner(draw, w, p)
        name = draw(st.sampled_from(sorted(cfg["targets"])))
        if not any(model.is_random(t) for t in cfg["targets"].values()) or draw(st.booleans()):
            cfg["targets"][name] = draw(st.sampled_from([{"amount": 2}, {"percent": 50}, {"amount": 3}, {"percent": 70}, {"amount": 1}, {"percent": 80, "amount": 4}]))
        sampler = {}
        k = draw(st.integers(0, 5))
        names = [t["name"] for t in w["tables"]]
        if k in (0, 1, 2):
            sampler["compact"] = pipe.gen_compact(draw, w, names, dialect, explicit=False)
        if k in (2, 3):
            sampler["multiplicity"] = {"multiplier": draw(st.integers(2, 3))}
        return {"world": w, "cfg": cfg, "sampler": sampler, "remap": draw(st.booleans()), "runs": 2}

    return build()


def run_consist(case, ctx):
    env, w, cfg, sampler = ctx.env, case["world"], case["cfg"], case["sampler"]
    flow.load(env, w, remap=case["remap"])
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        raise Skip("plan refused")
    tabs = flow.planned(w, plan)
    try:
        p = pipe.Pipe(w, ref, [t["name"] for t in tabs], sampler, env.dialect)
    except Refuse as exc:
        raise Skip("sampling refused") from exc
    if p.ambiguous or p.partial or any(not t["pk"] for t in tabs if t["name"] in p.compact):
        raise Skip("ambiguous compaction")
    flow.create_dst(env, [{**t, "uniq": []} for t in tabs], fk=False)
    src = flow.read_all(env, "src", w["tables"])
    origin = {n: {r["mark"]: r for r in rows} for n, rows in src.rows.items()}
    for i in range(case["runs"]):
        with must_succeed("sampling"):
            flow.run_sample(env, plan, sampler, truncate=i > 0)
        got = flow.read_all(env, "dst", tabs, env.dst)
        back = model.Sampled(tabs)
        marks = {}
        for t in tabs:
            n = t["name"]
            times = {}
            for r in got.rows[n]:
                times[r["mark"]] = times.get(r["mark"], 0) + 1
            m = p.m if n in p.mult_tables else 1
            ctx.check(all(c == m for c in times.values()), "%s: rows appear %s times", n, sorted(set(times.values())))
            ctx.check(set(times) <= set(origin[n]), "%s: unknown rows %s", n, sorted(set(times) - set(origin[n])))
            marks[n] = set(times)
            back.rows[n] = [origin[n][k] for k in times]
        # the samples fit together
        for t in tabs:
            n = t["name"]
            if n in ref.passthrough:
                ctx.check(len(back.rows[n]) == len(src.rows[n]), "%s is not complete", n)
                continue
            msg = model.check_table(ref, n, src, back)
            ctx.check(msg is None, "%s (phase %s; target %r)", msg, ref.phase[n], cfg["targets"].get(n))
        # and rows refer to the same rows as in the source
        for fk in ref.kept_fks():
            parents = {}
            for r in src.rows[fk.dst]:
                parents.setdefault(tuple(r[c] for c in fk.rcols), []).append(r["mark"])
            have = {}
            for r in got.rows[fk.dst]:
                have.setdefault(tuple(r[c] for c in fk.rcols), set()).add(r["mark"])
            for r in got.rows[fk.src]:
                key = tuple(origin[fk.src][r["mark"]][c] for c in fk.cols)
                if None in key or len(parents.get(key, ())) != 1 or parents[key][0] not in marks[fk.dst]:
                    continue
                now = have.get(tuple(r[c] for c in fk.cols), set())
                ctx.check(parents[key][0] in now, "%s: row %s referred to row %s of %s, now to %s", fk.src, r["mark"], parents[key][0], fk.dst, sorted(now))
                ctx.tag("link")
        for n, target in cfg["targets"].items():
            if model.is_random(target):
                hits = [r for r in src.rows[n] if model.matches_target(target, r)]
                if 0 < len(back.rows[n]) < len(hits) and any(back.rows[t["name"]] for t in tabs if t["name"] != n):
                    ctx.nontrivial = True
                    ctx.tag("random+" + "+".join(sorted(sampler)))
                    if ref.union_of[n]:
                        ctx.tag("random-and-needed")


SUBS = [
    Sub(
        name="counts",
        run=run_count,
        strategy=count_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 100, "postgres": 40, "mysql": 30},
        thorough={"sqlite": 800, "postgres": 400, "mysql": 300},
        rule="amounts and certain percentages of a table under conditions, possibly needed by another target; non-trivial if some but not all matching rows are to be drawn or a percentage applies to matching rows",
    ),
    Sub(
        name="share",
        run=run_share,
        strategy=share_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        shards={"sqlite": 2, "postgres": 1},
        quick={"sqlite": 20, "postgres": 10, "mysql": 8},
        thorough={"sqlite": 200, "postgres": 100, "mysql": 80},
        rule="thousands of rows, binomial bounds (false alarm probability 1e-13 each) on counts, pairs, thirds, targets and runs; non-trivial always",
    ),
    Sub(
        name="fraction",
        run=run_share,
        strategy=fraction_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        shards={"sqlite": 1, "postgres": 1},
        quick={"sqlite": 4, "postgres": 2, "mysql": 1},
        thorough={"sqlite": 40, "postgres": 20, "mysql": 10},
        rule="as share, with percentages below one half and 20000 rows or more; non-trivial always",
    ),
    Sub(
        name="spread",
        run=run_spread,
        strategy=spread_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        shards={"sqlite": 3, "postgres": 2},
        quick={"sqlite": 8, "postgres": 3, "mysql": 3},
        thorough={"sqlite": 100, "postgres": 40, "mysql": 40},
        rule="as many runs as it takes for every matching row to be drawn but for a probability of 1e-13; non-trivial if a row may be left out",
    ),
    Sub(
        name="consist",
        run=run_consist,
        strategy=consist_strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 150, "postgres": 40, "mysql": 30},
        thorough={"sqlite": 3000, "postgres": 800, "mysql": 500},
        rule="schemas with random targets, rows identified by a mark; every other table is compared with what the drawn rows imply, references with those in the source; non-trivial if a random target is sampled partially and another table is not empty",
    ),
]
