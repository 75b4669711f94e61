"""C12: merging never collides with, alters or re-links existing data."""
import dataclasses

from hypothesis import strategies as st

import flow
import model
import pipe
import worlds
from core import Skip, Sub, must_succeed
from model import Refuse


def strategy(dialect, tier):
    big = tier == "thorough"
    o = worlds.Opts(
        dialect=dialect, min_tables=1, max_tables=6 if big else 5, max_rows=6, schemas=2, auto=True, uniq=False, single_fk=True, fk_to_uniq=False,
        pk_kinds=("int", "int", "int", "int", "shared", "shared", "fkcomp", "none"), key_types=("int",),
    )
    wide = dataclasses.replace(o, single_fk=False, pk_kinds=("int", "int", "int", "comp", "comp", "shared"), fk_counts=(1, 2, 2, 3, 1), reuse_cols=False)
    p = worlds.POpts(max_targets=3, extra_fks=False, ignore_fks=False, infer=False, ignore=False, nodeps=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(wide if draw(st.integers(0, 3)) == 0 else o))
        names = [t["name"] for t in w["tables"]]
        runs = []
        for _ in range(draw(st.integers(1, 4 if big else 3))):
            cfg = worlds.accepted_planner(draw, w, p)
            sampler, out = {}, {}
            if draw(st.integers(0, 3)) == 0:
                sampler["compact"] = pipe.gen_compact(draw, w, names, dialect, explicit=False)
            if draw(st.integers(0, 4)) == 0:
                sampler["multiplicity"] = {"multiplier": draw(st.integers(2, 3))}
            if draw(st.integers(0, 3)) == 0:
                out["conflict_strategy"] = draw(st.sampled_from(["replace", "skip"]))
            roots = [t["name"] for t in w["tables"] if not t["fks"] and t["name"] not in cfg["targets"]]
            comp = [t["name"] for t in w["tables"] if len(t["pk"]) > 1 and t["name"] in roots]
            if roots and (comp or draw(st.integers(0, 2)) == 0):
                new = {**cfg, "passthrough": sorted(set(cfg.get("passthrough", [])) | set(comp) | set(draw(st.lists(st.sampled_from(roots), min_size=1, unique=True))))}
                if flow.ref_plan(w, new)[0]:
                    cfg = new
            pipe.maybe_infer(draw, w, cfg, sampler)
            runs.append({"cfg": cfg, "sampler": sampler, "out": out, "over": draw(st.booleans())})
        if draw(st.integers(0, 2)) == 0:
            notes: dict = {}
            w = pipe.with_notes(draw, w, notes)
            for r in runs:
                if draw(st.integers(0, 3)):
                    r["sampler"].update(notes)
        edits = draw(st.lists(st.tuples(st.sampled_from(names), st.sampled_from(["drop", "big"]), st.integers(0, 3)), max_size=2, unique_by=lambda e: e[0]))
        return {
            "world": w, "runs": runs, "edits": edits, "remap": draw(st.booleans()),
            "pre": draw(st.sampled_from(["none", "copy", "half", "half", "roots"])),
        }

    return build()


def referenced(w, t):
    return any(fk["ref"] == t["name"] for o in w["tables"] for fk in o["fks"])


def run(case, ctx):
    env, w = ctx.env, case["world"]
    flow.load(env, w, remap=case["remap"])
    steps = []
    for r in case["runs"]:
        cfg = r["cfg"]
        plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
        if plan is None:
            continue
        tabs = flow.planned(w, plan)
        if any(not t["pk"] for t in tabs if t["name"] in ref.passthrough):
            continue  # rows without a key cannot be recognised
        steps.append((r, plan, ref, tabs))
    if not steps:
        raise Skip("plan refused")
    union = {t["name"] for _, _, _, tabs in steps for t in tabs}
    dtabs = [t for t in w["tables"] if t["name"] in union]
    flow.create_dst(env, dtabs)
    src = flow.read_all(env, "src", w["tables"])
    for t in dtabs:
        rows = w["rows"][t["name"]]
        if case["pre"] == "copy" and all(fk["ref"] in union for fk in t["fks"]):
            env.insert("dst", t, rows, name=env.dst(t["name"]))
        elif case["pre"] == "half" and all(fk["ref"] in union for fk in t["fks"]):
            # some rows of the tables nothing refers to, all rows of the others
            env.insert("dst", t, rows if referenced(w, t) else rows[::2], name=env.dst(t["name"]))
        elif case["pre"] == "roots" and not t["fks"]:
            i = [c["n"] for c in t["cols"]].index(t["pk"][0]) if t["pk"] else None
            env.insert("dst", t, [[v + 40 if j == i else v for j, v in enumerate(x)] for x in rows[:3]], name=env.dst(t["name"]))
    for name, what, k in case["edits"]:
        t = next(t for t in w["tables"] if t["name"] == name)
        if name not in union:
            continue
        if what == "drop" and not referenced(w, t):
            env.run("dst", [f"DELETE FROM {env.fq(env.dst(name))}"])
        if what == "big" and not t["fks"] and t["pk"] and all(c["t"] in ("int", "str") for c in t["cols"]):
            row = [1000 + k if c["n"] in t["pk"] else (0 if c["t"] == "int" else "") for c in t["cols"]]
            env.insert("dst", t, [row], name=env.dst(name))
    merged_twice = False
    for step, (r, plan, ref, tabs) in enumerate(steps):
        names = [t["name"] for t in tabs]
        before = flow.read_all(env, "dst", dtabs, env.dst)
        sampler = dict(r["sampler"])
        try:
            p = pipe.Pipe(w, ref, names, sampler, env.dialect)
        except Refuse:
            flow.refused("merge", flow.run_sample, env, plan, sampler, flow.output_cfg(env, merge=True, **r["out"]))
            ctx.tag("refused")
            continue
        if p.ambiguous or p.partial:
            raise Skip("ambiguous")
        plain = pipe.exact_sample(ref, src, tabs)
        new = pipe.filter_notes(sampler, p.multiplied(p.compacted(plain, pipe.key_order(env, w, names))))
        if p.lacking():
            raise Skip("reference to no row, in a column that must have a value")
        off = p.merge_offsets(before.rows)
        # a key that refers to several tables, which move by different amounts
        for t in tabs:
            if t["name"] in p.passthrough:
                continue
            for c in t["cols"]:
                moves = set()
                for fk in p.fks:
                    if fk.src == t["name"] and fk.cols == (c["n"],) and fk.dst in names and p.refers_key(fk):
                        moves.add(off.get(fk.dst, {}).get(fk.rcols[0], 0))
                if len(moves) > 1:
                    raise Skip("column refers to tables that move differently")
                if moves and c["n"] in t["pk"] and list(t["pk"]) == [c["n"]]:
                    off[t["name"]][c["n"]] = moves.pop()
        for fk in p.fks:
            if len(fk.cols) > 1 and (set(fk.cols) & set(off.get(fk.src, ())) or set(fk.rcols) & set(off.get(fk.dst, ()))):
                raise Skip("composite key with a column that moves")
            if len(fk.cols) > 1 and fk.dst in p.passthrough and any(x[fk.cols[0]] is not None for x in new.rows[fk.src]):
                ctx.tag("composite-reference")
        # shifts of shared keys follow the row they refer to, through chains
        shifted = p.shifted(new, off)
        want = {n: [dict(x) for x in before.rows[n]] for n in before.rows}
        for t in tabs:
            n = t["name"]
            add = shifted.rows[n]
            if n in p.passthrough:
                have = {tuple(x[c] for c in t["pk"]) for x in before.rows[n]}
                add = [x for x in add if tuple(x[c] for c in t["pk"]) not in have]
                if len(add) < len(shifted.rows[n]):
                    ctx.tag("passthrough-present")
            want[n] = want[n] + add
            if t["pk"]:
                keys = [tuple(x[c] for c in t["pk"]) for x in want[n]]
                if len(set(keys)) < len(keys):
                    raise Skip("unmovable key already present")
        with must_succeed(f"merge {step}"):
            flow.run_sample(env, plan, sampler, flow.output_cfg(env, merge=True, **r["out"]), create=r["over"])
        got = flow.read_all(env, "dst", dtabs, env.dst)
        for t in dtabs:
            n = t["name"]
            cols = [c["n"] for c in t["cols"] if (n, c["n"]) not in getattr(p, "unresolved", ())]
            msg = pipe.diff(got.rows[n], want[n], cols)
            ctx.check(msg is None, "merge %d, %s: %s (shifts %r, before %r)", step, n, msg, off.get(n), before.rows[n][:6])
            if n in names and before.rows[n] and len(got.rows[n]) > len(before.rows[n]) and n not in p.passthrough:
                fkc = [c for c, o in off[n].items() if o and any(fk.src == n and c in fk.cols for fk in p.fks)]
                if any(x[c] is not None for x in shifted.rows[n] for c in fkc):
                    merged_twice = True
                    ctx.tag("moved-reference")
                    if set(fkc) & set(t["pk"]):
                        ctx.tag("moved-shared-key")
                if p.m > 1:
                    ctx.tag("with-multiplicity")
                if p.compact:
                    ctx.tag("with-compaction")
    ctx.nontrivial = merged_twice


SUBS = [
    Sub(
        name="history",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 300, "postgres": 60, "mysql": 40},
        thorough={"sqlite": 3000, "postgres": 900, "mysql": 500},
        rule="history of 1-3 merges with differing plans, compaction and multiplicity into an empty or populated destination, compared row by row with the reference; non-trivial if a foreign key value is written shifted into a populated table",
    )
]
