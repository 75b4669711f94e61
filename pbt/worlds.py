"""Generators: database schemas with rows, planner configurations, SQL condition trees."""
from __future__ import annotations

import dataclasses
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st

import model

ODD_NAMES = [("%", "%s"), ("\u00d6l", "-C"), (" b", "'-")]
STR_POOL = ["", "a", "ab", "abc", "b", "b%", "c_d", "cd", "it's", "x-y"]
LIKE_POOL = ["a%", "%b%", "_b", "%", "abc", "%c_d", "b%", ""]


@dataclasses.dataclass
class Opts:
    dialect: str = "sqlite"
    min_tables: int = 1
    max_tables: int = 6
    max_rows: int = 8
    schemas: int = 1
    key_types: tuple = ("int", "str")
    pk_kinds: tuple = ("int", "int", "int", "str", "comp", "shared", "fkcomp", "none")
    fk_counts: tuple = (1, 1, 2, 1, 2, 3, 0)
    nullable_fk: bool = True
    dangling: bool = False
    uniq: bool = True  # extra unique columns, foreign keys may refer to them
    reuse_cols: bool = True
    data_cols: tuple = ("int", "str")
    min_key: int = 1
    auto: bool = False
    same_names: bool = True
    pk_names: tuple = ("own", "own", "id")
    extra_ddl: bool = False
    fk_to_uniq: bool = True
    odd: bool = True  # names that need quoting
    single_fk: bool = False  # only single-column foreign keys


def _parents_rows(w: dict, ref: str) -> List[dict]:
    return w["_dict_rows"][ref]


@st.composite
def world(draw, o: Opts) -> dict:
    n = draw(st.integers(o.min_tables, o.max_tables))
    labels = draw(st.permutations(list(range(n))))
    odd = draw(st.sampled_from([("", "")] * 6 + ODD_NAMES)) if o.odd else ("", "")
    two = o.schemas > 1 and draw(st.integers(0, 2)) > 0
    tables: List[dict] = []
    keys: Dict[str, List[List[str]]] = {}  # referencable column sets
    types: Dict[str, Dict[str, str]] = {}
    for i in range(n):
        schema = "s2" if two and draw(st.booleans()) else "s1"
        short = f"t{labels[i]}{odd[0]}"
        if two:
            # tables of one name in both schemas
            twins = [t["name"].split(".")[1] for t in tables if t["name"].split(".")[0] != schema]
            twins = [x for x in twins if f"{schema}.{x}" not in types]
            if twins and draw(st.integers(0, 2)) == 0:
                short = draw(st.sampled_from(twins))
        if tables and draw(st.integers(0, 5)) == 0:
            # like a generated alias of another table
            like = f"{draw(st.sampled_from(tables))['name'].split('.')[1]}_1"
            if f"{schema}.{like}" not in types:
                short = like
        name = f"{schema}.{short}"
        cols: List[dict] = []
        fks: List[dict] = []
        uniq: List[List[str]] = []

        def add(cname: str, typ: str, null: bool, cols=cols) -> str:
            if not cname.endswith(odd[1]):
                cname += odd[1]
            base, k = cname, 1
            while any(c["n"] == cname for c in cols):
                k += 1
                cname = f"{base}_{k}"
            cols.append({"n": cname, "t": typ, "null": null})
            return cname

        nfk = draw(st.sampled_from(o.fk_counts)) if i else 0
        for _ in range(nfk):
            cand = [t for t in tables if keys[t["name"]] and (o.dialect != "sqlite" or t["name"].split(".")[0] == schema)]
            if not cand:
                break
            same = {fk["ref"].split(".")[1] for fk in fks}
            same = [t for t in cand if t["name"].split(".")[1] in same and t["name"] not in [fk["ref"] for fk in fks]]
            if same and draw(st.booleans()):
                cand = same  # a table of the same name in the other schema
            ref = draw(st.sampled_from(cand[::-1]))["name"]
            rkeys = keys[ref] if o.fk_to_uniq else keys[ref][:1]
            if o.single_fk:
                rkeys = [k for k in rkeys if len(k) == 1]
                if not rkeys:
                    continue
            rcols = draw(st.sampled_from(rkeys))
            nullable = o.nullable_fk and draw(st.booleans())
            fcols: List[str] = []
            for j, rc in enumerate(rcols):
                typ = types[ref][rc]
                pick = None
                if o.reuse_cols and len(rcols) > 1 and j == 0:
                    same = [c for c in cols if c["t"] == typ]
                    if same and draw(st.integers(0, 2)) == 0:
                        pick = draw(st.sampled_from(same))["n"]
                if pick is None:
                    style = draw(st.integers(0, 2)) if o.same_names else 1
                    pick = add(rc if style == 0 else f"f{len(cols)}", typ, nullable)
                fcols.append(pick)
            if len(set(fcols)) != len(fcols):
                continue
            fk = {"cols": fcols, "ref": ref, "rcols": list(rcols)}
            if fk not in fks:
                fks.append(fk)
        kinds = [k for k in o.pk_kinds if k not in ("shared", "fkcomp") or fks]
        kind = draw(st.sampled_from(kinds))
        pkname = "id" if draw(st.sampled_from(o.pk_names)) == "id" else f"{short}_id"
        auto: Any = False
        if kind == "int":
            pk = [add(pkname, "int", False)]
            if o.auto and draw(st.booleans()):
                auto = "seq"
                cols[-1]["auto"] = "seq"
        elif kind == "str":
            pk = [add(pkname, "str", False)]
        elif kind == "comp":
            pk = [add("k1", "int", False), add("k2", draw(st.sampled_from(o.key_types)), False)]
        elif kind == "shared":
            pk = list(fks[0]["cols"])
        elif kind == "fkcomp":
            pk = list(fks[0]["cols"])
            if len(fks) > 1 and draw(st.booleans()):
                pk += [c for c in fks[1]["cols"] if c not in pk]
            else:
                pk.append(add("k", "int", False))
        else:
            pk = []
        for c in cols:
            if c["n"] in pk:
                c["null"] = False
        if pk and draw(st.integers(0, 3)) == 0:
            pk = pk[::-1]
        # others may refer to a table without a primary key by its unique columns
        if o.uniq and draw(st.integers(0, 3 if pk else 1)) == 0:
            u = [add("u", draw(st.sampled_from(o.key_types)), draw(st.booleans()))]
            if draw(st.integers(0, 2)) == 0:
                u.append(add("v", "int", draw(st.booleans())))
            uniq.append(u)
        for typ in o.data_cols:
            if draw(st.integers(0, 3)):
                add("x" if typ == "int" else "d", typ, draw(st.integers(0, 3)) > 0)
        if not cols:
            add("x", "int", True)
        if draw(st.integers(0, 3)) == 0:
            # the key need not come first
            k = draw(st.integers(0, len(cols) - 1))
            cols[:] = cols[k:] + cols[:k]
        t = {"name": name, "cols": cols, "pk": pk, "uniq": uniq, "fks": fks}
        tables.append(t)
        keys[name] = ([pk] if pk else []) + uniq
        types[name] = {c["n"]: c["t"] for c in cols}

    drows: Dict[str, List[dict]] = {}
    rows: Dict[str, List[list]] = {}
    for t in tables:
        # mostly several rows, sometimes none
        nrows = draw(st.sampled_from([o.max_rows // 2, o.max_rows, 1, 0] + list(range(2, o.max_rows + 1)) * 2))
        out: List[dict] = []
        seen = [set() for _ in [t["pk"]] + t["uniq"]]
        fkcols = {c for fk in t["fks"] for c in fk["cols"]}
        colt = {c["n"]: c for c in t["cols"]}
        for _ in range(nrows):
            vals: Dict[str, Any] = {}
            ok = True
            for fk in t["fks"]:
                parents = drows[fk["ref"]]
                free = [c for c in fk["cols"] if c not in vals]
                bound = [(c, r) for c, r in zip(fk["cols"], fk["rcols"]) if c in vals]
                if any(vals[c] is None for c, _ in bound):
                    # already satisfied by a NULL; fill the rest arbitrarily
                    for c in free:
                        vals[c] = None if colt[c]["null"] else (draw(st.integers(o.min_key, 9)) if colt[c]["t"] == "int" else draw(st.sampled_from(STR_POOL)))
                    continue
                compat = [p for p in parents if all(vals[c] == p[r] for c, r in bound) and all(p[r] is not None for r in fk["rcols"])]
                k = draw(st.integers(0, max(5, len(compat) + 1)))
                if k < 5 and compat:
                    k %= len(compat)
                if o.dangling and free and k > len(compat) and draw(st.integers(0, 2)) == 0:
                    for c in free:
                        vals[c] = 77 if colt[c]["t"] == "int" else "zz"
                    continue
                nullfree = [c for c in free if colt[c]["null"]]
                if k < len(compat) or (compat and not nullfree):
                    p = compat[k % len(compat)]
                    for c, r in zip(fk["cols"], fk["rcols"]):
                        vals[c] = p[r]
                elif nullfree:
                    some = nullfree if len(nullfree) == 1 or draw(st.booleans()) else nullfree[:1]
                    for c in free:
                        if c in some:
                            vals[c] = None
                        else:
                            src = [p[r] for p in parents for cc, r in zip(fk["cols"], fk["rcols"]) if cc == c and p[r] is not None]
                            vals[c] = src[k % len(src)] if src else (1 if colt[c]["t"] == "int" else "a")
                else:
                    ok = False
                    break
            if not ok:
                continue
            for c in t["cols"]:
                if c["n"] in vals:
                    continue
                if c["null"] and draw(st.integers(0, 4)) == 0:
                    vals[c["n"]] = None
                elif c["t"] == "int":
                    vals[c["n"]] = draw(st.integers(o.min_key if c["n"] in t["pk"] else 0, 12))
                else:
                    vals[c["n"]] = draw(st.sampled_from(STR_POOL))
            for j, key in enumerate([t["pk"]] + t["uniq"]):
                if not key:
                    continue
                kv = tuple(vals[c] for c in key)
                if None in kv:
                    continue
                if kv in seen[j]:
                    tune = [c for c in key if c not in fkcols]
                    if not tune:
                        ok = False
                        break
                    c = tune[0]
                    for tries in range(1, 60):
                        vals[c] = tries * 3 + len(out) if colt[c]["t"] == "int" else f"k{tries}{len(out)}"
                        kv = tuple(vals[c] for c in key)
                        if kv not in seen[j]:
                            break
                    else:
                        ok = False
                        break
            if not ok:
                continue
            # a tuned column may belong to an earlier key too: check all of them again
            kvs = [tuple(vals[c] for c in key) for key in [t["pk"]] + t["uniq"]]
            if any(key and None not in kv and kv in seen[j] for j, (key, kv) in enumerate(zip([t["pk"]] + t["uniq"], kvs))):
                continue
            for j, kv in enumerate(kvs):
                seen[j].add(kv)
            out.append(vals)
        drows[t["name"]] = out
        rows[t["name"]] = [[r[c["n"]] for c in t["cols"]] for r in out]
    return {"tables": tables, "rows": rows}


def by_name(w: dict) -> Dict[str, dict]:
    return {t["name"]: t for t in w["tables"]}


def col_values(w: dict, t: dict, col: str) -> List[Any]:
    i = [c["n"] for c in t["cols"]].index(col)
    return [r[i] for r in w["rows"][t["name"]] if r[i] is not None]


# ------------------------------------------------------------------ conditions


def atom(draw, w: dict, t: dict) -> Any:
    # conditions become raw SQL, where :x is a parameter and \\ has a meaning of its own
    c = draw(st.sampled_from([c for c in t["cols"] if not set(c["n"]) & set(":\\")]))
    vals = sorted(set(map(str if c["t"] == "str" else int, col_values(w, t, c["n"])))) if c["t"] in ("int", "str") else []
    k = draw(st.integers(0, 3))
    if k == 0 or c["t"] not in ("int", "str"):
        return ["null", c["n"], draw(st.booleans())]
    vals = [v for v in vals if c["t"] == "int" or not set(v) & set(":\\")]
    v = draw(st.sampled_from(vals)) if vals else (3 if c["t"] == "int" else "a")
    return ["op", draw(st.sampled_from(["=", "<", ">", "<>"])) if c["t"] == "int" else draw(st.sampled_from(["=", "<>"])), c["n"], v]


def cond(draw, w: dict, t: dict, depth: int) -> Any:
    k = draw(st.integers(0, 4)) if depth else 0
    if k <= 1:
        return atom(draw, w, t)
    if k == 2:
        return ["not", cond(draw, w, t, depth - 1)]
    return ["or" if k == 3 else "and", cond(draw, w, t, depth - 1), cond(draw, w, t, depth - 1)]


def sql_text(c: Any, q) -> str:
    """Raw SQL of a condition; deliberately without outer parentheses."""
    op = c[0]
    if op == "null":
        return f"{q(c[1])} IS {'NOT ' if c[2] else ''}NULL"
    if op == "op":
        v = str(c[3]) if isinstance(c[3], int) else "'" + c[3].replace("'", "''") + "'"
        return f"{q(c[2])} {c[1]} {v}"
    if op == "not":
        return f"NOT ({sql_text(c[1], q)})"

    def sub(x):
        s = sql_text(x, q)
        return f"({s})" if x[0] in ("or", "and") and x[0] != op else s

    return f" {op.upper()} ".join(sub(x) for x in c[1:])


# ------------------------------------------------------------------ planner configurations


@dataclasses.dataclass
class POpts:
    max_targets: int = 3
    random: bool = False  # amount / percent targets
    constraints: bool = True
    ignore: bool = True
    passthrough: bool = True
    ignore_fks: bool = True
    extra_fks: bool = True
    infer: bool = True
    nodeps: bool = True
    select: bool = True
    sql: bool = True
    target_kinds: tuple = ("in", "in", "in", "all", "like", "sql", "mixed", "empty")


def target_filter(draw, w: dict, t: dict, p: POpts) -> dict:
    kind = draw(st.sampled_from([k for k in p.target_kinds if p.sql or k != "sql"]))
    strs = [c["n"] for c in t["cols"] if c["t"] == "str"]
    simple = [c["n"] for c in t["cols"] if c["t"] in ("int", "str")]
    out: Dict[str, Any] = {}
    if kind == "like" and not strs:
        kind = "in"
    if kind in ("in", "mixed") and simple:
        if t["pk"] and draw(st.integers(0, 2)):
            col = draw(st.sampled_from([c for c in t["pk"]]))
        else:
            col = draw(st.sampled_from(simple))
        vals = sorted(set(col_values(w, t, col)), key=str)
        chosen = [v for v in vals if draw(st.integers(0, 2))]
        if draw(st.integers(0, 4)) == 0:
            chosen.append(555 if not vals or isinstance(vals[0], int) else "nope")
        typ = {c["n"]: c["t"] for c in t["cols"]}[col]
        chosen = [v for v in chosen if isinstance(v, int) == (typ == "int")]
        out["in"] = {col: chosen}
    if kind == "all":
        out["all"] = True
        if draw(st.integers(0, 3)) == 0 and simple:
            out["in"] = {simple[0]: []}
        if draw(st.integers(0, 3)) == 0:
            out["amount"] = draw(st.integers(0, 3))
    if kind == "like" or (kind == "mixed" and strs and draw(st.booleans())):
        out["like"] = {draw(st.sampled_from(strs)): draw(st.lists(st.sampled_from(LIKE_POOL), min_size=1, max_size=2))}
    if kind == "sql" or (kind == "mixed" and p.sql and draw(st.integers(0, 1))):
        out["cond"] = cond(draw, w, t, 2)
    if p.random and "all" not in out:
        k = draw(st.integers(0, 3))
        if k == 0:
            out["amount"] = draw(st.integers(0, 5))
        elif k == 1:
            out["percent"] = draw(st.sampled_from([0, 100, 50, 30.5, 80, 100.0]))
            if draw(st.integers(0, 3)) == 0:
                out["amount"] = draw(st.integers(1, 4))
    return out


def lively(draw, w: dict, t: dict, target: dict) -> dict:
    """Mostly avoid targets that select nothing."""
    names = [c["n"] for c in t["cols"]]
    rows = [dict(zip(names, r)) for r in w["rows"][t["name"]]]
    if not rows or target.get("all") or target.get("amount", 9) == 0 or any(model.matches_target(target, r) for r in rows):
        return target
    if draw(st.integers(0, 4)) == 0:
        return target
    target = {k: v for k, v in target.items() if k in ("amount", "percent")}
    simple = [c["n"] for c in t["cols"] if c["t"] in ("int", "str") and any(r[c["n"]] is not None for r in rows)]
    if not simple:
        return {**target, "all": True}
    col = (t["pk"] or simple)[0]
    col = col if col in simple else simple[0]
    vals = sorted({r[col] for r in rows if r[col] is not None})
    k = draw(st.integers(1, len(vals)))
    target["in"] = {col: vals[:k] if draw(st.booleans()) else vals[-k:]}
    return target


@st.composite
def planner(draw, w: dict, p: POpts) -> dict:
    names = [t["name"] for t in w["tables"]]
    tabs = by_name(w)
    cfg: Dict[str, Any] = {}
    schemas = sorted({n.split(".")[0] for n in names})
    cfg["select"] = [f"{s}.*" for s in schemas]
    if p.select and draw(st.integers(0, 4)) == 4:
        cfg["select"] = draw(
            st.lists(
                st.sampled_from(names + ["s1.t[0-2]", "s1.t?", "s2.*", "s1.*", "*.t1", "s1.t[!3]", "nope.*"]), min_size=1, max_size=4, unique=True
            )
        )
    k = draw(st.sampled_from([j for j in (1, 1, 1, 2, 2, 3) if j <= min(p.max_targets, len(names))]))
    targets = draw(st.permutations(names))[:k]
    cfg["targets"] = {t: lively(draw, w, tabs[t], target_filter(draw, w, tabs[t], p)) for t in targets}
    rest = [n for n in names if n not in targets]
    if p.passthrough and rest and draw(st.integers(0, 2)) == 0:
        cfg["passthrough"] = draw(st.lists(st.sampled_from(rest + (["s1.missing"] if draw(st.integers(0, 3)) == 0 else [])), max_size=3, unique=True))
    if p.ignore and rest and draw(st.integers(0, 3)) == 0:
        cfg["ignore"] = draw(st.lists(st.sampled_from(rest), max_size=2, unique=True))
    edges = sorted({(t["name"], fk["ref"]) for t in w["tables"] for fk in t["fks"]})
    twins = [(a, b) for a, b in edges if any(a == x and b != y and b.split(".")[1] == y.split(".")[1] for x, y in edges)]
    if p.ignore_fks and edges and draw(st.integers(0, 1 if twins else 3)) == 0:
        pick = twins if twins and draw(st.booleans()) else edges
        cfg["ignore_fks"] = [{"src_table": a, "dst_table": b} for a, b in draw(st.lists(st.sampled_from(pick), min_size=1, max_size=2, unique=True))]
        if draw(st.integers(0, 2)) == 0:
            noise = draw(st.sampled_from([("s1.unknown", edges[0][1]), (edges[0][0], "s1.unknown"), ("s1.unknown", "s1.unknown")]))
            cfg["ignore_fks"].insert(draw(st.integers(0, 1)), {"src_table": noise[0], "dst_table": noise[1]})
    if p.extra_fks and len(names) > 1 and draw(st.integers(0, 2)) == 0:
        out = []
        for _ in range(draw(st.integers(1, 2))):
            j = draw(st.integers(1, len(names) - 1))
            i = draw(st.integers(0, j - 1))
            a, b = w["tables"][j], w["tables"][i]
            m = draw(st.sampled_from([1, 1, 1, 2]))
            src: List[str] = []
            dst: List[str] = []
            for _ in range(m):
                # documents cannot be compared
                bc = draw(st.sampled_from([c for c in b["cols"] if c["t"] not in ("json", "jsonb")] or b["cols"]))
                ac = [c for c in a["cols"] if c["t"] == bc["t"] and c["t"] not in ("json", "jsonb") and c["n"] not in src]
                if m == 1 and draw(st.integers(0, 2)) == 0:
                    # a unique column, referring to several rows perhaps
                    ac = [c for c in ac if [c["n"]] in [a["pk"]] + a["uniq"]] or ac
                if not ac or bc["n"] in dst:
                    continue
                src.append(draw(st.sampled_from(ac))["n"])
                dst.append(bc["n"])
            if src:
                out.append({"src_table": a["name"], "src_columns": src, "dst_table": b["name"], "dst_columns": dst})
        while draw(st.booleans()) and len(out) < 5:
            # entries that mean nothing are skipped
            first, last = (w["tables"][i] for i in (0, -1))
            noise = draw(st.sampled_from([
                (names[0], "no_such", names[-1], last["cols"][0]["n"]), (names[0], first["cols"][0]["n"], names[-1], "no_such"),
                ("s1.unknown", "id", names[-1], last["cols"][0]["n"]), (names[0], first["cols"][0]["n"], "s1.unknown", "id"),
            ]))
            out.insert(draw(st.sampled_from([0, *range(len(out) + 1)])), {"src_table": noise[0], "src_columns": [noise[1]], "dst_table": noise[2], "dst_columns": [noise[3]]})
        if out:
            cfg["extra_fks"] = out
    if p.infer and draw(st.integers(0, 2)) == 0:
        mode = draw(st.sampled_from(["schema", "all"]))
        # a column named like a key of another type cannot be joined with it
        types = {t["name"]: {c["n"]: c["t"] for c in t["cols"]} for t in w["tables"]}
        if all(types[fk.src][fk.cols[0]] == types[fk.dst][fk.rcols[0]] for fk in model.inferred_any(w["tables"])):
            cfg["infer_foreign_keys"] = mode
    if p.nodeps and draw(st.integers(0, 5)) == 0:
        cfg["include_dependencies"] = False
    if p.constraints and draw(st.integers(0, 2)) == 0:
        cons: Dict[str, list] = {}
        for n in names:
            if draw(st.integers(0, 2)):
                continue
            t = tabs[n]
            lst = []
            for _ in range(draw(st.integers(1, 2))):
                c = draw(st.sampled_from(t["cols"]))
                if c["t"] == "int":
                    op = draw(st.sampled_from(["<", ">", "=", "<>", "!="]))
                    seen = sorted(set(col_values(w, t, c["n"])))
                    value = draw(st.sampled_from(seen)) if seen and draw(st.integers(0, 2)) else draw(st.integers(0, 9))
                    lst.append({"column": c["n"], "operator": op, "value": value})
                elif c["t"] == "str":
                    op = draw(st.sampled_from(["=", "<>", "!=", "like", "not like"]))
                    lst.append({"column": c["n"], "operator": op, "value": draw(st.sampled_from(LIKE_POOL if "like" in op else STR_POOL))})
            if lst:
                cons[n] = lst
        if cons:
            cfg["table_constraints"] = cons
    return cfg


def real_planner(cfg: dict, q) -> dict:
    """The configuration handed to the code under test (condition trees rendered as raw SQL)."""
    out = dict(cfg)
    targets = {}
    for name, t in cfg["targets"].items():
        t = dict(t)
        c = t.pop("cond", None)
        if c is not None:
            t["sql"] = sql_text(c, q)
        targets[name] = t
    out["targets"] = targets
    return out


def accepted_planner(draw, w: dict, p: POpts, tries: int = 5) -> dict:
    """A planner configuration that is not refused (if one comes up within a few draws)."""
    cfg: dict = {}
    for _ in range(tries):
        cfg = draw(planner(w, p))
        try:
            model.RefPlan(w, cfg)
            return cfg
        except model.Refuse:
            continue
    return cfg
