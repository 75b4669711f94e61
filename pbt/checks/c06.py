"""C06: plan queries return what their syntax tree denotes; simplifying keeps that."""
import collections
import copy

from hypothesis import strategies as st

import flow
import model
import worlds
from core import Sub, must_succeed

STR = ["a", "ab", "b", "b c", "c_d", ""]
LIKES = ["a%", "%b%", "_", "%", "ab", "c_d", "%c%"]
PKS = [["id"], ["id"], ["k1", "k2"], []]


def make_tables(draw, n):
    tables, rows = [], {}
    for i in range(n):
        pk = draw(st.sampled_from(PKS))
        cols = [{"n": c, "t": "int", "null": False} for c in pk]
        cols += [{"n": c, "t": "int", "null": True} for c in ("a", "b")] + [{"n": "s", "t": "str", "null": True}]
        name = f"s1.t{i}"
        out, seen = [], set()
        for r in range(draw(st.integers(0, 6))):
            row = [draw(st.integers(0, 3)) for _ in pk]
            if pk and tuple(row) in seen:
                row[0] = 4 + r
            seen.add(tuple(row[: len(pk)]))
            row += [draw(st.one_of(st.none(), st.integers(0, 3), st.integers(0, 3))) for _ in range(2)]
            row.append(draw(st.one_of(st.none(), st.sampled_from(STR), st.sampled_from(STR))))
            out.append(row)
        tables.append({"name": name, "cols": cols, "pk": pk, "uniq": [], "fks": []})
        rows[name] = out
    return tables, rows


class Gen:
    def __init__(self, draw, tables, random=True) -> None:
        self.draw, self.tables = draw, {t["name"]: t for t in tables}
        self.names = [t["name"] for t in tables]

    def ident(self, upto):
        """Any table, sampled only if it comes before the one being planned."""
        name = self.draw(st.sampled_from(self.names))
        sampled = self.names.index(name) < upto and self.draw(st.integers(0, 2)) > 0
        return {"schema": "s1", "table": name[3:], "sampled": sampled}

    def cols(self, ident, typ):
        return [c["n"] for c in self.tables["s1." + ident["table"]]["cols"] if c["t"] == typ]

    def value(self, typ):
        return self.draw(st.integers(0, 3)) if typ == "int" else self.draw(st.sampled_from(STR))

    def cond(self, ident, depth, upto, raw):
        d = self.draw
        kinds = ["operator", "operator", "in", "in", "true", "false", "random"] + (["sql", "sql"] if raw else [])
        if depth:
            kinds += ["and", "and", "or", "or", "or", "insel", "insel"]
        k = d(st.sampled_from(kinds))
        if k == "operator":
            typ = d(st.sampled_from(["int", "int", "str"]))
            op = d(st.sampled_from(["<", ">", "=", "<>", "!="] if typ == "int" else ["=", "<>", "!=", "like", "not like"]))
            return {"type": "operator", "operator": op, "column": d(st.sampled_from(self.cols(ident, typ))), "value": d(st.sampled_from(LIKES)) if "like" in op else self.value(typ)}
        if k in ("in", "insel"):
            typs = d(st.sampled_from([["int"], ["int"], ["str"], ["int", "int"], ["int", "str"]]))
            cols = [d(st.sampled_from(self.cols(ident, t))) for t in typs]
            out = {"type": "in", "columns": cols, "negated": d(st.booleans())}
            if k == "in":
                out["values"] = [[self.value(t) for t in typs] for _ in range(d(st.integers(0, 3)))]
            else:
                out["values"] = self.statement(typs, depth - 1, upto)
            return out
        if k in ("and", "or"):
            if d(st.integers(0, 3)) == 0:
                return {"type": k, "conditions": self.siblings(ident)}
            return {"type": k, "conditions": [self.cond(ident, depth - 1, upto, raw) for _ in range(d(st.integers(0, 3)))]}
        if k == "random":
            return {"type": "random", "threshold": d(st.sampled_from([-1, 0, 1, 1.5]))}
        if k == "sql":
            t = self.tables["s1." + ident["table"]]
            tree = worlds.cond(d, {"rows": {t["name"]: [[2] * len(t["cols"])]}, "tables": []}, {**t, "cols": [c for c in t["cols"] if c["t"] == "int"]}, 2)
            return {"type": "sql", "tree": tree, "style": d(st.integers(0, 5))}
        return {"type": k}

    def siblings(self, ident):
        """Several conditions about the same columns."""
        d = self.draw
        typs = d(st.sampled_from([["int"], ["int"], ["str"], ["int", "int"], ["int", "str"]]))
        cols = [d(st.sampled_from(self.cols(ident, t))) for t in typs]
        negated = d(st.booleans())
        out = []
        for _ in range(d(st.integers(2, 4))):
            how = d(st.integers(0, 7))
            if how == 0 and out:
                out.append(d(st.sampled_from(out)))
            elif how == 1:
                out.append({"type": "operator", "operator": d(st.sampled_from(["=", "<>", "<", ">"])), "column": cols[0], "value": self.value(typs[0])})
            else:
                values = [[self.value(t) for t in typs] for _ in range(d(st.sampled_from([1, 1, 2, 3])))]
                out.append({"type": "in", "columns": cols, "values": values, "negated": negated if how < 6 else not negated})
        return out

    def select(self, typs, depth, upto, ident=None, limit=False):
        d = self.draw
        ident = ident or self.ident(upto)
        out = {"type": "select", "from": ident}
        if typs is not None:
            out["columns"] = [d(st.sampled_from(self.cols(ident, t))) for t in typs]
            if len(set(out["columns"])) < len(typs):
                out["columns"] = ["a", "b"] if len(typs) == 2 else ["a", "s", "b"]
        if d(st.integers(0, 2)) == 0:
            joins = []
            for _ in range(d(st.integers(1, 3))):
                right = self.ident(upto)
                kt = d(st.sampled_from([["int"], ["int"], ["int"], ["str"], ["int", "int"]]))
                lc = d(st.permutations(self.cols(ident, kt[0])))[: len(kt)]
                rc = d(st.permutations(self.cols(right, kt[0])))[: len(kt)]
                joins.append({"right": right, "left_columns": lc, "right_columns": rc, "half_unique": d(st.booleans())})
            out["joins"] = joins
            out["joins_outer"] = d(st.booleans())
        if d(st.integers(0, 4)):
            out["where"] = self.cond(ident, depth, upto, raw="joins" not in out)
        if limit and d(st.integers(0, 3)) == 0:
            out["limit"] = d(st.integers(0, 4))
        return out

    def statement(self, typs, depth, upto, ident=None, limit=False):
        if self.draw(st.integers(0, 2)):
            return self.select(typs, depth, upto, ident, limit)
        n = self.draw(st.integers(1, 3))
        if limit and typs is not None:
            # the parts of a table's query have the same columns
            parts = [self.select(typs, depth, upto, ident, limit) for _ in range(n)]
            return {"type": "union", "statements": [{**p, "columns": parts[0]["columns"]} for p in parts]}
        if limit and self.draw(st.integers(0, 2)) == 0:
            # parts of one table with one limit
            parts = [self.select(typs, depth, upto, ident, False) for _ in range(max(2, n))]
            most = self.draw(st.integers(0, 3))
            return {"type": "union", "statements": [{**{k: v for k, v in p.items() if not k.startswith("joins")}, "limit": most} for p in parts]}
        if ident is None and typs is not None and self.draw(st.booleans()):
            ident = self.ident(upto)
        parts = [self.select(typs, depth, upto, ident, limit) for _ in range(n)]
        if ident is not None and typs is not None and n > 1 and self.draw(st.booleans()):
            # the same columns in any order
            for part in parts:
                for typ in set(typs):
                    at = [i for i, x in enumerate(typs) if x == typ]
                    names = [parts[0]["columns"][i] for i in at]
                    for i, name in zip(at, self.draw(st.permutations(names))):
                        part["columns"] = part["columns"][:i] + [name] + part["columns"][i + 1 :]
                for key in ("joins", "joins_outer"):
                    part.pop(key, None)
        return {"type": "union", "statements": parts}


# ------------------------------------------------------------------ interpreter


class World:
    def __init__(self, source, sampled) -> None:
        self.source, self.sampled = source, sampled

    def rows(self, ident):
        return (self.sampled if ident.get("sampled") else self.source)["s1." + ident["table"]]


def ev(c, row, w):
    k = c["type"]
    if k == "true":
        return True
    if k == "false":
        return False
    if k == "random":
        return c["threshold"] >= 1
    if k == "operator":
        return model.compare(c["operator"], row[c["column"]], c["value"])
    if k == "and":
        return model.and3(ev(x, row, w) for x in c["conditions"])
    if k == "or":
        return model.or3(ev(x, row, w) for x in c["conditions"])
    if k == "sql":
        return model.eval_cond(c["tree"], row)
    if k == "in":
        left = [row[x] for x in c["columns"]]
        vals = c["values"] if isinstance(c["values"], list) else [list(r) for r in flat(c["values"], w)]
        res = model.or3(model.and3(model.compare("=", a, b) for a, b in zip(left, v)) for v in vals)
        return model.not3(res) if c["negated"] else res
    raise AssertionError(c)


def select_rows(s, w):
    out = []
    for row in w.rows(s["from"]):
        joins = s.get("joins") or []
        if joins:
            hits = [
                any(all(row[a] is not None and row[a] == r[b] for a, b in zip(j["left_columns"], j["right_columns"])) for r in w.rows(j["right"]))
                for j in joins
            ]
            if not (any(hits) if s.get("joins_outer") else all(hits)):
                continue
        if s.get("where") and ev(s["where"], row, w) is not True:
            continue
        out.append({k: row[k] for k in (s.get("columns") or row)})
    return out


def flat(s, w):
    """Rows of an unlimited statement as tuples."""
    if s["type"] == "select":
        return [tuple(r.values()) for r in select_rows(s, w)]
    return sorted({t for x in s["statements"] for t in flat(x, w)}, key=repr)


# ------------------------------------------------------------------ rendering


def to_sql(tree, q, params, names, depth=0):
    """Raw SQL with some literals bound as parameters."""
    op = tree[0]
    if op == "op":
        if names is None:
            return worlds.sql_text(tree, q)
        p = names[len(params) % len(names)]
        if p in params and params[p] != tree[3]:
            return worlds.sql_text(tree, q)
        params[p] = tree[3]
        return f"{q(tree[2])} {tree[1]} :{p}"
    if op == "null":
        return worlds.sql_text(tree, q)
    if op == "not":
        return f"NOT ({to_sql(tree[1], q, params, names, 1)})"
    s = f" {op.upper()} ".join("(" + to_sql(x, q, params, names, 1) + ")" if x[0] in ("and", "or") else to_sql(x, q, params, names, 1) for x in tree[1:])
    return s


def render(node, q):
    """Turn the case's tree into the dictionary a plan holds."""
    if isinstance(node, list):
        return [render(x, q) for x in node]
    if not isinstance(node, dict):
        return node
    if node.get("type") == "sql":
        style, params = node["style"], {}
        text = to_sql(node["tree"], q, params, ["p", "a_1"] if style in (1, 2) else None)
        if style == 3:
            text += " -- trailing comment"
        if style == 4:
            text = " " + text + "\n"
        out = {"type": "sql", "sql": text}
        if params:
            out["sql_params"] = params
        return out
    return {k: render(v, q) for k, v in node.items()}


def count_nodes(node, out):
    if isinstance(node, list):
        for x in node:
            count_nodes(x, out)
    elif isinstance(node, dict):
        if "type" in node:
            out.add(node["type"] + (":sub" if isinstance(node.get("values"), dict) else ""))
        if node.get("joins"):
            out.add("outer" if node.get("joins_outer") else "inner")
        for v in node.values():
            count_nodes(v, out)


# ------------------------------------------------------------------ executing


def strategy(dialect, tier):
    @st.composite
    def build(draw):
        tables, rows = make_tables(draw, draw(st.integers(1, 4)))
        gen = Gen(draw, tables)
        queries = {}
        depth = 3 if tier == "thorough" else 2
        for i, t in enumerate(tables):
            ident = {"schema": "s1", "table": t["name"][3:], "sampled": False}
            k = draw(st.integers(0, 9))
            if k == 0 and i:
                queries[t["name"]] = {"raw": worlds.cond(draw, {"rows": rows, "tables": tables}, {**t, "cols": [c for c in t["cols"] if c["t"] == "int"]}, 2), "style": draw(st.integers(0, 2))}
            else:
                typs = None
                if i == len(tables) - 1 and k == 1:
                    typs = draw(st.sampled_from([["int"], ["str", "int"]]))
                queries[t["name"]] = {"statement": gen.statement(typs, depth, i, ident, limit=True)}
        return {"tables": tables, "rows": rows, "queries": queries}

    return build()


def compare(t, query, got, w, ctx, how):
    name = t["name"]
    names = [c["n"] for c in t["cols"]]
    have = [tuple(r[n] for n in names) for r in got.rows[name]]
    if "raw" in query:
        want = [tuple(r[n] for n in names) for r in w.source[name] if model.eval_cond(query["raw"], r) is True]
        ctx.check(collections.Counter(have) == collections.Counter(want), "%s: raw query for %s returned %r instead of %r", how, name, have, want)
        return want
    s = query["statement"]
    parts = s["statements"] if s["type"] == "union" else [s]
    total = []
    must, may, allowed, low = collections.Counter(), collections.Counter(), 0, 0
    for p in parts:
        rows = [tuple(r.get(n) for n in names) for r in select_rows(p, w)]
        total += rows
        if p.get("limit") is None:
            must.update(rows)
        else:
            may.update(rows)
            allowed += min(p["limit"], len(rows))
            low = max(low, min(p["limit"], len(rows)))
    haves = collections.Counter(have)
    whole = t["pk"] and not parts[0].get("columns")
    if s["type"] == "union":
        if not whole:
            haves = collections.Counter(set(haves))
            low = min(low, 1)
        must = collections.Counter(set(must))
        may = collections.Counter(set(may))
    missing, extra = must - haves, haves - must - (may if s["type"] == "union" else may - must)
    ctx.check(not missing and not extra, "%s: query for %s misses %r and returns %r in addition (columns %r)", how, name, sorted(missing, key=repr), sorted(extra, key=repr), names)
    drawn = sum((haves - must).values())
    ctx.check(drawn <= allowed, "%s: query for %s draws %d rows, limits allow %d", how, name, drawn, allowed)
    ctx.check(sum(v for k, v in haves.items() if k in may) >= low, "%s: query for %s draws too few of %r (limits)", how, name, sorted(may, key=repr))
    return total


def run(case, ctx):
    from subsetter.plan_model import SubsetPlan

    env, tables = ctx.env, case["tables"]
    flow.load(env, {"tables": tables, "rows": case["rows"]})
    loose = [{**t, "pk": [], "cols": [{**c, "null": True} for c in t["cols"]]} for t in tables]
    flow.create_dst(env, loose, fk=False)
    source = {t["name"]: [dict(zip([c["n"] for c in t["cols"]], r)) for r in case["rows"][t["name"]]] for t in tables}
    queries = {}
    for t in tables:
        q = case["queries"][t["name"]]
        if "raw" in q:
            params = {}
            cols = [c["n"] for c in t["cols"]]
            sel = "*" if q["style"] == 0 else ", ".join(env.q(c) for c in cols[::-1])
            text = to_sql(q["raw"], env.q, params, ["p", "q2"] if q["style"] == 2 else None)
            queries[t["name"]] = {"sql": f"SELECT {sel} FROM {env.fq(t['name'])} WHERE {text}"}
            if params:
                queries[t["name"]]["sql_params"] = params
            ctx.tag("raw-query")
        else:
            queries[t["name"]] = {"statement": render(q["statement"], env.q)}
    kinds = set()
    count_nodes(case["queries"], kinds)
    ctx.tag(*kinds)
    plan = SubsetPlan(**copy.deepcopy({"queries": queries}))
    with must_succeed("simplifying"):
        simple = SubsetPlan(queries={n: {"statement": q.statement.simplify()} if q.statement is not None else q for n, q in plan.queries.items()})
    for how, p in (("as given", plan), ("simplified", simple)):
        env.run("dst", [f"DELETE FROM {env.fq(env.dst(t['name']))}" for t in tables])
        with must_succeed(f"sampling ({how})"):
            flow.run_sample(env, p)
        got = flow.read_all(env, "dst", loose, env.dst)
        w = World(source, got.rows)
        for t in tables:
            want = compare(t, case["queries"][t["name"]], got, w, ctx, how)
            if want and len(want) < len(source[t["name"]]):
                ctx.nontrivial = True


# ------------------------------------------------------------------ simplifying alone


def simplify_strategy(dialect, tier):
    @st.composite
    def build(draw):
        tables, rows = make_tables(draw, draw(st.integers(1, 3)))
        gen = Gen(draw, tables)
        ident = {"schema": "s1", "table": "t0", "sampled": False}
        if draw(st.booleans()):
            return {"rows": rows, "tables": tables, "statement": gen.statement(draw(st.sampled_from([None, None, ["int", "int"], ["int", "str", "int"]])), draw(st.integers(1, 4)), 0, ident, limit=False)}
        return {"rows": rows, "tables": tables, "statement": {"type": "select", "from": ident, "where": gen.cond(ident, draw(st.integers(1, 4)), 0, raw=False)}}

    return build()


def strip_raw(node):
    """Raw SQL becomes an opaque fragment whose text identifies its meaning."""
    if isinstance(node, list):
        return [strip_raw(x) for x in node]
    if isinstance(node, dict):
        if node.get("type") == "sql":
            import json

            return {"type": "sql", "sql": json.dumps(node["tree"])}
        return {k: strip_raw(v) for k, v in node.items()}
    return node


def read_back(node):
    if isinstance(node, list):
        return [read_back(x) for x in node]
    if isinstance(node, dict):
        if node.get("type") == "sql":
            import json

            return {"type": "sql", "tree": json.loads(node["sql"])}
        return {k: read_back(v) for k, v in node.items()}
    return node


def run_simplify(case, ctx):
    from subsetter.plan_model import SQLTableQuery

    given = SQLTableQuery(**copy.deepcopy({"statement": strip_raw(case["statement"])})).statement
    before = given.model_dump(by_alias=True)
    with must_succeed("simplifying"):
        once = given.simplify()
        twice = once.simplify()
    ctx.check(given.model_dump(by_alias=True) == before, "simplifying changed its operand")
    ctx.check(twice.model_dump() == once.model_dump(), "simplifying twice changes more: %r, then %r", once.model_dump(by_alias=True, exclude_none=True), twice.model_dump(by_alias=True, exclude_none=True))
    source = {t["name"]: [dict(zip([c["n"] for c in t["cols"]], r)) for r in case["rows"][t["name"]]] for t in case["tables"]}
    w = World(source, source)
    a = set(flat(case["statement"], w))
    b = set(flat(read_back(once.model_dump(by_alias=True)), w))
    ctx.check(a == b, "simplified statement denotes %r instead of %r: %r", sorted(b, key=repr), sorted(a, key=repr), once.model_dump(by_alias=True, exclude_none=True))
    if once.model_dump() != given.model_dump():
        ctx.tag("changed")
        ctx.nontrivial = bool(source["s1.t0"])
    if a and len(a) < len(source["s1.t0"]):
        ctx.tag("partial")


SUBS = [
    Sub(
        name="execute",
        run=run,
        strategy=strategy,
        dialects=("sqlite", "postgres", "mysql"),
        quick={"sqlite": 110, "postgres": 60, "mysql": 30},
        thorough={"sqlite": 2500, "postgres": 1200, "mysql": 500},
        rule="a generated plan (selects, unions, nested conditions and sub-selects, joins, limits, raw SQL), executed as given and simplified; non-trivial if some query returns part of its table",
    ),
    Sub(
        name="simplify",
        run=run_simplify,
        strategy=simplify_strategy,
        dialects=("none",),
        quick=800,
        thorough=20000,
        rule="a generated statement, simplified and interpreted; non-trivial if simplifying changes it and the table has rows",
    ),
]
