"""Reference model: what a plan must contain and which rows each table's sample must have."""
from __future__ import annotations

import collections
import glob
import re
from fnmatch import fnmatchcase
from typing import Any, Dict, List, Optional, Set, Tuple


class Refuse(Exception):
    def __init__(self, kind: str, detail: Any = None) -> None:
        super().__init__(kind)
        self.kind = kind
        self.detail = detail


class FK:
    __slots__ = ("src", "cols", "dst", "rcols", "origin")

    def __init__(self, src: str, cols, dst: str, rcols, origin: str = "declared") -> None:
        self.src, self.cols, self.dst, self.rcols, self.origin = src, tuple(cols), dst, tuple(rcols), origin

    def key(self):
        return (self.src, self.cols, self.dst, self.rcols)

    def __repr__(self) -> str:
        return f"{self.src}{self.cols}->{self.dst}{self.rcols}"


def closure(start, edges) -> Set[str]:
    seen = set(start)
    todo = list(seen)
    while todo:
        u = todo.pop()
        for v in edges.get(u, ()):
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


def declared(world: dict) -> List[FK]:
    return [FK(t["name"], fk["cols"], fk["ref"], fk["rcols"]) for t in world["tables"] for fk in t["fks"]]


def inferred(tables: List[dict], mode: str, existing: List[FK]) -> List[FK]:
    """Foreign keys inference adds among `tables`."""
    if mode in (None, "none"):
        return []
    owners: Dict[Any, List[str]] = collections.defaultdict(list)
    for t in tables:
        if len(t["pk"]) == 1:
            owners[(t["name"].split(".")[0] if mode == "schema" else None, t["pk"][0])].append(t["name"])
    have = {fk.key() for fk in existing}
    out = []
    for t in tables:
        for c in t["cols"]:
            cands = owners.get((t["name"].split(".")[0] if mode == "schema" else None, c["n"]), [])
            if len(cands) == 1 and cands[0] != t["name"]:
                fk = FK(t["name"], [c["n"]], cands[0], [c["n"]], "inferred")
                if fk.key() not in have:
                    out.append(fk)
    return out


def inferred_any(tables: List[dict]) -> List[FK]:
    """Every foreign key inference could add for some subset of the tables."""
    return [
        FK(t["name"], [c["n"]], o["name"], [c["n"]], "inferred")
        for t in tables
        for o in tables
        if o["name"] != t["name"] and len(o["pk"]) == 1
        for c in t["cols"]
        if c["n"] == o["pk"][0]
    ]


class RefPlan:
    """Reference planning result. Raises Refuse if planning must be refused."""

    def __init__(self, world: dict, cfg: dict) -> None:
        tabs = {t["name"]: t for t in world["tables"]}
        passthrough = set(cfg.get("passthrough", []))
        ignore = set(cfg.get("ignore", []))
        deps = cfg.get("include_dependencies", True)
        dfks = declared(world)
        pats = cfg["select"] + [glob.escape(n) for n in cfg.get("passthrough", [])]
        cand = {n for n in tabs if any(fnmatchcase(n, p) for p in pats)}
        if deps:
            fwd = collections.defaultdict(set)
            for fk in dfks:
                fwd[fk.src].add(fk.dst)
            cand = closure(cand, fwd)
        self.candidates = cand
        fks = [fk for fk in dfks if fk.src in cand]
        fks += inferred([t for t in world["tables"] if t["name"] in cand], cfg.get("infer_foreign_keys", "none"), fks)
        dropped = {(i["src_table"], i["dst_table"]) for i in cfg.get("ignore_fks", [])}
        fks = [fk for fk in fks if (fk.src, fk.dst) not in dropped]
        for x in cfg.get("extra_fks", []):
            if x["src_table"] not in cand or x["dst_table"] not in cand:
                continue
            scols = {c["n"] for c in tabs[x["src_table"]]["cols"]}
            dcols = {c["n"] for c in tabs[x["dst_table"]]["cols"]}
            if set(x["src_columns"]) <= scols and set(x["dst_columns"]) <= dcols:
                fks.append(FK(x["src_table"], x["src_columns"], x["dst_table"], x["dst_columns"], "extra"))
        self.fks = fks
        if deps:
            for fk in fks:
                if fk.src not in ignore and fk.dst in ignore:
                    raise Refuse("ignored-reference", fk)
        for fk in fks:
            if fk.src in passthrough and fk.dst not in passthrough:
                raise Refuse("passthrough-reference", fk)
        self.passthrough = {n for n in passthrough if n in cand}
        # a missing passthrough table is dropped from the plan, but stays outside of the graph
        graph = {n for n in cand if n not in passthrough and n not in ignore}
        self.graph = graph
        out: Dict[str, Set[str]] = {n: set() for n in graph}
        back: Dict[str, Set[str]] = {n: set() for n in graph}
        for fk in fks:
            if fk.src in graph and fk.dst in graph:
                out[fk.src].add(fk.dst)
                back[fk.dst].add(fk.src)
        for t in cfg["targets"]:
            if t not in graph:
                raise Refuse("target", t)
        self.out, self.back = out, back
        both = {n: out[n] | back[n] for n in graph}
        self.tables = closure(cfg["targets"], both)
        cyc = find_cycle({n: out[n] for n in self.tables})
        if cyc:
            raise Refuse("cycle", cyc)
        self.phase: Dict[str, int] = {}
        frontier = set(cfg["targets"])
        p = 1
        seen = closure(frontier, out)
        for n in seen:
            self.phase[n] = p
        while True:
            p += 1
            nxt = closure(set(self.phase), back if p % 2 == 0 else out) - set(self.phase)
            # one extra empty phase is possible before the frontier is exhausted
            if not nxt and not (closure(set(self.phase), out if p % 2 == 0 else back) - set(self.phase)):
                break
            for n in nxt:
                self.phase[n] = p
        self.targets = cfg["targets"]
        self.cfg = cfg
        self.constraints = cfg.get("table_constraints", {})
        # foreign keys relevant to each planned table, by direction
        self.union_of: Dict[str, List[FK]] = {n: [] for n in self.tables}
        self.inter_of: Dict[str, List[FK]] = {n: [] for n in self.tables}
        for fk in fks:
            if fk.src not in self.tables or fk.dst not in self.tables:
                continue
            if self.phase[fk.dst] % 2 == 1 and self.phase[fk.src] <= self.phase[fk.dst]:
                self.union_of[fk.dst].append(fk)
            else:
                self.inter_of[fk.src].append(fk)
        for n in self.tables:
            if self.constraints.get(n) and self.union_of[n]:
                raise Refuse("constraint", n)

    def kept_fks(self) -> List[FK]:
        """Foreign keys that must hold in the output."""
        inside = self.tables | self.passthrough
        return [fk for fk in self.fks if fk.src in inside and fk.dst in inside]


def find_cycle(graph: Dict[str, Set[str]]) -> Optional[List[str]]:
    deg = {u: 0 for u in graph}
    for u in graph:
        for v in graph[u]:
            deg[v] = deg.get(v, 0) + 1
    todo = [u for u in graph if not deg[u]]
    left = set(graph)
    while todo:
        u = todo.pop()
        left.discard(u)
        for v in graph[u]:
            deg[v] -= 1
            if not deg[v]:
                todo.append(v)
    return sorted(left) if left else None


# ------------------------------------------------------------------ conditions


def like(value: Optional[str], pattern: str, ci: bool = False) -> Optional[bool]:
    if value is None:
        return None
    rx = "".join(".*" if ch == "%" else "." if ch == "_" else re.escape(ch) for ch in pattern)
    return re.fullmatch(rx, value, re.S | (re.I if ci else 0)) is not None


def compare(op: str, a: Any, b: Any) -> Optional[bool]:
    if a is None or b is None:
        return None
    if op == "=":
        return a == b
    if op in ("<>", "!="):
        return a != b
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "like":
        return like(a, b)
    if op == "not like":
        return not like(a, b)
    raise AssertionError(op)


def and3(vals) -> Optional[bool]:
    vals = list(vals)
    if any(v is False for v in vals):
        return False
    if any(v is None for v in vals):
        return None
    return True


def or3(vals) -> Optional[bool]:
    vals = list(vals)
    if any(v is True for v in vals):
        return True
    if any(v is None for v in vals):
        return None
    return False


def not3(v: Optional[bool]) -> Optional[bool]:
    return None if v is None else not v


def eval_cond(c: Any, row: Dict[str, Any]) -> Optional[bool]:
    op = c[0]
    if op == "null":
        return (row[c[1]] is None) != c[2]
    if op == "op":
        return compare(c[1], row[c[2]], c[3])
    if op == "not":
        return not3(eval_cond(c[1], row))
    if op == "and":
        return and3(eval_cond(x, row) for x in c[1:])
    if op == "or":
        return or3(eval_cond(x, row) for x in c[1:])
    raise AssertionError(c)


def matches_target(target: dict, row: Dict[str, Any]) -> bool:
    """Does the row meet the deterministic filters of the target?"""
    if target.get("all"):
        return True
    if "percent" in target and target["percent"] <= 0:
        return False
    for col, vals in target.get("in", {}).items():
        if row[col] is None or row[col] not in vals:
            return False
    for col, pats in target.get("like", {}).items():
        if not all(like(row[col], p) for p in pats):
            return False
    if "cond" in target and eval_cond(target["cond"], row) is not True:
        return False
    return True


def is_random(target: dict) -> bool:
    if target.get("all"):
        return False
    return "amount" in target or ("percent" in target and 0 < target["percent"] < 100)


def meets_constraints(cons: List[dict], row: Dict[str, Any]) -> bool:
    return all(compare(c["operator"], row[c["column"]], c["value"]) is True for c in cons)


class Sampled:
    """Samples as lists of row dicts per table."""

    def __init__(self, tables: List[dict]) -> None:
        self.tabs = {t["name"]: t for t in tables}
        self.rows: Dict[str, List[Dict[str, Any]]] = {}
        self._idx: Dict[Tuple[str, Tuple[str, ...]], Set[tuple]] = {}

    def set(self, name: str, rows: List[tuple]) -> None:
        names = [c["n"] for c in self.tabs[name]["cols"]]
        self.rows[name] = [dict(zip(names, r)) for r in rows]
        self._idx = {k: v for k, v in self._idx.items() if k[0] != name}

    def values(self, name: str, cols: Tuple[str, ...]) -> Set[tuple]:
        key = (name, cols)
        if key not in self._idx:
            self._idx[key] = {kv for r in self.rows[name] if None not in (kv := tuple(r[c] for c in cols))}
        return self._idx[key]


def dep_match(plan: RefPlan, name: str, row: Dict[str, Any], got: Sampled) -> bool:
    """Is the row pulled in by a previously sampled table (union direction)?"""
    for fk in plan.union_of[name]:
        kv = tuple(row[c] for c in fk.rcols)
        if None not in kv and kv in got.values(fk.src, fk.cols):
            return True
    return False


def inter_match(plan: RefPlan, name: str, row: Dict[str, Any], got: Sampled) -> bool:
    for fk in plan.inter_of[name]:
        kv = tuple(row[c] for c in fk.cols)
        if None in kv or kv not in got.values(fk.dst, fk.rcols):
            return False
    return True


def check_table(plan: RefPlan, name: str, src: Sampled, got: Sampled) -> Optional[str]:
    """Compare one table's sample with what it must be, given the actual samples of the
    tables sampled before it. Returns a message if wrong."""
    names = [c["n"] for c in src.tabs[name]["cols"]]

    def tup(r):
        return tuple(r[n] for n in names)

    have = collections.Counter(map(hashable, map(tup, got.rows[name])))
    allrows = collections.Counter(map(hashable, map(tup, src.rows[name])))
    target = plan.targets.get(name)
    cons = plan.constraints.get(name, [])
    as_set = target is not None and not src.tabs[name]["pk"] and (plan.union_of[name] or False)
    must: collections.Counter = collections.Counter()
    may: collections.Counter = collections.Counter()
    for r in src.rows[name]:
        t = hashable(tup(r))
        dep = dep_match(plan, name, r, got) if plan.union_of[name] else False
        hit = False
        if target is not None:
            hit = matches_target(target, r) and meets_constraints(cons, r)
        elif plan.inter_of[name]:
            hit = inter_match(plan, name, r, got) and meets_constraints(cons, r)
        if dep or (hit and not (target and is_random(target))):
            must[t] += 1
        elif hit:
            may[t] += 1
    if as_set:
        must, may, have = (collections.Counter(set(x)) for x in (must, may, have))
    missing = must - have
    extra = have - must - may
    if missing or extra:
        return f"table {name}: missing rows {fmt(missing)}, unexpected rows {fmt(extra)} (columns {names})"
    if target is not None and is_random(target) and "amount" in target:
        percent = target.get("percent", 100)
        optional = sum((have - must).values())
        total_hits = sum(1 for r in src.rows[name] if matches_target(target, r) and meets_constraints(cons, r))
        # rows that match and are pulled in anyway may or may not be among the drawn ones
        both = sum(1 for r in src.rows[name] if matches_target(target, r) and meets_constraints(cons, r) and plan.union_of[name] and dep_match(plan, name, r, got))
        want = min(target["amount"], total_hits)
        if not as_set:
            if optional > want:
                return f"table {name}: {optional} rows beyond the required ones, amount allows {want}"
            if percent >= 100 and optional < want - both:
                return f"table {name}: only {optional} drawn rows, at least {want - both} expected"
    return None


def hashable(v: Any) -> Any:
    if isinstance(v, (list, tuple)):
        return tuple(hashable(x) for x in v)
    if isinstance(v, dict):
        return ("{}",) + tuple(sorted((k, hashable(x)) for k, x in v.items()))
    if isinstance(v, bool):
        return ("bool", v)
    return v


def fmt(counter: collections.Counter) -> str:
    items = list(counter.elements())
    return repr(items[:6]) + (f" (+{len(items) - 6})" if len(items) > 6 else "")
