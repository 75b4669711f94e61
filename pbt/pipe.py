"""Reference pipeline: from a plan's exact sample to the rows a destination must hold after
compaction, multiplicity and merging; and generators for those settings."""
from __future__ import annotations

import collections
from typing import Any, Dict, List, Optional, Set, Tuple

from hypothesis import strategies as st

import model
from core import Skip
from model import FK, RefPlan, Refuse, Sampled


def deterministic(cfg: dict) -> bool:
    return not any(model.is_random(t) for t in cfg["targets"].values())


def exact_sample(ref: RefPlan, src: Sampled, tables: List[dict]) -> Sampled:
    """Rows of every planned table for a configuration without random targets."""
    out = Sampled(tables)
    names = [t["name"] for t in tables]
    for n in names:
        if n in ref.passthrough:
            out.rows[n] = [dict(r) for r in src.rows[n]]
    todo = [n for n in names if n in ref.tables]
    done: Set[str] = set()
    while todo:
        for n in todo:
            needs = {fk.src for fk in ref.union_of[n]} | {fk.dst for fk in ref.inter_of[n] if n not in ref.targets}
            needs.discard(n)
            if needs <= done:
                break
        else:
            raise AssertionError("no sampling order")
        target = ref.targets.get(n)
        cons = ref.constraints.get(n, [])
        rows = []
        for r in src.rows[n]:
            keep = bool(ref.union_of[n]) and model.dep_match(ref, n, r, out)
            if not keep and target is not None:
                keep = model.matches_target(target, r) and model.meets_constraints(cons, r)
            elif not keep and ref.inter_of[n]:
                keep = model.inter_match(ref, n, r, out) and model.meets_constraints(cons, r)
            if keep:
                rows.append(dict(r))
        if target is not None and ref.union_of[n] and not src.tabs[n]["pk"]:
            # usually combined as sets
            if len({repr(model.hashable(tuple(r.values()))) for r in rows}) < len(rows):
                raise Skip("indistinguishable rows")
        out.rows[n] = rows
        done.add(n)
        todo.remove(n)
    return out


def sampler_fks(w: dict, names: List[str], infer: str = "none") -> List[FK]:
    """Foreign keys the sampler works with: declared ones plus those inferred among the plan's tables."""
    inside = set(names)
    tabs = [t for t in w["tables"] if t["name"] in inside]
    fks = [FK(t["name"], fk["cols"], fk["ref"], fk["rcols"]) for t in tabs for fk in t["fks"]]
    fks += model.inferred(tabs, infer, fks)
    return fks


# ------------------------------------------------------------------ compaction


def is_autoinc(t: dict, dialect: str) -> bool:
    if len(t["pk"]) != 1:
        return False
    col = {c["n"]: c for c in t["cols"]}[t["pk"][0]]
    if any(col["n"] in fk["cols"] for fk in t["fks"]):
        return False
    return bool(col.get("auto")) or (dialect == "sqlite" and col["t"] == "int")


class Pipe:
    """Settings resolved against a schema. Raises Refuse where the run has to be refused;
    `ambiguous` is set where a column refers to two different renumbered keys."""

    def __init__(self, w: dict, ref: RefPlan, names: List[str], sampler: dict, dialect: str) -> None:
        self.w, self.ref, self.names = w, ref, list(names)
        self.tabs = {t["name"]: t for t in w["tables"]}
        self.infer = sampler.get("infer_foreign_keys", "none")
        self.fks = sampler_fks(w, names, self.infer)
        self.passthrough = set(ref.passthrough)
        self.ambiguous = False
        # compaction
        comp = sampler.get("compact", {})
        self.start = comp.get("start_key", 1)
        self.compact: Dict[str, Set[str]] = {}
        for t, cols in comp.get("columns", {}).items():
            if cols and t in names and t not in self.passthrough:
                self.compact[t] = set(cols)
        if comp.get("primary_keys") or comp.get("auto_increment_keys"):
            for t in names:
                tab = self.tabs[t]
                if t in self.passthrough or len(tab["pk"]) != 1:
                    continue
                col = {c["n"]: c for c in tab["cols"]}[tab["pk"][0]]
                if col["t"] not in ("int", "big"):
                    continue
                if comp.get("primary_keys") or is_autoinc(tab, dialect):
                    self.compact.setdefault(t, set()).add(col["n"])
        for fk in self.fks:
            if set(fk.cols) & self.compact.get(fk.src, set()):
                raise Refuse("compact-fk", fk)
        # column -> (table, column, ((column there, column here), ...)) it is renumbered after
        self.remote: Dict[Tuple[str, str], Tuple[str, str, tuple]] = {}
        self.partial = False
        for t in names:
            own = {c["n"]: c["n"] for c in self.tabs[t]["cols"]}
            for c in own:
                if c in self.compact.get(t, ()):
                    continue
                found = self._remote(t, c, own, set())
                if len(found) > 1:
                    self.ambiguous = True
                if found:
                    self.remote[(t, c)] = min(found)
        for fk in self.fks:
            for a, b in zip(fk.cols, fk.rcols):
                if (fk.src, a) in self.remote and fk.dst in self.names and b not in self.compact.get(fk.dst, ()) and (fk.dst, b) not in self.remote:
                    self.ambiguous = True  # has to change for one key and must not change for another
        # multiplicity
        mult = sampler.get("multiplicity", {})
        self.m = mult.get("multiplier", 1)
        self.mult: Dict[str, Set[str]] = {}
        self.mult_tables: Set[str] = set()
        if self.m > 1:
            ignored = self.passthrough | set(mult.get("ignore_tables", []))
            cols: Dict[str, Set[str]] = {}
            for t in names:
                if t not in ignored:
                    cols[t] = set(mult.get("extra_columns", {}).get(t, []))
                    cols[t] |= set(self.tabs[t]["pk"]) - set(mult.get("ignore_primary_key_columns", {}).get(t, []))
            changed = True
            while changed:
                changed = False
                for fk in self.fks:
                    for a, b in zip(fk.cols, fk.rcols):
                        if b in cols.get(fk.dst, ()):
                            if fk.src in ignored:
                                raise Refuse("unmultiplied-reference", fk)
                            if a not in cols[fk.src]:
                                cols[fk.src].add(a)
                                changed = True
            for t, cs in cols.items():
                types = {c["n"]: c["t"] for c in self.tabs[t]["cols"]}
                for c in cs:
                    if types[c] not in ("int", "big"):
                        raise Refuse("non-integer", (t, c))
            self.mult = cols
            self.mult_tables = set(cols)
            for fk in self.fks:
                if fk.dst in names:
                    for a, b in zip(fk.cols, fk.rcols):
                        # a multiplied column whose references stay as they are
                        if a in cols.get(fk.src, ()) and b not in cols.get(fk.dst, ()):
                            self.ambiguous = True

    def _remote(self, t: str, c: str, cols: Dict[str, str], seen: set) -> Set[Tuple[str, str, tuple]]:
        if c in self.compact.get(t, ()):
            return {(t, c, tuple(sorted(cols.items())))}
        if (t, c) in seen:
            return set()
        out: Set[Tuple[str, str, tuple]] = set()
        for fk in self.fks:
            if fk.src == t and fk.dst in self.names and c in fk.cols:
                known = {b: cols[a] for a, b in zip(fk.cols, fk.rcols) if a in cols}
                for a, b in zip(fk.cols, fk.rcols):
                    if a == c:
                        sub = self._remote(fk.dst, b, known, seen | {(t, c)})
                        if sub and len(known) < len(fk.cols):
                            self.partial = True  # the row referred to is not determined by this table's columns
                        out |= sub
        return out

    def compacted(self, plain: Sampled, order: Optional[Dict[str, Dict[tuple, int]]] = None) -> Sampled:
        """Apply compaction. `order` ranks primary keys (as the source database orders them).
        Rows of tables without a primary key are numbered in any order."""
        ids: Dict[str, List[Tuple[dict, int]]] = {}
        self.unresolved: Set[Tuple[str, str]] = set()
        out = Sampled(list(plain.tabs.values()))
        for t in self.names:
            pk = self.tabs[t]["pk"]
            rows = [dict(r) for r in plain.rows[t]]
            if t in self.compact:
                if pk:
                    rank = (order or {}).get(t)
                    rows.sort(key=lambda r: rank[tuple(r[c] for c in pk)] if rank else tuple(r[c] for c in pk))
                ids[t] = [(dict(r), self.start + i) for i, r in enumerate(rows)]
                for i, r in enumerate(rows):
                    for c in self.compact[t]:
                        r[c] = self.start + i
            out.rows[t] = rows
        for t in self.names:
            mine = [(c, x) for (tt, c), x in self.remote.items() if tt == t]
            for r in out.rows[t]:
                new = {}
                for c, (dt, _, pairs) in mine:
                    hit = [i for x, i in ids.get(dt, ()) if all(r[a] is not None and x[b] == r[a] for b, a in pairs)]
                    if len(hit) == 1:
                        new[c] = hit[0]
                    elif r[c] is not None:
                        self.unresolved.add((t, c))
                r.update(new)
        return out

    def lacking(self) -> bool:
        """Whether a reference is left without a value that must have one: the settings of the
        sampler make a column refer to rows the plan does not know it refers to."""
        return any(not {x["n"]: x for x in self.tabs[t]["cols"]}[c].get("null") for t, c in self.unresolved)

    def multiplied(self, rows: Sampled) -> Sampled:
        out = Sampled(list(rows.tabs.values()))
        for t in self.names:
            if t not in self.mult_tables:
                out.rows[t] = rows.rows[t]
                continue
            lst = []
            for r in rows.rows[t]:
                for i in range(self.m):
                    x = dict(r)
                    for c in self.mult[t]:
                        if x[c] is not None:
                            x[c] = x[c] * self.m + i
                    lst.append(x)
            out.rows[t] = lst
        return out

    def merge_offsets(self, dst: Dict[str, List[dict]]) -> Dict[str, Dict[str, int]]:
        """Column shifts per (source) table when merging into a destination with these rows."""
        off: Dict[str, Dict[str, int]] = {t: {} for t in self.names if t not in self.passthrough}
        own: Dict[str, int] = {}
        for t in off:
            pk = self.tabs[t]["pk"]
            if len(pk) != 1:
                continue
            typ = {c["n"]: c["t"] for c in self.tabs[t]["cols"]}[pk[0]]
            if typ not in ("int", "big"):
                continue
            vals = [r[pk[0]] for r in dst[t]]
            own[t] = max(vals) + 1 if vals else 0

        def key_shift(t: str, seen: tuple = ()) -> Optional[int]:
            """Shift of the key of table t (the key's own, or that of the row it refers to)."""
            if t not in own:
                return None
            for fk in self.fks:
                if fk.src == t and list(fk.cols) == list(self.tabs[t]["pk"]) and self.refers_key(fk) and fk.dst not in seen:
                    return key_shift(fk.dst, seen + (t,))
            return own[t]

        for t in off:
            if t in own:
                off[t][self.tabs[t]["pk"][0]] = key_shift(t) or 0
        for fk in self.fks:
            if fk.src in off and len(fk.cols) == 1 and fk.dst in off and self.refers_key(fk):
                s = key_shift(fk.dst)
                if s is not None:
                    off[fk.src][fk.cols[0]] = s
        return off

    def refers_key(self, fk: FK) -> bool:
        return fk.dst in self.tabs and list(fk.rcols) == list(self.tabs[fk.dst]["pk"])

    def shifted(self, rows: Sampled, off: Dict[str, Dict[str, int]]) -> Sampled:
        out = Sampled(list(rows.tabs.values()))
        for t in self.names:
            lst = []
            for r in rows.rows[t]:
                x = dict(r)
                for c, o in off.get(t, {}).items():
                    if x[c] is not None:
                        x[c] += o
                lst.append(x)
            out.rows[t] = lst
        return out


def key_order(env, w: dict, names: List[str]) -> Dict[str, Dict[tuple, int]]:
    """Primary keys with text columns, ranked by the source database."""
    out = {}
    for t in w["tables"]:
        types = {c["n"]: c["t"] for c in t["cols"]}
        if t["name"] in names and t["pk"] and any(types[c] == "str" for c in t["pk"]):
            cols = ", ".join(env.q(c) for c in t["pk"])
            keys = env.select("src", f"SELECT {cols} FROM {env.fq(t['name'])} ORDER BY {cols}")
            out[t["name"]] = {tuple(k): i for i, k in enumerate(keys)}
    return out


def bag(rows: List[dict], cols: Optional[List[str]] = None) -> collections.Counter:
    return collections.Counter(model.hashable(tuple(r[c] for c in (r if cols is None else cols))) for r in rows)


def diff(have: List[dict], want: List[dict], cols: List[str]) -> Optional[str]:
    a, b = bag(have, cols), bag(want, cols)
    if a == b:
        return None
    return f"missing {model.fmt(b - a)}, unexpected {model.fmt(a - b)} (columns {cols})"


# ------------------------------------------------------------------ generators


def gen_compact(draw, w: dict, names: List[str], dialect: str, *, explicit=True) -> dict:
    out: Dict[str, Any] = {}
    k = draw(st.integers(0, 5))
    if k in (0, 1, 2):
        out["primary_keys"] = True
    elif k == 3:
        out["auto_increment_keys"] = True
    if explicit and (k >= 4 or draw(st.integers(0, 3)) == 0):
        cols: Dict[str, List[str]] = {}
        for t in w["tables"]:
            ints = [c["n"] for c in t["cols"] if c["t"] == "int" and not c.get("gen")]
            free = [c for c in ints if not any(c in fk["cols"] for fk in t["fks"])]
            pool = free if draw(st.integers(0, 9)) else ints
            if pool and draw(st.booleans()):
                cols[t["name"]] = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=2, unique=True))
        if draw(st.integers(0, 7)) == 0:
            cols["s1.nope"] = ["id"]
        if cols:
            out["columns"] = cols
    if draw(st.booleans()):
        out["start_key"] = draw(st.sampled_from([1, 0, 10, 100, 5]))
    return out


def gen_multiplicity(draw, w: dict, names: List[str]) -> dict:
    out: Dict[str, Any] = {"multiplier": draw(st.sampled_from([2, 3, 2, 5, 1]))}
    if draw(st.integers(0, 3)) == 0:
        out["ignore_tables"] = draw(st.lists(st.sampled_from(names), max_size=2, unique=True))
    if draw(st.integers(0, 2)) == 0:
        extra: Dict[str, List[str]] = {}
        for t in w["tables"]:
            ints = [c["n"] for c in t["cols"] if c["t"] == "int"]
            if ints and draw(st.integers(0, 2)) == 0:
                extra[t["name"]] = draw(st.lists(st.sampled_from(ints), min_size=1, max_size=2, unique=True))
        if extra:
            out["extra_columns"] = extra
    if draw(st.integers(0, 3)) == 0:
        ign: Dict[str, List[str]] = {}
        for t in w["tables"]:
            if len(t["pk"]) > 1 and draw(st.booleans()):
                ign[t["name"]] = [draw(st.sampled_from(t["pk"]))]
        if ign:
            out["ignore_primary_key_columns"] = ign
    return out


def data_columns(w: dict, t: dict) -> List[dict]:
    """Columns that are part of no key, no unique constraint and no foreign key on either end."""
    used = set(t["pk"]) | {c for u in t["uniq"] for c in u} | {c for fk in t["fks"] for c in fk["cols"]}
    for o in w["tables"]:
        for fk in o["fks"]:
            if fk["ref"] == t["name"]:
                used |= set(fk["rcols"])
    return [c for c in t["cols"] if c["n"] not in used and not c.get("gen")]


def with_notes(draw, w: dict, sampler: dict) -> dict:
    """The world with filtered columns, that play no other part, at any position of some tables.
    Adds the filters to the sampler settings."""
    tables, rows = [], dict(w["rows"])
    filters = sampler.setdefault("filters", {})
    for t in w["tables"]:
        if draw(st.booleans()):
            at = draw(st.sampled_from([0, 0, *range(len(t["cols"]) + 1)]))
            cols = [*t["cols"][:at], {"n": "note", "t": "str", "null": True}, *t["cols"][at:]]
            rows[t["name"]] = [[*r[:at], "n", *r[at:]] for r in rows[t["name"]]]
            t = {**t, "cols": cols}
            how = draw(st.sampled_from(["omit", "omit", "null", "constant", "zero"]))
            filters[t["name"]] = [{"op": how, "columns": ["note"], **({"values": ["K"]} if how == "constant" else {})}]
        tables.append(t)
    if not filters:
        del sampler["filters"]
    return {**w, "tables": tables, "rows": rows}


def shuffle_columns(draw, w: dict) -> dict:
    """The world with the columns of some tables in another order."""
    tables, rows = [], dict(w["rows"])
    for t in w["tables"]:
        if draw(st.booleans()):
            at = draw(st.permutations(list(range(len(t["cols"])))))
            t = {**t, "cols": [t["cols"][i] for i in at]}
            rows[t["name"]] = [[r[i] for i in at] for r in rows[t["name"]]]
        tables.append(t)
    return {**w, "tables": tables, "rows": rows}


def filter_notes(sampler: dict, data: Sampled) -> Sampled:
    for n, (f,) in sampler.get("filters", {}).items():
        for r in data.rows.get(n, []):
            r["note"] = {"constant": "K", "zero": ""}.get(f["op"])
    return data


def gen_filters(draw, w: dict, names: List[str], *, omit=True) -> Dict[str, list]:
    """Simple filters on columns that play no part in keys."""
    out: Dict[str, list] = {}
    for t in w["tables"]:
        cols = data_columns(w, t)
        if t["name"] not in names or not cols or draw(st.booleans()):
            continue
        lst = []
        left = [c for c in cols]
        for _ in range(draw(st.integers(1, 2))):
            if not left:
                break
            c = draw(st.sampled_from(left))
            kinds = ["zero", "random_int"] if c["t"] == "int" else ["zero", "uuid", "random_string"]
            if c["t"] not in ("int", "str"):
                continue
            if c.get("null"):
                kinds += ["null", "constant"]
                if omit:
                    kinds.append("omit")
            k = draw(st.sampled_from(kinds))
            f: Dict[str, Any] = {"op": k, "columns": [c["n"]]}
            if k == "random_int":
                f.update(low=900, high=999)
            if k == "random_string":
                f.update(length=12, alphabet="alpha_upper")
            if k == "constant":
                f["values"] = [None if draw(st.integers(0, 2)) == 0 else (777 if c["t"] == "int" else "CONST")]
            if k == "omit":
                left = [x for x in left if x is not c]
            lst.append(f)
        if lst:
            out[t["name"]] = lst
    return out


def maybe_infer(draw, w: dict, cfg: dict, sampler: dict) -> None:
    """Sometimes infer foreign keys, in planning and sampling alike."""
    if draw(st.integers(0, 3)):
        return
    mode = draw(st.sampled_from(["schema", "all"]))
    types = {t["name"]: {c["n"]: c["t"] for c in t["cols"]} for t in w["tables"]}
    if any(types[fk.src][fk.cols[0]] != types[fk.dst][fk.rcols[0]] for fk in model.inferred_any(w["tables"])):
        return
    try:
        RefPlan(w, {**cfg, "infer_foreign_keys": mode})
    except Refuse:
        return
    cfg["infer_foreign_keys"] = mode
    sampler["infer_foreign_keys"] = mode
