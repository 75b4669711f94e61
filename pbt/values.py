"""Value and name strategies shared by checks that care about types and naming."""
from __future__ import annotations

from typing import Any, List

from hypothesis import strategies as st

TYPES = {
    "sqlite": ["int", "big", "str", "text", "float", "dec", "bool", "date", "dt", "time", "bin", "json"],
    "postgres": ["int", "big", "str", "text", "float", "dec", "bool", "date", "dt", "time", "bin", "json", "jsonb", "uuid", "tz", "iarr"],
    "mysql": ["int", "big", "str", "text", "float", "dec", "bool", "date", "dt", "time", "bin", "json"],
}

STRINGS = ["", " ", "a", "é", "日本", "\U0001f600x", "it's", 'q"q', "a\nb", "tab\t", "back\\slash", "%s", "%(x)s", ":name", "NULL", "null", "0", "a%b_c", "\x01", "{}", "[1]", "x" * 39, "\u2028", "''", "--", "/*", "$1", "\r\n", "\x7f"]
BIGSTR = ["y" * 300, "z\n" * 700, "ü" * 1000]

_json_leaf = st.one_of(st.booleans(), st.integers(-(10**6), 10**6), st.sampled_from(["", "a", "é", "q\"q", "null", "it's", "%s", "back\\slash"]), st.sampled_from([0.5, -1.25, 1e10]))
_json_leaf_null = st.one_of(st.none(), _json_leaf)


def json_value(depth: int = 2):
    if depth == 0:
        return _json_leaf_null
    sub = json_value(depth - 1)
    return st.one_of(_json_leaf_null, st.lists(sub, max_size=3), st.dictionaries(st.sampled_from(["a", "b", "ké", "x y", ""]), sub, max_size=3))


def value(typ: str, dialect: str = "sqlite", wide: bool = False):
    """A non-NULL value of a column type, in case form; wide has decimals that no float can represent."""
    if typ == "int":
        return st.one_of(st.integers(-9, 20), st.sampled_from([0, 1, -1, 2**31 - 1, -(2**31)]))
    if typ == "big":
        return st.one_of(st.integers(-9, 20), st.sampled_from([2**63 - 1, -(2**63), 2**53 + 1, -(2**53) - 1, 2**31]))
    if typ == "str":
        return st.one_of(st.sampled_from(STRINGS), st.text(st.characters(min_codepoint=32, max_codepoint=0x2FFF, exclude_categories=("Cs",)), max_size=12))
    if typ == "text":
        return st.one_of(st.sampled_from(STRINGS + BIGSTR), st.text(st.characters(min_codepoint=1, max_codepoint=0x1FFFF, exclude_categories=("Cs",)), max_size=20))
    if typ == "float":
        return st.one_of(st.sampled_from([0.0, 0.1, -1.5, 1e-300, 1.7976931348623157e308, 1 / 3, 123456789.123456789, 5e-324 if dialect != "mysql" else 2.5]), st.floats(-1e12, 1e12, allow_nan=False, allow_subnormal=False))
    if typ == "dec":
        top = 10**24 - 1 if wide and dialect != "sqlite" else 10**13
        return st.one_of(st.integers(-(10**13), 10**13), st.integers(-top, top)).map(lambda i: f"{'-' if i < 0 else ''}{abs(i) // 10000}.{abs(i) % 10000:04d}")
    if typ == "bool":
        return st.booleans()
    if typ == "date":
        return st.dates(min_value=__import__("datetime").date(1000, 1, 1)).map(lambda d: d.isoformat())
    if typ in ("dt", "tz"):
        import datetime

        base = st.datetimes(min_value=datetime.datetime(1000, 1, 2), max_value=datetime.datetime(9999, 12, 30))
        if typ == "tz":
            return base.map(lambda d: d.isoformat(sep=" ", timespec="microseconds") + "+00:00")
        return base.map(lambda d: d.isoformat(sep=" ", timespec="microseconds"))
    if typ == "time":
        return st.times().map(lambda d: d.isoformat(timespec="microseconds"))
    if typ == "bin":
        return st.one_of(st.binary(max_size=12), st.sampled_from([b"", b"\x00", b"\xff\xfe", b"it's", b"%s\\", bytes(range(256))])).map(lambda b: b.hex())
    if typ in ("json", "jsonb"):
        return json_value().filter(lambda v: v is not None)
    if typ == "uuid":
        return st.uuids().map(str)
    if typ == "iarr":
        return st.lists(st.integers(-9, 99), max_size=4)
    raise AssertionError(typ)


# names that need quoting, escaping or care with parameter naming
NAMES = [
    "a", "select", "Order", "MiXed", "with space", "ünï", "a%b", "x:y", "p(q)", "dash-ed", "q'uote", "1st", "group", "_u", "table", "from",
    "per%s", "%(x)s", 'dq"x', "back`tick", "user", "key", "values", "[b]", "star*", "q?", "semi;x", "日本", "index", "UPPER", "a$b", "a#b", "x__y", "id",
    "long_" + "n" * 40, "a,b", "tab\tx",
]
TABLE_NAMES = NAMES


def names(n_min: int, n_max: int, pool: List[str] = None, dialect: str = "", keys: bool = False):
    """Distinct names, also when case is ignored; with keys, of columns whose keys are reflected."""
    if keys and dialect != "postgres":
        # SQLAlchemy does not reflect keys with such characters in column names
        pool = [n for n in pool or NAMES if not set(n) & set("()" if dialect == "mysql" else "()\"")]
    if dialect == "mysql":
        # SQLAlchemy cannot reflect MySQL names with backticks
        pool = [n for n in pool or NAMES if "`" not in n]
    if dialect == "postgres":
        # nor PostgreSQL foreign keys with a comma in a column name
        pool = [n for n in pool or NAMES if "," not in n]
    return st.lists(st.sampled_from(pool or NAMES), min_size=n_min, max_size=n_max, unique_by=lambda s: s.lower())
