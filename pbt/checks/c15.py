"""C15: filters change exactly the listed columns, as their operation promises."""
import collections
import datetime as dt
import decimal
import fnmatch
import random
import re
import string
import uuid

from hypothesis import strategies as st

from core import Skip, Sub, must_succeed

COLS = ["a", "b", "id", "with space", "ünï", "A", "x:y", "%s", "select", "email", ""]
ALPHA = {
    "alnum": string.ascii_letters + string.digits, "hex": string.digits + "abcdef", "hex_lower": string.digits + "abcdef", "hex_upper": string.digits + "ABCDEF", "digit": string.digits,
    "alpha": string.ascii_letters, "alpha_lower": string.ascii_lowercase, "alpha_upper": string.ascii_uppercase,
}
FAKES = [  # and license_plate, which is a known finding
    "email", "first_name", "last_name", "name", "phone_number", "vin", "address", "building_number", "city", "state", "state_abbr", "country", "country_code", "postal_code",
    "street_address", "street_name", "latitude", "longitude",
]
WIDE = ["email", "name", "phone_number", "address", "street_address", "vin", "latitude"]

# ------------------------------------------------------------------ values


def enc(v):
    if isinstance(v, dt.datetime):
        return {"dt": v.isoformat()}
    if isinstance(v, dt.date):
        return {"d": v.isoformat()}
    if isinstance(v, decimal.Decimal):
        return {"dec": str(v)}
    if isinstance(v, bytes):
        return {"b": v.hex()}
    return v


def dec(v):
    if isinstance(v, dict):
        ((k, x),) = v.items()
        return {"dt": dt.datetime.fromisoformat, "d": dt.date.fromisoformat, "dec": decimal.Decimal, "b": bytes.fromhex, "raw": lambda y: y}[k](x)
    return v


SCALAR = st.one_of(
    st.none(), st.booleans(), st.integers(-3, 5), st.sampled_from([2**63, -(2**70), 1000, 1001]), st.sampled_from([0.0, 1.0, -2.5, 1e300]),
    st.sampled_from(["", "a", "abc", "A*", "x\ny", "日本", "%s", "1", "a1", "b2"]),
)
VALUE = st.one_of(
    SCALAR, SCALAR,
    st.sampled_from([dt.datetime(2020, 2, 29, 1, 2, 3, 4), dt.datetime(1999, 1, 1, tzinfo=dt.timezone.utc), dt.datetime(2000, 1, 1, 5, tzinfo=dt.timezone(dt.timedelta(hours=-7)))]).map(enc),
    st.sampled_from([dt.date(2020, 1, 1), decimal.Decimal("1.50"), b"\x00\xff"]).map(enc), st.sampled_from([{"raw": [1, 2]}, {"raw": {"k": None}}]),
)


def same(a, b):
    """Equal, of the same type, deeply."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dt.datetime):
        return a == b and a.utcoffset() == b.utcoffset()
    return a == b


# ------------------------------------------------------------------ generators


@st.composite
def simple(draw, cols, omit=True):
    """A valid simple filter on some of the columns."""
    some = draw(st.lists(st.sampled_from(cols), min_size=1, max_size=3, unique=True))
    kinds = ["zero", "null", "constant", "random_int", "random_float", "random_string", "uuid", "random_uuid", "plugin", "plugin", "fake", "fake"]
    if omit and len(cols) > 1:
        kinds += ["omit", "omit"]
    k = draw(st.sampled_from(kinds))
    f = {"op": k, "columns": some}
    if k == "constant":
        f["values"] = [draw(SCALAR) for _ in some]
        if any(isinstance(v, int) and abs(v) > 2**62 for v in f["values"]):
            f["values"] = [7] * len(some)
    elif k == "random_int":
        f["low"] = draw(st.integers(-5, 5))
        f["high"] = f["low"] + draw(st.sampled_from([0, 1, 2, 2**40]))
    elif k == "random_float":
        f["low"] = draw(st.sampled_from([0.0, -1.5, 3, 1e6]))
        f["high"] = f["low"] + draw(st.sampled_from([0, 0.25, 10]))
    elif k == "random_string":
        f["length"] = draw(st.sampled_from([0, 1, 2, 16, 40]))
        a = draw(st.sampled_from([None, "custom"] + sorted(ALPHA)))
        if a:
            f["alphabet"] = a
        if a == "custom":
            f["custom_alphabet"] = draw(st.sampled_from(["x", "ab", "日é", "%s "]))
    elif k == "plugin":
        f.update({"module": "vtplugin", "class": draw(st.sampled_from(["Tag", "function"]))})
        if draw(st.booleans()):
            f["kwargs"] = {"suffix": draw(st.sampled_from(["x", ""])), "times": draw(st.integers(0, 9))}
    elif k == "fake":
        kind = draw(st.sampled_from(FAKES))
        f["op"] = "fake_" + kind
        if kind in WIDE and draw(st.booleans()):
            f["unique"] = True
    elif k == "omit" and len(some) == len(cols):
        f["columns"] = some[1:]
    return f


@st.composite
def multiplex(draw, cols, rows=None):
    conds = []
    for _ in range(draw(st.integers(0, 4))):
        op = draw(st.sampled_from(["is", "is not", "in", "not in", "=", "!=", "<", ">", "<=", ">=", "matches"]))
        if op in ("in", "not in"):
            v = draw(st.lists(SCALAR, max_size=3))
        elif op == "matches":
            v = draw(st.sampled_from(["*", "a*", "?", "A[*]", "[!a]*", "", "abc"]))
        elif op[0] in "<>":
            v = draw(st.one_of(st.integers(-2, 4), st.sampled_from([0.5, "a", "abc", "b"])))
        else:
            v = draw(SCALAR)
        if isinstance(v, int) and abs(v) > 2**62:
            v = 1000
        if isinstance(v, list):
            v = [x for x in v if not (isinstance(x, int) and abs(x) > 2**62)]
        conds.append({"op": op, "value": v, "apply": draw(simple(cols, omit=False))})
    return {"op": "multiplex", "column": draw(st.sampled_from(cols)), "conditions": conds}


@st.composite
def chain(draw, cols):
    cols = list(cols)
    out = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 6]))):
        f = draw(multiplex(cols)) if draw(st.integers(0, 3)) == 0 else draw(simple(cols))
        if f["op"] == "omit":
            cols = [c for c in cols if c not in f["columns"]]
        out.append(f)
    return out


def strategy(dialect, tier):
    @st.composite
    def build(draw):
        cols = draw(st.lists(st.sampled_from(COLS), min_size=1, max_size=6, unique=True))
        filters = draw(chain(cols))
        # columns mostly of one type, so that comparisons make sense
        kinds = [draw(st.sampled_from([VALUE, VALUE, st.one_of(st.none(), st.integers(-3, 5)), st.sampled_from([None, "", "a", "abc", "b"])])) for _ in cols]
        rows = [[draw(k) for k in kinds] for _ in range(draw(st.integers(1, 6)))]
        return {"cols": cols, "filters": filters, "rows": rows, "ctx": draw(st.sampled_from(["none", "random", "faker", "both"])), "seed": draw(st.integers(0, 2**32)), "as": draw(st.sampled_from(["tuple", "list", "iter"]))}

    return build()


# ------------------------------------------------------------------ reference


def fake_ok(kind, v):
    import faker.providers.address.en_US as addr
    import faker.providers.person.en_US as pers

    A, P = addr.Provider, pers.Provider
    if kind in ("latitude", "longitude"):
        if isinstance(v, bool) or not isinstance(v, (decimal.Decimal, float, int)):
            return False
        return -90 <= v <= 90 if kind == "latitude" else -180 <= v <= 180
    if not isinstance(v, str) or not v.strip():
        return False
    has = lambda names: v in names  # noqa: E731
    words = v.replace(".", "").split()
    every = {
        "email": lambda: re.fullmatch(r"[^@\s]+@[^@\s]+\.[a-z]+", v),
        "first_name": lambda: has(set(P.first_names)),
        "last_name": lambda: has(set(P.last_names)),
        "name": lambda: len(words) >= 2 and any(w in P.last_names for x in words for w in x.split("-")) and any(w in P.first_names for w in words),
        "phone_number": lambda: len(re.sub(r"\D", "", v)) >= 7 and re.fullmatch(r"[\d\s().x+-]+", v),
        "license_plate": lambda: re.fullmatch(r"[A-Z0-9 •-]{4,10}", v),
        "vin": lambda: re.fullmatch(r"[A-HJ-NPR-Z0-9]{17}", v),
        "address": lambda: "\n" in v and re.search(r"\d{5}$", v),
        "building_number": lambda: re.fullmatch(r"\d{1,6}", v),
        "city": lambda: re.fullmatch(r"[A-Za-z' .-]+", v),
        "state": lambda: has(set(A.states)),
        "state_abbr": lambda: re.fullmatch(r"[A-Z]{2}", v) and has(set(A.states_abbr) | set(A.territories_abbr) | set(A.freely_associated_states_abbr)),
        "country": lambda: has(set(A.countries)),
        "country_code": lambda: re.fullmatch(r"[A-Z]{2}", v) and has(set(A.alpha_2_country_codes)),
        "postal_code": lambda: re.fullmatch(r"\d{5}(-\d{4})?", v),
        "street_address": lambda: "\n" not in v and re.match(r"\d+ \w", v),
        "street_name": lambda: not re.search(r"\d", v) and words[-1] in A.street_suffixes,
    }
    return bool(every[kind]())


class Unsure(Exception):
    pass


def zero(c):
    kind = c[0]
    if kind == "int":
        return ("is", 0)
    if kind == "float":
        return ("is", 0.0)
    if kind in ("rstr", "uuid") or (kind == "fake" and c[1] not in ("latitude", "longitude")):
        return ("is", "")
    if kind != "is":
        raise Unsure
    v = c[1]
    for t, z in ((bool, False), (int, 0), (float, 0.0), (str, "")):
        if isinstance(v, t):
            return ("is", z)
    if v is None:
        return c
    if isinstance(v, dt.datetime):
        return ("is", dt.datetime(1970, 1, 1, tzinfo=v.tzinfo))
    raise Unsure  # no zero of this type is documented


def matches(cond, v):
    op, want = cond["op"], cond["value"]
    if op in ("is", "="):
        return v == want
    if op in ("is not", "!="):
        return v != want
    if op == "in":
        return v in want
    if op == "not in":
        return v not in want
    if v is None:
        return False
    if op == "matches":
        if not isinstance(v, str):
            raise Unsure
        return fnmatch.fnmatchcase(v, want)
    num = lambda x: isinstance(x, (int, float, decimal.Decimal))  # noqa: E731
    if not (num(v) and num(want)) and not (isinstance(v, str) and isinstance(want, str)):
        raise Unsure  # not comparable
    return {"<": v < want, ">": v > want, "<=": v <= want, ">=": v >= want}[op]


def apply(f, idx, row):
    """The possible results of a filter on a row of contracts (with no multiplex: exactly one)."""
    op = f["op"]
    if op == "multiplex":
        c = row[f["column"]]
        if c[0] == "is":
            for j, cond in enumerate(f["conditions"]):
                if matches(cond, c[1]):
                    return apply(cond["apply"], (idx, j), row)
            return [row]
        if any(cond["op"] in ("<", ">", "<=", ">=", "matches") for cond in f["conditions"]):
            raise Unsure
        res = [row]
        for j, cond in enumerate(f["conditions"]):
            res += apply(cond["apply"], (idx, j), row)
        return res
    row = dict(row)
    if op == "omit":
        return [{c: v for c, v in row.items() if c not in f["columns"]}]
    for i, c in enumerate(f["columns"]):
        if op == "zero":
            row[c] = zero(row[c])
        elif op == "null":
            row[c] = ("is", None)
        elif op == "constant":
            row[c] = ("is", f["values"][i])
        elif op == "random_int":
            row[c] = ("int", f["low"], f["high"])
        elif op == "random_float":
            row[c] = ("float", f["low"], f["high"])
        elif op == "random_string":
            a = f.get("alphabet", "alnum")
            row[c] = ("rstr", f["length"], f["custom_alphabet"] if a == "custom" else ALPHA[a])
        elif op in ("uuid", "random_uuid"):
            row[c] = ("uuid",)
        elif op == "plugin" and f["class"] == "Mask":
            if row[c][0] != "is":
                raise Unsure
            row[c] = ("is", None if row[c][1] is None else f"{f['kwargs']['prefix']}{i}{len(str(row[c][1]))}")
        elif op == "plugin":
            kw = f.get("kwargs", {})
            row[c] = ("plugin", kw.get("suffix", "dflt"), kw.get("times", 1), i, len(f["columns"]), row[c])
        else:
            row[c] = ("fake", op[5:], idx if f.get("unique") else None)
    return [row]


def fulfils(c, v):
    kind = c[0]
    if kind == "is":
        return same(v, c[1])
    if kind == "int":
        return type(v) is int and c[1] <= v <= c[2]
    if kind == "float":
        return type(v) is float and c[1] <= v <= c[2]
    if kind == "rstr":
        return isinstance(v, str) and len(v) == c[1] and all(x in c[2] for x in v)
    if kind == "uuid":
        try:
            return isinstance(v, str) and str(uuid.UUID(v)) == v
        except ValueError:
            return False
    if kind == "plugin":
        return isinstance(v, tuple) and v[:5] == c[:5] and fulfils(c[5], v[5])
    return fake_ok(c[1], v)


def context(case):
    from faker import Faker

    from subsetter.filters import FilterContext

    kw = {}
    if case["ctx"] in ("random", "both"):
        kw["random"] = random.Random(case["seed"])
    if case["ctx"] in ("faker", "both"):
        kw["faker"] = Faker()
        kw["faker"].seed_instance(case["seed"])
    return FilterContext(**kw)


def configs(filters):
    from subsetter.config_model import SamplerConfig

    return SamplerConfig(output={"mode": "directory", "directory": "unused"}, filters={"s.t": filters}).filters["s.t"]


def run(case, ctx):
    from subsetter.filters import FilterViewChain

    cols, filters = case["cols"], case["filters"]
    with must_succeed("building filters"):
        view = FilterViewChain.construct_filter(cols, configs(filters), filter_context=context(case))
    out = list(cols)
    for f in filters:
        if f["op"] == "omit":
            out = [c for c in out if c not in f["columns"]]
        ctx.tag(f["op"])
    ctx.check(list(view.columns_out) == out, "columns out are %s instead of %s", view.columns_out, out)
    seen = collections.defaultdict(set)
    for enc_row in case["rows"]:
        values = [dec(v) for v in enc_row]
        try:
            worlds = [{c: ("is", v) for c, v in zip(cols, values)}]
            for i, f in enumerate(filters):
                worlds = [r for w in worlds for r in apply(f, i, w)]
        except Unsure:
            ctx.tag("unsure")
            continue
        given = tuple(values) if case["as"] == "tuple" else values if case["as"] == "list" else iter(values)
        with must_succeed(f"filtering {values}"):
            got = list(view.filter_view(given))
        ctx.check(case["as"] != "list" or all(map(same, values, [dec(v) for v in enc_row])), "the row given was changed to %s", values)
        ctx.check(len(got) == len(out), "%s became %s, which is not %s", values, got, out)
        ok = [w for w in worlds if all(fulfils(w[c], v) for c, v in zip(out, got))]
        ctx.check(ok, "%s became %s instead of %s", dict(zip(cols, values)), dict(zip(out, got)), worlds[:3])
        if len(worlds) == 1:
            for c, v in zip(out, got):
                key = ("uuid",) if worlds[0][c][0] == "uuid" else ("unique", worlds[0][c][2]) if worlds[0][c][0] == "fake" and worlds[0][c][2] is not None else None
                if key:
                    ctx.check(v not in seen[key], "%s value %r is repeated", key[0], v)
                    seen[key].add(v)
                    ctx.tag("distinct:" + key[0])
        if filters:
            ctx.nontrivial = True


# ------------------------------------------------------------------ rejection of invalid filters


def reject_strategy(dialect, tier):
    @st.composite
    def build(draw):
        cols = draw(st.lists(st.sampled_from(COLS), min_size=2, max_size=6, unique=True))
        before = draw(chain(cols))
        left = [c for c in cols if not any(f["op"] == "omit" and c in f["columns"] for f in before)]
        gone = [c for c in cols if c not in left]
        f = draw(simple(left))
        bad = draw(st.sampled_from(["unknown", "unknown", "duplicate", "empty", "constant", "mx-column", "mx-omit", "mx-nested", "mx-apply", "op", "plugin-module", "plugin-class", "plugin-kwargs", "plugin-raise", "alphabet", "missing", "type", "no-columns"]))
        wrap = None
        if bad == "unknown":
            f["columns"] = f["columns"] + [draw(st.sampled_from(gone + ["nope", left[0] + "x", "ID", "B"]))]
            if f["columns"][-1] in left:
                f["columns"][-1] = "nope2"
            if f["op"] == "constant":
                f["values"] = f["values"] + [1]
        elif bad == "duplicate":
            f["columns"] = f["columns"] + [f["columns"][0]]
            if f["op"] == "constant":
                f["values"] = f["values"] + [1]
        elif bad == "empty":
            f["columns"] = []
            if f["op"] == "constant":
                f["values"] = []
        elif bad == "constant":
            f = {"op": "constant", "columns": [left[0]], "values": draw(st.sampled_from([[], [1, 2], [None, None, None]]))}
        elif bad == "mx-column":
            f = {"op": "multiplex", "column": draw(st.sampled_from(gone + ["nope"])), "conditions": draw(multiplex(left))["conditions"]}
        elif bad == "mx-omit":
            if len(left) < 2:
                return None
            f = draw(multiplex(left))
            f["conditions"].insert(0, {"op": "=", "value": 1, "apply": {"op": "omit", "columns": left[:1]}})
        elif bad == "mx-nested":
            f = {"op": "multiplex", "column": left[0], "conditions": [{"op": "=", "value": 1, "apply": draw(multiplex(left))}]}
        elif bad == "mx-apply":
            f = {"op": "multiplex", "column": left[0], "conditions": [{"op": "=", "value": 1, "apply": {"op": "null", "columns": draw(st.sampled_from([[], ["nope"], [left[0], left[0]]]))}}]}
        elif bad == "op":
            f["op"] = draw(st.sampled_from(["nul", "fake_", "fake_nothing", "", "Zero", "drop"]))
        elif bad.startswith("plugin"):
            f = {"op": "plugin", "columns": left[:1], "module": "vtplugin", "class": "Tag"}
            f.update({"plugin-module": {"module": "vtplugin_missing"}, "plugin-class": {"class": "Missing"}, "plugin-kwargs": {"kwargs": {"nope": 1}}, "plugin-raise": {"class": "broken"}}[bad])
        elif bad == "alphabet":
            f = {"op": "random_string", "columns": left[:1], "length": 3, **draw(st.sampled_from([{"alphabet": "nope"}, {"alphabet": "custom"}, {"alphabet": "custom", "custom_alphabet": ""}]))}
        elif bad == "missing":
            f = draw(st.sampled_from([{"op": "random_int", "low": 1}, {"op": "random_float", "high": 2}, {"op": "random_string"}, {"op": "constant"}, {"op": "plugin", "module": "vtplugin"}, {"columns": left}]))
            f = {"columns": left[:1], **f}
        elif bad == "type":
            f = draw(st.sampled_from([{"op": "random_int", "low": "x", "high": 3}, {"op": "random_string", "length": "long"}, {"op": "constant", "values": 5}, {"op": "null", "columns": 7}]))
            f = {"columns": left[:1], **f}
        elif bad == "no-columns":
            f.pop("columns")
        return {"cols": cols, "before": before, "bad": bad, "filter": f, "after": draw(st.booleans())}

    return build().filter(lambda c: c is not None)


def run_reject(case, ctx):
    from subsetter.filters import FilterViewChain

    filters = case["before"] + [case["filter"]]
    if case["after"]:
        left = [c for c in case["cols"] if not any(f.get("op") == "omit" and c in f["columns"] for f in case["before"])]
        filters.append({"op": "null", "columns": left[-1:]})
    try:
        FilterViewChain.construct_filter(case["cols"], configs(filters))
    except Exception as exc:  # pylint: disable=broad-except
        ctx.check(isinstance(exc, ValueError), "%s: %s instead of a ValueError: %s", case["bad"], type(exc).__name__, exc)
    else:
        ctx.check(False, "%s: %s accepted for columns %s (after %s)", case["bad"], case["filter"], case["cols"], case["before"])
    ctx.tag(case["bad"])
    ctx.nontrivial = True
    # without it, the chain is fine
    with must_succeed("building filters"):
        FilterViewChain.construct_filter(case["cols"], configs(case["before"]))


# ------------------------------------------------------------------ distributions


def spread_strategy(dialect, tier):
    @st.composite
    def build(draw):
        kind = draw(st.sampled_from(["int", "float", "str", "unique"]))
        return {
            "kind": kind, "low": draw(st.integers(-100, 100)), "size": draw(st.integers(0, 4)), "alphabet": draw(st.sampled_from(sorted(ALPHA) + ["custom"])),
            "fake": draw(st.sampled_from(["email", "name", "phone_number", "first_name", "city", "last_name", "postal_code"])), "ncols": draw(st.integers(1, 3)), "ctx": draw(st.sampled_from(["none", "both"])), "seed": draw(st.integers(0, 2**32)),
        }

    return build()


def run_spread(case, ctx):
    """Every permitted value occurs; columns and rows are drawn independently."""
    from subsetter.filters import FilterViewChain

    n = case["ncols"]
    cols = [f"c{i}" for i in range(n)]
    lo, hi = case["low"], case["low"] + case["size"]
    kind = case["kind"]
    custom = "xyzé"
    f = {
        "int": {"op": "random_int", "low": lo, "high": hi}, "float": {"op": "random_float", "low": lo, "high": hi},
        "str": {"op": "random_string", "length": 20, "alphabet": case["alphabet"], "custom_alphabet": custom}, "unique": {"op": "fake_" + case["fake"], "unique": True},
    }[kind]
    rows = 100 if kind == "unique" else 500
    with must_succeed("building filters"):
        view = FilterViewChain.construct_filter(cols + ["z"], configs([{**f, "columns": cols}]), filter_context=context(case))
    got = []
    for i in range(rows):
        with must_succeed("filtering"):
            got.append(view.filter_view([None] * n + [i]))
    ctx.check(all(r[n] == i for i, r in enumerate(got)), "the other column changed")
    for j in range(n):
        vals = [r[j] for r in got]
        # each bound below fails with a probability under 1e-30 if values are uniform
        if kind == "int":
            ctx.check(set(vals) == set(range(lo, hi + 1)), "random_int from %d to %d gives %s in %d draws", lo, hi, sorted(set(vals)), rows)
        elif kind == "float" and hi > lo:
            q = {min(4, int((v - lo) / (hi - lo) * 5)) for v in vals}
            ctx.check(q == set(range(5)), "random_float leaves out parts of its range: %s", q)
        elif kind == "str":
            a = set(ALPHA.get(case["alphabet"], custom))
            ctx.check({x for v in vals for x in v} == a, "random_string uses %s of %s", {x for v in vals for x in v}, a)
            ctx.check(len(a) < 4 or len(set(vals)) > 400, "random strings repeat")
        if kind in ("int", "float") and hi > lo:
            for i in range(j):
                ctx.check(any(r[i] != r[j] for r in got), "columns %d and %d get the same random values", i, j)
    if kind == "unique":
        allv = [v for r in got for v in r[:n]]
        ctx.check(len(set(allv)) == len(allv), "unique %s values repeat", case["fake"])
    ctx.tag(kind)
    ctx.nontrivial = True


# ------------------------------------------------------------------ through the sampler


TEXT_OPS = ["null", "zero", "constant", "random_string", "uuid", "fake", "fake", "fake", "omit"]


def sampled_strategy(dialect, tier):
    @st.composite
    def one(draw, types, db, omit=True):
        """A filter whose result the column can hold."""
        cols = sorted(types)
        k = draw(st.sampled_from(TEXT_OPS + ([] if db else ["random_int", "random_float"])))
        if k == "omit" and (not omit or len(cols) < 2):
            k = "uuid"
        some = draw(st.lists(st.sampled_from(cols), min_size=1, max_size=2 if k != "omit" else 1, unique=True))
        f = {"op": k, "columns": some}
        if k == "constant":
            f["values"] = [draw(st.sampled_from(["k", "", "%s", "é"])) for _ in some]
        elif k == "random_string":
            f.update({"length": draw(st.sampled_from([1, 3, 20])), "alphabet": draw(st.sampled_from(["alpha", "alpha_lower", "alpha_upper"]))})
        elif k == "random_int":
            f.update({"low": -3, "high": draw(st.sampled_from([-3, 0, 2**40]))})
        elif k == "random_float":
            f.update({"low": 0.5, "high": 1.5})
        elif k == "fake":
            kind = draw(st.sampled_from([x for x in WIDE if x != "latitude"]))
            f["op"] = "fake_" + kind
            f["unique"] = draw(st.booleans())
        return f

    @st.composite
    def build(draw):
        db = draw(st.booleans())
        cols = {f"c{i}": "str" if db else draw(st.sampled_from(["str", "int"])) for i in range(draw(st.integers(1, 4)))}
        left, filters = dict(cols), []
        for _ in range(draw(st.integers(1, 4))):
            if draw(st.integers(0, 3)) == 0:
                conds = [{"op": draw(st.sampled_from(["=", "<", ">", "in", "!="])), "value": draw(st.integers(1, 9)), "apply": draw(one(left, db, False))} for _ in range(draw(st.integers(1, 3)))]
                for c in conds:
                    if c["op"] == "in":
                        c["value"] = [c["value"], 1, 5]
                filters.append({"op": "multiplex", "column": "id", "conditions": conds})
                continue
            f = draw(one(left, db))
            filters.append(f)
            if f["op"] == "omit":
                left = {c: t for c, t in left.items() if c not in f["columns"]}
        at = draw(st.integers(0, len(cols)))
        return {
            "db": db, "cols": cols, "filters": filters, "at": at, "n": draw(st.sampled_from([1, 3, 9])), "m": draw(st.sampled_from([1, 2, 5])), 
            "nulls": draw(st.lists(st.integers(1, 9), max_size=3)), "passthrough": draw(st.booleans()),
        }

    return build()


def run_sampled(case, ctx):
    """What filters promise holds for the rows that reach the output, copies included."""
    import json
    import os
    import shutil

    import flow
    from checks.c07 import scratch

    env, m = ctx.env, 1 if case["passthrough"] else case["m"]
    data = [{"n": c, "t": t, "null": True} for c, t in case["cols"].items()]
    cols = data[: case["at"]] + [{"n": "id", "t": "int", "null": False}] + data[case["at"] :]
    t = {"name": "s1.t", "cols": cols, "pk": ["id"], "uniq": [], "fks": []}
    rows = {}
    for i in range(1, case["n"] + 1):
        rows[i] = {c["n"]: i if c["n"] == "id" else None if i in case["nulls"] else i * 3 if c["t"] == "int" else f"v{i}" for c in cols}
    flow.load(env, {"tables": [t], "rows": {"s1.t": [[r[c["n"]] for c in cols] for r in rows.values()]}}, remap=False)
    plan = flow.make_plan(env, {"select": ["s1.*"], "targets": {} if case["passthrough"] else {"s1.t": {"all": True}}, "passthrough": ["s1.t"] if case["passthrough"] else []})
    sampler = {"filters": {"s1.t": case["filters"]}, "multiplicity": {"multiplier": m}}
    names = [c["n"] for c in cols]
    for f in case["filters"]:
        if f["op"] == "omit":
            names = [c for c in names if c not in f["columns"]]
    if case["db"]:
        flow.create_dst(env, [t])
        with must_succeed("sampling"):
            flow.run_sample(env, plan, sampler)
        got = [{c["n"]: v for c, v in zip(cols, r)} for r in env.rows("dst", t, env.dst("s1.t"))]
        ctx.check(all(r[c["n"]] is None for r in got for c in cols if c["n"] not in names), "omitted columns are written: %s", got)
        got = [{c: r[c] for c in names} for r in got]
    else:
        d = scratch(env)
        try:
            with must_succeed("sampling to a directory"):
                flow.run_sample(env, plan, sampler, {"mode": "directory", "directory": d})
            with open(os.path.join(d, "s1.t.json"), encoding="utf-8") as file:
                got = [json.loads(line) for line in file]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    seen = collections.defaultdict(set)
    count = collections.Counter(r.get("id", 0) // m for r in got)
    ctx.check(count == {i: m for i in rows}, "%d rows in %d copies became %s", len(rows), m, sorted(r.get("id") for r in got))
    for r in got:
        src = rows[r["id"] // m]
        worlds = [{c: ("is", v) for c, v in src.items()}]
        for i, f in enumerate(case["filters"]):
            worlds = [x for w in worlds for x in apply(f, i, w)]
        (want,) = worlds
        ctx.check(sorted(want) == sorted(r), "columns are %s instead of %s", sorted(r), sorted(want))
        for c, v in r.items():
            if c == "id":
                continue
            ctx.check(fulfils(want[c], v), "row %d, %s: %r instead of %s", src["id"], c, v, want[c])
            key = ("uuid",) if want[c][0] == "uuid" else ("unique", want[c][2], want[c][1]) if want[c][0] == "fake" and want[c][2] is not None else None
            if key:
                ctx.check(v not in seen[key], "%s value %r is repeated", key[0], v)
                seen[key].add(v)
                ctx.tag("distinct:" + key[0])
            elif want[c][0] == "rstr" and want[c][1] == 20:
                ctx.check(v not in seen["rstr"], "random string %r is repeated", v)
                seen["rstr"].add(v)
    ctx.tag("database" if case["db"] else "directory", "copies" if m > 1 else "plain")
    ctx.nontrivial = bool(got)


SUBS = [
    Sub(
        name="chain",
        run=run,
        strategy=strategy,
        dialects=("none",),
        quick=700,
        thorough=15000,
        rule="rows of mixed values through a generated chain of filters; every output cell is judged by the contract of the operations that touched it; non-trivial if a filter was applied",
    ),
    Sub(
        name="reject",
        run=run_reject,
        strategy=reject_strategy,
        dialects=("none",),
        quick=400,
        thorough=6000,
        rule="a valid chain and one invalid filter; non-trivial always",
    ),
    Sub(
        name="spread",
        run=run_spread,
        strategy=spread_strategy,
        dialects=("none",),
        shards={"none": 2},
        quick=60,
        thorough=600,
        rule="several hundred rows through a random filter: range, bounds, alphabet and uniqueness; non-trivial always",
    ),
    Sub(
        name="sampled",
        run=run_sampled,
        strategy=sampled_strategy,
        dialects=("sqlite",),
        quick=120,
        thorough=3000,
        rule="rows sampled through a chain of filters into a database or a directory, with multiplicity; every output cell judged by the contract of the operations that touched it, generated identifiers distinct over all rows and copies; non-trivial if a row is written",
    ),
]
