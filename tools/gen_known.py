#!/usr/bin/env python3
"""Writes the list of repaired defects into known_findings.json (hand-run, never by a check)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C13", "cc4b483", "multiplicity did not multiply foreign key columns named differently from the key they refer to"),
    ("C06", "c77a11c", "simplifying a union dropped the joins of its parts, so a target with two referencing tables sampled too many rows"),
    ("C02", "8bb08c6", "a limited select inside a union is a syntax error on sqlite (target with amount that other targets reference)"),
    ("C02", "bfe9f40", "a target with both `all` and `amount` was cut to `amount` rows"),
    ("C02", "b68dc00", "table constraints on target tables were ignored"),
    ("C06", "283e622", "raw SQL conditions containing OR leaked into the neighbouring conditions"),
    ("C05", "95c1552", "foreign keys to tables outside the plan crashed planning / sampling"),
    ("C14", "caa4525", "omitting the primary key column with a filter crashed"),
    ("C14", "21c6e09", "replace on sqlite reset the columns that are not sampled"),
    ("C11", "f756a80", "compaction did not follow chains of foreign keys"),
    ("C12", "5d811a2", "merge offsets did not follow chains of shared keys"),
    ("C18", "6c558f1", "PostgreSQL sequences moved backwards; quoted names and ids below 1 crashed"),
    ("C09", "b752bc1", "a missing destination table was only noticed after truncating and inserting"),
    ("C21", "6d8b5bb", "an omitted sampler section crashed"),
    ("C21", "0336e0a", "the dialect from the environment was ignored for connection handling"),
    ("C22", "9c2e388", "MySQL verify modes did not verify the server"),
    ("C20", "3b8a62f", "percent targets on sqlite sampled the wrong share"),
    ("C06", "3225ed8", "plan queries given as raw SQL could not be sampled or compacted"),
    ("C15", "cb5d446", "the zero filter turned booleans into integers"),
    ("C15", "0f7d013", "random_uuid was rejected by the filter configuration"),
    ("C09", "cb89c69", "an invalid compaction configuration was only noticed after truncating"),
    ("C11", "37814ef", "explicitly compacting a foreign key column broke references"),
    ("C24", "17b4a38", "directory output failed if the directory did not exist"),
    ("C03", "b8e5ab8", "table names with glob characters were treated as patterns"),
    ("C03", "731232b", "temporary table names of tables with similar names collided"),
    ("C10", "d1115c0", "created tables had the columns of a composite primary key in table order, so that foreign keys to it failed on MySQL"),
    ("C03", "796dba3", "created tables turned any single integer key into an auto-increment key, so that MySQL replaced the value 0"),
    ("C03", "074603d", "PostgreSQL targets with json columns that other targets reference failed with a database error"),
    ("C03", "87330df", "MySQL FLOAT columns were copied rounded to six digits"),
    ("C05", "db4d123", "foreign keys into the default schema of PostgreSQL from another schema were not matched to the planned table"),
    ("C06", "8d27863", "temporary tables kept AUTO_INCREMENT, so that MySQL replaced a sampled key 0 by 1"),
    ("C06", "6d88b6e", "raw SQL conditions with equally named parameters shared or mixed up their values"),
    ("C11", "53d1b7f", "references by composite keys to a compacted column were joined on one column only, multiplying rows"),
    ("C11", "703874a", "zeros written to MySQL auto-increment columns were replaced by generated keys"),
    ("C12", "3560e4b", "keys that refer to passthrough (unshifted) rows were shifted when merging"),
    ("C17", "38e963f", "the skip strategy on MySQL silently dropped or altered rows the destination rejects"),
    ("C15", "94a9e13", "unknown and duplicate columns of omit filters were accepted"),
    ("C09", "d766085", "unknown columns configured for compaction were silently ignored"),
    ("C09", "69fcd13", "unknown multiplicity columns crashed with a KeyError"),
    ("C10", "3808a79", "MySQL: foreign key names collided when tables were created under other names in one schema"),
    ("C10", "48df218", "names of created indexes could be too long for the database"),
    ("C10", "87dfa7c", "indexes on expressions were created without the expressions, which made wrong unique indexes"),
    ("C18", "29a9709", "PostgreSQL: sampling into tables with percent signs in their names failed"),
    ("C15", "dadcfa6", "booleans configured for the constant and multiplex filters became numbers"),
    ("C15", "b83b578", "the multiplex operation is / is not compared object identity"),
    ("C15", "e145584", "multiplex comparisons with NULL values crashed"),
    ("C14", "4ad0d42", "skip and replace on MySQL failed for tables or columns with percent signs in their names"),
    ("C18", "6bd39bb", "PostgreSQL sequences restarted at a higher value moved backwards"),
    ("C18", "97562ce", "PostgreSQL sequences were not updated for the rows already written when a later row is rejected"),
    ("C21", "669af5c", "unknown keys in database and SSL settings were ignored"),
    ("C21", "fa671c9", "unknown keys in filters were ignored"),
    ("C21", "0185260", "on PostgreSQL session statements were undone by the first rollback of a pooled connection"),
    ("C21", "2af219f", "sqlite_databases: null crashed"),
    ("C21", "21c74b0", "a config file that is not a mapping was dropped silently if another file followed"),
    ("C21", "2292c21", "an unknown value in SSL_SERVER_VERIFY switched verification off"),
    ("C24", "21a52f0", "directory output wrote NaN and infinities as bare words, which is not JSON"),
    ("C11", "4eab6a2", "compaction with two planned tables of one name in different schemas, one of them referred to twice: alias and temporary table clash (PostgreSQL)"),
    ("C25", "31f4fda", "MySQL: creating indexes on temporary tables committed the transaction, so under SERIALIZABLE or REPEATABLE READ a sample mixed several states of the source"),
    ("C07", "9d592b5", "a plan written to stdout with -vvv is mixed with echoed SQL statements"),
    ("C24", "bb6e885", "directory output fails for a table whose name has a slash"),
    ("C18", "fd64f56", "sequences that a key defaults to without owning them are not updated (postgres)"),
    ("C14", "78b0179", "mysql: the replace strategy failed on every row of tables with a percent sign in a column name (SQLAlchemy escapes it twice)"),
    ("C10", "e6764bd", "check constraints with a colon followed by a name were created with a parameter in its place"),
]
KNOWN = [
    {
        "id": "json-null",
        "property": "C03",
        "sub": "values",
        "dialect": "sqlite",
        "case": {
            "world": {
                "tables": [{"name": "s1.t0", "cols": [{"n": "id", "t": "int", "null": False}, {"n": "j", "t": "json", "null": True}], "pk": ["id"], "uniq": [], "fks": []}],
                "rows": {"s1.t0": [[1, None]]},
            },
            "cfg": {"select": ["*"], "targets": {"s1.t0": {"all": True}}},
            "remap": False,
            "create": False,
            "extra": False,
        },
        "match": "missing rows \\[\\(1, None\\)\\], unexpected rows \\[\\(1, '.x00json null'\\)\\]",
        "what": "SQL NULL in a JSON column arrives as the JSON document null (all dialects)",
    },
    {
        "id": "mysql-functional-unique",
        "property": "C10",
        "sub": "create",
        "dialect": "mysql",
        "case": {
            "world": {
                "tables": [{"name": "s1.t0", "cols": [{"n": "id", "t": "int", "null": False}, {"n": "x", "t": "int", "null": False}, {"n": "d", "t": "str", "null": False}], "pk": ["id"], "uniq": [], "fks": []}],
                "rows": {"s1.t0": [[1, 5, "a"], [2, 5, "b"]]},
            },
            "extra": {"s1.t0": {"cols": [], "idx": [{"cols": ["x", "d"], "kind": "function", "unique": True}], "check": None, "fknames": False}},
            "cfg": {"select": ["*"], "targets": {"s1.t0": {"all": True}}},
            "mode": "remap", "exist": [], "exist_fk": False, "exist_extra": False, "again": False, "truncate": False,
        },
        "match": "Duplicate entry '5' for key",
        "what": "MySQL: a unique index with a functional key part (x, (lower(d))) is created without that part (SQLAlchemy does not reflect it), so the run fails",
    },
    {
        "id": "fake-license-plate",
        "property": "C15",
        "sub": "chain",
        "dialect": "none",
        "case": {"cols": ["a"], "filters": [{"op": "fake_license_plate", "columns": ["a"]}], "rows": [[1]], "as": "tuple", "ctx": "none", "seed": 0},
        "match": "filtering.*licence_plate",
        "what": "the fake_license_plate filter always crashes: Faker has no licence_plate(); an existing test pins the misspelt call, so it is not repaired",
    },
    {
        "id": "sqlite-reads-without-transaction",
        "property": "C25",
        "sub": "snapshot",
        "dialect": "sqlite",
        "case": {
            "world": {
                "tables": [
                    {"name": "s1.t0", "cols": [{"n": "id", "t": "int", "null": False}], "pk": ["id"], "uniq": [], "fks": []},
                    {"name": "s1.t1", "cols": [{"n": "id", "t": "int", "null": False}, {"n": "r", "t": "int", "null": False}], "pk": ["id"], "uniq": [], "fks": [{"cols": ["r"], "ref": "s1.t0", "rcols": ["id"]}]},
                ],
                "rows": {"s1.t0": [], "s1.t1": []},
            },
            "states": [{"s1.t0": [[1]], "s1.t1": [[5, 1]]}],
            "cfg": {"select": ["*"], "targets": {"s1.t0": {"all": True}, "s1.t1": {"all": True}}},
            "level": None, "at": [1], "sampler": {},
        },
        "match": "no state of the source that was ever committed yields the output under None",
        "what": "sqlite: the documented SERIALIZABLE default has no effect before the first write to a temporary table, since the driver only begins transactions for writes: tables read one after the other may stem from different states (beginning one would lock out a destination in the same file, so it is not repaired)",
    },
]
path = os.path.join(ROOT, "known_findings.json")
with open(path, encoding="utf-8") as f:
    data = json.load(f)
data["known"] = KNOWN
data["fixed"] = [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]
with open(path, "w", encoding="utf-8") as f:
    json.dump(data, f, indent=1)
    f.write("\n")
