"""C25: under a stable isolation level a sample reflects one committed state of the source,
whatever other sessions commit to the source in the meantime."""
import contextlib
import json
import re
import sqlite3

from hypothesis import strategies as st

import flow
import pipe
import worlds
from core import HarnessError, Skip, Sub, must_succeed
from model import Sampled

LEVELS = {"postgres": ("REPEATABLE READ", "REPEATABLE READ", "SERIALIZABLE"), "mysql": ("SERIALIZABLE", "REPEATABLE READ")}


def drop_rows(w, rows, drop):
    """The rows without those for which drop(table, index) holds and without rows that refer to
    rows that are gone."""
    out = {t["name"]: [r for i, r in enumerate(rows[t["name"]]) if not drop(t["name"], i)] for t in w["tables"]}
    tabs = worlds.by_name(w)
    changed = True
    while changed:
        changed = False
        for t in w["tables"]:
            idx = {c["n"]: i for i, c in enumerate(t["cols"])}
            for fk in t["fks"]:
                ref = tabs[fk["ref"]]
                ridx = {c["n"]: i for i, c in enumerate(ref["cols"])}
                have = {json.dumps([r[ridx[c]] for c in fk["rcols"]], default=str) for r in out[fk["ref"]]}
                keep = []
                for r in out[t["name"]]:
                    key = [r[idx[c]] for c in fk["cols"]]
                    if any(v is None for v in key) or json.dumps(key, default=str) in have:
                        keep.append(r)
                if len(keep) != len(out[t["name"]]):
                    out[t["name"]] = keep
                    changed = True
    return out


def strategy(dialect, tier):
    big = tier == "thorough"
    o = worlds.Opts(dialect=dialect, min_tables=2, max_tables=6 if big else 5, max_rows=7, schemas=2)
    p = worlds.POpts(max_targets=3, random=False)

    @st.composite
    def build(draw):
        w = draw(worlds.world(o))
        cfg = worlds.accepted_planner(draw, w, p)
        sampler = {}
        if draw(st.integers(0, 2)) == 0 and all(t["pk"] for t in w["tables"]):
            names = [t["name"] for t in w["tables"]]
            if draw(st.booleans()):
                sampler["compact"] = pipe.gen_compact(draw, w, names, dialect)
            if not sampler or draw(st.booleans()):
                sampler["multiplicity"] = pipe.gen_multiplicity(draw, w, names)
            if draw(st.booleans()):
                filters = pipe.gen_filters(draw, w, names)
                sampler["filters"] = {n: [f for f in fs if f["op"] in ("zero", "null", "constant", "omit")] for n, fs in filters.items()}
        states = [w["rows"]]
        for _ in range(draw(st.integers(1, 3))):
            if draw(st.integers(0, 2)) == 0 and len(states) > 1:
                new = states[0]
            else:
                mod, k = draw(st.sampled_from([2, 3])), draw(st.integers(0, 11))
                tab = draw(st.sampled_from([t["name"] for t in w["tables"]]))
                every = draw(st.booleans())
                new = drop_rows(w, w["rows"], lambda n, i: (every or n == tab) and (i + k) % mod == 0)
            states.append(new)
        if draw(st.booleans()):
            states.reverse()
        return {
            "world": {**w, "rows": states[0]},
            "states": states[1:],
            "cfg": cfg,
            "level": draw(st.sampled_from(LEVELS[dialect])),
            "at": sorted(draw(st.lists(st.integers(0, 8), min_size=len(states) - 1, max_size=len(states) - 1))),
            "sampler": sampler,
        }

    return build()


class Writer:
    """Another session that replaces the contents of the source, one transaction per state."""

    def __init__(self, env, w, states):
        self.env, self.w, self.states = env, w, states
        self.done = 0
        if env.dialect == "postgres":
            self.con = env._connect(env.dbs["src"])  # pylint: disable=protected-access
            self.con.cursor().execute("SET session_replication_role = replica")
            self.con.commit()
        elif env.dialect == "sqlite":
            self.con = sqlite3.connect(":memory:", timeout=0.05)
            for s, path in env._files("src").items():  # pylint: disable=protected-access
                self.con.execute(f"ATTACH DATABASE '{path}' AS {s}")
        else:
            import pymysql

            self.con = pymysql.connect(unix_socket=env.srv["sock"], user="vt", password="vt", charset="utf8mb4")
            cur = self.con.cursor()
            cur.execute("SET SESSION foreign_key_checks = 0")
            cur.execute("SET SESSION innodb_lock_wait_timeout = 1")
            cur.execute("SET SESSION sql_mode = CONCAT(@@sql_mode, ',NO_AUTO_VALUE_ON_ZERO')")
            self.con.commit()

    def step(self) -> bool:
        """Returns False if the source is locked."""
        rows = self.states[self.done]
        real = self.env.conn
        blocked = False
        try:
            cur = self.con.cursor()
            for t in self.w["tables"]:
                cur.execute(f"DELETE FROM {self.env.fq(t['name'])}")
            self.env.conn = lambda where: _NoCommit(self.con)
            for t in self.w["tables"]:
                self.env.insert("src", t, rows[t["name"]])
            self.con.commit()
        except Exception as exc:  # pylint: disable=broad-except
            if (self.env.dialect == "mysql" and getattr(exc, "args", (0,))[0] in (1205, 1213)) or "database is locked" in str(exc) or re.search("database .* is locked", str(exc)):
                blocked = True
                self.con.rollback()
            else:
                raise HarnessError(f"concurrent writer: {exc!r}") from exc
        finally:
            self.env.conn = real
        if blocked:
            return False
        self.done += 1
        return True

    def close(self):
        self.con.close()


class _NoCommit:
    def __init__(self, con):
        self._con = con

    def __getattr__(self, name):
        return getattr(self._con, name)

    def commit(self):
        pass


@contextlib.contextmanager
def before_statements(env, sampler, hook):
    """Calls hook(sql) before each statement on the source."""
    import sqlalchemy as sa

    def listen(conn, _cursor, statement, _params, _ctx, _many):
        url = conn.engine.url
        if env.dialect == "postgres":
            if url.database != env.dbs["src"]:
                return
        elif env.dialect == "mysql":
            if url.username != "vsrc":
                return
        elif conn.engine.pool is not sampler.source_engine.pool:
            return
        hook(statement)

    sa.event.listen(sa.engine.Engine, "before_cursor_execute", listen)
    try:
        yield
    finally:
        sa.event.remove(sa.engine.Engine, "before_cursor_execute", listen)


def contents(tabs, data):
    return {t["name"]: pipe.bag(data.rows[t["name"]], [c["n"] for c in t["cols"]]) for t in tabs}


def expected(env, w, rows, ref, plan, tabs, case):
    """What the output is if the source has just these rows."""
    if case["sampler"]:
        # The same run with nothing going on, the other checks decide whether that is right
        try:
            flow.run_sample(env, plan, case["sampler"])
        except Exception as exc:  # pylint: disable=broad-except
            raise Skip("configuration not accepted") from exc
        out = contents(tabs, flow.read_all(env, "dst", tabs, env.dst))
        env.run("dst", [f"DELETE FROM {env.fq(env.dst(t['name']))}" for t in tabs])
        return out
    src = Sampled(w["tables"])
    for t in w["tables"]:
        src.set(t["name"], [tuple(r) for r in rows[t["name"]]])
    return contents(tabs, pipe.exact_sample(ref, src, tabs))


def run(case, ctx):
    env, w, cfg = ctx.env, case["world"], case["cfg"]
    flow.load(env, w)
    plan, ref = flow.plan_or_refuse(env, w, cfg, ctx)
    if plan is None:
        raise Skip("refused")
    from subsetter.config_model import SamplerConfig
    from subsetter.sampler import Sampler

    tabs = flow.planned(w, plan)
    flow.create_dst(env, tabs, fk=False)
    names = {t["name"].split(".")[1] for t in w["tables"]}
    states = [w["rows"]] + case["states"]
    seen = [0]
    at = list(case["at"])
    blocked = []

    writer = Writer(env, w, case["states"] + [w["rows"]])

    def hook(sql):
        # only statements on the data, not the catalog queries of reflection
        if not any(n in sql for n in names) or any(x in sql for x in ("pg_catalog", "information_schema", "sqlite_master", "PRAGMA")) or sql.startswith("SHOW"):
            return
        while at and at[0] <= seen[0] and not blocked:
            if not writer.step():
                blocked.append(seen[0])
                break
            at.pop(0)
        seen[0] += 1

    try:
        want = []
        for i, rows in enumerate(states):
            want.append(expected(env, w, rows, ref, plan, tabs, case))
            if case["sampler"] and not writer.step():
                raise HarnessError("source is locked")
        writer.done = 0
        with must_succeed("sampling"):
            sampler = Sampler(flow.src_config(env, isolation_level=case["level"]), SamplerConfig(**case["sampler"], output=flow.output_cfg(env)))
            with before_statements(env, sampler, hook):
                sampler.sample(plan)
    finally:
        writer.close()
    have = contents(tabs, flow.read_all(env, "dst", tabs, env.dst))
    ctx.tag(f"commits:{writer.done}", case["level"] or "default", *case["sampler"])
    if blocked:
        ctx.tag("writer-waits")
    if not any(x == have for x in want[: writer.done + 1]):
        near = min(range(writer.done + 1), key=lambda i: sum(want[i][n] != have[n] for n in have))
        bad = {n: (dict(have[n]), dict(want[near][n])) for n in have if have[n] != want[near][n]}
        ctx.check(False, "no state of the source that was ever committed yields the output under %s; compared with state %d of %d: %r", case["level"], near, writer.done, bad)
    different = any(x != want[0] for x in want)
    ctx.nontrivial = (writer.done > 0 or bool(blocked)) and seen[0] > 1 and different


SUBS = [
    Sub(
        name="snapshot",
        run=run,
        strategy=strategy,
        dialects=("postgres", "mysql"),
        quick={"postgres": 80, "mysql": 20},
        thorough={"postgres": 1500, "mysql": 150},
        rule="a generated schema, planner configuration and schedule of transactions committed by another session before chosen statements of the sampler; non-trivial if at least one of them was committed (or had to wait) while the sampler was reading and the states have different samples",
    )
]
