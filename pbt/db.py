"""Databases the checks run against: throw-away sqlite files, PostgreSQL and MySQL servers.

Everything here talks to the databases through the raw drivers, never through the code under
test. Servers run as an unprivileged user with their data below VT_SCRATCH."""
from __future__ import annotations

import datetime
import decimal
import fcntl
import gc
import glob
import json
import os
import pwd
import shutil
import signal
import socket
import sqlite3
import subprocess
import time
import zlib
from typing import Any, Dict, Iterable, List, Optional, Tuple

SCRATCH = os.environ.get("VT_SCRATCH") or "/tmp"
N_MYSQL = int(os.environ.get("VT_MYSQL_N", "2"))
PGBIN = None
SERVERS: Dict[str, Any] = {}
PROCS: List[subprocess.Popen] = []
SCHEMAS = ("s1", "s2")
OUT_SCHEMAS = ("o1", "o2")

_ENGINES: List[Any] = []


def preload() -> None:
    """Import everything workers need before forking, and keep track of engines the code under
    test opens so that no connection outlives its case."""
    import sqlalchemy as sa

    real = sa.create_engine

    def create_engine(*args, **kwargs):
        engine = real(*args, **kwargs)
        _ENGINES.append(engine)
        return engine

    sa.create_engine = create_engine
    import psycopg2  # noqa: F401
    import pymysql  # noqa: F401
    import hypothesis  # noqa: F401
    import subsetter.__main__  # noqa: F401
    import subsetter.planner
    import subsetter.sampler  # noqa: F401

    where = os.path.realpath(subsetter.planner.__file__)
    if not where.startswith("/repo/"):
        raise RuntimeError(f"subsetter imported from {where}")


def dispose_engines() -> None:
    while _ENGINES:
        try:
            _ENGINES.pop().dispose()
        except Exception:  # pylint: disable=broad-except
            pass


# ------------------------------------------------------------------ servers


def _user() -> pwd.struct_passwd:
    for name in ("subsetter-test", "postgres", "nobody"):
        try:
            return pwd.getpwnam(name)
        except KeyError:
            continue
    raise RuntimeError("no unprivileged user")


def _as_user(cmd: List[str]) -> List[str]:
    u = _user()
    return ["setpriv", "--reuid", str(u.pw_uid), "--regid", str(u.pw_gid), "--clear-groups"] + cmd


def _free_port() -> int:
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def _own_dir(name: str) -> str:
    u = _user()
    path = os.path.join(SCRATCH, name)
    os.makedirs(path)
    os.chown(path, u.pw_uid, u.pw_gid)
    return path


def _spawn(cmd: List[str], log: str) -> subprocess.Popen:
    with open(log, "ab") as f:
        proc = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=f, cwd=SCRATCH, start_new_session=True)
    PROCS.append(proc)
    with open(os.path.join(SCRATCH, "server-pids"), "a", encoding="utf-8") as f:
        f.write(f"{proc.pid}\n")
    return proc


def _tail(path: str) -> str:
    try:
        with open(path, errors="replace") as f:
            return f.read()[-2000:]
    except OSError:
        return ""


def _mysqld() -> str:
    path = shutil.which("mysqld", path=os.environ.get("PATH", "") + ":/usr/sbin:/usr/local/sbin:/usr/libexec:/usr/local/bin:/usr/bin")
    if path is None:
        raise RuntimeError("mysqld not found")
    return path


def _pg_bin() -> str:
    dirs = sorted(glob.glob("/usr/lib/postgresql/*/bin"))
    return dirs[-1] if dirs else ""


def start_postgres(extra: Tuple[str, ...] = (), name: str = "pg", prepare=None) -> Dict[str, Any]:
    binp = _pg_bin()
    base = _own_dir(name)
    data = os.path.join(base, "data")
    log = os.path.join(base, "log")
    r = subprocess.run(
        _as_user([f"{binp}/initdb", "-D", data, "-U", "postgres", "-A", "trust", "--locale=C", "-E", "UTF8", "--no-sync"]),
        stdin=subprocess.DEVNULL, capture_output=True, cwd=SCRATCH, check=False,
    )
    if r.returncode:
        raise RuntimeError(f"initdb: {r.stderr.decode()[-2000:]}")
    if prepare:
        prepare(data)
    for attempt in range(4):
        port = _free_port()
        proc = _spawn(
            _as_user(
                [f"{binp}/postgres", "-D", data, "-p", str(port), "-k", base, "-h", "127.0.0.1", "-F"]
                + ["-c", "max_connections=400", "-c", "synchronous_commit=off", "-c", "full_page_writes=off", "-c", "autovacuum=off"]
                + ["-c", "shared_buffers=64MB", "-c", "timezone=UTC"]
                + list(extra)
            ),
            log,
        )
        import psycopg2

        end = time.time() + 60
        while time.time() < end and proc.poll() is None:
            try:
                psycopg2.connect(host=base, port=port, user="postgres", dbname="postgres").close()
                return {"host": "127.0.0.1", "port": port, "sock": base, "proc": proc, "data": data}
            except psycopg2.OperationalError:
                time.sleep(0.1)
    raise RuntimeError("postgres did not start: " + _tail(log))


MYSQL_FLAGS = [
    "--innodb-flush-log-at-trx-commit=0", "--skip-log-bin", "--innodb-doublewrite=0", "--mysqlx=OFF",
    "--skip-name-resolve", "--bind-address=127.0.0.1", "--character-set-server=utf8mb4",
    "--collation-server=utf8mb4_bin", "--default-time-zone=+00:00", "--secure-file-priv=NULL", "--max-connections=300",
    "--innodb-buffer-pool-size=32M", "--loose-innodb-redo-log-capacity=8M",
]


def init_mysql(name: str) -> Tuple[str, str]:
    base = _own_dir(name)
    data = os.path.join(base, "data")
    r = subprocess.run(
        _as_user([_mysqld(), "--no-defaults", "--initialize-insecure", f"--datadir={data}"] + MYSQL_FLAGS[:3]),
        stdin=subprocess.DEVNULL, capture_output=True, cwd=SCRATCH, check=False,
    )
    if r.returncode:
        raise RuntimeError(f"mysqld init: {r.stderr.decode()[-2000:]}")
    return base, data


def start_mysqld(base: str, data: str, extra: Tuple[str, ...] = ()) -> Dict[str, Any]:
    import pymysql

    init = os.path.join(base, "init.sql")
    with open(init, "w", encoding="utf-8") as f:
        f.write("CREATE USER IF NOT EXISTS 'vt'@'%' IDENTIFIED BY 'vt';\nGRANT ALL ON *.* TO 'vt'@'%' WITH GRANT OPTION;\n")
        f.write("CREATE USER IF NOT EXISTS 'vsrc'@'%' IDENTIFIED BY 'vt';\n")
        f.write("CREATE USER IF NOT EXISTS 'vdst'@'%' IDENTIFIED BY 'vt';\n")
        f.write("CREATE USER IF NOT EXISTS 'vall'@'%' IDENTIFIED BY 'vt';\n")
        f.write("CREATE USER IF NOT EXISTS 'vro'@'%' IDENTIFIED BY 'vt';\n")
        f.write("GRANT SELECT ON performance_schema.session_variables TO 'vro'@'%';\n")
        for s in SCHEMAS:
            f.write(f"GRANT SELECT, CREATE TEMPORARY TABLES ON `{s}`.* TO 'vro'@'%';\n")
        for u, schemas in (("vsrc", SCHEMAS), ("vdst", OUT_SCHEMAS), ("vall", SCHEMAS + OUT_SCHEMAS)):
            f.write(f"GRANT SELECT ON performance_schema.session_variables TO '{u}'@'%';\n")
            for s in schemas:
                f.write(f"GRANT ALL ON `{s}`.* TO '{u}'@'%';\n")
    os.chmod(init, 0o644)
    log = os.path.join(base, "log")
    for attempt in range(4):
        port = _free_port()
        proc = _spawn(
            _as_user(
                [_mysqld(), "--no-defaults", f"--datadir={data}", f"--port={port}", f"--socket={base}/sock", f"--pid-file={base}/pid", f"--init-file={init}"]
                + MYSQL_FLAGS
                + list(extra)
            ),
            log,
        )
        end = time.time() + 90
        while time.time() < end and proc.poll() is None:
            try:
                pymysql.connect(unix_socket=f"{base}/sock", user="vt", password="vt").close()
                return {"host": "127.0.0.1", "port": port, "sock": f"{base}/sock", "proc": proc, "base": base}
            except pymysql.err.MySQLError:
                time.sleep(0.1)
    raise RuntimeError("mysqld did not start: " + _tail(log))


def start_servers(kinds: Iterable[str]) -> None:
    kinds = set(kinds)
    if "all" in kinds:
        kinds |= {"postgres", "mysql"}
    import threading

    errs: List[BaseException] = []

    def _pg() -> None:
        try:
            SERVERS["postgres"] = start_postgres()
        except BaseException as exc:  # pylint: disable=broad-except
            errs.append(exc)

    def _my() -> None:
        try:
            base, data = init_mysql("my0")
            copies = [(base, data)]
            for i in range(1, N_MYSQL):
                b = _own_dir(f"my{i}")
                subprocess.run(["cp", "-a", data, os.path.join(b, "data")], check=True)
                os.unlink(os.path.join(b, "data", "auto.cnf")) if os.path.exists(os.path.join(b, "data", "auto.cnf")) else None
                copies.append((b, os.path.join(b, "data")))
            res: List[Any] = [None] * len(copies)

            def _one(i: int) -> None:
                try:
                    res[i] = start_mysqld(*copies[i])
                except BaseException as exc:  # pylint: disable=broad-except
                    errs.append(exc)

            ts = [threading.Thread(target=_one, args=(i,)) for i in range(len(copies))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            SERVERS["mysql"] = res
        except BaseException as exc:  # pylint: disable=broad-except
            errs.append(exc)

    def _pgtls() -> None:
        try:
            SERVERS["pgtls"] = start_tls_postgres()
        except BaseException as exc:  # pylint: disable=broad-except
            errs.append(exc)

    def _mytls() -> None:
        try:
            SERVERS["mytls"] = start_tls_mysql()
        except BaseException as exc:  # pylint: disable=broad-except
            errs.append(exc)

    threads = []
    if "pgtls" in kinds:
        threads.append(threading.Thread(target=_pgtls))
    if "mytls" in kinds:
        threads.append(threading.Thread(target=_mytls))
    if "postgres" in kinds:
        threads.append(threading.Thread(target=_pg))
    if "mysql" in kinds:
        threads.append(threading.Thread(target=_my))
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errs:
        raise errs[0]


# Servers with the certificates of pbt/certs: "match" is valid for localhost and 127.0.0.1,
# "local" for localhost only, "other" for another host, all from ca1; "foreign" is from ca2.
CERTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "certs")
TLS_SERVERS = ("match", "local", "other", "foreign")


def tls_files(base: str) -> str:
    """A copy of the certificates that the server may read."""
    u = _user()
    d = os.path.join(base, "certs")
    os.makedirs(d)
    for n in os.listdir(CERTS):
        dst = os.path.join(d, n)
        shutil.copyfile(os.path.join(CERTS, n), dst)
        os.chown(dst, u.pw_uid, u.pw_gid)
        os.chmod(dst, 0o600)
    os.chown(d, u.pw_uid, u.pw_gid)
    return d


def start_tls_postgres() -> Dict[str, Any]:
    def prepare(data: str) -> None:
        path = os.path.join(data, "pg_hba.conf")
        with open(path, "w", encoding="utf-8") as f:
            f.write("local all all trust\nhostssl all vcert all trust clientcert=verify-ca\nhost all vcert all reject\nhost all all all trust\n")

    out = {"plain": start_postgres(name="pgtls-plain", prepare=prepare)}
    for n in TLS_SERVERS:
        d = tls_files(_own_dir("pgcerts-" + n))
        extra = ("-c", "ssl=on", "-c", f"ssl_cert_file={d}/{n}.pem", "-c", f"ssl_key_file={d}/{n}.key", "-c", f"ssl_ca_file={d}/ca1.pem")
        out[n] = start_postgres(extra, "pgtls-" + n, prepare)
    import psycopg2

    for srv in out.values():
        con = psycopg2.connect(host=srv["sock"], port=srv["port"], user="postgres", dbname="postgres")
        con.autocommit = True
        con.cursor().execute("CREATE ROLE vcert LOGIN SUPERUSER; CREATE SCHEMA s1; CREATE TABLE s1.t(id INT PRIMARY KEY); CREATE SCHEMA o1; CREATE TABLE o1.t(id INT PRIMARY KEY); INSERT INTO s1.t VALUES (1)")
        con.close()
    return out


def start_tls_mysql() -> Dict[str, Any]:
    import pymysql

    base, data = init_mysql("mytls")
    plain = _own_dir("mytls-plain")
    subprocess.run(["cp", "-a", data, os.path.join(plain, "data")], check=True)
    if os.path.exists(os.path.join(plain, "data", "auto.cnf")):
        os.unlink(os.path.join(plain, "data", "auto.cnf"))
    d = tls_files(base)
    out = {
        "plain": start_mysqld(plain, os.path.join(plain, "data"), ("--skip-ssl",)),
        "tls": start_mysqld(base, data, (f"--ssl-ca={d}/ca1.pem", f"--ssl-cert={d}/match.pem", f"--ssl-key={d}/match.key")),
    }
    for srv in out.values():
        con = pymysql.connect(unix_socket=srv["sock"], user="vt", password="vt", autocommit=True)
        cur = con.cursor()
        for q in ("CREATE DATABASE s1", "CREATE DATABASE o1", "CREATE TABLE s1.t(id INT PRIMARY KEY)", "CREATE TABLE o1.t(id INT PRIMARY KEY)", "INSERT INTO s1.t VALUES (1)"):
            cur.execute(q)
        for user, req in (("vcert", "REQUIRE X509"), ("vany", "")):
            cur.execute(f"CREATE USER '{user}'@'%' IDENTIFIED WITH mysql_native_password BY 'vt' {req}")
            cur.execute(f"GRANT ALL ON *.* TO '{user}'@'%'")
        con.close()
        srv["certs"] = d
    return out


class TlsEnv:
    """A server with a chosen certificate."""

    def __init__(self, dialect: str) -> None:
        self.dialect = dialect
        self.srv: Any = SERVERS["pgtls" if dialect == "postgres" else "mytls"]
        self.now: Any = None
        self.con: Any = None

    def use(self, cert: str) -> Dict[str, Any]:
        """Connection settings of the server with a certificate ("plain": without TLS)."""
        if self.dialect == "postgres":
            srv = self.srv[cert]
            return {"dialect": "postgres", "port": srv["port"], "database": "postgres", "username": "postgres", "password": "vt"}
        srv = self.srv["plain" if cert == "plain" else "tls"]
        if cert not in ("plain", self.now):
            if self.con is None:
                import pymysql

                self.con = pymysql.connect(unix_socket=srv["sock"], user="vt", password="vt", autocommit=True)
            cur = self.con.cursor()
            cur.execute(f"SET GLOBAL ssl_cert = '{srv['certs']}/{cert}.pem'")
            cur.execute(f"SET GLOBAL ssl_key = '{srv['certs']}/{cert}.key'")
            cur.execute("ALTER INSTANCE RELOAD TLS")
            self.now = cert
        return {"dialect": "mysql", "port": srv["port"], "username": "vany", "password": "vt"}

    def reset(self) -> None:
        pass

    def end_case(self) -> None:
        dispose_engines()

    def close(self) -> None:
        dispose_engines()


def stop_servers() -> None:
    while PROCS:
        proc = PROCS.pop()
        if proc.poll() is None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                proc.wait(10)
            except Exception:  # pylint: disable=broad-except
                pass
    SERVERS.clear()


# ------------------------------------------------------------------ values

DDL_TYPES = {
    "sqlite": {
        "int": "INTEGER", "big": "BIGINT", "str": "VARCHAR(40)", "text": "TEXT", "float": "DOUBLE", "dec": "NUMERIC(18, 4)",
        "bool": "BOOLEAN", "date": "DATE", "dt": "TIMESTAMP", "time": "TIME", "bin": "BLOB", "json": "JSON",
    },
    "postgres": {
        "int": "INTEGER", "big": "BIGINT", "str": "VARCHAR(40)", "text": "TEXT", "float": "DOUBLE PRECISION", "dec": "NUMERIC(24, 4)",
        "bool": "BOOLEAN", "date": "DATE", "dt": "TIMESTAMP", "time": "TIME", "bin": "BYTEA", "json": "JSON", "jsonb": "JSONB",
        "uuid": "UUID", "tz": "TIMESTAMP WITH TIME ZONE", "iarr": "INTEGER[]",
    },
    "mysql": {
        "int": "INT", "big": "BIGINT", "str": "VARCHAR(40)", "text": "TEXT", "float": "DOUBLE", "dec": "DECIMAL(24, 4)",
        "bool": "BOOLEAN", "date": "DATE", "dt": "DATETIME(6)", "time": "TIME(6)", "bin": "BLOB", "json": "JSON",
    },
}


def to_driver(dialect: str, typ: str, v: Any) -> Any:
    """JSON case value -> what the raw driver stores."""
    if v is None:
        return None
    if typ in ("json", "jsonb"):
        return json.dumps(v)
    if typ == "bin":
        return bytes.fromhex(v)
    if dialect == "sqlite":
        if typ == "dec":
            return float(v)
        if typ == "bool":
            return int(v)
        return v
    if typ == "dec":
        return decimal.Decimal(v)
    if typ == "bool":
        return bool(v)
    return v


def from_driver(dialect: str, typ: str, v: Any) -> Any:
    """Raw driver value -> comparable JSON-like value (the same form cases use)."""
    if v is None:
        return None
    if typ in ("json", "jsonb"):
        v = json.loads(v) if isinstance(v, (str, bytes)) else v
        return "\0json null" if v is None else v
    if typ == "bin":
        return bytes(v).hex()
    if typ == "bool":
        return bool(v) if v in (0, 1, True, False) else v
    if typ == "dec":
        if isinstance(v, (int, float)):
            return str(decimal.Decimal(repr(v)).quantize(decimal.Decimal("0.0001")))
        return str(decimal.Decimal(v).quantize(decimal.Decimal("0.0001")))
    if typ == "dt":
        return v.isoformat(sep=" ", timespec="microseconds") if isinstance(v, datetime.datetime) else v
    if typ == "tz":
        return v.astimezone(datetime.timezone.utc).isoformat(sep=" ", timespec="microseconds") if isinstance(v, datetime.datetime) else v
    if typ == "date":
        return v.isoformat() if isinstance(v, datetime.date) else v
    if typ == "time":
        if isinstance(v, datetime.timedelta):
            v = (datetime.datetime(2000, 1, 1) + v).time()
        return v.isoformat(timespec="microseconds") if isinstance(v, datetime.time) else v
    return v


# ------------------------------------------------------------------ environments


class Env:
    dialect = ""

    def __init__(self) -> None:
        self.shared = False
        self.remap = False

    # -- naming
    def q(self, name: str) -> str:
        if self.dialect == "mysql":
            return "`" + name.replace("`", "``") + "`"
        return '"' + name.replace('"', '""') + '"'

    def fq(self, table: str) -> str:
        schema, name = table.split(".", 1)
        return f"{self.q(schema)}.{self.q(name)}"

    def dst_schema(self, schema: str) -> str:
        return "o" + schema[1:] if self.remap else schema

    def dst(self, table: str) -> str:
        schema, name = table.split(".", 1)
        return f"{self.dst_schema(schema)}.{name}"

    def remap_cfg(self) -> List[dict]:
        return [{"search": "^s(\\d)\\.", "replace": "o\\1."}] if self.remap else []

    def begin(self, *, remap: bool = False, shared: bool = False) -> None:
        """Start a case with empty databases."""
        self.shared = shared
        self.remap = remap or shared or self.dialect == "mysql"
        self.reset()

    def end_case(self) -> None:
        dispose_engines()

    # -- raw access (overridden)
    def conn(self, where: str):
        raise NotImplementedError

    def reset(self) -> None:
        raise NotImplementedError

    def run(self, where: str, statements: Iterable[str]) -> None:
        con = self.conn(where)
        cur = con.cursor()
        for s in statements:
            cur.execute(s)
        cur.close()
        con.commit()

    def select(self, where: str, sql: str) -> List[tuple]:
        con = self.conn(where)
        cur = con.cursor()
        cur.execute(sql)  # no parameters, so no driver looks for placeholders
        rows = [tuple(r) for r in cur.fetchall()]
        cur.close()
        con.commit()
        return rows

    # -- schema and rows
    def type_ddl(self, typ: str) -> str:
        return typ[4:] if typ.startswith("raw:") else DDL_TYPES[self.dialect][typ]

    def loose_sequence(self, table: str) -> str:
        return self.fq(f"{table.split('.', 1)[0]}.Sq {zlib.crc32(table.encode()) % 10000}")

    def table_ddl(self, t: dict, name_map=lambda n: n, keep_fk=lambda ref: True) -> List[str]:
        """CREATE TABLE for a table description."""
        q = self.q
        table = name_map(t["name"])
        parts = []
        around: List[str] = []
        inline_pk = False
        for c in t["cols"]:
            line = f"{q(c['n'])} {self.type_ddl(c['t'])}"
            if c.get("auto"):
                if self.dialect == "sqlite":
                    line += " PRIMARY KEY" + (" AUTOINCREMENT" if c["auto"] == "seq" else "")
                    inline_pk = True
                elif self.dialect == "mysql":
                    line += " NOT NULL AUTO_INCREMENT"
                elif c["auto"].startswith("identity"):
                    opts = c["auto"][9:]
                    line += " GENERATED BY DEFAULT AS IDENTITY" + (f" ({opts})" if opts else "")
                elif c["auto"] in ("owned", "loose"):
                    # a sequence of another name, which may not belong to the column
                    seq = self.loose_sequence(table)
                    around = [f"CREATE SEQUENCE {seq}"] + ([f"ALTER SEQUENCE {seq} OWNED BY {self.fq(table)}.{q(c['n'])}"] if c["auto"] == "owned" else [])
                    line += f" NOT NULL DEFAULT nextval('{seq}')"
                else:
                    line = f"{q(c['n'])} " + ("BIGSERIAL" if c["t"] == "big" else "SERIAL")
            elif c.get("gen"):
                line += f" GENERATED ALWAYS AS ({c['gen']}) STORED"
            elif not c.get("null", True):
                line += " NOT NULL"
            if c.get("default") is not None:
                line += f" DEFAULT {c['default']}"
            parts.append(line)
        if t.get("pk") and not inline_pk:
            parts.append("PRIMARY KEY (" + ", ".join(q(c) for c in t["pk"]) + ")")
        for u in t.get("uniq", ()):
            parts.append("UNIQUE (" + ", ".join(q(c) for c in u) + ")")
        for check in t.get("checks", ()):
            parts.append(f"CHECK ({check})")
        for fk in t.get("fks", ()):
            if not keep_fk(fk["ref"]):
                continue
            ref = name_map(fk["ref"])
            rname = self.fq(ref)
            if self.dialect == "sqlite":
                assert ref.split(".", 1)[0] == table.split(".", 1)[0], "sqlite cannot reference another schema"
                rname = q(ref.split(".", 1)[1])
            parts.append(
                (f"CONSTRAINT {q(fk['name'])} " if fk.get("name") else "")
                + "FOREIGN KEY (" + ", ".join(q(c) for c in fk["cols"]) + f") REFERENCES {rname} (" + ", ".join(q(c) for c in fk["rcols"]) + ")"
            )
        out = around[:1] + [f"CREATE TABLE {self.fq(table)} (" + ", ".join(parts) + ")"] + around[1:]
        for i, ix in enumerate(t.get("idx", ())):
            schema, short = table.split(".", 1)
            iname = f"ix_{i}_{''.join(ch for ch in short if ch.isalnum())[:20]}_{zlib.crc32(table.encode()) % 1000}"
            cols = ix.get("sql") or ", ".join(q(c) for c in ix["cols"])
            where = f" WHERE {ix['where']}" if ix.get("where") else ""
            uq = "UNIQUE " if ix.get("unique") else ""
            if self.dialect == "sqlite":
                out.append(f"CREATE {uq}INDEX {q(schema)}.{q(iname)} ON {q(short)} ({cols}){where}")
            else:
                out.append(f"CREATE {uq}INDEX {q(iname)} ON {self.fq(table)} ({cols}){where}")
        return out

    def create(self, where: str, tables: List[dict], name_map=lambda n: n, keep_fk=lambda ref: True) -> None:
        stmts: List[str] = []
        for t in tables:
            stmts.extend(self.table_ddl(t, name_map, keep_fk))
        self.run(where, stmts)

    def insert(self, where: str, t: dict, rows: List[list], name: Optional[str] = None, cols: Optional[List[str]] = None) -> None:
        if not rows:
            return
        gen = {c["n"] for c in t["cols"] if c.get("gen")}
        types = {c["n"]: c["t"] for c in t["cols"]}
        allcols = cols or [c["n"] for c in t["cols"]]
        idx = [i for i, c in enumerate(allcols) if c not in gen]
        names = [allcols[i] for i in idx]
        mark = "?" if self.dialect == "sqlite" else "%s"
        sql = f"INSERT INTO {self.fq(name or t['name'])} (" + ", ".join(self.q(n) for n in names) + ") VALUES "
        data = [tuple(to_driver(self.dialect, types[n], r[i]) for i, n in zip(idx, names)) for r in rows]
        con = self.conn(where)
        cur = con.cursor()
        if self.dialect == "postgres":
            from psycopg2.extras import execute_values

            sql = sql.replace("%", "%%")
            execute_values(cur, sql + "%s", data, page_size=500)
            if where == "dst":
                # As if the keys had been generated
                for c in t["cols"]:
                    if c.get("auto") and c["n"] in names:
                        lit, fq = c["n"].replace("'", "''"), self.fq(name or t["name"])
                        seq = f"pg_get_serial_sequence('{fq.replace(chr(39), chr(39) * 2)}', '{lit}')"
                        top = max(d[names.index(c["n"])] for d in data)
                        if top >= 1:
                            cur.execute(f"SELECT setval(s::regclass, GREATEST({top}, COALESCE(pg_sequence_last_value(s::regclass), 1))) FROM (SELECT {seq} AS s) x WHERE s IS NOT NULL")
        else:
            if self.dialect == "mysql":
                sql = sql.replace("%", "%%")
            cur.executemany(sql + "(" + ", ".join([mark] * len(names)) + ")", data)
        cur.close()
        con.commit()

    def rows(self, where: str, t: dict, name: Optional[str] = None, cols: Optional[List[str]] = None) -> List[tuple]:
        """All rows of a table, as comparable values, ordered by column list."""
        names = cols or [c["n"] for c in t["cols"]]
        types = {c["n"]: c["t"] for c in t["cols"]}
        cast = "::text" if self.dialect == "postgres" else ""
        raw = self.select(where, "SELECT " + ", ".join(self.q(n) + (cast if types[n] in ("json", "jsonb") else "") for n in names) + f" FROM {self.fq(name or t['name'])}")
        return [tuple(from_driver(self.dialect, types[n], v) for n, v in zip(names, r)) for r in raw]

    def add_fault(self, where: str, table: str, kind: str, n: int = 0) -> None:
        """Make the database reject writes to a table: "insert" once it holds n rows, "delete" always."""
        q, fq = self.q, self.fq(table)
        schema, short = table.split(".", 1)
        name = f"vt_fault_{kind}_{zlib.crc32(table.encode()) % 100000}"
        if self.dialect == "sqlite":
            cond = f" WHEN (SELECT COUNT(*) FROM {q(short)}) >= {n}" if kind == "insert" else ""
            self.run(where, [f"CREATE TRIGGER {q(schema)}.{name} BEFORE {kind.upper()} ON {q(short)}{cond} BEGIN SELECT RAISE(ABORT, 'vt rejected'); END"])
        elif self.dialect == "postgres":
            cond = f"(SELECT COUNT(*) FROM {fq}) >= {n}" if kind == "insert" else "true"
            ret = "NEW" if kind == "insert" else "OLD"
            self.run(
                where,
                [
                    f"CREATE FUNCTION {q(schema)}.{name}() RETURNS trigger LANGUAGE plpgsql VOLATILE AS $$ BEGIN"
                    f" IF {cond} THEN RAISE EXCEPTION 'vt rejected'; END IF; RETURN {ret}; END $$",
                    f"CREATE TRIGGER {name} BEFORE {kind.upper()} ON {fq} FOR EACH ROW EXECUTE FUNCTION {q(schema)}.{name}()",
                ],
            )
        else:
            cond = f"(SELECT COUNT(*) FROM {fq}) >= {n}" if kind == "insert" else "true"
            self.run(
                where,
                [
                    f"CREATE TRIGGER {q(schema)}.{name} BEFORE {kind.upper()} ON {fq} FOR EACH ROW BEGIN"
                    f" IF {cond} THEN SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = 'vt rejected'; END IF; END"
                ],
            )

    def drop_fault(self, where: str, table: str, kind: str) -> None:
        schema, _ = table.split(".", 1)
        name = f"vt_fault_{kind}_{zlib.crc32(table.encode()) % 100000}"
        if self.dialect == "postgres":
            self.run(where, [f"DROP TRIGGER {name} ON {self.fq(table)}", f"DROP FUNCTION {self.q(schema)}.{name}()"])
        else:
            self.run(where, [f"DROP TRIGGER {self.q(schema)}.{name}"])

    def generators(self, where: str, schemas: Optional[Iterable[str]] = None) -> Any:
        """State of the id generators (sequences, AUTO_INCREMENT counters)."""
        return None

    def snapshot(self, where: str, tables: Iterable[str]) -> Any:
        """Raw content of tables, order ignored."""
        cast = "::text" if self.dialect == "postgres" else ""
        out = {}
        for t in tables:
            raw = self.select(where, f"SELECT {'x' + cast if cast else '*'} FROM {self.fq(t)}" + (" AS x" if cast else ""))
            out[t] = sorted(map(repr, raw))
        return out

    def table_names(self, where: str) -> List[str]:
        raise NotImplementedError

    def exists(self, where: str, table: str) -> bool:
        return table in self.table_names(where)

    def close(self) -> None:
        pass


class SqliteEnv(Env):
    dialect = "sqlite"

    def __init__(self, name: str) -> None:
        super().__init__()
        self.base = os.path.join(SCRATCH, f"sq-{name}-{os.getpid()}")
        self.n = 0
        self.cons: Dict[str, sqlite3.Connection] = {}
        self.dir = ""

    def reset(self) -> None:
        self._drop()
        self.n += 1
        self.dir = f"{self.base}-{self.n}"
        os.makedirs(self.dir)

    def _drop(self) -> None:
        for c in self.cons.values():
            c.close()
        self.cons.clear()
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = ""

    def end_case(self) -> None:
        super().end_case()
        gc.collect() if self.n % 20 == 0 else None
        self._drop()

    def _files(self, where: str) -> Dict[str, str]:
        if self.shared:
            return {s: f"{self.dir}/x_{s}.db" for s in SCHEMAS + OUT_SCHEMAS}
        if where == "src":
            return {s: f"{self.dir}/src_{s}.db" for s in SCHEMAS}
        return {s: f"{self.dir}/dst_{s}.db" for s in (OUT_SCHEMAS if self.remap else SCHEMAS)}

    def cfg(self, where: str) -> dict:
        return {"dialect": "sqlite", "sqlite_databases": self._files(where)}

    def conn(self, where: str):
        key = "x" if self.shared else where
        con = self.cons.get(key)
        if con is None:
            con = sqlite3.connect(":memory:")
            con.execute("PRAGMA synchronous=OFF")
            for s, p in self._files(where).items():
                con.execute(f"ATTACH DATABASE '{p}' AS {s}")
                con.execute(f"PRAGMA {s}.synchronous=OFF")
            self.cons[key] = con
        return con

    def catalog(self, where: str) -> dict:
        out = {}
        for s in self._files(where):
            out[s] = sorted(map(str, self.select(where, f"SELECT type, name, tbl_name, sql FROM {s}.sqlite_master")))
        return out

    def generators(self, where: str, schemas: Optional[Iterable[str]] = None) -> Any:
        out = {}
        for s in schemas or self._files(where):
            if self.select(where, f"SELECT 1 FROM {s}.sqlite_master WHERE name = 'sqlite_sequence'"):
                out.update({f"{s}.{n}": v for n, v in self.select(where, f"SELECT name, seq FROM {s}.sqlite_sequence")})
        return out

    def table_names(self, where: str) -> List[str]:
        out = []
        for s in self._files(where):
            out += [f"{s}.{r[0]}" for r in self.select(where, f"SELECT name FROM {s}.sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite\\_%' ESCAPE '\\'")]
        return out

    def close(self) -> None:
        self._drop()


class PgEnv(Env):
    dialect = "postgres"

    def __init__(self, name: str) -> None:
        super().__init__()
        self.srv = SERVERS["postgres"]
        self.ro = f"vro_{os.getpid()}"
        safe = "".join(ch if ch.isalnum() else "_" for ch in name).lower()
        self.dbs = {"src": f"s_{safe}_{os.getpid()}", "dst": f"d_{safe}_{os.getpid()}"}
        self.cons: Dict[str, Any] = {}
        adm = self._connect("postgres")
        adm.autocommit = True
        cur = adm.cursor()
        for db in self.dbs.values():
            cur.execute(f"CREATE DATABASE {db} TEMPLATE template0")
        cur.execute(f"CREATE ROLE {self.ro} LOGIN")
        self.adm = adm

    def _connect(self, db: str):
        import psycopg2

        return psycopg2.connect(host=self.srv["sock"], port=self.srv["port"], user="postgres", dbname=db)

    def _key(self, where: str) -> str:
        return "src" if self.shared else where

    def conn(self, where: str):
        key = self._key(where)
        con = self.cons.get(key)
        if con is None or con.closed:
            con = self.cons[key] = self._connect(self.dbs[key])
        return con

    def cfg(self, where: str) -> dict:
        return {
            "dialect": "postgres", "host": self.srv["host"], "port": self.srv["port"], "database": self.dbs[self._key(where)],
            "username": "postgres", "password": "x",
        }

    def reset(self) -> None:
        cur = self.adm.cursor()
        cur.execute(
            "SELECT pg_terminate_backend(pid) FROM pg_stat_activity WHERE datname = ANY(%s) AND pid <> ALL(%s)",
            (list(self.dbs.values()), [c.get_backend_pid() for c in self.cons.values() if not c.closed] or [0]),
        )
        for where in ("src", "dst"):
            con = self.cons.get(where)
            if con is None or con.closed:
                con = self.cons[where] = self._connect(self.dbs[where])
            con.rollback()
            cur = con.cursor()
            cur.execute("SELECT nspname FROM pg_namespace WHERE nspname !~ '^pg_' AND nspname <> 'information_schema'")
            for (n,) in cur.fetchall():
                cur.execute(f'DROP SCHEMA "{n}" CASCADE')
            for s in SCHEMAS + OUT_SCHEMAS + ("public",):
                cur.execute(f"CREATE SCHEMA {s}")
            con.commit()

    def catalog(self, where: str) -> dict:
        return {
            "cols": self.select(
                where,
                "SELECT table_schema, table_name, column_name, ordinal_position, data_type, is_nullable, column_default, identity_generation"
                " FROM information_schema.columns WHERE table_schema !~ '^pg_' AND table_schema <> 'information_schema' ORDER BY 1,2,4",
            ),
            "cons": self.select(
                where, "SELECT conrelid::regclass::text, pg_get_constraintdef(oid) FROM pg_constraint WHERE connamespace IN (SELECT oid FROM pg_namespace WHERE nspname !~ '^pg_' AND nspname <> 'information_schema') ORDER BY 1, 2"
            ),
            "rels": self.select(
                where,
                "SELECT n.nspname, c.relname, c.relkind::text FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace"
                " WHERE n.nspname !~ '^pg_' AND n.nspname <> 'information_schema' ORDER BY 1, 2",
            ),
        }

    def readonly_cfg(self) -> dict:
        """Settings of an account that may only read the source (and use temporary tables)."""
        for s in SCHEMAS:
            self.run("src", [f"GRANT USAGE ON SCHEMA {s} TO {self.ro}", f"GRANT SELECT ON ALL TABLES IN SCHEMA {s} TO {self.ro}"])
        return {**self.cfg("src"), "username": self.ro}

    def generators(self, where: str, schemas: Optional[Iterable[str]] = None) -> Any:
        return {
            f"{s}.{n}": v
            for s, n, v in self.select(where, "SELECT schemaname, sequencename, last_value FROM pg_sequences")
            if schemas is None or s in schemas
        }

    def table_names(self, where: str) -> List[str]:
        return [
            f"{a}.{b}"
            for a, b in self.select(
                where,
                "SELECT n.nspname, c.relname FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace"
                " WHERE n.nspname !~ '^pg_' AND n.nspname <> 'information_schema' AND c.relkind = 'r'",
            )
        ]

    def close(self) -> None:
        dispose_engines()
        for c in self.cons.values():
            c.close()
        self.adm.close()


class MyEnv(Env):
    dialect = "mysql"

    def __init__(self, name: str) -> None:
        super().__init__()
        import pymysql

        self.lock = None
        servers = SERVERS["mysql"]
        while self.lock is None:
            for i, srv in enumerate(servers):
                f = open(os.path.join(SCRATCH, f"mylock{i}"), "a+")  # pylint: disable=consider-using-with
                try:
                    fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                    self.lock = f
                    self.srv = srv
                    break
                except OSError:
                    f.close()
            else:
                time.sleep(0.2)
        self.con = pymysql.connect(unix_socket=self.srv["sock"], user="vt", password="vt", charset="utf8mb4")
        # zeros in AUTO_INCREMENT columns are values like any other
        self.con.cursor().execute("SET SESSION sql_mode = CONCAT(@@sql_mode, ',NO_AUTO_VALUE_ON_ZERO')")

    def conn(self, where: str):
        return self.con

    def cfg(self, where: str) -> dict:
        user = "vall" if self.shared else {"src": "vsrc", "dst": "vdst"}[where]
        return {"dialect": "mysql", "host": self.srv["host"], "port": self.srv["port"], "username": user, "password": "vt"}

    def readonly_cfg(self) -> dict:
        return {**self.cfg("src"), "username": "vro"}

    def reset(self) -> None:
        cur = self.con.cursor()
        self.con.rollback()
        cur.execute("SELECT id FROM information_schema.processlist WHERE user IN ('vsrc', 'vdst', 'vall', 'vro')")
        for (i,) in cur.fetchall():
            try:
                cur.execute(f"KILL {i}")
            except Exception:  # pylint: disable=broad-except
                pass
        cur.execute("SET foreign_key_checks=0")
        for s in SCHEMAS + OUT_SCHEMAS:
            cur.execute(f"DROP DATABASE IF EXISTS {s}")
            cur.execute(f"CREATE DATABASE {s}")
        cur.execute("SET foreign_key_checks=1")
        self.con.commit()

    def _schemas(self, where: str) -> Tuple[str, ...]:
        return SCHEMAS if where == "src" else OUT_SCHEMAS

    def catalog(self, where: str) -> dict:
        out = {}
        for t in sorted(self.table_names(where)):
            ddl = self.select(where, f"SHOW CREATE TABLE {self.fq(t)}")[0][1]
            import re

            out[t] = re.sub(r" AUTO_INCREMENT=\d+", "", ddl)
        return out

    def table_names(self, where: str) -> List[str]:
        ph = ", ".join(f"'{s}'" for s in self._schemas(where))
        return [f"{a}.{b}" for a, b in self.select(where, f"SELECT table_schema, table_name FROM information_schema.tables WHERE table_schema IN ({ph})")]

    def close(self) -> None:
        dispose_engines()
        try:
            self.con.close()
        finally:
            if self.lock:
                self.lock.close()


class MultiEnv:
    """All three dialects at once (for checks that compare them)."""

    def __init__(self, name: str) -> None:
        self.envs = {"sqlite": SqliteEnv(name), "postgres": PgEnv(name), "mysql": MyEnv(name)}

    def __getitem__(self, dialect: str) -> Env:
        return self.envs[dialect]

    def end_case(self) -> None:
        for e in self.envs.values():
            e.end_case()

    def close(self) -> None:
        for e in self.envs.values():
            e.close()


class NoEnv:
    """No database; still drops engines the code under test created."""

    def end_case(self) -> None:
        dispose_engines()

    def close(self) -> None:
        dispose_engines()


def make_env(dialect: str, name: str, shard: int):
    if dialect == "sqlite":
        return SqliteEnv(name)
    if dialect == "postgres":
        return PgEnv(name)
    if dialect == "mysql":
        return MyEnv(name)
    if dialect == "all":
        return MultiEnv(name)
    if dialect in ("pgtls", "mytls"):
        return TlsEnv("postgres" if dialect == "pgtls" else "mysql")
    return NoEnv()
