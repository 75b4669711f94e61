"""C22: TLS settings are honoured: verification is exactly what was asked."""
import os
import shutil
import socket
import sqlite3

from hypothesis import strategies as st

import db
import flow
from core import HarnessError, Sub, Violation, must_succeed

from checks.c07 import scratch
from checks.c21 import with_env

ROOTS = {None: set(), "ca1": {"ca1"}, "ca2": {"ca2"}, "both": {"ca1", "ca2"}}
SIGNER = {"match": "ca1", "local": "ca1", "other": "ca1", "foreign": "ca2"}
NAMES = {"match": {"localhost", "127.0.0.1"}, "local": {"localhost"}, "other": set(), "foreign": {"localhost", "127.0.0.1"}}
CLIENTS = {"client1": "ca1", "client1all": "ca1", "client2": "ca2"}


def strategy(dialect, tier):
    place = st.sampled_from(["cfg", "env", "both"])

    @st.composite
    def side(draw, servers):
        require = draw(st.sampled_from([True, True, True, True, False]))
        good = draw(st.booleans())  # settings that fit the server
        server = draw(st.sampled_from(servers))
        verify = draw(st.sampled_from(["none", "cert", "identity"]))
        root = draw(st.sampled_from([None, "ca1", "ca2", "both"]))
        client = draw(st.sampled_from([None, None, "client1", "client2", "client1all"]))
        host = draw(st.sampled_from(["localhost", "127.0.0.1"]))
        if good and server != "plain":
            root = draw(st.sampled_from([SIGNER[server], "both"]))
            client = draw(st.sampled_from([None, "client1"]))
            if NAMES[server]:
                host = draw(st.sampled_from(sorted(NAMES[server])))
        if dialect == "pgtls" and client == "client1all":
            client = "client1"
        return {
            "server": server,
            "require": require,
            "verify": verify,
            "root": root,
            "client": client,
            "host": host,
            "user": "vcert" if require and draw(st.integers(0, 2)) == 0 else "any",
            "where": {k: draw(place) for k in ("require", "verify", "root", "client", "host")},
            "null": draw(st.booleans()),
        }

    @st.composite
    def build(draw):
        servers = ["match", "local", "other", "foreign", "plain"]
        which = draw(st.sampled_from(["src", "dst", "src", "dst", "both"]))
        case = {"src": None, "dst": None}
        if which in ("src", "both"):
            case["src"] = draw(side(servers))
        if which in ("dst", "both"):
            case["dst"] = draw(side(servers if dialect == "pgtls" or not case["src"] else [case["src"]["server"]]))
        return case

    return build()


def expect(dialect, s):
    """True: must connect; False: must not; None: unspecified."""
    cert = s["server"]
    if not s["require"]:
        return True
    if cert == "plain":
        return False
    if s["client"] and CLIENTS[s["client"]] != "ca1":
        return False  # the servers trust client certificates of ca1 only
    if s["user"] == "vcert" and not s["client"]:
        return False
    roots = ROOTS[s["root"]]
    if s["verify"] == "none":
        if dialect == "postgres" and s["root"] and SIGNER[cert] not in roots:
            return None  # libpq verifies the chain whenever it is given a root certificate
        return True
    if SIGNER[cert] not in roots:
        return False
    return s["verify"] == "cert" or s["host"] in NAMES[cert]


def settings(env, s, prefix, files):
    conf = env.use(s["server"])
    variables = {}
    if s["user"] == "vcert":
        conf["username"] = "vcert"
    at = s["where"]

    def put(key, name, section, value, wrong):
        """One setting, in the configuration and/or the environment."""
        where = at[key]
        if where in ("cfg", "both"):
            section[name.rsplit("_", 1)[-1].lower()] = value
        if where == "env":
            variables[prefix + name] = str(value)
        elif where == "both":
            variables[prefix + name] = wrong

    ssl = {"client": {}, "server": {}}
    if at["host"] in ("cfg", "both"):
        conf["host"] = s["host"]
    if at["host"] != "cfg":
        variables[prefix + "HOST"] = s["host"] if at["host"] == "env" else "wrong.invalid"
    if s["require"]:
        put("require", "SSL_REQUIRE", ssl, True, "")
    elif at["require"] == "both":
        ssl["require"] = False
        variables[prefix + "SSL_REQUIRE"] = "1"
    if at["verify"] == "cfg" or s["require"] or at["verify"] == "both":
        put("verify", "SSL_SERVER_VERIFY", ssl["server"], s["verify"], "none" if s["verify"] != "none" else "identity")
    if s["root"]:
        put("root", "SSL_SERVER_ROOTCERT", ssl["server"], files[s["root"] + ".pem"], files["ca2.pem" if s["root"] != "ca2" else "ca1.pem"])
    if s["client"]:
        put("client", "SSL_CLIENT_CERT", ssl["client"], files[s["client"] + ".pem"], files["client2.pem" if s["client"] != "client2" else "client1.pem"])
        if s["client"] != "client1all":
            put("client", "SSL_CLIENT_KEY", ssl["client"], files[s["client"] + ".key"], files["client2.key" if s["client"] != "client2" else "client1.key"])
    ssl = {k: v for k, v in ssl.items() if v != {} or s["null"]}
    if ssl:
        conf["ssl"] = ssl
    return conf, variables


def run(case, ctx):
    import sqlalchemy as sa

    from subsetter.common import DatabaseConfig
    from subsetter.config_model import PlannerConfig, SamplerConfig
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler

    env = ctx.env
    if socket.gethostbyname("localhost") != "127.0.0.1":
        raise HarnessError("localhost is not 127.0.0.1")
    seen = []

    def look(con, rec, proxy):
        if env.dialect == "postgres" and hasattr(con, "get_transaction_status"):
            idle = con.get_transaction_status() == 0
            cur = con.cursor()
            cur.execute("SELECT ssl, client_dn FROM pg_stat_ssl WHERE pid = pg_backend_pid()")
            seen.append(cur.fetchone())
            cur.close()
            if idle:
                con.rollback()
        elif env.dialect == "mysql" and not isinstance(con, sqlite3.Connection):
            cur = con.cursor()
            cur.execute("SHOW SESSION STATUS LIKE 'Ssl_cipher'")
            seen.append((bool(cur.fetchone()[1]), None))
            cur.close()

    d = scratch(env)
    sa.event.listen(sa.pool.Pool, "checkout", look)
    try:
        files = {}
        for n in os.listdir(db.CERTS):
            files[n] = os.path.join(d, n)
            shutil.copyfile(os.path.join(db.CERTS, n), files[n])
            os.chmod(files[n], 0o600)
        lite = os.path.join(d, "s1.db")
        con = sqlite3.connect(lite)
        con.executescript("CREATE TABLE t(id INTEGER PRIMARY KEY); INSERT INTO t VALUES (1), (2);")
        con.close()
        local = {"dialect": "sqlite", "sqlite_databases": {"s1": lite}}
        confs, variables = {}, {}
        for k, prefix in (("src", "SUBSET_SOURCE_"), ("dst", "SUBSET_DESTINATION_")):
            if case[k]:
                confs[k], v = settings(env, case[k], prefix, files)
                variables.update(v)
        plan_cfg = PlannerConfig(select=["s1.t"], targets={"s1.t": {"all": True}})

        def start(k, act):
            """Run one side; returns the failure."""
            del seen[:]
            s = case[k]
            want = expect(env.dialect, s)
            about = {**{x: s[x] for x in ("server", "require", "verify", "root", "client", "host", "user")}, "side": k}
            if want is True:
                with must_succeed(f"connecting with {about}"):
                    act()
                err = None
            elif want is False:
                err = flow.refused(f"connecting with {about}", act)
                ctx.check(not seen or (k == "dst" and case["src"]), "a connection was used although verification fails: %r %r", about, seen)
                ctx.tag("refused")
            else:
                try:
                    act()
                    err = None
                except flow.CRASHES as exc:
                    raise Violation(f"{type(exc).__name__}: {exc}") from exc
                except Exception as exc:  # pylint: disable=broad-except
                    err = exc
            if err is None:
                ctx.check(seen, "no connection was made: %r", about)
                if k == "dst" and case["src"]:
                    ctx.tag("both")
                    if s["require"] and case["src"]["require"]:
                        ctx.check(all(x[0] for x in seen), "an unencrypted connection is used: %r", about)
                elif s["require"]:
                    ctx.check(all(x[0] for x in seen), "an unencrypted connection is used: %r", about)
                    if s["client"] and env.dialect == "postgres":
                        ctx.check(all(x[1] and "vtclient" in x[1] for x in seen), "no client certificate is presented: %r %r", about, seen)
                elif env.dialect == "mysql":
                    ctx.tag("plain" if not seen[0][0] else "tls-anyway")
                ctx.tag("accepted")
            ctx.tag(f"{s['server']}/{s['verify']}")
            ctx.nontrivial = ctx.nontrivial or s["require"]
            return err

        def both():
            failed = None
            if case["src"]:
                source = DatabaseConfig(**confs["src"])
                failed = start("src", lambda: Planner(source, plan_cfg).plan())
            if case["dst"] and failed is None:
                source = DatabaseConfig(**(confs["src"] if case["src"] else local))
                plan = Planner(source, plan_cfg).plan()
                out = {"mode": "database", "remap": [{"search": "^s1", "replace": "o1"}], "conflict_strategy": "skip", **confs["dst"]}
                start("dst", lambda: Sampler(source, SamplerConfig(output=out)).sample(plan))

        with_env(variables, both)
    finally:
        sa.event.remove(sa.pool.Pool, "checkout", look)
        shutil.rmtree(d, ignore_errors=True)


SUBS = [
    Sub(
        name="tls",
        run=run,
        strategy=strategy,
        dialects=("pgtls", "mytls"),
        shards={"pgtls": 3, "mytls": 1},
        quick={"pgtls": 220, "mytls": 250},
        thorough={"pgtls": 2500, "mytls": 3000},
        rule="server certificate x require x verify x root x client certificate x host x user that needs a client certificate, settings in the configuration or the environment (with other values for settings in both); non-trivial if TLS is required",
    ),
]
