"""C04: the sampling order is valid for every graph, or a real cycle is reported."""
import re

from hypothesis import strategies as st

import flow
from core import Skip, Sub, Violation, must_succeed


def weak(graph, source):
    both = {u: set(vs) for u, vs in graph.items()}
    for u, vs in graph.items():
        for v in vs:
            both[v].add(u)
    seen, todo = {source}, [source]
    while todo:
        for v in both[todo.pop()]:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


def has_cycle(graph, nodes):
    deg = {u: 0 for u in nodes}
    for u in nodes:
        for v in graph[u]:
            if v in deg:
                deg[v] += 1
    todo = [u for u in nodes if not deg[u]]
    n = 0
    while todo:
        n += 1
        for v in graph[todo.pop()]:
            if v in deg:
                deg[v] -= 1
                if not deg[v]:
                    todo.append(v)
    return n < len(nodes)


def is_cycle(graph, cyc):
    if not cyc or len(set(cyc)) != len(cyc):
        return False
    steps = list(zip(cyc, list(cyc[1:]) + [cyc[0]]))
    return all(b in graph[a] for a, b in steps) or all(a in graph[b] for a, b in steps)


def check_order(graph, source, order_graph, CycleException):
    """None if the ordering (or refusal) is right."""
    reach = weak(graph, source)
    cyclic = has_cycle(graph, reach)
    try:
        order = order_graph(graph, source)
    except CycleException as exc:
        if not cyclic:
            return f"cycle {exc.cycle!r} reported for an acyclic graph"
        if not is_cycle(graph, list(exc.cycle)) or not set(exc.cycle) <= reach:
            return f"reported cycle {exc.cycle!r} is no cycle of the graph"
        return None
    if cyclic:
        return f"no cycle reported, order {order!r}"
    if not order or order[0] != source:
        return f"source is not first in {order!r}"
    if len(order) != len(set(order)) or set(order) != reach:
        return f"order {order!r} does not hold exactly the connected nodes {sorted(reach)!r}"
    rev = {u: set() for u in graph}
    for u, vs in graph.items():
        for v in vs:
            rev[v].add(u)
    done = {source}
    for u in order[1:]:
        fwd, bwd = bool(rev[u] & done), bool(graph[u] & done)
        if fwd == bwd:
            return f"node {u!r} has {'both kinds of' if fwd else 'no'} earlier neighbours in {order!r}"
        done.add(u)
    return None


def check_topo(graph, toposort):
    cyclic = has_cycle(graph, set(graph))
    try:
        order = list(toposort(graph))
    except ValueError:
        return None if cyclic else "topological sort refused an acyclic graph"
    if cyclic:
        return f"topological sort accepted a cyclic graph: {order!r}"
    if len(order) != len(graph) or set(order) != set(graph):
        return f"topological sort {order!r} does not hold every node once"
    pos = {u: i for i, u in enumerate(order)}
    for u, vs in graph.items():
        for v in vs:
            if pos[v] > pos[u]:
                return f"{u!r} comes before {v!r}, which it points to, in {order!r}"
    return None


def make(case):
    names = case["names"]
    g = {n: set() for n in names}
    for a, b in case["edges"]:
        g[names[a % len(names)]].add(names[b % len(names)])
    src = ""
    g[src] = set()
    for a in case["source"]:
        n = names[a % len(names)]
        if case["out"]:
            g[src].add(n)
        else:
            g[n].add(src)
    # node order of the mapping must not matter
    keys = sorted(g, key=lambda n: (n != "" if case["first"] else n == "", n))
    return {k: g[k] for k in (keys[::-1] if case["rev"] else keys)}


def graph_strategy(dialect, tier):
    top = 16 if tier == "thorough" else 10

    @st.composite
    def build(draw):
        n = draw(st.integers(1, top))
        names = draw(st.permutations([f"s.t{i}" for i in range(n)]))
        ne = draw(st.integers(0, 2 * n))
        edges = []
        dag = draw(st.integers(0, 2))
        for _ in range(ne):
            a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if dag and a == b:
                continue
            edges.append([max(a, b), min(a, b)] if dag else [a, b])
        source = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True))
        return {"names": list(names), "edges": edges, "source": source, "out": draw(st.booleans()), "first": draw(st.booleans()), "rev": draw(st.booleans())}

    return build()


def run_graph(case, ctx):
    from subsetter.solver import CycleException, order_graph, toposort

    g = make(case)
    with must_succeed("ordering"):
        msg = check_order(g, "", order_graph, CycleException)
    ctx.check(msg is None, "%s; graph %r", msg, g)
    with must_succeed("topological sort"):
        msg = check_topo(g, toposort)
    ctx.check(msg is None, "%s; graph %r", msg, g)
    reach = weak(g, "")
    if len(reach) > 2:
        ctx.nontrivial = True
    ctx.tag("cyclic" if has_cycle(g, reach) else "acyclic", f"reach:{min(len(reach), 8)}")


CHUNK = 2048


def chunks(dialect, tier):
    """All graphs over a source and up to 4 nodes (without self loops for 4 nodes in the quick tier)."""
    for out in (True, False):
        for n in (1, 2, 3, 4):
            loops = n < 4 or tier == "thorough"
            slots = n * n if loops else n * (n - 1)
            total = 1 << (slots + n)
            for lo in range(0, total, CHUNK):
                yield {"n": n, "loops": loops, "out": out, "lo": lo, "hi": min(total, lo + CHUNK)}


def run_chunk(case, ctx):
    from subsetter.solver import CycleException, order_graph, toposort

    n = case["n"]
    names = [f"t{i}" for i in range(n)]
    slots = [(a, b) for a in names for b in names if case["loops"] or a != b]
    for code in range(case["lo"], case["hi"]):
        if not code & ((1 << n) - 1):
            continue
        g = {x: set() for x in names}
        g[""] = set()
        for i, x in enumerate(names):
            if code >> i & 1:
                if case["out"]:
                    g[""].add(x)
                else:
                    g[x].add("")
        rest = code >> n
        for i, (a, b) in enumerate(slots):
            if rest >> i & 1:
                g[a].add(b)
        with must_succeed(f"ordering {g!r}"):
            msg = check_order(g, "", order_graph, CycleException)
            if msg is None and case["out"] and not case["lo"] % 3:
                msg = check_topo(g, toposort)
        if msg is not None:
            raise Violation(f"{msg}; graph {g!r}")
    ctx.nontrivial = True
    ctx.tag(f"nodes:{n}")


def big_cases(dialect, tier):
    for kind in ("chain", "rchain", "zigzag", "dense", "star", "chain-cycle"):
        for n in (60, 400, 3000):
            if kind == "dense" and n > 400:
                continue
            yield {"kind": kind, "n": n}


def run_big(case, ctx):
    from subsetter.solver import CycleException, order_graph, toposort

    n, kind = case["n"], case["kind"]
    names = [f"t{i:05d}" for i in range(n)]
    g = {x: set() for x in names}
    if kind in ("chain", "chain-cycle"):
        for a, b in zip(names, names[1:]):
            g[a].add(b)
        if kind == "chain-cycle":
            g[names[-1]].add(names[n // 2])
    elif kind == "rchain":
        for a, b in zip(names, names[1:]):
            g[b].add(a)
    elif kind == "zigzag":
        for i, (a, b) in enumerate(zip(names, names[1:])):
            (g[a].add(b) if i % 2 else g[b].add(a))
    elif kind == "dense":
        for i in range(n):
            for j in range(max(0, i - 12), i):
                g[names[i]].add(names[j])
    else:
        for x in names[1:]:
            g[x].add(names[0])
    g[""] = {names[n // 3]}
    with must_succeed("ordering"):
        msg = check_order(g, "", order_graph, CycleException)
    ctx.check(msg is None, "%s (%s %d)", msg and msg[:300], kind, n)
    with must_succeed("topological sort"):
        msg = check_topo(g, toposort)
    ctx.check(msg is None, "%s (%s %d)", msg and msg[:300], kind, n)
    ctx.nontrivial = True


def schema_strategy(dialect, tier):
    @st.composite
    def build(draw):
        n = draw(st.integers(1, 7))
        dag = draw(st.integers(0, 1))
        edges = []
        for _ in range(draw(st.integers(0, 2 * n))):
            a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if dag and a == b:
                continue
            e = [max(a, b), min(a, b)] if dag else [a, b]
            if e not in edges:
                edges.append(e)
        names = [f"s1.t{i}" for i in draw(st.permutations(range(n)))]
        ign = [e for e in edges if draw(st.integers(0, 5)) == 0]
        targets = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True))
        extra = []
        for _ in range(draw(st.sampled_from([0, 0, 1]))):
            extra.append([draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))])
        rest = [i for i in range(n) if i not in targets]
        ignored = draw(st.lists(st.sampled_from(rest), max_size=2, unique=True)) if rest and draw(st.integers(0, 3)) == 0 else []
        return {"names": names, "edges": edges, "ignore_fks": ign, "targets": targets, "extra": extra, "ignored": ignored, "deps": not ignored}

    return build()


def run_schema(case, ctx):
    names = case["names"]
    tables = []
    for i, name in enumerate(names):
        outs = [b for a, b in case["edges"] if a == i]
        cols = [{"n": "id", "t": "int", "null": False}] + [{"n": f"r{b}", "t": "int", "null": True} for b in outs]
        tables.append({"name": name, "cols": cols, "pk": ["id"], "uniq": [], "fks": [{"cols": [f"r{b}"], "ref": names[b], "rcols": ["id"]} for b in outs]})
    w = {"tables": tables, "rows": {n: [] for n in names}}
    cfg = {"select": ["s1.*"], "targets": {names[i]: {"all": True} for i in case["targets"]}}
    if case["ignore_fks"]:
        cfg["ignore_fks"] = [{"src_table": names[a], "dst_table": names[b]} for a, b in case["ignore_fks"]]
    if case["extra"]:
        cfg["extra_fks"] = [{"src_table": names[a], "src_columns": ["id"], "dst_table": names[b], "dst_columns": ["id"]} for a, b in case["extra"]]
    if case["ignored"]:
        cfg["ignore"] = [names[i] for i in case["ignored"]]
        cfg["include_dependencies"] = False
    flow.load(ctx.env, w)
    ref, refuse = flow.ref_plan(w, cfg)
    if refuse is None:
        with must_succeed("planning an acyclic schema"):
            plan = flow.make_plan(ctx.env, cfg)
        ctx.check(set(plan.queries) == set(ref.tables), "planned %r, expected %r", sorted(plan.queries), sorted(ref.tables))
        ctx.nontrivial = len(ref.tables) > 2
        ctx.tag("planned")
        return
    ctx.tag("refused:" + refuse.kind)
    exc = flow.refused(f"planning ({refuse.kind})", flow.make_plan, ctx.env, cfg)
    if refuse.kind == "cycle":
        g = {n: set() for n in names}
        gone = {(a, b) for a, b in case["ignore_fks"]}
        for a, b in [e for e in case["edges"] if tuple(e) not in gone] + case["extra"]:
            g[names[a]].add(names[b])
        named = set(re.findall(r"s1\.t\d+", str(exc)))
        inner = {n: g[n] & named for n in named}
        # every named table lies on a cycle among the named ones
        for n in named:
            seen, todo = set(), list(inner[n])
            while todo:
                v = todo.pop()
                if v not in seen:
                    seen.add(v)
                    todo.extend(inner[v])
            ctx.check(n in seen, "error %r names %s, which is not on the cycle", str(exc), n)
        ctx.check(named, "error %r does not name the cycle", str(exc))
        ctx.nontrivial = True


SUBS = [
    Sub(name="graphs", run=run_graph, strategy=graph_strategy, dialects=("none",), quick=1500, thorough=30000, rule="random graphs with up to 10 (thorough 16) nodes and a source with only outgoing or only incoming edges; non-trivial if over two nodes are connected to the source"),
    Sub(name="allsmall", run=run_chunk, cases=chunks, dialects=("none",), shards={"none": 8}, rule="exhaustive chunks of all graphs over a source and up to 4 nodes; every chunk counts as one case"),
    Sub(name="big", run=run_big, cases=big_cases, dialects=("none",), shards={"none": 3}, rule="structured graphs of up to 3000 nodes"),
    Sub(name="schemas", run=run_schema, strategy=schema_strategy, dialects=("sqlite",), shards={"sqlite": 4}, quick=120, thorough=2500, rule="generated sqlite schemas with and without foreign key cycles, planned; non-trivial if a cycle has to be reported or over two tables are planned"),
]
