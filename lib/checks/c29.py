"""C29: the directed graph holds what was added, and nothing of what was refused."""
import copy

from base import Violation, gtlib, short
import gen

ID = "C29"
DirectedGraph = gtlib.DirectedGraph


class IntLike(int):
    pass


class DictLike(dict):
    pass


BAD_DATA = ["x", "", 0, 1, [], [("a", 1)], (), set(), 1.5, True, False, b"", object]
BAD_KEYS = ["0", "", None, 0.0, 1.0, True, False, [], (), {}, (0,), b"0", 1j]


def data(rng):
    x = rng.random()
    if x < 0.2:
        return {}
    if x < 0.5:
        return {"type": gen.pick(rng, ["Start", "token", "rule"]), "n": rng.randrange(9)}
    return {gen.pick(rng, ["cost", "token", 1, None, "a"]): gen.gen_value(rng) for _ in range(rng.randrange(1, 4))}


class Model:
    def __init__(self):
        self.nodes = []
        self.edges = {}

    def verify(self, g, mon, **details):
        mon.count("states_checked")
        nodes = list(g.node)
        if nodes != self.nodes:
            raise Violation("nodes are not those added", got=short(nodes), want=short(self.nodes), **details)
        edges = {}
        for h, tails in g.edge.items():
            for t, d in tails.items():
                edges[(h, t)] = d
        if edges != self.edges:
            raise Violation("edges are not those added", got=short(edges), want=short(self.edges), **details)
        if any(type(h) is not int or type(t) is not int for h, t in edges):
            raise Violation("a key of an edge is not an integer", got=short(edges), **details)
        got = [tuple(e) for e in g.edge_list]
        if sorted(got) != sorted(self.edges):
            raise Violation("edge list does not name each edge once", got=short(got), want=short(sorted(self.edges)), **details)


def initial(rng, mon):
    """An empty graph, or one initialized from data of another."""
    m = Model()
    x = rng.random()
    if x < 0.4:
        return DirectedGraph(), m
    n = rng.randrange(0, 6)
    m.nodes = [data(rng) for _ in range(n)]
    if n:
        for _ in range(rng.randrange(0, 8)):
            m.edges[(rng.randrange(n), rng.randrange(n))] = data(rng)
    nested = {}
    keys = list(m.edges)
    rng.shuffle(keys)
    for h, t in keys:
        nested.setdefault(h, {})[t] = copy.deepcopy(m.edges[(h, t)])
    kw = {"node": copy.deepcopy(m.nodes), "edge": nested}
    how = rng.randrange(4)
    if how == 1:
        kw["edge_list"] = keys
    elif how == 2:
        kw["edge_list"] = None
    elif how == 3:
        kw["edge_list"] = []
        if keys:
            kw.pop("edge_list")
    if not n and rng.random() < 0.5:
        kw = {k: v for k, v in kw.items() if v}
    before = copy.deepcopy(kw)
    g = DirectedGraph(**kw)
    if kw != before:
        raise Violation("initialization modified its arguments", got=short(kw), want=short(before))
    mon.count("initialized")
    return g, m


def refused(what, g, func, mon, **details):
    before = copy.deepcopy((g.node, {h: dict(t) for h, t in g.edge.items()}, list(g.edge_list)))
    try:
        r = func()
    except ValueError as e:
        mon.count("refused_" + what)
        now = (g.node, {h: dict(t) for h, t in g.edge.items()}, list(g.edge_list))
        if now != before:
            raise Violation("a refused addition changed the graph", before=short(before), after=short(now), **details)
        return e
    raise Violation("invalid %s accepted" % what, returned=short(r), **details)


def step(rng, g, m, mon, log):
    x = rng.random()
    n = len(m.nodes)
    if x < 0.3:
        how = rng.randrange(3)
        d = None if how == 0 else data(rng)
        want = {} if d is None else copy.deepcopy(d)
        log.append(("node", d))
        r = g.add_node() if how == 0 and rng.random() < 0.5 else (g.add_node(d) if rng.random() < 0.5 else g.add_node(node_data=d))
        if not isinstance(r, tuple) or len(r) != 2 or type(r[0]) is not int or r[0] != n or r[1] != want:
            raise Violation("add_node did not return the next key and the data", got=short(r), want=(n, want))
        m.nodes.append(want)
        mon.count("nodes_added")
    elif x < 0.62 and n:
        h, t = rng.randrange(n), rng.randrange(n)
        if m.edges and rng.random() < 0.35:
            h, t = gen.pick(rng, sorted(m.edges))
            if rng.random() < 0.3:
                h, t = t, h
        how = rng.randrange(3)
        d = None if how == 0 else data(rng)
        want = {} if d is None else copy.deepcopy(d)
        log.append(("edge", h, t, d))
        if (h, t) in m.edges:
            mon.count("edges_again")
        if h == t:
            mon.count("loops")
        r = g.add_edge(h, t) if how == 0 and rng.random() < 0.5 else (g.add_edge(h, t, d) if rng.random() < 0.5 else g.add_edge(head=h, tail=t, edge_data=d))
        if r != want or type(r) is not dict:
            raise Violation("add_edge did not return the data of the edge", got=short(r), want=short(want))
        m.edges[(h, t)] = want
        mon.count("edges_added")
    elif x < 0.72:
        d = gen.pick(rng, BAD_DATA)
        log.append(("bad node", repr(d)))
        refused("node_data", g, lambda: g.add_node(d), mon, data=repr(d), log=log)
    elif x < 0.8:
        if n:
            h, t = rng.randrange(n), rng.randrange(n)
            d = gen.pick(rng, BAD_DATA)
            log.append(("bad edge data", h, t, repr(d)))
            refused("edge_data", g, lambda: g.add_edge(h, t, d), mon, data=repr(d), log=log)
    else:
        bad = gen.pick(rng, [n, n + 1, -1, -n, -n - 1, 10 ** 6, -(10 ** 9), 2 ** 70] if rng.random() < 0.6 else BAD_KEYS)
        if bad == 0 and type(bad) is int:
            bad = -1
        good = rng.randrange(n) if n else 0
        if rng.random() < 0.2:
            good = bad
        h, t = (bad, good) if rng.random() < 0.5 else (good, bad)
        d = data(rng) if rng.random() < 0.6 else None
        log.append(("bad edge", repr(h), repr(t)))
        refused("keys", g, lambda: g.add_edge(h, t, d), mon, head=repr(h), tail=repr(t), nodes=n, log=log)


def annotate(rng, g, m, mon, log):
    """Data is held, not copied away: what a caller puts into the returned data is in the graph."""
    if m.nodes and rng.random() < 0.5:
        i = rng.randrange(len(m.nodes))
        g.node[i]["mark"] = len(log)
        m.nodes[i]["mark"] = len(log)
    elif m.edges:
        h, t = gen.pick(rng, sorted(m.edges))
        g.edge[h][t]["mark"] = len(log)
        m.edges[(h, t)]["mark"] = len(log)
    log.append(("annotate",))
    mon.count("annotations")


def history(rng, mon):
    graphs = [initial(rng, mon) for _ in range(1 + (rng.random() < 0.3))]
    log = []
    mon.current = {"log": log, "initial": [(short(m.nodes), short(m.edges)) for _, m in graphs]}
    for _, m in graphs:
        m_, g_ = m, _
        m_.verify(g_, mon, at="initialization")
    for _ in range(rng.choice([3, 8, 20, 40])):
        g, m = gen.pick(rng, graphs)
        if rng.random() < 0.08:
            annotate(rng, g, m, mon, log)
        else:
            step(rng, g, m, mon, log)
        for g2, m2 in graphs:  # other graphs included: nothing is shared between them
            m2.verify(g2, mon, log=short(log))
    mon.feature(tuple((x[0], len(x)) for x in log))
    mon.sample({"log": short(log, 500)})
    # a graph initialized from this one is equal to it
    g, m = graphs[0]
    h = DirectedGraph(node=g.node, edge=g.edge, edge_list=g.edge_list if rng.random() < 0.5 else None)
    m.verify(h, mon, at="copy")


def built(rng, mon):
    """The graphs of transliterators are such graphs."""
    cfg = gen.config(rng, gen.Opts(big=0))
    gt = gtlib.GraphTransliterator.from_dict(gen.direct(cfg), check_ambiguity=False)
    if rng.random() < 0.5:
        gt = gtlib.GraphTransliterator.loads(gt.dumps(rng.randrange(3)))
    g = gt.graph
    m = Model()
    m.nodes = [copy.deepcopy(dict(x)) for x in g.node]
    m.edges = {(h, t): copy.deepcopy(dict(d)) for h, tails in g.edge.items() for t, d in tails.items()}
    n = len(m.nodes)
    for h, t in m.edges:
        if not (0 <= h < n and 0 <= t < n):
            raise Violation("an edge of a transliterator's graph leads out of it", edge=(h, t), nodes=n)
    m.verify(g, mon, at="graph of a transliterator")
    log = []
    for _ in range(6):
        step(rng, g, m, mon, log)
        m.verify(g, mon, log=short(log))
    mon.count("graphs_of_transliterators")


def case(rng, mon):
    if rng.random() < 0.08:
        mon.current = None
        built(rng, mon)
    else:
        history(rng, mon)


def probe_many(rng, mon):
    """Guarantees do not end at a size: hundreds of nodes, keys beyond small integers, nodes of many edges."""
    mon.current = {"nodes": 700, "edges": 2000}
    for initialized in (False, True):
        g, m = DirectedGraph(), Model()
        if initialized:
            m.nodes = [{"n": i} for i in range(700)]
            m.edges = {(rng.randrange(700), rng.randrange(700)): {"e": i} for i in range(600)}
            nested = {}
            for (h, t), d in m.edges.items():
                nested.setdefault(h, {})[t] = dict(d)
            g = DirectedGraph(node=copy.deepcopy(m.nodes), edge=nested)
        for i in range(0 if initialized else 700):
            g.add_node({"n": i})
            m.nodes.append({"n": i})
        m.verify(g, mon, at="many nodes")
        hub = rng.randrange(300, 700)
        for i in range(2000):
            h, t = rng.randrange(700), rng.randrange(700)
            if i % 3 == 0:
                h = hub
            if i % 5 == 0:
                h, t = gen.pick(rng, list(m.edges)) if m.edges else (h, t)
                h, t = int(str(h)), int(str(t))  # equal, not the same object
            r = g.add_edge(h, t, {"i": i})
            if r != {"i": i}:
                raise Violation("add_edge did not return the data of the edge", got=short(r), want={"i": i})
            m.edges[(h, t)] = {"i": i}
            if i % 250 == 0:
                m.verify(g, mon, at="many edges", added=i)
        for bad in (700, 701, -1, -700):
            refused("keys", g, lambda: g.add_edge(bad, 5), mon, head=bad)
            refused("keys", g, lambda: g.add_edge(5, bad), mon, tail=bad)
        m.verify(g, mon, at="many edges")
        mon.count("large_graphs")


PROBES = [probe_many]
