"""C35: visit-logging collections read as plain ones and record what was read by key."""
import copy
import re

from base import LOG, Violation, short
import gen
from util import build, same
from graphtransliterator import DirectedGraph, DirectedGraphSchema, VisitLoggingDict, VisitLoggingDirectedGraph, VisitLoggingList
from graphtransliterator.exceptions import IncompleteGraphCoverageException

ID = "C35"


def any_graph(rng):
    """A graph of any shape, or that of a transliterator."""
    if rng.random() < 0.25:
        return build(gen.config(rng, gen.Opts(big=0.0, maxrules=8, min_rules=1))).graph, True
    g = DirectedGraph()
    n = rng.choice([1, 1, 2, 3, 5, 9, 20, 40])
    for i in range(n):
        g.add_node({"type": rng.choice(["token", "rule", "Start"]), "token": gen.pick(rng, ["a", "b", "\u0915", "%s", "{}"])} if rng.random() < 0.8 else {})
    for _ in range(rng.choice([0, n - 1, n, 2 * n])):
        g.add_edge(rng.randrange(n), rng.randrange(n), {"cost": rng.random()} if rng.random() < 0.7 else {})
    return g, False


def plain(g):
    return ([dict(x) for x in g.node], {h: {t: dict(d) for t, d in tails.items()} for h, tails in g.edge.items()}, sorted(tuple(e) for e in g.edge_list))


def named(msg):
    """Nodes and edges named as missed."""
    nodes = re.search(r"[Nn]odes: \[([^\]]*)\]", msg)
    edges = re.search(r"[Ee]dges: \[([^\]]*)\]", msg)
    return (sorted(int(x) for x in re.findall(r"\d+", nodes.group(1))) if nodes else [],
            sorted((int(a), int(b)) for a, b in re.findall(r"\((\d+), *(\d+)\)", edges.group(1))) if edges else [])


class Watched:
    """A visit-logging graph and a record of one's own."""

    def __init__(self, base):
        self.g = VisitLoggingDirectedGraph(base)
        self.nodes, self.edges = set(), set()

    def missed(self, want):
        return [i for i in range(len(want[0])) if i not in self.nodes], sorted(e for e in want[2] if e not in self.edges)

    def check(self, want, mon, history):
        nodes, edges = self.missed(want)
        LOG.take()
        got = self.g.check_coverage(raise_exception=False)
        w = len(LOG.warnings())
        if got is not (not nodes and not edges):
            raise Violation("coverage is reported %s" % got, missed_nodes=nodes, missed_edges=edges, history=short(history, 3000))
        if w != len(nodes) + len(edges):
            raise Violation("not one warning for each node and edge missed", warnings=w, missed_nodes=nodes, missed_edges=edges, history=short(history, 3000))
        try:
            ok = self.g.check_coverage()
        except IncompleteGraphCoverageException as e:
            if not nodes and not edges:
                raise Violation("complete coverage is refused", message=str(e), history=short(history, 3000))
            if named(str(e)) != (nodes, edges):
                raise Violation("the nodes and edges named are not those missed", message=short(str(e)), missed_nodes=nodes, missed_edges=edges, history=short(history, 3000))
        else:
            if nodes or edges or ok is not True:
                raise Violation("incomplete coverage is not refused", got=ok, missed_nodes=nodes, missed_edges=edges, history=short(history, 3000))
            mon.count("complete")
        mon.count("checks")


def step(rng, x, want, history, serializable):
    """One operation on a graph; those that read by key are recorded."""
    nodes, edge, edge_list = want
    k = rng.randrange(16)
    i = rng.randrange(len(nodes))
    h, t = gen.pick(rng, edge_list) if edge_list else (None, None)
    history.append((k, i, (h, t)))
    if k < 4 or (k < 8 and h is None):
        same("a node read", dict(x.g.node[i]), nodes[i])
        x.nodes.add(i)
    elif k < 8:
        same("an edge read", dict(x.g.edge[h][t]), edge[h][t])
        x.edges.add((h, t))
    elif k == 8 and h is not None:
        # the edges of a head are read, but none of them
        same("tails of a head", sorted(x.g.edge[h]), sorted(edge[h]))
    elif k == 9:
        same("nodes in turn", [dict(n) for n in x.g.node], nodes)
        same("heads in turn", sorted(x.g.edge), sorted(edge))
    elif k == 10:
        same("edges in turn", plain(x.g)[1], edge)
        same("edges in turn", sorted(dict(d).get("cost", 0) for tails in x.g.edge.values() for d in tails.values()), sorted(d.get("cost", 0) for tails in edge.values() for d in tails.values()))
    elif k == 11:
        a, b = sorted((rng.randrange(len(nodes) + 1), rng.randrange(len(nodes) + 1)))
        same("a slice of the nodes", [dict(n) for n in x.g.node[a:b]], nodes[a:b])
        same("number of nodes and heads", (len(x.g.node), len(x.g.edge)), (len(nodes), len(edge)))
    elif k == 12:
        same("heads that there are", [j in x.g.edge for j in range(len(nodes) + 1)], [j in edge for j in range(len(nodes) + 1)])
        same("a node that there is", nodes[i] in x.g.node, True)
    elif k == 13 and serializable:
        DirectedGraphSchema().dump(x.g)
    elif k == 14:
        # what there is not
        for f in (lambda: x.g.node[len(nodes)], lambda: x.g.edge[len(nodes)]) + ((lambda: x.g.edge[h][len(nodes)],) if h is not None else ()):
            try:
                f()
            except LookupError:
                pass
            else:
                raise Violation("a node or edge that there is not is read", history=short(history, 3000))
    elif k == 15 and rng.random() < 0.3:
        x.g.clear_visited()
        x.nodes.clear()
        x.edges.clear()
        history[-1] = "clear"


def case(rng, mon):
    if rng.random() < 0.25:
        return collections(rng, mon)
    base, serializable = any_graph(rng)
    want = plain(base)
    mon.current = {"graph": short(want, 2000)}
    xs = [Watched(base)]
    same("a visit-logging graph", plain(xs[0].g), want)
    history = []
    mon.feature(len(want[0]), len(want[2]), serializable)
    for _ in range(rng.randrange(1, 4)):
        x = gen.pick(rng, xs)
        if len(xs) < 3 and rng.random() < 0.4:
            xs.append(Watched(base if rng.random() < 0.6 else x.g))
            history.append("another")
        for _ in range(rng.randrange(0, 25)):
            history.append(xs.index(x))
            step(rng, x, want, history, serializable)
            x = gen.pick(rng, xs) if rng.random() < 0.3 else x
        if rng.random() < 0.6:
            # everything that remains, but perhaps for one
            nodes, edges = x.missed(want)
            todo = [("n", i) for i in nodes] + [("e", e) for e in edges]
            rng.shuffle(todo)
            left = todo[: rng.choice([0, 0, 1])]
            for kind, i in todo[len(left):]:
                if kind == "n":
                    x.g.node[i]
                    x.nodes.add(i)
                else:
                    x.g.edge[i[0]][i[1]]
                    x.edges.add(i)
            history.append(("all but", left))
            mon.count("all_but_one" if left else "all")
        for y in xs:
            y.check(want, mon, history)
        mon.feature(tuple(x.missed(want)[0][:5]), tuple(x.missed(want)[1][:5]), len(want[2]))
    same("the graph it was made of", plain(base), want)
    for y in xs:
        same("the graph that was read", plain(y.g), want)
    if isinstance(base.node, VisitLoggingList) or any(isinstance(d, VisitLoggingDict) for d in [base.edge] + list(base.edge.values())):
        raise Violation("the graph it was made of logs visits")
    mon.count("graphs")


def collections(rng, mon):
    """A visit-logging list or dictionary beside a plain one."""
    n = rng.randrange(0, 12)
    values = [rng.choice([0, 1, "", "a", None, 2.5, "b"]) for _ in range(n)]
    keys = rng.sample([0, 1, 2, 3, "a", "b", "", (1, 2), None, 10 ** 9, -1, "\u0915", 2.5, True, "c"], n)
    keys = list(dict.fromkeys(keys))
    ref = values if rng.random() < 0.5 else dict(zip(keys, values))
    got = VisitLoggingList(list(ref)) if isinstance(ref, list) else VisitLoggingDict(ref)
    there = list(range(len(ref))) if isinstance(ref, list) else list(ref)
    visited = set()
    mon.current = {"of": repr(ref)}
    ops = []
    for _ in range(rng.randrange(1, 20)):
        k = rng.randrange(8)
        ops.append(k)
        if k < 3 and there:
            i = gen.pick(rng, there)
            same("an item", got[i], ref[i])
            visited.add(i)
        elif k == 3:
            same("items in turn", list(got), list(ref))
            same("length", len(got), len(ref))
            same("truth", bool(got), bool(ref))
        elif k == 4 and isinstance(ref, dict):
            same("items", (list(got.items()), list(got.values()), list(got.keys())), (list(ref.items()), list(ref.values()), list(ref)))
        elif k == 4:
            a, b, c = rng.randrange(-13, 13), rng.randrange(-13, 13), rng.choice([1, 2, -1, None])
            same("a slice", list(got[a:b:c]), ref[a:b:c])
        elif k == 5:
            x = rng.choice(values + [object(), "zzz"])
            same("membership", x in got, x in ref)
            same("equality", got == copy.copy(ref), True)
        elif k == 6 and rng.random() < 0.4:
            got.clear_visited()
            visited.clear()
        elif k == 7:
            try:
                got[len(ref) + 5 if isinstance(ref, list) else "not there"]
            except LookupError:
                pass
            else:
                raise Violation("an item that there is not is read", ops=ops)
        if {i for i in there if i in got.visited} != visited:
            raise Violation("the record is not of the items read by key", got=short(got.visited), want=short(visited), ops=ops)
    mon.count("collections")
    mon.feature(type(got).__name__, tuple(ops))
