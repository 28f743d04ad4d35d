"""C20: the exposed graph is a tree whose leaves are exactly the rules."""
from base import G, Violation, short
import gen
import ref
from util import build, in_any_order, cfg_shape
from graphtransliterator import CoverageTransliterator

ID = "C20"
RULES = "__rules__"
PARTS = ("prev_classes", "prev_tokens", "next_tokens", "next_classes")


def check_graph(gt, mon, **details):
    g = gt.graph
    node, edge, edge_list = list(g.node), g.edge, list(g.edge_list)
    rules = list(gt.rules)

    def bad(msg, **more):
        raise Violation("graph: " + msg, **dict(details, **more))

    flat = [(h, t) for h in edge for t in edge[h]]
    el = [tuple(e) for e in edge_list]
    if len(el) != len(set(el)):
        bad("an edge is listed twice", edge_list=short(el))
    if set(el) != set(flat):
        bad("the edge list does not name exactly the edges", missing=short(set(flat) - set(el)), extra=short(set(el) - set(flat)))
    n = len(node)
    parent = {}
    for h, t in flat:
        if type(h) is not int or type(t) is not int or not (0 <= h < n and 0 <= t < n):
            bad("edge between nodes that do not exist", edge=(h, t))
        if t in parent:
            bad("a node has two parents", node=t)
        parent[t] = h
    starts = [k for k in range(n) if k not in parent]
    if starts != [0]:
        bad("there is not exactly one start node", roots=starts)
    if node[0].get("type") != "Start":
        bad("the start node is not of type Start", node=short(node[0]))
    # reachable from the start (every non-root has one parent; exclude cycles)
    seen = {0}
    stack = [0]
    order = []
    while stack:
        h = stack.pop()
        order.append(h)
        for t in (edge[h] if h in edge else ()):
            if t in seen:
                bad("cycle", node=t)
            seen.add(t)
            stack.append(t)
    if len(seen) != n:
        bad("nodes that cannot be reached", nodes=short(sorted(set(range(n)) - seen)))
    path = {0: ()}
    for h in order:
        for t in (edge[h] if h in edge else ()):
            nd = node[t]
            if nd.get("type") == "token":
                if edge[h][t].get("token") != nd.get("token") or nd.get("token") is None:
                    bad("token of an edge differs from that of its node", edge=(h, t))
                if nd.get("accepting"):
                    bad("a token node is accepting", node=t)
                if edge[h][t].get("constraints"):
                    bad("constraints on an edge to a token", edge=(h, t))
                path[t] = path[h] + (nd["token"],)
            elif nd.get("type") == "rule":
                path[t] = path[h]
            else:
                bad("node of unknown type", node=t, data=short(nd))
    for h in order:
        toks = [node[t]["token"] for t in (edge[h] if h in edge else ()) if node[t]["type"] == "token"]
        if len(set(toks)) != len(toks):
            bad("two branches for one token", node=h)
    # rules <-> leaves
    leaves = {}
    for k in range(n):
        kids = list(edge[k]) if k in edge else []
        if node[k].get("type") == "rule":
            if kids:
                bad("a rule node has children", node=k)
            if not node[k].get("accepting"):
                bad("a rule node is not accepting", node=k)
            rk = node[k].get("rule_key")
            if type(rk) is not int or not 0 <= rk < len(rules):
                bad("a rule node names no rule", node=k, rule_key=rk)
            if rk in leaves:
                bad("a rule has two leaves", rule=short(rules[rk]))
            leaves[rk] = k
        elif not kids and k != 0:
            bad("a leaf is not a rule", node=k)
    if set(leaves) != set(range(len(rules))):
        bad("rules without a leaf", rules=short([rules[r] for r in range(len(rules)) if r not in leaves]))
    least = {}
    for rk, k in leaves.items():
        r = rules[rk]
        e = edge[parent[k]][k]
        if path[k] != tuple(r.tokens):
            bad("a rule is not at the path of its tokens", rule=short(r), path=path[k])
        c = e.get("constraints") or {}
        got = {p: list(c[p]) for p in c if c[p]}
        want = {p: list(getattr(r, p)) for p in PARTS if getattr(r, p)}
        if got != want:
            bad("constraints of a rule's last edge are not its context", rule=short(r), got=got, want=want)
        if e["cost"] != r.cost:
            bad("cost of a rule's last edge is not the rule's", rule=short(r), got=e["cost"])
        while k in parent:
            least[k] = min(least.get(k, r.cost), r.cost)
            k = parent[k]
    for h, t in flat:
        if edge[h][t].get("cost") != least[t]:
            bad("cost of an edge is not the least below it", edge=(h, t), got=edge[h][t].get("cost"), want=least[t])
    # ordered children: complete for each next token, by cost
    for h in range(n):
        oc = node[h].get("ordered_children") or {}
        kids = list(edge[h]) if h in edge else []
        rule_kids = {t for t in kids if node[t]["type"] == "rule"}
        want = {}
        for t in kids:
            if node[t]["type"] == "token":
                want.setdefault(node[t]["token"], set()).add(t)
        if RULES in want:
            continue  # a token spelled like the internal key: see the finding listed for C01
        for tok, s in want.items():
            s |= rule_kids
        if rule_kids:
            want[RULES] = rule_kids
        got = {k: list(v) for k, v in oc.items() if v}
        for k, v in got.items():
            if len(set(v)) != len(v):
                bad("a child is listed twice", node=h, token=k, children=v)
            cs = [edge[h][t]["cost"] if t in (edge[h] if h in edge else ()) else None for t in v]
            if None in cs:
                bad("a child that is not one is listed", node=h, token=k, children=v)
            if cs != sorted(cs):
                bad("children are not ordered by cost", node=h, token=k, children=v, costs=cs)
        if {k: set(v) for k, v in got.items()} != want:
            bad("children listed are not those for each next token", node=h, got=short(got), want=short(want))
        mon.count("nodes")
        if len(want) > 2:
            mon.count("branching_nodes")
        if rule_kids and len(want) > 1:
            mon.count("nodes_with_rules_and_branches")
    mon.count("edges", len(flat))
    mon.count("leaves", len(leaves))
    mon.maximum("depth", max([len(p) for p in path.values()]))
    mon.maximum("nodes", n)
    return n


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(big=0.06, dup=0.25, longrule=0.12, onmatch=0.1, metadata=0.1))
    mon.current = {"cfg": cfg}
    gt = build(cfg)
    check_graph(gt, mon, made="from_dict")
    mon.count("fresh")
    for lvl in range(3):
        for kind in ("py", "json"):
            if rng.random() < 0.5:
                g = G.load(gt.dump(lvl)) if kind == "py" else G.loads(gt.dumps(lvl))
                check_graph(g, mon, made="loaded %s %d" % (kind, lvl))
                mon.count("loaded_%s%d" % (kind, lvl))
    if cfg["rules"]:
        cur = gt
        for _ in range(rng.randrange(1, 3)):
            prods = cur.productions
            cur = cur.pruned_of([p for p in prods if rng.random() < 0.4])
            check_graph(cur, mon, made="pruned")
            mon.count("pruned")
        g = G.loads(cur.dumps(rng.randrange(3)))
        check_graph(g, mon, made="pruned and loaded")
    # use does not change it
    mem = gen.members(cfg)
    gt.ignore_errors = True
    for _ in range(3):
        gt.transliterate(gen.text(rng, cfg, mem=mem, errors=0.2, long=0))
    check_graph(gt, mon, made="after use")
    if rng.random() < 0.25:
        ct = CoverageTransliterator(gt.tokens, gt.rules, gt.whitespace, onmatch_rules=gt.onmatch_rules, check_ambiguity=False)
        check_graph(ct, mon, made="coverage")
        mon.count("coverage")
    if rng.random() < 0.5:
        g = in_any_order(rng, gt)
        check_graph(g, mon, made="of rules in another order")
        check_graph(G.loads(g.dumps(rng.randrange(3))), mon, made="of rules in another order, loaded")
        mon.count("other_order")
    if cfg["rules"] and rng.random() < 0.3:
        own_costs(rng, mon, cfg, gt)
    mon.count("configs")
    mon.feature(cfg_shape(cfg))
    mon.feature(tuple(sorted(tuple(r["tokens"]) for r in cfg["rules"]))[:12])
    mon.sample({"rules": [r["tokens"] for r in cfg["rules"]][:8], "nodes": len(gt.graph.node)})


def own_costs(rng, mon, cfg, gt):
    """Rules given costs of their own, among them as much as one and more."""
    pool = rng.choice([[0.25, 0.5, 0.75], [1, 1.0, 2, 3.5], [0.1, 0.9, 1.0, 1.1, 5, 1e9], [2, 2, 2], [0, 1, 2], [0.5, 40], [-1, 0.5, 7]])
    share = rng.choice([0.2, 0.6, 1.0])
    given = [r._replace(cost=rng.choice(pool)) if rng.random() < share else r for r in gt.rules]
    how = rng.randrange(3)
    if how:
        given.sort(key=lambda r: r.cost)
        settings = {"tokens": {t: list(c) for t, c in gt.tokens.items()}, "rules": [{k: v for k, v in r._asdict().items() if v is not None} for r in given], "whitespace": dict(gt.whitespace._asdict())}
        g = G.from_dict(settings, check_ambiguity=False)
        if how == 2:
            g = G.loads(g.dumps(0)) if rng.random() < 0.5 else G.load(g.dump(0))
    else:
        g = type(gt)(gt.tokens, given, gt.whitespace, check_ambiguity=False)
    if [(r.production, r.cost) for r in g.rules] != [(r.production, float(r.cost)) for r in given]:
        raise Violation("rules given costs of their own are others or in another order", got=short([(r.production, r.cost) for r in g.rules]), want=short([(r.production, r.cost) for r in given]))
    check_graph(g, mon, made="of rules with costs of their own, %d" % how)
    members = gen.members(cfg)
    model = ref.Model({"tokens": g.tokens, "rules": g.rules, "whitespace": cfg["whitespace"]})
    for _ in range(4):
        toks = gt.tokenize(gen.text(rng, cfg, mem=members, errors=0, long=0))
        for at in range(1, len(toks) - 1):
            fit = model.applicable(toks, at)
            got = g.match_at(at, toks)
            if (got is None) != (not fit) or fit and (got not in fit or g.rules[got].cost != min(g.rules[k].cost for k in fit)):
                raise Violation("matching does not select a fitting rule of the least cost", tokens=short(toks), at=at, got=got, fit=[(k, g.rules[k].cost) for k in fit])
            if sorted(g.match_at(at, toks, match_all=True)) != fit:
                raise Violation("matching all does not give the fitting rules", tokens=short(toks), at=at, got=short(g.match_at(at, toks, match_all=True)), fit=fit)
            mon.count("matched_by_own_costs", bool(fit))
    mon.count("own_costs")


def probe_shared_prefixes(rng, mon):
    """Rules at every node of a token path, several per node, in adverse order."""
    for rev in (False, True):
        toks = {c: ["x"] for c in "abcd"}
        toks[" "] = ["wb"]
        rules = []
        for d in range(1, 8):
            for ctx in ({}, {"prev_classes": ["x"]}, {"next_classes": ["x", "x"]}, {"prev_tokens": ["a"], "next_tokens": ["b", "c"]}):
                rules.append(dict({"production": "%d" % len(rules), "tokens": ["a"] * d}, **ctx))
                rules.append(dict({"production": "%d" % len(rules), "tokens": ["a"] * d + ["b"]}, **ctx))
        if rev:
            rules.reverse()
        cfg = {"tokens": toks, "rules": rules, "whitespace": {"default": " ", "token_class": "wb", "consolidate": True}}
        mon.current = {"cfg": cfg}
        gt = build(cfg)
        check_graph(gt, mon)
        for lvl in range(3):
            check_graph(G.loads(gt.dumps(lvl)), mon, made="loaded %d" % lvl)


def probe_thousands(rng, mon):
    """Thousands of rules, many nodes with many children."""
    letters = [chr(0x4E00 + i) for i in range(60)]
    toks = {c: ["x" if i % 2 else "y"] for i, c in enumerate(letters)}
    toks[" "] = ["wb"]
    rules = []
    for a in letters:
        rules.append({"production": a, "tokens": [a]})
        for b in letters:
            rules.append({"production": a + b, "tokens": [a, b]})
    for n in range(1500):
        r = {"production": "%d" % n, "tokens": [gen.pick(rng, letters) for _ in range(rng.randrange(1, 4))]}
        r[gen.pick(rng, ["prev_classes", "next_classes"])] = [gen.pick(rng, "xy") for _ in range(rng.randrange(1, 3))]
        rules.append(r)
    cfg = {"tokens": toks, "rules": rules, "whitespace": {"default": " ", "token_class": "wb", "consolidate": True}}
    mon.current = {"rules": len(rules)}
    gt = build(cfg)
    check_graph(gt, mon, made="of thousands of rules")
    check_graph(G.loads(gt.dumps(rng.randrange(3))), mon, made="of thousands of rules, loaded")
    mon.maximum("rules", len(gt.rules))


PROBES = [probe_shared_prefixes, probe_thousands]
