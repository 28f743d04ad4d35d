"""C34: what is dumped describes the transliterator."""
import json

from base import G, Violation, short
import gen
import ref
from util import build, outcome, rule_set, settings_of, graph_of, norm_lookup, behaviour, same, same_behaviour, cfg_shape
import graphtransliterator
from graphtransliterator import CoverageTransliterator
from graphtransliterator.compression import compress_config, decompress_config
import graphtransliterator.transliterators as T

ID = "C34"
KEYS = {"tokens", "rules", "whitespace", "onmatch_rules", "metadata", "ignore_errors", "onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "graphtransliterator_version"}
ABSENT = {"onmatch_rules", "metadata", "onmatch_rules_lookup"}  # may be left out when there are none


def native(x, where="dump"):
    """Only native types, as JSON can hold."""
    if isinstance(x, dict):
        for k, v in x.items():
            if not isinstance(k, (str, int)):
                raise Violation("a key that is not native in a dump", where=where, key=repr(k))
            native(v, "%s.%s" % (where, k))
    elif isinstance(x, (list, tuple)):
        if type(x) not in (list, tuple):
            raise Violation("data that is not native in a dump", where=where, type=type(x).__name__)
        for i, v in enumerate(x):
            native(v, "%s.%d" % (where, i))
    elif x is not None and type(x) not in (str, int, float, bool):
        raise Violation("data that is not native in a dump", where=where, type=type(x).__name__)


def norm(x):
    """As JSON text would have it."""
    return json.loads(json.dumps(x))


def as_json(x):
    return json.dumps(norm(x), sort_keys=True)


class Has:
    pass


def graph_as_data(d):
    h = Has()
    h.graph = Has()
    h.graph.node, h.graph.edge = d["node"], d["edge"]
    # the list of edges is not in compressed data
    h.graph.edge_list = d["edge_list"] if "edge_list" in d else [(int(a), int(b)) for a in d["edge"] for b in d["edge"][a]]
    return graph_of(h)


def described(gt, d, made):
    """Each entry of uncompressed data is what the transliterator has."""
    missing = KEYS - set(d) - ABSENT
    if missing or set(d) - KEYS:
        raise Violation("the entries dumped are not those documented", missing=sorted(missing), others=sorted(set(d) - KEYS), made=made)
    want = settings_of(gt)

    def entry(name, got, want):
        if got != want:
            raise Violation("an entry dumped is not what the transliterator has", entry=name, got=short(got), want=short(want), made=made)

    entry("tokens", {k: frozenset(v) for k, v in d["tokens"].items()}, want["tokens"])
    entry("tokens, each class once", [len(v) for v in d["tokens"].values()], [len(set(v)) for v in d["tokens"].values()])
    entry("rules", [ref.rule(r) for r in d["rules"]], rule_set(gt))
    entry("whitespace", dict(d["whitespace"]), {"default": gt.whitespace.default, "token_class": gt.whitespace.token_class, "consolidate": bool(gt.whitespace.consolidate)})
    entry("onmatch_rules", [ref.onmatch(o) for o in d.get("onmatch_rules") or []], want["onmatch"])
    entry("metadata", norm(d.get("metadata") or {}), norm(gt.metadata or {}))
    entry("ignore_errors", d["ignore_errors"], bool(gt.ignore_errors))
    entry("onmatch_rules_lookup", norm_lookup(d.get("onmatch_rules_lookup")), want["lookup"])
    entry("tokens_by_class", {k: frozenset(v) for k, v in d["tokens_by_class"].items() if v}, want["tokens_by_class"])
    entry("tokenizer_pattern", d["tokenizer_pattern"], gt.tokenizer_pattern)
    entry("graphtransliterator_version", d["graphtransliterator_version"], gt.graphtransliterator_version)
    entry("graph", graph_as_data(d["graph"]), graph_of(gt))


def reader(gt, d, inputs, mon, made):
    """One that knows the documentation and has only the data does as the transliterator."""
    model = ref.Model({k: d.get(k) or [] if k == "onmatch_rules" else d[k] for k in ("tokens", "rules", "whitespace", "onmatch_rules")})
    for s in inputs:
        try:
            toks = gt.tokenize(s)
        except Exception:
            continue
        for i in range(1, len(toks) - 1):
            best = model.best(toks, i)
            k = gt.match_at(i, list(toks))
            mon.count("positions")
            if (k is None) != (not best) or k is not None and ref.rule(d["rules"][k]) not in [model.rules[b] for b in best]:
                raise Violation("a reader of the dumped data matches another rule", tokens=toks, position=i, got=k and d["rules"][k], want=[model.rules[b] for b in best], made=made)


def subject(rng, cfg, mon):
    gt = build(cfg, ignore_errors=rng.random() < 0.4)
    x = rng.randrange(9)
    if x == 0:
        gt, made = gt.pruned_of([p for p in gt.productions if rng.random() < 0.4]), "pruned"
    elif x == 1:
        gt, made = G.loads(gt.dumps(rng.randrange(3))), "loaded of text"
    elif x == 2:
        gt, made = G.load(gt.dump(rng.randrange(3))), "loaded of data"
    elif x == 3:
        gt, made = CoverageTransliterator(gt.tokens, gt.rules, gt.whitespace, onmatch_rules=gt.onmatch_rules, metadata=gt.metadata, ignore_errors=gt.ignore_errors, check_ambiguity=False), "for coverage"
    elif x == 4:
        gt.ignore_errors = not gt.ignore_errors
        made = "errors handled otherwise"
    elif x == 5:
        gt, made = G(gt.tokens, list(gt.rules), gt.whitespace, check_ambiguity=False), "of the least parts"
    elif x == 6:
        kw = gen.pick(rng, [dict(tokenizer_pattern=gt.tokenizer_pattern), dict(graph=gt.graph), dict(tokens_by_class=gt.tokens_by_class)])
        gt, made = G(gt.tokens, gt.rules, gt.whitespace, onmatch_rules=gt.onmatch_rules, metadata=gt.metadata, check_ambiguity=False, **kw), "of parts"
    elif x == 7 and rng.random() < 0.1:
        name = gen.pick(rng, ["Example", "ITRANSDevanagariToUnicode"])
        gt, made = getattr(T, name).new(method=rng.choice(["json", "yaml"]), check_ambiguity=False), "bundled"
    else:
        made = "as is"
    mon.count("made_" + made.replace(" ", "_"))
    return gt, made


BAD_LEVELS = [-1, 3, 4, 10, 2.5, 0.5, 1.5, None, "1", "0", "", "a", -3, 1000000]


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(big=0.03, longrule=0.08, onmatch=0.6, metadata=0.6))
    mon.current = {"cfg": cfg}
    mon.feature(cfg_shape(cfg))
    gt, made = subject(rng, cfg, mon)
    mon.current["made"] = made
    if made != "bundled":
        same("version", gt.graphtransliterator_version, graphtransliterator.__version__)
    mem = gen.members(cfg)
    inputs = [gen.text(rng, cfg, mem=mem, errors=0.2, long=0.0) for _ in range(4)]
    if rng.random() < 0.3:
        for s in inputs:
            outcome(gt.transliterate, s)
    before = settings_of(gt), graph_of(gt)
    data = {lvl: gt.dump(lvl) for lvl in range(3)}
    text = {lvl: gt.dumps(lvl) for lvl in range(3)}
    for lvl in range(3):
        native(data[lvl])
        if type(text[lvl]) is not str:
            raise Violation("what is dumped as text is no text", level=lvl, type=type(text[lvl]).__name__)
        if as_json(data[lvl]) != json.dumps(json.loads(text[lvl]), sort_keys=True):
            raise Violation("text dumped is not that of the data dumped", level=lvl, text=short(text[lvl]), data=short(data[lvl]), made=made)
        # one loaded of an older file has the version of that
        if json.loads(text[lvl]).get("graphtransliterator_version") not in ([gt.graphtransliterator_version] if made != "bundled" else [gt.graphtransliterator_version, graphtransliterator.__version__]):
            raise Violation("the version is not in what was dumped", level=lvl)
    if as_json(gt.dump()) != as_json(data[0]) or as_json(gt.dump(compression_level=1)) != as_json(data[1]):
        raise Violation("data is not dumped without compression by default", made=made)
    if gt.dumps() != text[2] or gt.dumps(compression_level=0) != text[0]:
        raise Violation("text is not dumped most compressed by default", made=made)
    described(gt, data[0], made)
    described(gt, json.loads(text[0]), made)
    reader(gt, json.loads(text[0]), inputs, mon, made)
    mon.count("described")
    # with the graph, and without it
    if len(text[2]) >= len(text[1]):
        raise Violation("the most compressed text is not shorter than that with the graph", without=short(text[2]), with_graph=short(text[1]))
    mon.maximum("graph_left_out", len(text[1]) - len(text[2]))
    # compression undone, as data
    for lvl in (1, 2):
        got = decompress_config(rng.choice([data[lvl], json.loads(text[lvl])])["compressed_settings"])
        for k in ("tokens", "rules", "whitespace", "onmatch_rules", "metadata"):
            one, other = got.get(k), data[0].get(k)
            if k == "tokens":
                one, other = ({t: sorted(c) for t, c in x.items()} for x in (one, other))
            elif k == "rules":
                one, other = ([ref.rule(r) for r in x] for x in (one, other))
            elif k == "onmatch_rules":
                one, other = ([ref.onmatch(r) for r in x or []] for x in (one, other))
            else:
                one, other = norm(one or {}), norm(other or {})
            if one != other:
                raise Violation("data that was compressed and decompressed is other data", level=lvl, entry=k, got=short(one), want=short(other), made=made)
        if bool(got.get("graph")) != (lvl == 1):
            raise Violation("the graph is in the most compressed data, or not in that with it", level=lvl)
        if lvl == 1 and graph_as_data(got["graph"]) != graph_of(gt):
            raise Violation("the graph that was compressed and decompressed is another", got=short(got["graph"]), made=made)
        if as_json(compress_config(gt.dump(0), compression_level=lvl)) != as_json(data[lvl]["compressed_settings"]):
            raise Violation("data compressed is not what is dumped compressed", level=lvl, made=made)
    mon.count("decompressed")
    # each way to dump, each way to load
    want = behaviour(gt, inputs)
    ways = [("data as text", lambda: G.loads(json.dumps(data[rng.randrange(3)]))), ("text as data", lambda: G.load(json.loads(text[rng.randrange(3)]))),
            ("settings alone", lambda: G.from_dict({k: v for k, v in json.loads(text[0]).items() if k in ("tokens", "rules", "whitespace", "onmatch_rules", "metadata") and v is not None},
                                                   check_ambiguity=False, ignore_errors=json.loads(text[0])["ignore_errors"]))]
    for name, way in rng.sample(ways, 2):
        if name == "settings alone":
            costs = [r.cost for r in gt.rules]
            if costs != sorted(costs):
                continue
        g = way()
        same("settings of the one made of %s" % name, settings_of(g), before[0])
        same_behaviour("the one made of %s" % name, behaviour(g, inputs), want)
        mon.count("remade")
    for lvl in rng.sample(BAD_LEVELS, 2):
        for f in (gt.dump, gt.dumps):
            try:
                f(lvl)
            except ValueError:
                mon.count("levels_refused")
            else:
                raise Violation("a level that there is not is accepted", level=repr(lvl))
    if rng.random() < 0.5:
        # what was dumped before does not keep
        gt.ignore_errors = not gt.ignore_errors
        for lvl in rng.sample(range(3), 2):
            d = gt.dump(lvl) if rng.random() < 0.5 else json.loads(gt.dumps(lvl))
            if bool(d.get("ignore_errors")) != bool(gt.ignore_errors):
                raise Violation("what is dumped does not follow a change of the error mode", level=lvl, now=gt.ignore_errors)
            native(d)
            if lvl == 0:
                described(gt, d, made)
        gt.ignore_errors = not gt.ignore_errors
        mon.count("followed")
    same("settings, after dumping", settings_of(gt), before[0])
    same("graph, after dumping", graph_of(gt), before[1])
    mon.sample({"cfg": short(cfg, 300), "made": made})
