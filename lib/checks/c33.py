"""C33: the exported schemas of the parts lose nothing and judge as construction does."""
import json

from base import G, LOG, Violation, short
import gen
import ref
from util import build, settings_of, graph_of, behaviour, same, same_behaviour, cfg_shape
from checks import c18
from graphtransliterator import (
    DirectedGraph,
    DirectedGraphSchema,
    OnMatchRule,
    OnMatchRuleSchema,
    SettingsSchema,
    TransliterationRule,
    TransliterationRuleSchema,
    WhitespaceDictSettingsSchema,
    WhitespaceRules,
    WhitespaceSettingsSchema,
)
from graphtransliterator.core import GraphTransliteratorSchema

ID = "C33"


def norm(x):
    """A rule with parts that are empty left out."""
    if isinstance(x, TransliterationRule):
        return ("rule", x.production, tuple(x.tokens)) + tuple(tuple(v or ()) for v in (x.prev_classes, x.prev_tokens, x.next_tokens, x.next_classes)) + (round(x.cost, 12),)
    if isinstance(x, OnMatchRule):
        return ("onmatch", x.production, tuple(x.prev_classes), tuple(x.next_classes))
    if isinstance(x, WhitespaceRules):
        return ("whitespace", x.default, x.token_class, x.consolidate)
    return (type(x).__name__, x)


CONFIGS = []  # used before in this case, and what was made of them
KEPT = {}  # schemas, used from the first to the last of them


def kept(schema, **kw):
    k = (schema, tuple(kw.items()))
    if k not in KEPT:
        KEPT[k] = schema(**kw)
    return KEPT[k]


def there_and_back(rng, schema, obj, many=False):
    """What is loaded of what was dumped, by one of the ways."""
    if rng.random() < 0.3:
        s = kept(schema, many=many)
        return s.load(s.dump(obj)) if rng.random() < 0.5 else s.loads(s.dumps(obj))
    way = rng.randrange(4)
    if many:
        made = schema(many=True) if rng.random() < 0.5 else None
        if way == 0:
            return made.load(made.dump(obj)) if made else schema().load(schema().dump(obj, many=True), many=True)
        if way == 1:
            return schema(many=True).loads(schema(many=True).dumps(obj))
        if way == 2:
            return [schema().load(x) for x in schema(many=True).dump(obj)]
        return schema(many=True).load(json.loads(json.dumps([schema().dump(x) for x in obj])))
    if way == 0:
        return schema().load(schema().dump(obj))
    if way == 1:
        return schema().loads(schema().dumps(obj))
    if way == 2:
        s = schema()
        s.dump(obj)
        return s.load(json.loads(json.dumps(s.dump(obj))))
    return schema().loads(json.dumps(schema().dump(obj), sort_keys=rng.random() < 0.5))


def class_of(schema):
    return schema.__name__


def parts(rng, cfg, gt, mon):
    for schema, objs in ((TransliterationRuleSchema, list(gt.rules)), (OnMatchRuleSchema, list(gt.onmatch_rules or []))):
        for k in range(2):
            got = there_and_back(rng, schema, objs, many=True)
            same("what %s loads of what it dumped" % class_of(schema), [norm(x) for x in got], [norm(x) for x in objs])
        for o in rng.sample(objs, min(3, len(objs))):
            same("what %s loads of what it dumped" % class_of(schema), norm(there_and_back(rng, schema, o)), norm(o))
            mon.count("parts")
            mon.feature(class_of(schema), tuple(len(v or ()) if not isinstance(v, (str, float)) else 0 for v in o))
    w = there_and_back(rng, WhitespaceSettingsSchema, gt.whitespace)
    same("what WhitespaceSettingsSchema loads of what it dumped", norm(w), norm(gt.whitespace))
    d = dict(cfg["whitespace"])
    same("what WhitespaceDictSettingsSchema loads", dict(there_and_back(rng, WhitespaceDictSettingsSchema, d)), d)
    # the graph
    class Has:
        pass

    g = there_and_back(rng, DirectedGraphSchema, gt.graph)
    if not isinstance(g, DirectedGraph):
        raise Violation("what is loaded is no directed graph", got=short(g))
    h = Has()
    h.graph = g
    same("the graph loaded of what was dumped", graph_of(h), graph_of(gt))
    key, data = g.add_node({"type": "more"})
    if key != len(gt.graph.node) or len(g.node) != key + 1:
        raise Violation("a node added to a loaded graph has another key than the next", got=key, nodes=len(gt.graph.node))
    more = CONFIGS[:2]
    graphs = [gt.graph] + [o.graph for _, o in more]
    for got, o in zip(there_and_back(rng, DirectedGraphSchema, graphs, many=True), graphs):
        a, b = Has(), Has()
        a.graph, b.graph = got, o
        same("one of the graphs loaded of those dumped", graph_of(a), graph_of(b))
    for got, o in zip(there_and_back(rng, GraphTransliteratorSchema, [gt] + [o for _, o in more], many=True), [gt] + [o for _, o in more]):
        same("settings of one of the transliterators loaded of those dumped", settings_of(got), settings_of(o))
        same("graph of one of the transliterators loaded of those dumped", graph_of(got), graph_of(o))
    mon.count("several", len(graphs))
    mon.count("graphs")
    # settings as a whole
    s = SettingsSchema().load(gen.direct(cfg))
    got = there_and_back(rng, SettingsSchema, s)

    def plain(x):
        return {"tokens": {k: frozenset(v) for k, v in x["tokens"].items()}, "rules": [norm(r) for r in x["rules"]], "onmatch": [norm(r) for r in x.get("onmatch_rules") or []],
                "whitespace": norm(x["whitespace"]), "metadata": x.get("metadata") or {}}

    same("what SettingsSchema loads of what it dumped", plain(got), plain(s))
    both = [s] + [SettingsSchema().load(gen.direct(c)) for c, _ in more]
    same("what SettingsSchema loads of what it dumped, several at once", [plain(x) for x in there_and_back(rng, SettingsSchema, both, many=True)], [plain(x) for x in both])
    ws = [gt.whitespace] + [o.whitespace for _, o in more]
    same("what WhitespaceSettingsSchema loads of what it dumped, several at once", [norm(x) for x in there_and_back(rng, WhitespaceSettingsSchema, ws, many=True)], [norm(x) for x in ws])
    same("what WhitespaceDictSettingsSchema loads of what it dumped, several at once", [dict(x) for x in there_and_back(rng, WhitespaceDictSettingsSchema, [dict(c["whitespace"]) for c, _ in more] + [d], many=True)],
         [c["whitespace"] for c, _ in more] + [d])
    same("what SettingsSchema loads", plain(s), {"tokens": {k: frozenset(v) for k, v in gt.tokens.items()}, "rules": [norm(r) for r in gt.rules],
         "onmatch": [norm(r) for r in gt.onmatch_rules or []], "whitespace": norm(gt.whitespace), "metadata": gt.metadata or {}})
    # and of all of it a transliterator again
    fresh = there_and_back(rng, DirectedGraphSchema, gt.graph)
    kw = {} if rng.random() < 0.5 else {"graph": fresh}
    made = G(got["tokens"], there_and_back(rng, TransliterationRuleSchema, list(gt.rules), True), w, onmatch_rules=there_and_back(rng, OnMatchRuleSchema, list(gt.onmatch_rules or []), True),
             metadata=got.get("metadata"), ignore_errors=gt.ignore_errors, check_ambiguity=False, **kw)
    return [("made of loaded parts", made), ("loaded by GraphTransliteratorSchema", there_and_back(rng, GraphTransliteratorSchema, gt))]


LISTS = ["prev_classes", "prev_tokens", "tokens", "next_tokens", "next_classes"]


def alike(rng, r):
    """Rules that differ in little: in where a list stands, in the order of one, in one entry, in the production."""
    have = {k: list(getattr(r, k)) for k in LISTS if getattr(r, k)}
    have["production"] = r.production
    out = [have]
    for _ in range(rng.randrange(4, 9)):
        d = {k: list(v) if isinstance(v, list) else v for k, v in gen.pick(rng, out).items()}
        a = gen.pick(rng, [k for k in LISTS if k in d])
        b = gen.pick(rng, LISTS)
        x = rng.randrange(6)
        if x == 0:
            if a != b:
                d[a], d[b] = d.get(b), d[a]
        elif x == 1:
            d[a].reverse()
        elif x == 2 and a != "tokens":
            del d[a]
        elif x == 3:
            d[b] = list(d[a])
        elif x == 4:
            d[a].append(gen.pick(rng, d[a]))
        else:
            d["production"] += rng.choice(["", "x", " "])
        if d.get("tokens"):
            out.append({k: v for k, v in d.items() if v is not None})
    rng.shuffle(out)
    return out


def rule_variants(rng, gt, mon):
    for r in rng.sample(list(gt.rules), min(2, len(gt.rules))):
        out = alike(rng, r)
        many = rng.random() < 0.7
        s = rng.choice([TransliterationRuleSchema, lambda **kw: kept(TransliterationRuleSchema, **kw)])(many=many)
        got = s.load(out) if many else [s.load(d) for d in out]
        for g, d in zip(got, out):
            same("a rule loaded among others like it", norm(g)[:-1], ("rule", d["production"], tuple(d["tokens"])) + tuple(tuple(d.get(k) or ()) for k in ("prev_classes", "prev_tokens", "next_tokens", "next_classes")))
        same("rules loaded again of what was dumped of them", [norm(x) for x in there_and_back(rng, TransliterationRuleSchema, got, many=True)], [norm(x) for x in got])
        mon.count("alike", len(out))
        # whatever it costs
        own = [x._replace(cost=rng.choice([rng.random(), 0.25, 1.0, 2.5, 1e-9, 0.0])) for x in [r] + got[:2]]
        same("rules of other costs loaded again of what was dumped of them", [norm(x) for x in there_and_back(rng, TransliterationRuleSchema, own, many=True)], [norm(x) for x in own])
        mon.count("own_costs", len(own))


BAD_RULES = [
    {"production": "x"}, {"tokens": ["a"]}, {"production": "x", "tokens": []}, {"production": "x", "tokens": "a"}, {"production": 1, "tokens": ["a"]}, {"production": None, "tokens": ["a"]},
    {"production": "x", "tokens": None}, {"production": "x", "tokens": [1]}, {"production": "x", "tokens": ["a", None]}, {"production": "x", "tokens": ["a"], "prev_classes": "c"},
    {"production": "x", "tokens": ["a"], "next_classes": [1]}, {"production": "x", "tokens": ["a"], "prev_tokens": {"a": 1}}, {"production": "x", "tokens": ["a"], "next_tokens": 5},
    {"production": "x", "tokens": ["a"], "next_token": ["a"]}, [], "a", None,
]
BAD_ONMATCH = [
    {"prev_classes": ["c"], "next_classes": ["c"]}, {"prev_classes": ["c"], "production": "x"}, {"next_classes": ["c"], "production": "x"}, {"prev_classes": [], "next_classes": ["c"], "production": "x"},
    {"prev_classes": ["c"], "next_classes": [], "production": "x"}, {"prev_classes": "c", "next_classes": ["c"], "production": "x"}, {"prev_classes": ["c"], "next_classes": [None], "production": "x"},
    {"prev_classes": ["c"], "next_classes": ["c"], "production": 1}, {"prev_classes": None, "next_classes": ["c"], "production": "x"}, {"prev_classes": ["c"], "next_classes": ["c"], "production": "x", "cost": 1}, [], "a", None,
]
BAD_SPACE = [
    {}, {"default": " ", "token_class": "wb"}, {"default": " ", "consolidate": True}, {"token_class": "wb", "consolidate": True}, {"default": 1, "token_class": "wb", "consolidate": True},
    {"default": " ", "token_class": None, "consolidate": True}, {"default": " ", "token_class": "wb", "consolidate": "maybe"}, {"default": " ", "token_class": "wb", "consolidate": None},
    {"default": " ", "token_class": "wb", "consolidate": True, "other": 1}, [], "a", None,
]


def probe_refused(rng, mon):
    for schemas, bads in (([TransliterationRuleSchema], BAD_RULES), ([OnMatchRuleSchema], BAD_ONMATCH), ([WhitespaceSettingsSchema, WhitespaceDictSettingsSchema], BAD_SPACE)):
        for schema in schemas:
            for b in bads:
                mon.current = {"schema": class_of(schema), "data": b}
                c18.expect_refused(class_of(schema), lambda: schema().load(b), mon, data=b)
                c18.expect_refused(class_of(schema) + " (many)", lambda: schema(many=True).load([b]), mon, data=b)
                if not schema().validate(b):
                    raise Violation("no errors are named for invalid data", schema=class_of(schema), data=b)


def case(rng, mon):
    KEPT.clear()
    del CONFIGS[:]
    for _ in range(rng.choice([1, 2, 3])):
        one(rng, mon)


def one(rng, mon):
    cfg = gen.config(rng, gen.Opts(min_rules=1, onmatch=0.6, metadata=0.5, big=0.01, longrule=0.05))
    mon.current = {"cfg": cfg}
    mon.feature(cfg_shape(cfg))
    gt = build(cfg, ignore_errors=rng.random() < 0.4)
    mem = gen.members(cfg)
    inputs = [gen.text(rng, cfg, mem=mem, errors=0.3, long=0.0) for _ in range(4)]
    want = settings_of(gt), graph_of(gt), behaviour(gt, inputs)
    for name, g in parts(rng, cfg, gt, mon):
        same("settings of the one " + name, settings_of(g), want[0])
        same("graph of the one " + name, graph_of(g), want[1])
        same_behaviour(name, behaviour(g, inputs), want[2])
        mon.count("transliterators")
    same("settings, after use of the schemas", settings_of(gt), want[0])
    same("graph, after use of the schemas", graph_of(gt), want[1])
    rule_variants(rng, gt, mon)
    # what they refuse
    sl = c18.slots(cfg)
    for _ in range(8):
        fault = gen.pick(rng, sl)
        d = c18.inject(rng, cfg, fault)
        mon.current["fault"] = fault
        c18.expect_refused("SettingsSchema", lambda: SettingsSchema().load(d), mon, fault=fault, settings=short(d, 2000))
        c18.expect_refused("SettingsSchema, used before", lambda: kept(SettingsSchema, many=False).load(d), mon, fault=fault, settings=short(d, 2000))
        if not rng.choice([SettingsSchema(), kept(SettingsSchema, many=False)]).validate(d):
            raise Violation("SettingsSchema names no errors for invalid settings", fault=fault, settings=short(d, 2000))
        mon.count("faults")
    errors = SettingsSchema().validate(gen.direct(cfg)) or kept(SettingsSchema, many=False).validate(gen.direct(cfg))
    if errors:
        raise Violation("SettingsSchema names errors of valid settings", errors=short(errors))
    CONFIGS.insert(0, (cfg, gt))
    del CONFIGS[3:]
    mon.sample({"cfg": short(cfg, 300)})


PROBES = [probe_refused]
