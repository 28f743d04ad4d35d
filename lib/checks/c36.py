"""C36: what is loaded has the documented structure, or is refused."""
import copy
import json

from base import G, Violation, short
import gen
from util import ValidationError, behaviour, build, cfg_shape, same, settings_of
from graphtransliterator.exceptions import IncorrectVersionException

ID = "C36"

# values that are not of the type named
BAD = {
    "str": [None, 5, 0, 1.5, True, ["a"], {"a": "b"}, []],
    "text": [5, 1.5, True, ["a"], {"a": "b"}],
    "int": [None, "zz", "", [], [1], {}, "1a"],
    "float": [None, "zz", "", [], [1.0], {}],
    "list": [5, "a", "ab", True, 1.5, {"q": 5}, 0.5, 0, "", False, 0.0],
    "dict": [5, "a", "zz", ["a"], True, 1.5, [["a", "b"]], 0, "", False, [], 0.0],
    "bool": [None, "maybe", [], {}, 7, "", ["true"], {"a": True}],
}


def places(d):
    """Every place of dumped data: (what is done, type, path)."""
    out = []

    def wrong(kind, *path):
        out.append(("wrong", kind, path))

    def words(path, nullable=False):
        """A list of strings."""
        at = get(d, path)
        wrong("list", *path)
        if not nullable:
            wrong("none", *path)
        for i in range(len(at or ())):
            wrong("str", *path, i)

    def missing(*path):
        out.append(("missing", None, path))

    def unknown(*path):
        out.append(("unknown", None, path))

    unknown()
    for part in ("tokens", "rules", "whitespace"):
        missing(part)
        wrong("none", part)
    for part in ("tokens", "tokens_by_class"):
        wrong("dict", part)
        for t in d[part]:
            words((part, t))
    out.append(("empty_token", None, ("tokens",)))
    wrong("list", "rules")
    for n, r in enumerate(d["rules"]):
        p = ("rules", n)
        wrong("dict", *p)
        wrong("none", *p)
        unknown(*p)
        wrong("str", *p, "production")
        words(p + ("tokens",))
        missing(*p, "production")
        missing(*p, "tokens")
        out.append(("empty", None, p + ("tokens",)))
        for k in ("prev_classes", "prev_tokens", "next_tokens", "next_classes"):
            words(p + (k,), nullable=True)
    wrong("dict", "whitespace")
    unknown("whitespace")
    for k in ("default", "token_class", "consolidate"):
        wrong("bool" if k == "consolidate" else "str", "whitespace", k)
        missing("whitespace", k)
    if d.get("onmatch_rules"):
        wrong("list", "onmatch_rules")
        for n, o in enumerate(d["onmatch_rules"]):
            p = ("onmatch_rules", n)
            wrong("dict", *p)
            wrong("none", *p)
            unknown(*p)
            wrong("str", *p, "production")
            missing(*p, "production")
            for k in ("prev_classes", "next_classes"):
                words(p + (k,))
                missing(*p, k)
                out.append(("empty", None, p + (k,)))
        if d.get("onmatch_rules_lookup"):
            out.append(("lookup_only", None, ("onmatch_rules",)))
    wrong("dict", "onmatch_rules_lookup")
    wrong("dict", "metadata")
    wrong("bool", "ignore_errors")
    wrong("bool", "check_ambiguity")
    wrong("bool", "coverage")
    wrong("str", "tokenizer_pattern")
    out.append(("later", None, ("graphtransliterator_version",)))
    wrong("dict", "graph")
    unknown("graph")
    wrong("list", "graph", "node")
    for n, nd in enumerate(d["graph"]["node"]):
        p = ("graph", "node", n)
        wrong("dict", *p)
        wrong("none", *p)
        wrong("str", *p, "type")
        wrong("dict", *p, "ordered_children")
        if nd.get("type") == "token":
            wrong("str", *p, "token")
        if nd.get("type") == "rule":
            wrong("int", *p, "rule_key")
            wrong("bool", *p, "accepting")
    wrong("dict", "graph", "edge")
    for h, tails in d["graph"]["edge"].items():
        wrong("dict", "graph", "edge", h)
        for t, data in tails.items():
            p = ("graph", "edge", h, t)
            wrong("dict", *p)
            wrong("none", *p)
            wrong("float", *p, "cost")
            if data.get("token") is not None:
                wrong("text", *p, "token")
            for k, v in (data.get("constraints") or {}).items():
                if isinstance(v, (list, tuple)) and v:
                    words(p + ("constraints", k), nullable=True)
    wrong("list", "graph", "edge_list")
    for i, e in enumerate(d["graph"]["edge_list"]):
        wrong("none", "graph", "edge_list", i)
        wrong("list", "graph", "edge_list", i)
        out.append(("short", None, ("graph", "edge_list", i)))
        out.append(("long", None, ("graph", "edge_list", i)))
        for j in (0, 1):
            wrong("int", "graph", "edge_list", i, j)
    return out


def get(d, path):
    for k in path:
        d = d.get(k) if isinstance(d, dict) else d[k]
    return d


def damaged(rng, d, place):
    what, kind, path = place
    d = copy.deepcopy(d)
    if what == "unknown":
        name = gen.pick(rng, ["zz", "Tokens", "rule", "token", "setting", "__rules__", "default ", "0"])
        get(d, path)[name] = gen.pick(rng, [None, "a", [], {}, 1])
        return d, name
    d["graph"]["edge_list"] = [list(e) for e in d["graph"]["edge_list"]]
    at, k = get(d, path[:-1]), path[-1]
    v = None
    if what == "missing":
        del at[k]
    elif what == "empty":
        at[k] = []
    elif what == "empty_token":
        at[k][""] = []
    elif what == "lookup_only":
        if rng.random() < 0.5:
            del at[k]
        else:
            at[k] = gen.pick(rng, [None, []])
    elif what == "later":
        at[k] = v = gen.pick(rng, ["999.0.0", "2.0.0", "1.100.0", "10.0"])
    elif what == "short":
        at[k] = v = list(at[k])[: rng.randrange(2)]
    elif what == "long":
        at[k] = v = list(at[k]) + [0]
    elif kind == "none":
        at[k] = None
    else:
        at[k] = v = copy.deepcopy(gen.pick(rng, BAD[kind]))
    return d, v


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(min_rules=1, big=0.01, onmatch=0.7, context=0.5, metadata=0.5))
    gt = build(cfg)
    level0 = gt.dump(compression_level=0)
    as_text = rng.random() < 0.5
    mon.current = {"cfg": cfg}
    if as_text:
        d = json.loads(gt.dumps(compression_level=0))
    else:
        d = copy.deepcopy(level0)
    want = settings_of(gt)
    kept = json.dumps(d, sort_keys=True, default=str)
    try:
        again = G.load(d)
    except ValidationError as e:
        raise Violation("what was dumped is refused", error=short(e))
    same("settings loaded", settings_of(again), want)
    mon.count("accepted")
    # parts that may be left out
    less = copy.deepcopy(d)
    dropped = [k for k in ("onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern", "ignore_errors", "metadata", "graphtransliterator_version") if rng.random() < 0.4]
    for k in dropped:
        less.pop(k, None)
    try:
        again = G.load(less)
    except ValidationError as e:
        raise Violation("refused without parts that may be left out", dropped=dropped, error=short(e))
    got = settings_of(again)
    for k in ("metadata", "ignore_errors"):
        if k in dropped:
            got[k] = want[k]
    same("settings loaded without parts that may be left out", got, want, dropped=dropped)
    mon.count("parts_left_out")
    by = {}
    for p in places(d):
        what, kind, path = p
        by.setdefault((what, kind) + tuple("#" if isinstance(x, int) or (i and path[i - 1] in ("tokens", "tokens_by_class", "edge")) or (i > 1 and path[i - 2] == "edge") else x for i, x in enumerate(path)), []).append(p)
    kinds = sorted(by, key=repr)
    rng.shuffle(kinds)
    for kd in kinds[:20]:
        x = rng.random()
        p = by[kd][-1] if x < 0.3 else gen.pick(rng, by[kd])
        bad, v = damaged(rng, d, p)
        part = p[2][0] if p[2] else v
        route = rng.randrange(4)
        if route == 1:
            text = json.dumps(bad)
            load = lambda: G.loads(text)
        elif route == 2 and part in bad and p[0] != "missing" and p[0] != "lookup_only":
            # as a keyword argument that takes its place
            load = lambda: G.load(d, **{part: bad[part]})
        elif route == 3 and p[0] not in ("missing", "lookup_only") and part in bad and part in ("ignore_errors", "tokenizer_pattern", "check_ambiguity", "coverage", "graph", "tokens_by_class", v):
            # beside compressed settings
            small = gt.dump(compression_level=rng.choice([1, 2]))
            load = lambda: G.load(small, **{part: bad[part]})
            mon.count("beside_compressed")
        else:
            before = json.dumps(bad, sort_keys=True, default=str)
            load = lambda: G.load(bad)
        mon.current["fault"] = (p, v)
        try:
            load()
        except ValidationError:
            mon.count("refused")
        except IncorrectVersionException:
            if p[0] != "later":
                raise Violation("refused for its version, which is not at fault", fault=p, value=repr(v))
            mon.count("refused_version")
        except Exception as e:
            raise Violation("refused with %s instead of a validation error" % type(e).__name__, fault=p, value=repr(v), error=short(e, 300), route=route)
        else:
            raise Violation("loaded though its structure is wrong", fault=p, value=repr(v), route=route)
        if route not in (1, 2, 3) and json.dumps(bad, sort_keys=True, default=str) != before:
            raise Violation("what was refused is modified", fault=p)
        mon.feature(kd, min(p[2][1], 6) if len(p[2]) > 1 and isinstance(p[2][1], int) else None, repr(v)[:8])
        mon.count("fault_" + p[0])
    if json.dumps(d, sort_keys=True, default=str) != kept:
        raise Violation("what was loaded is modified")
    # refusals leave nothing behind
    same("settings loaded after refusals", settings_of(G.load(d)), want)
    mon.sample({"faults": [repr(k) for k in kinds[:5]]})
