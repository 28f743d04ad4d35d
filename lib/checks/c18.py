"""C18: invalid settings are refused with a validation error; valid ones accepted."""
import copy
import os

import yaml

from base import G, Violation, short
import gen
import ref
from util import ValidationError, cfg_shape

ID = "C18"
RULE_TOK = ("tokens", "prev_tokens", "next_tokens")
RULE_CLS = ("prev_classes", "next_classes")


def fresh(rng, cfg, kind):
    """An undefined token or class that looks like a defined one."""
    toks = list(cfg["tokens"])
    classes = sorted({c for cs in cfg["tokens"].values() for c in cs})
    mine, other = (toks, classes) if kind == "token" else (classes, toks)
    for _ in range(60):
        x = rng.random()
        if x < 0.2:
            v = gen.pick(rng, other)
        else:
            v = gen.pick(rng, mine)
            if x < 0.35:
                v = v[:-1]
            elif x < 0.5:
                v = v + gen.pick(rng, ["a", "1", "_", "\u0301", v])
            elif x < 0.6:
                v = v.swapcase()
            elif x < 0.7:
                v = "<%s>" % v
            elif x < 0.8:
                v = v + v
            else:
                v = gen.pick(rng, ["undefined", "zz", "wb2x", "None", "0", "production"])
        if v and v not in mine:
            return v
    return "undefined" if "undefined" not in mine else "undefined2"


def wrong(rng, kind):
    """A value of a wrong type."""
    if kind == "str":
        return gen.pick(rng, [None, 5, 0, 1.5, True, ["a"], {"a": "b"}, []])
    if kind == "list":
        return gen.pick(rng, [5, 0, "a", "ab", True, 1.5])
    if kind == "dict":
        return gen.pick(rng, [None, 5, "a", [], ["a"], True])
    if kind == "bool":
        return gen.pick(rng, [None, "maybe", [], {}, 7, "", ["true"]])
    raise AssertionError(kind)


def slots(cfg):
    """Every place in direct settings that a fault can be injected at: (fault, path...)."""
    out = []
    for n, r in enumerate(cfg["rules"]):
        for k in RULE_TOK:
            for i in range(len(r.get(k) or ())):
                out.append(("undefined_token", "rules", n, k, i))
                out.append(("bad_str", "rules", n, k, i))
        for k in RULE_CLS:
            for i in range(len(r.get(k) or ())):
                out.append(("undefined_class", "rules", n, k, i))
                out.append(("bad_str", "rules", n, k, i))
        for k in RULE_TOK + RULE_CLS:
            if r.get(k):
                out.append(("bad_list", "rules", n, k))
        out += [("missing", "rules", n, "tokens"), ("missing", "rules", n, "production"), ("empty", "rules", n, "tokens"),
                ("none", "rules", n, "tokens"), ("bad_str", "rules", n, "production"), ("bad_dict", "rules", n)]
    for n, o in enumerate(cfg.get("onmatch_rules") or ()):
        for k in RULE_CLS:
            for i in range(len(o[k])):
                out.append(("undefined_class", "onmatch_rules", n, k, i))
                out.append(("bad_str", "onmatch_rules", n, k, i))
            out += [("missing", "onmatch_rules", n, k), ("empty", "onmatch_rules", n, k), ("none", "onmatch_rules", n, k), ("bad_list", "onmatch_rules", n, k)]
        out += [("missing", "onmatch_rules", n, "production"), ("bad_str", "onmatch_rules", n, "production"), ("bad_dict", "onmatch_rules", n)]
    if cfg.get("onmatch_rules"):
        out.append(("bad_list", "onmatch_rules"))
    for k in ("default", "token_class", "consolidate"):
        out.append(("missing", "whitespace", k))
        out.append(("bad_bool" if k == "consolidate" else "bad_str", "whitespace", k))
    out += [("undefined_token", "whitespace", "default"), ("undefined_class", "whitespace", "token_class"),
            ("no_whitespace_class",), ("no_default_token",)]
    for k in ("tokens", "rules", "whitespace"):
        out += [("missing", k), ("none", k)]
    out += [("bad_dict", "tokens"), ("bad_list", "rules"), ("bad_dict", "whitespace"), ("empty_token",)]
    for t in cfg["tokens"]:
        out += [("bad_classes", "tokens", t), ("none", "tokens", t)]
        for i in range(len(cfg["tokens"][t])):
            out.append(("bad_str", "tokens", t, i))
    return out


def inject(rng, cfg, slot):
    """A deep copy of the settings with one fault."""
    d = gen.direct(cfg)
    fault, path = slot[0], slot[1:]
    if fault == "no_whitespace_class":
        c = d["whitespace"]["token_class"]
        d["tokens"] = {t: [x for x in cs if x != c] for t, cs in d["tokens"].items()}
        return d
    if fault == "no_default_token":
        d["tokens"].pop(d["whitespace"]["default"])
        return d
    if fault == "empty_token":
        d["tokens"][""] = []
        return d
    at = d
    for p in path[:-1]:
        at = at[p]
    k = path[-1]
    if fault == "missing":
        del at[k]
    elif fault == "empty":
        at[k] = []
    elif fault == "none":
        at[k] = None
    elif fault == "undefined_token":
        at[k] = fresh(rng, cfg, "token")
    elif fault == "undefined_class":
        at[k] = fresh(rng, cfg, "class")
    elif fault == "bad_classes":
        at[k] = wrong(rng, "list")
    else:
        at[k] = wrong(rng, fault[4:])
    return d


def expect_refused(name, make, mon, **details):
    try:
        make()
    except ValidationError:
        mon.count("refused")
        return
    except Exception as e:
        raise Violation("%s: invalid settings refused with %s instead of a validation error" % (name, type(e).__name__), error=short(e, 300), **details)
    raise Violation("%s: invalid settings accepted" % name, **details)


def case(rng, mon):
    x = rng.random()
    if x < 0.35:
        return easy_case(rng, mon)
    if x < 0.43:
        return many_case(rng, mon)
    cfg = gen.config(rng, gen.Opts(min_rules=1, big=0.02, onmatch=0.7, context=0.4, longrule=0.05))
    mon.current = {"cfg": cfg}
    try:
        G.from_dict(gen.direct(cfg), check_ambiguity=False)
    except ValidationError as e:
        raise Violation("valid settings refused", error=short(e))
    mon.count("accepted")
    sl = slots(cfg)
    by = {}
    for s in sl:
        by.setdefault((s[0], s[1] if len(s) > 1 else None, s[3] if len(s) > 3 else None), []).append(s)
    kinds = sorted(by, key=repr)
    rng.shuffle(kinds)
    for kd in kinds[:24]:
        s = gen.pick(rng, by[kd]) if rng.random() < 0.6 else by[kd][-1]
        d = inject(rng, cfg, s)
        if rng.random() < 0.08:
            d2 = gen.direct(cfg)
            d2 = inject(rng, cfg, gen.pick(rng, sl))  # a second, independent faulty version
            expect_refused("from_dict", lambda: G.from_dict(d2), mon, settings=short(d2, 1500))
        mon.current["fault"] = s
        expect_refused("from_dict", lambda: G.from_dict(d, check_ambiguity=False), mon, fault=s, settings=short(d, 2000))
        mon.feature(kd, min(s[2], 5) if len(s) > 2 and isinstance(s[2], int) else None, min(len(cfg["rules"]), 8))
        mon.count("fault_" + s[0])
    mon.sample({"faults": [repr(k) for k in kinds[:6]]})


def many_case(rng, mon):
    """A fault far into long settings."""
    cfg = gen.config(rng, gen.Opts(min_rules=1, big=0, onmatch=1.0, context=0.4))
    toks = sorted(cfg["tokens"])
    classes = sorted({c for cs in cfg["tokens"].values() for c in cs})
    for i in range(rng.choice([40, 130, 400])):
        cfg["tokens"]["%s\ue000%d" % (gen.pick(rng, toks), i)] = rng.sample(classes, rng.randrange(min(3, len(classes) + 1)))
    toks = sorted(cfg["tokens"])
    for i in range(rng.choice([60, 150, 300, 700])):
        r = {"tokens": [gen.pick(rng, toks) for _ in range(rng.randrange(1, 5))], "production": str(i)}
        if rng.random() < 0.3:
            r[gen.pick(rng, RULE_CLS)] = [gen.pick(rng, classes)]
        if rng.random() < 0.3:
            r[gen.pick(rng, RULE_TOK[1:])] = [gen.pick(rng, toks)]
        cfg["rules"].append(r)
    if rng.random() < 0.5:
        # long rules
        for r in cfg["rules"][-rng.randrange(1, 4):]:
            for k in rng.sample(RULE_TOK + RULE_CLS, rng.randrange(1, 3)):
                r[k] = [gen.pick(rng, classes if k in RULE_CLS else toks) for _ in range(rng.choice([30, 110, 260, 400]))] + (r.get(k) or [])
    om = cfg.get("onmatch_rules") or []
    for i in range(rng.choice([5, 60, 150])):
        om.append({"prev_classes": [gen.pick(rng, classes)], "next_classes": [gen.pick(rng, classes) for _ in range(rng.randrange(1, 4))], "production": str(i)})
    cfg["onmatch_rules"] = om
    mon.current = {"cfg": cfg}
    sl = slots(cfg)
    by = {}
    for s in sl:
        by.setdefault((s[0], s[1] if len(s) > 1 else None, s[3] if len(s) > 3 else None), []).append(s)
    kinds = sorted((k for k in by if len(by[k]) > 10), key=repr)
    rng.shuffle(kinds)
    kinds = [k for k in kinds if k[0].startswith("undefined")] * 2 + kinds
    for kd in kinds[:16]:
        s = by[kd][-1] if rng.random() < 0.4 else by[kd][rng.randrange(len(by[kd]) * 2 // 3, len(by[kd]))]
        d = inject(rng, cfg, s)
        mon.current["fault"] = s
        expect_refused("from_dict", lambda: G.from_dict(d, check_ambiguity=False), mon, fault=s, value=short(d[s[1]][s[2]], 500), sizes=(len(cfg["tokens"]), len(cfg["rules"]), len(om)))
        mon.count("fault_" + s[0])
        mon.count("far_faults")
        mon.feature("far", kd, len(cfg["rules"]) // 100)


# ----------------------------------------------------------- easy-reading, YAML


def ykey_on(o):
    return " ".join("<%s>" % c for c in o["prev_classes"]) + " + " + " ".join("<%s>" % c for c in o["next_classes"])


def easy_case(rng, mon):
    cfg = gen.config(rng, gen.Opts(easy=True, min_rules=1, big=0.01, onmatch=0.7, context=0.4))
    if not cfg["rules"]:
        return
    easy = gen.easy_settings(cfg)
    mon.current = {"easy": easy}
    scratch = os.environ["VERIF_SCRATCH"]

    def routes(e):
        yield "from_easyreading_dict", lambda **k: G.from_easyreading_dict(e, **k)
        text = yaml.safe_dump(e, allow_unicode=True, sort_keys=False)
        if "\\N{" not in text and yaml.safe_load(text) == e:
            yield "from_yaml", lambda **k: G.from_yaml(text, **k)
            path = os.path.join(scratch, "c18-%d.yaml" % mon.wid)
            with open(path, "w", encoding="utf-8") as f:
                f.write(text)
            yield "from_yaml_file", lambda **k: G.from_yaml_file(path, **k)

    for name, make in routes(easy):
        try:
            make(check_ambiguity=False)
        except ValidationError as e:
            raise Violation("%s: valid settings refused" % name, error=short(e))
        mon.count("accepted")
    for _ in range(5):
        e = copy.deepcopy(easy)
        f = rng.choice(["rule_ref", "rule_ref", "rule_ref", "onmatch_ref", "onmatch_ref", "top", "ws", "ws_ref", "rule_val", "onmatch_val", "onmatch_shape", "key", "tokens"])
        if f == "rule_ref":
            n = rng.randrange(len(cfg["rules"]))
            r = copy.deepcopy(cfg["rules"][n])
            ks = [k for k in RULE_TOK + RULE_CLS if r.get(k)]
            k = gen.pick(rng, ks)
            kind = "class" if k in RULE_CLS else "token"
            v = fresh(rng, cfg, kind)
            ok = gen.easy_ok_class if kind == "class" else gen.easy_ok_token
            if not ok(v):
                v = "undefinedx"
            if v in cfg["tokens"] and kind == "token":
                continue
            r[k][rng.randrange(len(r[k]))] = v
            if not gen.easy_expressible_rule(r):
                continue
            key = gen.easy_key(r)
            old = gen.easy_key(cfg["rules"][n])
            e["rules"] = {key if q == old else q: w for q, w in e["rules"].items()}
        elif f == "onmatch_ref":
            if not cfg.get("onmatch_rules"):
                continue
            n = rng.randrange(len(cfg["onmatch_rules"]))
            o = copy.deepcopy(cfg["onmatch_rules"][n])
            k = gen.pick(rng, RULE_CLS)
            v = fresh(rng, cfg, "class")
            if not gen.easy_ok_class(v):
                v = "undefinedx"
            o[k][rng.randrange(len(o[k]))] = v
            e["onmatch_rules"][n] = {ykey_on(o): o["production"]}
        elif f == "top":
            k = rng.choice(["tokens", "rules", "whitespace"])
            if rng.random() < 0.5:
                del e[k]
            else:
                e[k] = wrong(rng, "dict")
        elif f == "ws":
            k = rng.choice(["default", "token_class", "consolidate"])
            if rng.random() < 0.5:
                del e["whitespace"][k]
            else:
                e["whitespace"][k] = wrong(rng, "bool" if k == "consolidate" else "str")
        elif f == "ws_ref":
            if rng.random() < 0.5:
                e["whitespace"]["default"] = fresh(rng, cfg, "token")
            else:
                e["whitespace"]["token_class"] = fresh(rng, cfg, "class")
        elif f == "rule_val":
            e["rules"][gen.pick(rng, sorted(e["rules"]))] = wrong(rng, "str")
        elif f == "onmatch_val":
            if not e.get("onmatch_rules"):
                continue
            n = rng.randrange(len(e["onmatch_rules"]))
            e["onmatch_rules"][n] = {k: wrong(rng, "str") for k in e["onmatch_rules"][n]}
        elif f == "onmatch_shape":
            if not e.get("onmatch_rules"):
                continue
            n = rng.randrange(len(e["onmatch_rules"]))
            k = list(e["onmatch_rules"][n])[0]
            c = gen.pick(rng, cfg["onmatch_rules"][n]["prev_classes"])
            e["onmatch_rules"][n] = rng.choice([
                {}, None, 5, k, [k], {"<%s> <%s>" % (c, c): "x"}, {"<%s> +" % c: "x"}, {"+ <%s>" % c: "x"}, {"": "x"}, {"+": "x"},
                {c + " + " + c: "x"}, {"<%s> + <> " % c: "x"}])
        elif f == "key":
            e["rules"][rng.choice(["", " " * rng.randrange(2, 4)])] = "x"
        else:
            t = gen.pick(rng, sorted(e["tokens"]))
            e["tokens"][t] = rng.choice([None, 5, "x", [5], [None], [["x"]], True])
        mon.current["fault"] = f
        for name, make in routes(e):
            expect_refused(name, lambda: make(check_ambiguity=False), mon, fault=f, settings=short(e, 2000))
            mon.count("route_" + name)
        mon.count("easyfault_" + f)
        mon.feature("easy", f, min(len(cfg["rules"]), 8))


def probe_not_settings(rng, mon):
    for y in ("", "a", "- 1", "5", "null", "tokens: 5", "tokens:\n  a: [x]\n", "rules: {}\n", "{}"):
        mon.current = {"yaml": y}
        expect_refused("from_yaml", lambda: G.from_yaml(y), mon, yaml=y)
    for x in (None, 5, "a", [], ["tokens"], {}):
        mon.current = {"settings": x}
        expect_refused("from_dict", lambda: G.from_dict(x), mon, settings=x)
        expect_refused("from_easyreading_dict", lambda: G.from_easyreading_dict(x), mon, settings=x)


PROBES = [probe_not_settings]
