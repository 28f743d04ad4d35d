"""C16: easy-reading rules mean what the documentation says."""
from base import G, Violation, short
import gen
import ref
from util import cfg_shape

ID = "C16"

TOKS = (["a", "b", "c", "aa", "ab", "ba", "bb", "k1", "-", "+", "*", ".", "|", "\\", "^", "$", "[", "]", "{", "}", "?", "~", "'", '"', ",", ":", "#", "&", "%", "/", "=", "@", "!", ";", "_",
         "1", "0", "\u0915", "\u094d", "\u00e9", "e\u0301", "\U0001d518", "\u200d", "tok_en", "long-token.name", "\\N", "a+b", "a|b", "\u0915\u093e",
         "\n", "\t", "\r", "\u3000", "\u00a0", "\u2028", "\x85", "a\n", "\nb", "\n\n"])
CLS = ["x", "y", "vowel", "class_of_c", "c-1", "c.2", "1", "\u0938\u094d\u0935\u0930", "a", "A", "long_class-name", "c'", "x/y", "x|y", "x*", "[x]", "%s"]


def onmatch_key(rng, o):
    gap = gen.pick(rng, ["", " ", "  "])
    plus = gen.pick(rng, ["+", " + ", "+ ", " +", "  +  "])
    return gap.join("<%s>" % c for c in o["prev_classes"]) + plus + gap.join("<%s>" % c for c in o["next_classes"])


def case(rng, mon):
    toks = rng.sample(TOKS, rng.randrange(2, 12))
    classes = rng.sample(CLS, rng.randrange(1, 6))
    tokens = {t: [c for c in classes if rng.random() < 0.5] for t in toks}
    tokens[toks[0]] = list(classes)
    tokens[" "] = ["wb"]
    classes = classes + ["wb"]

    def tl(mx):
        return [gen.pick(rng, toks) for _ in range(gen.small(rng, mx))]

    def cl(mx):
        return [gen.pick(rng, classes) for _ in range(gen.small(rng, mx))]

    rules = []
    for _ in range(rng.randrange(1, 14)):
        r = {"tokens": tl(5)}
        mx = 4 if rng.random() < 0.8 else 9
        if rng.random() < 0.45:
            r["prev_classes"] = cl(mx)
        if rng.random() < 0.45:
            r["prev_tokens"] = tl(mx)
        if rng.random() < 0.45:
            r["next_tokens"] = tl(mx)
        if rng.random() < 0.45:
            r["next_classes"] = cl(mx)
        rules.append(r)
    if rng.random() < 0.7:
        rules.append({"tokens": [" "]})
    rng.shuffle(rules)
    rules = gen.easy_filter(rules)
    for i, r in enumerate(rules):
        r["production"] = gen.pick(rng, gen.PRODS) if rng.random() < 0.5 else "R%d" % i
    om = []
    for i in range(rng.randrange(0, 5)):
        om.append({"prev_classes": [c for c in cl(4)], "next_classes": [c for c in cl(4)], "production": gen.pick(rng, gen.PRODS + ["+%d" % i])})
    om = [o for o in om if all(gen.easy_ok_class(c) for c in o["prev_classes"] + o["next_classes"])]
    cfg = {"tokens": tokens, "rules": rules, "whitespace": {"default": " ", "token_class": "wb", "consolidate": rng.random() < 0.5}}
    if om:
        cfg["onmatch_rules"] = om
    easy = gen.easy_settings(cfg)
    if om and rng.random() < 0.4:  # other spacing of the same classes
        easy["onmatch_rules"] = [{onmatch_key(rng, o): o["production"]} for o in om]
        mon.count("onmatch_keys_of_other_spacing", len(om))
    mon.current = {"easy": easy}
    gt = G.from_easyreading_dict(easy, check_ambiguity=False)
    got = sorted(ref.rule(r) for r in gt.rules)
    want = sorted(ref.rule(r) for r in rules)
    if got != want:
        bad = [(gen.easy_key(r), ref.rule(r)) for r in rules if ref.rule(r) not in got]
        raise Violation("easy-reading rule read differently", notation=short(bad), got=short([g for g in got if g not in want]))
    go = [ref.onmatch(o) for o in (gt.onmatch_rules or [])]
    wo = [ref.onmatch(o) for o in om]
    if go != wo:
        raise Violation("easy-reading on-match rule read differently", got=short(go), want=short(wo))
    mon.count("configs")
    mon.count("rules", len(rules))
    mon.count("onmatch_rules", len(om))
    mon.count("rules_with_white_space_tokens", sum(1 for r in rules if any(t.isspace() for k in ("prev_tokens", "tokens", "next_tokens") for t in r.get(k) or ())))
    for r in rules:
        mon.feature(tuple(len(r.get(k) or ()) for k in ("prev_classes", "prev_tokens", "tokens", "next_tokens", "next_classes")))
        if len([1 for k in ("prev_classes", "prev_tokens", "next_tokens", "next_classes") if r.get(k)]) == 4:
            mon.count("rules_with_all_parts")
    for o in om:
        mon.feature("om", len(o["prev_classes"]), len(o["next_classes"]))
    mon.sample({"keys": list(easy["rules"])[:8]})


def probe_special_tokens(rng, mon):
    """Single-token rules for every printable ASCII character."""
    special = [chr(c) for c in range(33, 127)]
    tokens = {t: ["x"] for t in special}
    tokens[" "] = ["wb"]
    cfg = {"tokens": tokens, "rules": {t: "R%d" % ord(t) for t in tokens}, "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}
    mon.current = {"easy": cfg}
    gt = G.from_easyreading_dict(cfg, check_ambiguity=False)
    got = {tuple(r.tokens): r.production for r in gt.rules}
    want = {(t,): p for t, p in cfg["rules"].items()}
    if got != want:
        raise Violation("single-token rule read differently", got=short(sorted(set(got.items()) ^ set(want.items()))))
    mon.count("rules", len(want))


def probe_long_keys(rng, mon):
    """Keys of many items."""
    toks = ["t%d" % i for i in range(30)] + list("ab+*")
    classes = ["c%d" % i for i in range(30)]
    tokens = {t: list(classes) for t in toks}
    tokens[" "] = ["wb"]
    for n in (6, 11, 25, 60):
        rules, om = [], []
        for i in range(40):
            r = {"tokens": [gen.pick(rng, toks) for _ in range(rng.randrange(1, n))], "production": str(i)}
            for k, pool in (("prev_classes", classes), ("prev_tokens", toks), ("next_tokens", toks), ("next_classes", classes)):
                if rng.random() < 0.6:
                    r[k] = [gen.pick(rng, pool) for _ in range(rng.randrange(1, n))]
            rules.append(r)
            om.append({"prev_classes": [gen.pick(rng, classes) for _ in range(rng.randrange(1, n))], "next_classes": [gen.pick(rng, classes) for _ in range(rng.randrange(1, n))], "production": str(i)})
        rules = gen.easy_filter(rules)
        easy = gen.easy_settings({"tokens": tokens, "rules": rules, "onmatch_rules": om, "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}})
        mon.current = {"easy": easy}
        gt = G.from_easyreading_dict(easy, check_ambiguity=False)
        got, want = sorted(ref.rule(r) for r in gt.rules), sorted(ref.rule(r) for r in rules)
        if got != want:
            raise Violation("a long easy-reading rule was read differently", notation=short([gen.easy_key(r) for r in rules if ref.rule(r) not in got]), got=short([g for g in got if g not in want]))
        if [ref.onmatch(o) for o in gt.onmatch_rules] != [ref.onmatch(o) for o in om]:
            raise Violation("a long easy-reading on-match rule was read differently")
        mon.count("rules", len(rules))


PROBES = [probe_special_tokens, probe_long_keys]
