# -*- coding: utf-8 -*-
"""Helpers shared by the checks; only public API of the library is used."""
from base import G, LOG, Violation, gtlib, short
import ref
import gen

EX_TOKEN = gtlib.UnrecognizableInputTokenException if hasattr(gtlib, "UnrecognizableInputTokenException") else None
from graphtransliterator.exceptions import (  # noqa: E402
    AmbiguousTransliterationRulesException,
    IncompleteGraphCoverageException,
    IncompleteOnMatchRulesCoverageException,
    IncorrectVersionException,
    NoMatchingTransliterationRuleException,
    UnrecognizableInputTokenException,
)
from marshmallow import ValidationError  # noqa: E402


def build(cfg, check_ambiguity=False, **kw):
    gt = G.from_dict(gen.direct(cfg), check_ambiguity=check_ambiguity, **kw)
    return gt


def in_any_order(rng, gt, check_ambiguity=False):
    """Made of the same parts with the rules in another order, as the constructor takes them."""
    rules = list(gt.rules)
    x = rng.random()
    if x < 0.4:
        rules.reverse()
    elif x < 0.8:
        rng.shuffle(rules)
    else:
        rules.sort(key=lambda r: (len(r.tokens), r.cost))
    return G(gt.tokens, rules, gt.whitespace, onmatch_rules=gt.onmatch_rules, metadata=gt.metadata, ignore_errors=gt.ignore_errors, check_ambiguity=check_ambiguity)


def outcome(func, *args):
    """('ok', value) or ('error', exception type name) for the documented errors."""
    try:
        return ("ok", func(*args))
    except (UnrecognizableInputTokenException, NoMatchingTransliterationRuleException) as e:
        return ("error", type(e).__name__)


def rule_set(gt):
    return [ref.rule(r) for r in gt.rules]


def same(name, got, want, **details):
    if got != want:
        raise Violation("%s differs" % name, got=short(got), want=short(want), **details)


def settings_of(gt):
    """Everything a transliterator exposes that configures it, normalised."""
    return {
        "tokens": {k: frozenset(v) for k, v in gt.tokens.items()},
        "rules": [ref.rule(r) + (round(r.cost, 12),) for r in gt.rules],
        "onmatch": [ref.onmatch(o) for o in (gt.onmatch_rules or [])],
        "whitespace": (gt.whitespace.default, gt.whitespace.token_class, bool(gt.whitespace.consolidate)),
        "metadata": gt.metadata or {},
        "ignore_errors": bool(gt.ignore_errors),
        "tokens_by_class": {k: frozenset(v) for k, v in gt.tokens_by_class.items() if v},
        "lookup": norm_lookup(gt.onmatch_rules_lookup),
        "productions": list(gt.productions),
    }


def norm_lookup(x):
    return {k: {k2: list(v2) for k2, v2 in v.items()} for k, v in (x or {}).items()}


def graph_of(gt):
    """The graph, normalised for comparison (empty entries are the same as absent ones)."""
    g = gt.graph
    node = []
    for nd in list(g.node):
        node.append({k: v for k, v in dict(nd).items() if v or (v == 0 and v is not False)})
    edge = {}
    for h, tails in dict(g.edge).items():
        edge[int(h)] = {}
        for t, d in dict(tails).items():
            d = dict(d)
            d["cost"] = round(d["cost"], 12)
            if d.get("constraints"):
                d["constraints"] = {k: list(v) for k, v in dict(d["constraints"]).items() if v}
            edge[int(h)][int(t)] = {k: v for k, v in d.items() if v is not None}
    return {"node": node, "edge": edge, "edge_list": sorted(tuple(e) for e in g.edge_list)}


def behaviour(gt, inputs, seqs=()):
    """Observable behaviour on inputs (outputs, errors, traces) and token sequences."""
    out = []
    for s in inputs:
        LOG.take()
        r = outcome(gt.transliterate, s)
        w = len(LOG.warnings())
        tr = None
        if r[0] == "ok":
            tr = (list(gt.last_input_tokens), [ref.rule(x) for x in gt.last_matched_rules],
                  [list(x) for x in gt.last_matched_rule_tokens])
        out.append(("t", s, r, w, tr))
        out.append(("k", s, outcome(gt.tokenize, s)))
    LOG.take()
    rules = gt.rules
    for toks in seqs:
        for i in range(len(toks)):
            b = gt.match_at(i, list(toks))
            out.append(("m", b if b is None else ref.rule(rules[b])))
            out.append(("a", sorted(ref.rule(rules[k]) for k in gt.match_at(i, list(toks), match_all=True))))
    return out


def same_behaviour(name, a, b, **details):
    if a != b:
        for x, y in zip(a, b):
            if x != y:
                raise Violation("%s: behaviour differs" % name, got=short(x), want=short(y), **details)
        raise Violation("%s: behaviour differs in length" % name, **details)


def cfg_shape(cfg):
    """A coarse signature of a configuration for counting distinct shapes."""
    rs = sorted(
        (len(r["tokens"]), len(r.get("prev_classes") or ()), len(r.get("prev_tokens") or ()),
         len(r.get("next_tokens") or ()), len(r.get("next_classes") or ()))
        for r in cfg["rules"]
    )
    return (len(cfg["tokens"]), tuple(rs), len(cfg.get("onmatch_rules") or ()), cfg["whitespace"]["consolidate"])


def in_ascii_locale(mon, job):
    """Results of lib/localejob.py in a process with an ASCII locale; None if there is no such locale."""
    import json
    import os
    import subprocess
    import sys
    from base import REPO, VERIF

    scratch = os.environ["VERIF_SCRATCH"]
    a, b = os.path.join(scratch, "job-%d.json" % mon.wid), os.path.join(scratch, "out-%d.json" % mon.wid)
    with open(a, "w", encoding="ascii") as f:
        json.dump(dict({"files": [], "paths": [], "bundled": [], "cli": []}, **job), f)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
    env.update(LC_ALL="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    p = subprocess.run([sys.executable, "-B", "-X", "utf8=0", os.path.join(VERIF, "lib", "localejob.py"), a, b], env=env, cwd=scratch,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=250)
    if p.returncode:
        raise Violation("a process with an ASCII locale fails", output=short(p.stdout.decode("utf-8", "replace"), 2000))
    with open(b, encoding="ascii") as f:
        out = json.load(f)
    if out["encoding"].lower().replace("-", "") == "utf8":
        return None
    mon.count("other_locale")
    return out
