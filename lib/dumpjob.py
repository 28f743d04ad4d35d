# -*- coding: utf-8 -*-
"""
Run as a separate process (PyPy or CPython, any hash seed):
  dumpjob.py IN OUT VARIANT
Builds every configuration of the JSON file IN, optionally uses the transliterators
before, and writes their dumps to OUT.
"""
import json
import logging
import random
import sys

logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True


from graphtransliterator.exceptions import (  # noqa: E402
    NoMatchingTransliterationRuleException,
    UnrecognizableInputTokenException,
)

EXPECTED = (NoMatchingTransliterationRuleException, UnrecognizableInputTokenException)


def use(rng, gt, texts):
    for _ in range(rng.randrange(0, 5)):
        k = rng.randrange(6)
        if k == 0:
            gt.dump(rng.randrange(3))
        elif k == 1:
            gt.dumps(rng.randrange(3))
        elif k == 2:
            for t in texts:
                try:
                    gt.transliterate(t)
                except EXPECTED:
                    pass
        elif k == 3:
            gt.pruned_of(gt.productions[:1]).dumps()
        elif k == 4:
            list(gt.tokens), list(gt.tokens_by_class), [gt.tokens_by_class.get(c) for c in ("", "x", "wb")]
            gt.onmatch_rules_lookup, gt.tokenizer_pattern, gt.graph.edge_list
        else:
            type(gt).loads(gt.dumps(rng.randrange(3))).dump(0)


def dumps(G, cfg, texts, ignore_errors, variant):
    rng = random.Random(variant)
    cfg = json.loads(json.dumps(cfg))
    if variant:
        for t in cfg["tokens"]:
            rng.shuffle(cfg["tokens"][t])
    gt = G.from_dict(cfg, check_ambiguity=False, ignore_errors=ignore_errors)
    if variant:
        use(rng, gt, texts)
    out = {}
    order = [(k, lvl) for k in ("dumps", "dump") for lvl in range(3)]
    if variant:
        rng.shuffle(order)
    for k, lvl in order:
        out["%s%d" % (k, lvl)] = gt.dumps(lvl) if k == "dumps" else json.dumps(gt.dump(lvl))
    return out


def main():
    from graphtransliterator import GraphTransliterator as G

    with open(sys.argv[1], encoding="utf-8") as f:
        jobs = json.load(f)
    variant = int(sys.argv[3])
    out = [dumps(G, j["cfg"], j["texts"], j["ignore_errors"], variant) for j in jobs]
    with open(sys.argv[2], "w", encoding="utf-8") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
