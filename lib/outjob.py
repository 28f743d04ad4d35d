# -*- coding: utf-8 -*-
"""
Run as a separate process (PyPy or CPython, any hash seed):
  outjob.py IN OUT
Builds every configuration of the JSON file IN and writes what it does with its inputs to OUT.
"""
import json
import logging
import sys

sys.dont_write_bytecode = True


class Count(logging.Handler):
    n = 0

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            Count.n += 1


PARTS = ("production", "prev_classes", "prev_tokens", "tokens", "next_tokens", "next_classes")


def said(rule):
    return [list(getattr(rule, k) or "") if k != "production" else rule.production for k in PARTS]


def results(G, errors, ambiguous, cfg, texts, modes=(False, True)):
    cfg = json.loads(json.dumps(cfg))
    try:
        G.from_dict(cfg)
        out = [True]
    except ambiguous:
        out = [False]
    for mode in modes:
        gt = G.from_dict(cfg, check_ambiguity=False, ignore_errors=mode)
        for s in texts:
            Count.n = 0
            try:
                r = ["ok", gt.transliterate(s), gt.last_input_tokens,
                     [said(x) for x in gt.last_matched_rules], gt.last_matched_rule_tokens]
                toks = gt.last_input_tokens
            except errors as e:
                r = ["error", type(e).__name__]
                toks = []
            r.append(Count.n)
            r.append([sorted(json.dumps(said(gt.rules[k])) for k in gt.match_at(i, toks, match_all=True)) for i in range(min(len(toks), 6))])
            out.append(r)
    return json.loads(json.dumps(out))


def main():
    logging.getLogger().handlers = [Count()]
    from graphtransliterator import GraphTransliterator as G
    from graphtransliterator.exceptions import AmbiguousTransliterationRulesException, NoMatchingTransliterationRuleException, UnrecognizableInputTokenException

    with open(sys.argv[1], encoding="utf-8") as f:
        jobs = json.load(f)
    out = [results(G, (NoMatchingTransliterationRuleException, UnrecognizableInputTokenException), AmbiguousTransliterationRulesException, j["cfg"], j["texts"], *([j["modes"]] if "modes" in j else [])) for j in jobs]
    with open(sys.argv[2], "w", encoding="utf-8") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
