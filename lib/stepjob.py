# -*- coding: utf-8 -*-
"""Runs hostile constructions in a process of its own with a limit on CPU time (C28).

stdin: JSON {"keys": [easy-reading rule], "onmatch": [...], "yaml": [text], "cpu": seconds}
stdout: one line per item, flushed, so that the parent sees at which item time ran out.
A regular expression that backtracks without end cannot be interrupted from within."""
import json
import resource
import sys
import time

sys.dont_write_bytecode = True
job = json.load(sys.stdin)
sys.path.insert(0, job["repo"])
import logging  # noqa: E402

logging.getLogger().addHandler(logging.NullHandler())
from graphtransliterator import GraphTransliterator as G  # noqa: E402

G.from_easyreading_dict({"tokens": {"a": ["a"], " ": ["wb"]}, "rules": {"a": "A"}, "onmatch_rules": [{"<a> + <a>": "x"}],
                         "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}})
cpu = int(time.process_time()) + job["cpu"]
resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
for i, (kind, item) in enumerate(job["items"]):
    t = time.process_time()
    try:
        base = {"tokens": {"a": ["a", "b"], "b": ["a"], "(": [], "<": [], ">": [], ")": [], " ": ["wb"]}, "rules": {"a": "A"},
                "whitespace": {"default": " ", "token_class": "wb", "consolidate": False}}
        if kind == "rule":
            base["rules"] = {item: "X"}
            G.from_easyreading_dict(base, check_ambiguity=False)
        elif kind == "onmatch":
            base["onmatch_rules"] = [{item: "X"}]
            G.from_easyreading_dict(base, check_ambiguity=False)
        elif kind == "yaml":
            G.from_yaml(item)
        elif kind == "tokenize":
            g = G.from_dict(dict(base, tokens=item["tokens"], rules=[{"tokens": [t], "production": t} for t in item["tokens"]]),
                            ignore_errors=True, check_ambiguity=False)
            g.transliterate(item["text"])
        elif kind == "version":
            G.load(dict(base, rules=[], tokens={k: sorted(v) for k, v in base["tokens"].items()}, graphtransliterator_version=item))
        res = "ok"
    except Exception as e:
        res = type(e).__name__
    print(json.dumps([i, res, round(time.process_time() - t, 3)]), flush=True)
print("done", flush=True)
