"""Writes MANIFEST.json from properties.jsonl and what is said here."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
TECH = {
    "C01": "runtime monitoring: online oracle (reference matcher) on every match of generated workloads",
    "C02": "runtime monitoring: online oracle (reference set of applicable rules) on every match-all",
    "C03": "runtime monitoring: online oracle (reference tokenizer, losslessness and framing) on tokenizations",
    "C04": "runtime monitoring: online oracle (reference whitespace consolidation) on tokenizations",
    "C05": "runtime monitoring: trace checker over matched rules, tokens and output of each transliteration",
    "C06": "runtime monitoring: trace checker of on-match insertions against a reference",
    "C07": "runtime monitoring: monitor of raised errors and captured log records in both error modes",
    "C08": "runtime monitoring: history checker over interleaved operations, results compared with fresh instances",
    "C09": "runtime monitoring: state invariants of constructed transliterators against their settings",
    "C10": "runtime monitoring: monitor of ties at every position of workloads aimed at accepted configurations",
    "C11": "runtime monitoring: online oracle of ambiguous rule pairs with monitored log records",
    "C12": "runtime monitoring: round-trip monitor, settings and behaviour compared across serialization",
    "C13": "runtime monitoring: differential monitor of settings with derivable entries removed",
    "C14": "runtime monitoring: monitor of option effects over every construction route",
    "C15": "runtime monitoring: online oracle of version acceptance over generated versions and forms",
    "C16": "runtime monitoring: reference reader of easy-reading rules as online oracle",
    "C17": "runtime monitoring: differential monitor across construction routes",
    "C18": "runtime monitoring: fault injection into settings with a monitor of refusal and acceptance",
    "C19": "runtime monitoring: online oracle of pruning, snapshots of the original",
    "C20": "runtime monitoring: structural invariant monitor of live graphs",
    "C21": "runtime monitoring: shadow record of visits compared with reported coverage over histories",
    "C22": "runtime monitoring: differential monitor of measuring and ordinary transliterators over histories",
    "C23": "runtime monitoring: differential monitor of bundled and generated packages against a reference",
    "C24": "runtime monitoring: differential monitor of command invocations and library calls",
    "C25": "runtime monitoring: recorded dumps of several processes and hash seeds compared offline",
    "C26": "runtime monitoring: snapshots of every argument and sibling checked after every operation",
    "C27": "runtime monitoring: online oracle replaying generated tests and checking they exercise each rule",
    "C28": "runtime monitoring: counted execution steps checked against bounds and growth, CPU limits for regular expressions",
    "C29": "runtime monitoring: histories of additions checked against an executable model after every step",
    "C30": "runtime monitoring: controlled thread scheduler at source lines, results checked against sequential ones",
    "C31": "runtime monitoring: differential monitor of equivalent configurations on the same inputs",
    "C39": "runtime monitoring: exceptions injected at every line of calls, monitor of state, results and arguments afterwards",
    "C40": "runtime monitoring: make-json commands on generated bundled transliterators in a copy of the package, monitor of every file before and after, oracle: reference settings",
    "C38": "runtime monitoring: differential monitor of copies against the original, interleaved uses of both",
    "C37": "runtime monitoring: fault injection into expectations and metadata, monitor of the verdict and of what counts as covered",
    "C36": "runtime monitoring: fault injection at every place of dumped data, monitor of exceptions and of what is loaded",
    "C35": "runtime monitoring: monitor of random sequences of reads, clearings and checks against a record of its own",
    "C34": "runtime monitoring: monitor of dumped data against the attributes dumped and an independent reader of the data",
    "C33": "runtime monitoring: round-trip monitor of the parts sent through each schema, fault injection into parts",
    "C32": "runtime monitoring: monitor of reachable state, process-wide settings and executed steps over long runs of calls",
}
NOTE = ("Held on the executions observed (counted in the evidence file), which are generated from VERIF_SEED; says nothing about executions not produced. "
        "Trusts the reference models in lib/ref.py and the check's oracle, PyPy 3.9 and the installed marshmallow, PyYAML and click.")
EXTRA = {
    "C10": " One known finding (context beyond the ends of the sequence) is recognised by its mechanism and reported separately.",
    "C01": " One known finding (a token spelled like the internal key of rules) is probed separately; generated tokens exclude that spelling.",
    "C25": " Texts are compared between processes of one interpreter (PyPy, and CPython with random hash seeds where it can import the library).",
    "C28": " Steps are source lines of the library; regular expressions are bounded by CPU seconds of a separate process.",
    "C30": " Interleavings switch at source lines of the library (and, in free-running stress, where the interpreter does).",
}
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "./check %s --tier quick" % p["id"],
            "thorough_cmd": "./check %s --tier thorough" % p["id"],
            "technique": TECH[p["id"]],
            "level": "exploration",
            "level_note": NOTE + EXTRA.get(p["id"], ""),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: the monitors observe public results, state, log records and, by sys.settrace, executed lines.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
