# -*- coding: utf-8 -*-
"""Runs in a process whose locale is not UTF-8: localejob.py JOB.json OUT.json

JOB: {"files": [[YAML file, [input, ...]], ...], "paths": [directory, ...], "bundled": [[name, [input, ...]], ...],
      "cli": [[argument, ...], ...]}; both files are ASCII only."""
import json
import locale
import logging
import sys

logging.disable(logging.CRITICAL)


def attempt(f, *args, **kwargs):
    try:
        return ["ok", f(*args, **kwargs)]
    except Exception as e:
        return ["error", type(e).__name__ + ": " + ascii(e)[:300]]


def main():
    with open(sys.argv[1], encoding="ascii") as f:
        job = json.load(f)
    from graphtransliterator import GraphTransliterator as G
    import graphtransliterator.transliterators as T

    out = {"encoding": locale.getpreferredencoding(False), "files": [], "bundled": [], "cli": []}

    def shown(gt, inputs):
        gt.ignore_errors = True
        return [gt.dumps(compression_level=2), [gt.transliterate(s) for s in inputs]]

    for path, inputs in job["files"]:
        out["files"].append(attempt(lambda: shown(G.from_yaml_file(path, check_ambiguity=False), inputs)))
    for top in job["paths"]:
        T.add_transliterators(path=[top])
    for name, inputs in job["bundled"]:
        def bundled():
            c = getattr(T, name)
            got = [c.new(method=m, check_ambiguity=False) for m in ("yaml", "json")]
            return [g.load_yaml_tests() for g in got] + [g.run_yaml_tests() for g in got] + [shown(g, inputs)[1] for g in got]
        out["bundled"].append(attempt(bundled))
    if job["cli"]:
        from click.testing import CliRunner
        from graphtransliterator.cli import main as cli

        for args in job["cli"]:
            r = CliRunner().invoke(cli, args)
            out["cli"].append([r.exit_code, r.stdout_bytes.decode("utf-8"), ascii(r.exception)[:300]])
    with open(sys.argv[2], "w", encoding="ascii") as f:
        json.dump(out, f)


main()
