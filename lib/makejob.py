"""Runs make-json commands over the package found first on the path; stdin and stdout are JSON.

Each step writes the files given, runs the command and tells what all files then hold."""
import io
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")


def held(top):
    out = {}
    for d, dirs, fs in os.walk(top):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.relpath(os.path.join(d, f), top)] = h.read().decode("utf-8", "replace")
    return out


def main():
    job = json.load(io.open(0, encoding="ascii", closefd=False))
    import logging

    logging.disable(logging.CRITICAL)
    from click.testing import CliRunner
    import graphtransliterator
    import graphtransliterator.transliterators as T
    from graphtransliterator import cli

    if not os.path.abspath(graphtransliterator.__file__).startswith(job["top"]):
        raise SystemExit("not the copy")
    steps = []
    for s in job["steps"]:
        for path, text in s["files"].items():
            with open(os.path.join(job["top"], path), "wb") as f:
                f.write(text.encode("utf-8"))
        before = held(job["top"])
        r = CliRunner().invoke(cli.main, s["args"])
        after = held(job["top"])
        changed = {p: after.get(p) for p in set(before) | set(after) if before.get(p) != after.get(p)}
        steps.append({"exit": r.exit_code, "output": r.output, "exception": type(r.exception).__name__ if r.exception else None, "changed": changed})
    data = json.dumps({"names": list(T.iter_names()), "steps": steps}).encode("ascii")
    with os.fdopen(1, "wb", closefd=False) as f:
        f.write(data)


if __name__ == "__main__":
    main()
