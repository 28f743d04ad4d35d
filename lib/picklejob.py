"""Unpickles transliterators in a process of its own and writes what they do."""
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
from graphtransliterator.exceptions import GraphTransliteratorException  # noqa: E402
import graphtransliterator.transliterators  # noqa: E402,F401 (bundled ones are modules of their own)


def does(gt, inputs):
    out = []
    for s in inputs:
        try:
            out.append(("ok", gt.transliterate(s), list(gt.last_input_tokens), [tuple(r) for r in gt.last_matched_rules]))
        except GraphTransliteratorException as e:
            out.append(("error", type(e).__name__))
    return out, [gt.dumps(compression_level=n) for n in range(3)]


if __name__ == "__main__":
    with open(sys.argv[1], "rb") as f:
        jobs = pickle.load(f)
    with open(sys.argv[2], "wb") as f:
        pickle.dump([does(pickle.loads(p), inputs) for p, inputs in jobs], f)
