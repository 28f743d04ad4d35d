"""C24: the command line gives what the library gives."""
import json
import os
import shutil
import subprocess
import sys

import yaml
from click.testing import CliRunner

from base import G, LOG, PKG, Violation, short
import gen
import ref
from util import (
    AmbiguousTransliterationRulesException,
    NoMatchingTransliterationRuleException,
    UnrecognizableInputTokenException,
    ValidationError,
    in_ascii_locale,
)
from graphtransliterator.cli import main as cli_main
import graphtransliterator.transliterators as T

ID = "C24"
CASE_S = 200.0  # starts processes
LIB_ERRORS = (AmbiguousTransliterationRulesException, NoMatchingTransliterationRuleException, UnrecognizableInputTokenException, ValidationError,
              AssertionError, ValueError, KeyError, OSError, AttributeError)


def run(args):
    """(exit code, standard output) of one invocation."""
    LOG.take()
    r = CliRunner().invoke(cli_main, args)
    out = r.stdout_bytes.decode("utf-8")
    return r.exit_code, out, r


def lib(func):
    """('ok', value) or ('error', exception) of the corresponding library call."""
    try:
        return ("ok", func())
    except LIB_ERRORS as e:
        return ("error", type(e).__name__)


def agree(mon, args, expected, text_of):
    mon.current["args"] = [short(a, 300) for a in args]
    code, out, r = run(args)
    mon.count("invocations")
    mon.count("command_" + args[0])
    if expected[0] == "error":
        if code == 0:
            raise Violation("the library call fails but the command's exit status is 0", args=short(args), error=expected[1], output=short(out))
        mon.count("failures")
        return
    if code != 0:
        raise Violation("the library call succeeds but the command fails", args=short(args), exit=code, exception=repr(r.exception), output=short(out))
    want = text_of(expected[1]) + "\n"
    if out != want:
        raise Violation("the command does not print what the library gives", args=short(args), got=short(out), want=short(want))
    mon.count("successes")


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(s)


def flags(rng, ca, ie):
    """Spellings of the options; None leaves the default."""
    out = []
    if ca is not None:
        out.append(rng.choice(["--check-ambiguity", "-ca"]) if ca else rng.choice(["--no-check-ambiguity", "-nca"]))
    if ie is not None:
        out.append(rng.choice(["--ignore-errors", "-ie"]) if ie else rng.choice(["--no-ignore-errors", "-nie"]))
    rng.shuffle(out)
    return out


def text_format(to):
    return (lambda v: json.dumps(v)) if to == "json" else (lambda v: v if isinstance(v, str) else str(v))


def case(rng, mon):
    scratch = os.path.join(os.environ["VERIF_SCRATCH"], "cli-%d" % mon.wid)
    for _ in range(40):
        cfg = gen.config(rng, gen.Opts(easy=True, min_rules=1, big=0, maxtokens=6, maxrules=8, onmatch=0.4, dup=0.0))
        if cfg["rules"]:
            break
    if rng.random() < 0.5:
        # line breaks and the like are transliterated, too
        for t in rng.sample(["\n", "\t", "-", "\r", "\ufeff"], 2):
            if t not in cfg["tokens"]:
                cfg["tokens"][t] = []
                cfg["rules"].append({"tokens": [t], "production": gen.pick(rng, ["|", t, " ", ""])})
    easy = gen.easy_settings(cfg)
    ytext = yaml.safe_dump(easy, allow_unicode=True, sort_keys=False)
    if yaml.safe_load(ytext) != easy or "\\N{" in ytext:
        return
    mon.current = {"easy": easy}
    amb = bool(ref.ambiguous_pairs([ref.rule(r) for r in cfg["rules"]], {k: frozenset(v) for k, v in cfg["tokens"].items()}))
    mon.count("ambiguous" if amb else "unambiguous")
    mem = gen.members(cfg)
    src = G.from_yaml(ytext, check_ambiguity=False, ignore_errors=rng.random() < 0.3)
    js = src.dumps(rng.randrange(3))
    yfile, jfile = os.path.join(scratch, rng.choice(["t.yaml", "t t.yaml", "t\u0915.yml"])), os.path.join(scratch, "t.json")
    write(yfile, ytext)
    write(jfile, js)
    sources = {
        "yaml_file": (yfile, lambda **k: G.from_yaml_file(yfile, **k)),
        "json_file": (jfile, lambda **k: G.loads(js, **k)),
        "json": (js, lambda **k: G.loads(js, **k)),
    }
    name = gen.pick(rng, ["Example", "Example", "ITRANSDevanagariToUnicode"])
    sources["bundled"] = (name, lambda **k: getattr(T, name)(**k))
    try:
        for fmt in rng.sample(sorted(sources), 2):
            param, make = sources[fmt]
            if fmt == "bundled":
                g = make(check_ambiguity=False)
                toks = sorted(g.tokens)
                texts = ["".join(gen.pick(rng, toks) for _ in range(rng.randrange(0, 7))) for _ in range(4)]
                texts.append(gen.pick(rng, ["?", "a\u2603b", "ka!"]))
            else:
                texts = [gen.text(rng, cfg, n=rng.randrange(0, 8), mem=mem, errors=0.3) for _ in range(4)]
            t = gen.pick(rng, texts)
            texts += [t + gen.pick(rng, ["\n", " ", "\r\n", "  ", "\t"]), gen.pick(rng, ["\n", " ", "\t", "\ufeff", "-", "--"]) + t]
            texts = [t for t in texts if "\x00" not in t]
            f = [rng.choice(["--from", "-f"]), fmt, param]
            for k in (1, rng.choice([0, 2, 3, 5, 12, 12, 30]), 1):
                inputs = [gen.pick(rng, texts) for _ in range(k)]
                to = rng.choice([None, "json", "python"])
                ca, ie = rng.choice([None, True, False]), rng.choice([None, None, True, True, False])
                opts = [f, flags(rng, ca, ie)] + ([[rng.choice(["--to", "-t"]), to]] if to else [])
                rng.shuffle(opts)
                args = ["transliterate"] + sum(opts, []) + ["--"] + inputs

                def call():
                    gt = make(check_ambiguity=bool(ca), ignore_errors=bool(ie))
                    out = [gt.transliterate(s) for s in inputs]
                    return out[0] if len(out) == 1 else out

                exp = lib(call)
                if len(inputs) != 1:
                    mon.count("several_inputs")
                agree(mon, args, exp, text_format(to))
                mon.feature("transliterate", fmt, to, k, ca, ie, amb, exp[0])
            if fmt in ("yaml_file", "bundled"):
                lvl = rng.choice([None, 0, 1, 2, 2, 3, -1])
                ca = rng.choice([None, True, False])
                o = [f, flags(rng, ca, None)] + ([[rng.choice(["--compression-level", "-cl"]), str(lvl)]] if lvl is not None else [])
                rng.shuffle(o)
                exp = lib(lambda: make(check_ambiguity=bool(ca)).dumps(**({"compression_level": lvl} if lvl is not None else {})))
                agree(mon, ["dump"] + sum(o, []), exp, str)
                mon.feature("dump", fmt, lvl, ca, amb)
            ca = rng.choice([None, True, False])
            if fmt != "bundled" or rng.random() < 0.1:
                o = [f, flags(rng, ca, None)]
                rng.shuffle(o)
                exp = lib(lambda: T.Bundled.generate_yaml_tests(make(check_ambiguity=bool(ca))))
                agree(mon, ["generate-tests"] + sum(o, []), exp, str)
                mon.feature("generate-tests", fmt, ca, amb, exp[0])
        bundled_commands(rng, mon)
        broken(rng, mon, scratch, yfile, js)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    mon.sample({"rules": short(easy["rules"], 200), "source": fmt})


def bundled_commands(rng, mon):
    name = gen.pick(rng, list(T.iter_names())) if rng.random() < 0.8 else "NoSuchTransliterator"
    k = rng.randrange(3)
    if k == 0:
        to = rng.choice([None, "json", "yaml"])
        args = ["dump-tests"] + (["--to", to] if to else []) + [name]

        def call():
            g = getattr(T, name)()
            if to == "json":
                return json.dumps(g.load_yaml_tests())
            with open(g.yaml_tests_filen, encoding="utf-8") as f:
                return f.read()

        agree(mon, args, lib(call), str)
        mon.feature("dump-tests", name, to)
    elif k == 1:
        ca = rng.choice([None, True, False])
        agree(mon, ["test"] + flags(rng, ca, None) + [name], lib(lambda: getattr(T, name)(check_ambiguity=bool(ca)).run_yaml_tests()), str)
        mon.feature("test", name, ca)
    else:
        agree(mon, ["list-bundled"], ("ok", "\n".join(["Bundled transliterators:"] + ["  " + n for n in T.iter_names()])), str)
        mon.feature("list-bundled")


def broken(rng, mon, scratch, yfile, js):
    bad = os.path.join(scratch, "bad.yaml")
    write(bad, "tokens:\n  a: [x]\nrules:\n  b: B\nwhitespace: {default: ' ', token_class: wb, consolidate: false}\n")
    k = rng.randrange(7)
    args = [
        ["transliterate", "-f", "yaml_file", os.path.join(scratch, "nothing.yaml"), "a"],
        ["transliterate", "-f", "yaml_file", bad, "a"],
        ["transliterate", "-f", "json", js[:-1], "a"],
        ["transliterate", "-f", "bundled", "NoSuchTransliterator", "a"],
        ["transliterate", "-f", "xml", "x", "a"],
        ["dump", "-f", "yaml_file", bad],
        ["generate-tests", "-f", "json_file", os.path.join(scratch, "nothing.json")],
    ][k]
    code, out, _ = run(args)
    if code == 0:
        raise Violation("a failing command exits with status 0", args=short(args), output=short(out))
    mon.count("broken_sources")
    mon.feature("broken", k)


_failing = []


def probe_failing_tests(rng, mon):
    """`test` of a bundled transliterator whose tests fail, or which is ambiguous."""
    top = os.path.join(os.environ["VERIF_SCRATCH"], "cli-bundle-%d" % mon.wid)
    y = "tokens: {a: [x], b: [x], ' ': [wb]}\nrules: {a: A, b: B%s}\nwhitespace: {default: ' ', token_class: wb, consolidate: false}\n"
    specs = [("Ok", "", "a: A\nb: B\n", True), ("Bad", "", "a: A\nb: C\n", True), ("Unknown", "", "a: A\nz: Z\n", True),
             ("Amb", ", '<x> a': X, 'a <x>': Y", "a: A\n", True)]
    for n, more, tests, _ in specs:
        pkg = "clipkg_%s_%d" % (n.lower(), mon.wid)
        write(os.path.join(top, pkg, "__init__.py"),
              "from graphtransliterator.transliterators import Bundled\n\n\nclass Cli%sW%d(Bundled):\n    def __init__(self, **kwargs):\n        self.from_YAML(**kwargs)\n" % (n, mon.wid))
        write(os.path.join(top, pkg, pkg + ".yaml"), y % more)
        write(os.path.join(top, pkg, "tests", pkg + "_tests.yaml"), tests)
    T.add_transliterators(path=[top])
    for n, args, ok in (("Ok", [], True), ("Ok", ["-ca"], True), ("Bad", [], False), ("Unknown", [], False), ("Amb", [], True), ("Amb", ["-ca"], False), ("Amb", ["-nca"], True)):
        a = ["test"] + args + ["Cli%sW%d" % (n, mon.wid)]
        mon.current = {"args": a}
        code, out, r = run(a)
        if (code == 0) != ok or (ok and out != "True\n"):
            raise Violation("test command gives the wrong verdict", args=a, exit=code, output=out)
        mon.count("test_verdicts")
    agree(mon, ["list-bundled"], ("ok", "\n".join(["Bundled transliterators:"] + ["  " + n for n in T.iter_names()])), str)
    code, out, r = run(["dump-tests", "CliBadW%d" % mon.wid, "-t", "json"])
    if (code, out) != (0, json.dumps({"a": "A", "b": "C"}) + "\n"):
        raise Violation("dump-tests prints something else", exit=code, output=out)


def probe_processes(rng, mon):
    """The same as processes: exit statuses, and make-json in a copy of the package."""
    top = os.path.join(os.environ["VERIF_SCRATCH"], "cli-copy-%d" % mon.wid)
    shutil.copytree(PKG, os.path.join(top, "graphtransliterator"), ignore=shutil.ignore_patterns("__pycache__"))
    env = dict(os.environ, PYTHONPATH=top, PYTHONDONTWRITEBYTECODE="1")
    bd = os.path.join(top, "graphtransliterator", "transliterators")

    def proc(*args):
        p = subprocess.run([sys.executable, "-B", "-m", "graphtransliterator.cli"] + list(args), env=env, cwd=top, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        mon.count("processes")
        return p.returncode, p.stdout.decode("utf-8")

    def state():
        out = {}
        for d, _, fs in os.walk(bd):
            for f in fs:
                if f.endswith(".json") or f.endswith(".yaml"):
                    with open(os.path.join(d, f), encoding="utf-8") as h:
                        out[os.path.relpath(os.path.join(d, f), bd)] = h.read()
        return out

    mon.current = {"probe": "processes"}
    for args, ok, want in (
        (("transliterate", "-f", "bundled", "Example", "ab"), True, "AB\n"),
        (("transliterate", "-f", "bundled", "Example", "a!"), False, None),
        (("transliterate", "-f", "bundled", "Example", "-ie", "a!"), True, "A\n"),
    ):
        code, out = proc(*args)
        if (code == 0) != ok or (want is not None and out != want):
            raise Violation("command run as a process gives something else", args=args, exit=code, output=out)
    before = state()
    ex, it = "example/example.json", "itrans_devanagari_to_unicode/itrans_devanagari_to_unicode.json"
    for args, made in ((("make-json", "Example"), [ex]), (("make-json", "-re", "E|I"), [ex, it]), (("make-json", "Exam"), []), (("make-json", "--regex", "^ITRANS.*e$"), [it])):
        for j in (ex, it):
            with open(os.path.join(bd, j), "w") as f:
                f.write("stale")
        code, out = proc(*args)
        after = state()
        for j in (ex, it):
            y = j[:-4] + "yaml"
            want = G.from_yaml(before[y]).dumps() if j in made else "stale"
            if after[j] != want:
                raise Violation("make-json wrote the wrong file or content", args=args, file=j, got=short(after[j], 300), want=short(want, 300))
        if {k: v for k, v in after.items() if k not in (ex, it)} != {k: v for k, v in before.items() if k not in (ex, it)}:
            raise Violation("make-json changed other files", args=args)
        mon.count("make_json")
    shutil.rmtree(top, ignore_errors=True)


def probe_locale(rng, mon):
    """Files are read and written as UTF-8 by commands in a process with an ASCII locale, too."""
    top = os.path.join(os.environ["VERIF_SCRATCH"], "cli-locale-%d" % mon.wid)
    y = "tokens: {a: [], \u0915: [x], ' ': [wb]}\nrules: {a: \u00e4\u0915, \u0915: \U0001d518}\nwhitespace: {default: ' ', token_class: wb, consolidate: false}\n"
    g = G.from_yaml(y)
    yf, jf = os.path.join(top, "t.yaml"), os.path.join(top, "t.json")
    write(yf, y)
    write(jf, json.dumps(g.dump(0), ensure_ascii=False))
    s = "\u0915a\u0915"
    ex = "ITRANSDevanagariToUnicode"
    with open(getattr(T, ex)().yaml_tests_filen, encoding="utf-8") as f:
        tests = f.read()
    cases = [
        (["transliterate", "-f", "yaml_file", yf, "-t", "json", s], json.dumps(g.transliterate(s))),
        (["transliterate", "-f", "json_file", jf, "-t", "json", s], json.dumps(g.transliterate(s))),
        (["dump", "-f", "yaml_file", yf], g.dumps()),
        (["dump", "-f", "yaml_file", yf, "-cl", "0"], g.dumps(compression_level=0)),
        (["dump-tests", "-t", "json", ex], json.dumps(getattr(T, ex)().load_yaml_tests())),
        (["dump-tests", "-t", "yaml", ex], tests),
        (["dump-tests", ex], tests),
        (["test", ex], "True"),
    ]
    mon.current = {"probe": "locale"}
    try:
        out = in_ascii_locale(mon, {"cli": [c[0] for c in cases]})
    finally:
        shutil.rmtree(top, ignore_errors=True)
    if out is None:
        return
    for (args, want), (code, got, exc) in zip(cases, out["cli"]):
        if code != 0 or got != want + "\n":
            raise Violation("a command gives something else in a process with an ASCII locale", args=args, exit=code, exception=exc, got=short(got), want=short(want))
        mon.count("commands_in_other_locale")


PROBES = [probe_failing_tests, probe_processes, probe_locale]
