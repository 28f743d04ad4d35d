"""C38: copied and pickled transliterators behave alike and are independent."""
import copy
import os
import pickle
import re
import subprocess
import sys

from base import G, LOG, REPO, VERIF, Violation, short
import gen
import ref
from util import IncompleteGraphCoverageException, IncompleteOnMatchRulesCoverageException, behaviour, build, cfg_shape, graph_of, same, same_behaviour, settings_of
from checks import c34
from graphtransliterator import CoverageTransliterator, VisitLoggingDirectedGraph
from graphtransliterator.exceptions import GraphTransliteratorException
import graphtransliterator.transliterators as T
import picklejob

ID = "C38"
WAYS = ["deepcopy", "copy", "pickle 2", "pickle 3", "pickle 4", "pickle default"]


def duplicate(x, way):
    try:
        if way == "deepcopy":
            return copy.deepcopy(x)
        if way == "copy":
            return copy.copy(x)
        p = way.split()[1]
        return pickle.loads(pickle.dumps(x, *([] if p == "default" else [int(p)])))
    except GraphTransliteratorException:
        raise
    except Exception as e:
        raise Violation("it cannot be copied", way=way, type=type(x).__name__, error=short(e, 300))


def covered(gt):
    """What the coverage check says, if it is one that measures coverage."""
    if not isinstance(gt, CoverageTransliterator) or not isinstance(gt.graph, VisitLoggingDirectedGraph):
        return None
    LOG.take()
    try:
        gt.check_coverage()
    except (IncompleteGraphCoverageException, IncompleteOnMatchRulesCoverageException) as e:
        return type(e).__name__, str(e)
    finally:
        LOG.take()
    return "complete"


def trace(gt):
    """The trace of the last transliteration, if one got as far as leaving one."""
    try:
        gt.last_input_tokens
    except AttributeError:
        return None
    return ([list(x) for x in gt.last_matched_rule_tokens], [ref.rule(r) for r in gt.last_matched_rules], list(gt.last_input_tokens or []))


def state(gt):
    return copy.deepcopy(settings_of(gt)), graph_of(gt), covered(gt), gt.tokenizer_pattern, gt.graphtransliterator_version


def case(rng, mon):
    cfg = gen.config(rng, gen.Opts(big=0.02, longrule=0.05, onmatch=0.6, metadata=0.6, maxrules=12))
    gt, made = c34.subject(rng, cfg, mon)
    if made == "bundled" and rng.random() < 0.5:
        gt = T.Example.new(method="yaml", check_ambiguity=False)
        made = "bundled for coverage"
    if rng.random() < 0.15:
        # parts of its own, which are not those made of the rest of the settings
        names = sorted(gt.tokens)
        kw = {}
        if rng.random() < 0.6:
            kw["tokenizer_pattern"] = "(%s)" % "|".join(re.escape(t) for t in rng.sample(names, rng.randrange(1, len(names) + 1)))
        if gt.rules and rng.random() < 0.5:
            kw["graph"] = G(gt.tokens, list(gt.rules)[:rng.randrange(1, len(gt.rules) + 1)], gt.whitespace, check_ambiguity=False).graph
        if gt.onmatch_rules and rng.random() < 0.5:
            kw["onmatch_rules_lookup"] = {t: {p: [] if rng.random() < 0.5 else list(v) for p, v in d.items()} for t, d in gt.onmatch_rules_lookup.items() if rng.random() < 0.7} or {names[0]: {}}
        cls = rng.choice([G, G, CoverageTransliterator])
        gt, made = cls(gt.tokens, list(gt.rules), gt.whitespace, onmatch_rules=list(gt.onmatch_rules or []), metadata=gt.metadata, check_ambiguity=False, **kw), "of own " + " ".join(sorted(kw))
        if kw:
            mon.count("own_parts")
    mon.current = {"cfg": cfg, "made": made}
    mem = gen.members(cfg)
    inputs = [gen.text(rng, cfg, mem=mem, errors=0.2, long=0.0) for _ in range(5)]
    used = rng.random() < 0.7
    if used:
        for s in inputs[:3]:
            try:
                gt.transliterate(s)
            except GraphTransliteratorException as e:
                if rng.random() < 0.3:
                    for way in ("deepcopy", "pickle 2", "pickle default"):
                        e2 = duplicate(e, way)
                        if type(e2) is not type(e) or str(e2) != str(e):
                            raise Violation("an error raised is another one when copied", error=repr(e), got=repr(e2), way=way)
                        mon.count("errors_copied")
    LOG.take()
    for _ in range(2):
        way = gen.pick(rng, WAYS)
        was = state(gt)
        tr = trace(gt)
        dup = duplicate(gt, way)
        mon.current["way"] = way
        if type(dup) is not type(gt):
            raise Violation("a copy is of another type", way=way, got=type(dup).__name__, want=type(gt).__name__)
        now = state(dup)
        for name, a, b in zip(("settings", "graph", "coverage", "tokenizer pattern", "version"), now, was):
            same("%s of a copy" % name, a, b, way=way, made=made)
        if tr is not None:
            same("trace of a copy", trace(dup), tr, way=way)
        same("dumps of a copy", [dup.dumps(compression_level=n) for n in range(3)], [gt.dumps(compression_level=n) for n in range(3)], way=way)
        same("the one copied", state(gt), was, way=way)
        first, second = (gt, dup) if rng.random() < 0.5 else (dup, gt)
        b = behaviour(first, inputs)
        if way != "copy":
            # what one does is not seen in the other
            for name, a, w in zip(("settings", "graph", "coverage", "tokenizer pattern", "version"), state(second), was):
                same("%s after the other was used" % name, a, w, way=way, made=made)
            if tr is not None:
                same("trace after the other was used", trace(second), tr, way=way)
            if was[2] is not None:
                first.clear_visited()
                same("coverage after that of the other was cleared", covered(second), was[2], way=way)
                mon.count("coverage")
            first.ignore_errors = not first.ignore_errors
            if first.metadata:
                first.metadata["changed in one"] = True
            same("settings after those of the other were changed", settings_of(second), was[0], way=way)
            first.ignore_errors = not first.ignore_errors
            if first.metadata:
                del first.metadata["changed in one"]
            mon.count("independent")
        same_behaviour("a copy (%s)" % way, behaviour(second, inputs), b)
        if rng.random() < 0.25:
            prune = gen.pick(rng, [rng.sample(gt.productions, len(gt.productions) // 2), []])
            same("pruned copy", settings_of(dup.pruned_of(prune)), settings_of(gt.pruned_of(prune)))
        mon.count("copies")
        mon.count(way.replace(" ", "_"))
        mon.feature(way, made, used, cfg_shape(cfg))
        if rng.random() < 0.3:
            gt = dup  # copies of copies
    if rng.random() < 0.2:
        g = gt.graph
        way = gen.pick(rng, [w for w in WAYS if w != "copy"])
        d = duplicate(g, way)
        box, box2 = c34.Has(), c34.Has()
        box.graph, box2.graph = d, g
        same("a copied graph", graph_of(box), graph_of(box2))
        size = len(g.node), len(g.edge_list)
        if not isinstance(g, VisitLoggingDirectedGraph):
            d.add_node({"type": "added"})
            d.add_edge(0, len(d.node) - 1, {"cost": 1.0})
            same("size of a graph after its copy grew", (len(g.node), len(g.edge_list), graph_of(box2) == graph_of(gt)), size + (True,))
        for name in ("rules", "whitespace", "onmatch_rules"):
            x = getattr(gt, name)
            if name == "rules":
                same("copied rules", [(type(r), r) for r in duplicate(list(x), way)], [(type(r), r) for r in x])
            elif x and not (name == "onmatch_rules" and not isinstance(x, list)):
                same("copied %s" % name, duplicate(x, way), x)
        mon.count("parts")


def probe_process(rng, mon):
    """Unpickled in another process."""
    jobs, want = [], []
    for k in range(25):
        cfg = gen.config(rng, gen.Opts(big=0.02, onmatch=0.6, metadata=0.3))
        gt, made = c34.subject(rng, cfg, mon) if k else (T.Example(), "bundled")
        mem = gen.members(cfg)
        inputs = [gen.text(rng, cfg, mem=mem, errors=0.2, long=0.0) for _ in range(4)]
        mon.current = {"probe": "process", "cfg": cfg, "made": made}
        p = pickle.dumps(gt, rng.randrange(2, 5))
        jobs.append((p, inputs))
        want.append(picklejob.does(gt, inputs))
    LOG.take()
    scratch = os.environ["VERIF_SCRATCH"]
    a, b = os.path.join(scratch, "p-%d.in" % mon.wid), os.path.join(scratch, "p-%d.out" % mon.wid)
    with open(a, "wb") as f:
        pickle.dump(jobs, f)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(rng.randrange(1, 1000)))
    p = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "lib", "picklejob.py"), a, b], env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=250)
    if p.returncode:
        raise Violation("unpickling in another process fails", output=short(p.stdout.decode("utf-8", "replace"), 2000))
    with open(b, "rb") as f:
        got = pickle.load(f)
    for j, x, y in zip(jobs, got, want):
        same("what an unpickled transliterator does in another process", x, y)
        mon.count("other_process")


PROBES = [probe_process]
