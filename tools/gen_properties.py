#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os

G = "graphtransliterator/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [G + f if not f.startswith("docs") else f for f in files],
            "mechanism": [{"name": n, "where": G + w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": G + w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


prop("C01", "The most specific applicable rule is matched",
     "At any position of a sequence of known tokens, matching selects a rule whose tokens, previous/next tokens and previous/next token classes all fit there inside the sequence, and among all rules that fit it is one requiring the largest total number of tokens and classes. It reports that nothing matches exactly when no rule fits.",
     ["configurations", "inputs"],
     "every valid set of tokens, classes and rules; every sequence of known tokens framed by the default whitespace; every position in it",
     "The suite matches a few positions of hand-written transliterators of at most ten rules; the choice depends on how all rules of a configuration interact in the search tree with every context, which no sample settles.",
     ["core.py", "initialize.py", "schemas.py"],
     [("search of the rule tree", "core.py:GraphTransliterator.match_at"),
      ("context constraints with boundary checks", "core.py:GraphTransliterator._match_constraints, _match_tokens"),
      ("tree with costs on edges", "initialize.py:_graph_from"),
      ("cost from number of required tokens", "initialize.py:_cost_of")],
     ["match_at(i, tokens) and rules"])

prop("C02", "Matching all returns exactly the applicable rules, each once",
     "Asking for all matches at a position yields every rule that fits there (tokens and all its context), no rule that does not fit, and none twice. It is empty exactly when single matching finds nothing, and otherwise contains the rule single matching selects.",
     ["configurations", "inputs"],
     "every valid configuration, every framed sequence of known tokens, every position",
     "Two unit tests call it once each with three rules; completeness over rules sharing prefixes, and the boundaries of the sequence, are for all configurations.",
     ["core.py", "initialize.py"],
     [("exhaustive traversal with match_all", "core.py:GraphTransliterator.match_at"),
      ("children of a node include its rules next to longer continuations", "initialize.py:_graph_from")],
     ["match_at(i, tokens, match_all=True)"])

prop("C03", "Tokenization is greedy longest-first, lossless and framed",
     "Tokenizing splits the input left to right, at each point taking the longest defined token that is literally (case and code point exact) a prefix of the remaining input, with one default whitespace token added before and after. Without whitespace consolidation, the tokens between the two added ones concatenate to exactly the input.",
     ["configurations", "inputs"],
     "every non-empty token vocabulary (any characters, including regular-expression metacharacters, line breaks, combining and non-BMP characters) and every input string",
     "Tests tokenize a handful of ASCII strings; the guarantee is over every vocabulary, with prefixes, metacharacters and any length, and every string.",
     ["core.py", "initialize.py"],
     [("alternation ordered by length, escaped", "initialize.py:_tokenizer_pattern_from"),
      ("tokenizer loop", "core.py:GraphTransliterator.tokenize")],
     ["tokenize(input)", "last_input_tokens"])

prop("C04", "Whitespace consolidation keeps exactly one default between words",
     "With consolidation on, whitespace tokens at the start and end of the input are dropped, every inner run of two or more whitespace tokens is replaced by a single default whitespace token, and a lone whitespace token and all other tokens are kept in order. With consolidation off, no whitespace token is dropped, replaced or added.",
     ["configurations", "inputs"],
     "every configuration (several whitespace tokens, whitespace tokens longer than a character, either setting) and every input, however its runs of whitespace are arranged",
     "Tests use a single space token and runs at a few places; mixed whitespace tokens, long runs and empty or all-whitespace inputs are unbounded.",
     ["core.py", "rules.py"],
     [("consolidation in the tokenizer loop", "core.py:GraphTransliterator.tokenize"),
      ("whitespace settings", "rules.py:WhitespaceRules")],
     ["tokenize(input)", "transliterate(input)"])

prop("C05", "Output is the productions of matched rules tiling the input in order",
     "A successful transliteration's output is the concatenation, left to right, of the productions of the reported matched rules (each preceded by at most one insertion of an on-match rule), where the matched rules' tokens tile the tokens of the input between the two added whitespace tokens with nothing skipped, repeated or reordered. Every matched rule is a most specific rule at its position, and the reported tokens and rules are those that produced that output.",
     ["configurations", "inputs"],
     "every valid configuration and every input that is transliterated without error, of any length",
     "Tests compare outputs of short strings with expected strings; conservation of tokens, order and agreement of the reported trace must hold on every run.",
     ["core.py"],
     [("main loop advancing by the tokens matched", "core.py:GraphTransliterator.transliterate")],
     ["transliterate(input)", "last_input_tokens", "last_matched_rules", "last_matched_rule_tokens"])

prop("C06", "On-match insertions: first applicable rule, right before the match",
     "Immediately before the production of each matched rule, the production of the first on-match rule (in the configured order) that applies there is inserted, and nothing is inserted if none applies. An on-match rule applies when the tokens right before the position have its previous classes in order and the tokens from the position on have its next classes in order, within the framed token sequence; tokens skipped because no rule matched them while errors are ignored are part of it.",
     ["configurations", "inputs"],
     "every list of on-match rules with one or more classes on each side, every classification of tokens, every input",
     "Tests use one or two on-match rules with a few short inputs; priority among many overlapping rules, multi-class contexts and sequence boundaries are for all.",
     ["core.py", "initialize.py"],
     [("application in the main loop", "core.py:GraphTransliterator.transliterate"),
      ("lookup by current and previous token", "initialize.py:_onmatch_rules_lookup")],
     ["transliterate(input)", "onmatch_rules"])

prop("C07", "Errors: strict mode raises and logs, lenient mode skips only the bad part",
     "In strict mode an input with a character that starts no token raises the unrecognizable-token error, and otherwise an input at which some reached position matches no rule raises the no-matching-rule error, each after a logged warning saying where it is (and which character). With errors ignored the same inputs never raise: exactly the unrecognizable characters and the unmatched tokens are skipped, one such warning each, and everything else is transliterated as usual.",
     ["configurations", "inputs", "histories"],
     "every configuration, every input with any number of errors anywhere, either mode, and switching the mode on a live transliterator between calls",
     "Tests have one erroneous character per case; several errors, adjacent errors, errors at the boundaries, and mode switches are unbounded.",
     ["core.py", "exceptions.py"],
     [("tokenizer error branch", "core.py:GraphTransliterator.tokenize"),
      ("no-match branch", "core.py:GraphTransliterator.transliterate"),
      ("settable mode", "core.py:GraphTransliterator.ignore_errors")],
     ["exceptions of tokenize and transliterate", "warnings in logging", "outputs"])

prop("C08", "Transliteration depends on nothing but the transliterator and the input",
     "The result of transliterating an input (output or error) is the same whatever calls, successful, failing, or of other methods, were made before on the same or on other transliterators. After a successful call the last-match details describe that call on that transliterator only.",
     ["histories"],
     "every interleaving of transliterate, tokenize, match, dump, prune, error-mode switches and failing calls over several transliterators alive together",
     "Tests make one or two calls on fresh objects; leaks of state need sequences of calls and several instances.",
     ["core.py", "initialize.py", "graphs.py"],
     [("per-call reset of the match record", "core.py:GraphTransliterator.transliterate")],
     ["transliterate(input)", "last_input_tokens", "last_matched_rules", "last_matched_rule_tokens"],
     [("last match record", "tokens and rule keys of the last call", "core.py:GraphTransliterator.transliterate")])

prop("C09", "All rules are kept, ordered by specificity with costs that reflect it",
     "A transliterator exposes exactly the configured rules, tokens with classes, on-match rules (in order), whitespace settings and metadata, with the rules sorted by non-decreasing cost. A rule's cost is log2(1 + 1/(1+n)) for n the number of tokens and classes it requires, so that a rule requiring more always costs strictly less.",
     ["configurations"],
     "every valid configuration, any number of rules and any rule length",
     "Tests check costs of two or three rules; nothing may be lost, merged or reordered for any configuration.",
     ["initialize.py", "schemas.py", "core.py", "rules.py"],
     [("cost", "initialize.py:_cost_of, _num_tokens_of"),
      ("sorting", "schemas.py:SettingsSchema.sort_rules_by_cost"),
      ("rule construction", "initialize.py:_transliteration_rule_of")],
     ["rules, tokens, onmatch_rules, whitespace, metadata, productions, tokens_by_class"])

prop("C10", "A configuration accepted as unambiguous has no ties",
     "If construction with ambiguity checking accepts a configuration, then at every position of every framed token sequence at most one rule is a best match: no two rules requiring the same number of tokens fit there unless a rule requiring more fits too. This holds in whatever order the rules are given.",
     ["configurations", "inputs"],
     "every valid configuration accepted by the check and every token sequence",
     "Tests check two ambiguous configurations; soundness is over all configurations, all pairs of rules and all contexts.",
     ["ambiguity.py", "core.py"],
     [("pairwise intersection and cover", "ambiguity.py:check_for_ambiguity")],
     ["construction with check_ambiguity", "match_at(..., match_all=True)"])

prop("C11", "Ambiguity is reported only for rule pairs that really overlap",
     "Construction with ambiguity checking, and the check made on demand, refuse a configuration, in whatever order its rules are given, exactly when there are two rules requiring the same number of tokens that can match the same tokens in context and whose whole overlap no single more specific rule matches. Each such pair is named in a logged warning, and without the check the configuration is accepted.",
     ["configurations"],
     "every valid configuration, with any number of equal-cost groups and rules within them",
     "The tests hold one refused and a few accepted configurations; a decision procedure over all pairs, groups and covers needs all configurations.",
     ["ambiguity.py", "core.py"],
     [("pairwise intersection and cover", "ambiguity.py:check_for_ambiguity"),
      ("warnings", "ambiguity.py:_easyreading_rule")],
     ["exception of the constructors", "warnings in logging"])

prop("C12", "Serialization loses nothing at any compression level",
     "For every transliterator and every compression level, as Python data and as JSON text, loading what was dumped gives a transliterator with equal settings and equal behaviour (output, errors, matches, tokenization) on every input. Dumping it again at any level gives the same data as dumping the original.",
     ["configurations", "inputs", "histories"],
     "every valid configuration (any number of tokens, classes, rules, constraints, nested metadata, either error mode), every level, chains of dumps and loads, every input",
     "Tests round-trip two small configurations; index-based compression can fail on any size or shape of configuration.",
     ["core.py", "compression.py", "schemas.py", "graphs.py"],
     [("dump and load", "core.py:GraphTransliterator.dump, dumps, load, loads, GraphTransliteratorSchema"),
      ("compression", "compression.py:compress_config, decompress_config"),
      ("graph schema", "schemas.py:DirectedGraphSchema, NodeDataSchema, EdgeDataSchema")],
     ["dump, dumps, load, loads and all public properties and methods of the result"])

prop("C13", "Serialized settings may be compacted without changing behaviour",
     "Loading serialized settings from which any of the derivable entries (graph, tokenizer pattern, tokens by class, on-match lookup, version, rule costs, empty or null rule fields) were removed gives a transliterator that behaves like the one loaded from the full settings.",
     ["configurations", "inputs"],
     "every subset of the derivable entries, every valid configuration, every input",
     "One documented example removes one entry; there are many subsets of entries for every configuration.",
     ["core.py", "schemas.py", "initialize.py"],
     [("regeneration of missing entries", "core.py:GraphTransliterator.__init__"),
      ("defaults of rule fields", "initialize.py:_transliteration_rule_of")],
     ["load(settings), loads(settings)"])

prop("C14", "Construction and loading options take effect on every route",
     "The options to ignore errors and to check ambiguity have the effect they are documented to have on every route by which a transliterator can be made: dictionary, easy-reading dictionary, YAML text and file, serialized Python data and JSON at every compression level, and bundled. Ambiguity is checked by default when constructing but not when loading, errors are not ignored unless asked for or dumped so, and an explicit option wins over the dumped one.",
     ["configurations", "inputs"],
     "every combination of route, compression level, options given or not, and configuration (ambiguous or not)",
     "Tests try the options on one or two routes; the product of routes, levels and options is not covered.",
     ["core.py", "transliterators/bundled.py"],
     [("option passing", "core.py:GraphTransliterator.from_dict, from_easyreading_dict, from_yaml, from_yaml_file, load, loads"),
      ("bundled options", "transliterators/bundled.py:Bundled._init_from")],
     ["exceptions, ignore_errors and behaviour of the result"])

prop("C15", "Only serializations from a later library version are refused",
     "Loading a serialization that names a library version numerically later than the running one, component by component, raises the incorrect-version error whatever its form. One that names the same or an earlier version, or none, loads.",
     ["inputs"],
     "every dotted numeric version (any number of digits per component), every compression level, as Python data or JSON",
     "One test uses one later version; comparison must be right for all numbers of digits and components.",
     ["core.py"],
     [("version check", "core.py:GraphTransliteratorSchema.check_version_and_compression")],
     ["load(settings), loads(settings)"])

prop("C16", "Easy-reading rules mean what the documentation says",
     "Every rule written in a documented easy-reading form (tokens, optional parenthesised tokens with optional classes before and after, or bare classes before and after) is read as exactly those tokens, previous and next tokens, and previous and next classes, and every on-match key as exactly its classes on each side. Productions are kept verbatim.",
     ["inputs"],
     "every combination of present and absent parts, any number of tokens and classes in each, any tokens and class names the notation can express",
     "Tests parse about a dozen keys; the notation is decided by one regular expression over unboundedly many shapes.",
     ["process.py"],
     [("rule notation", "process.py:RULE_RE, _process_rule"),
      ("on-match notation", "process.py:ONMATCH_RE, _process_onmatch_rules")],
     ["from_easyreading_dict(...).rules and onmatch_rules"])

prop("C17", "All construction routes of one configuration agree",
     "The same configuration given as a direct dictionary, easy-reading dictionary, YAML text or YAML file gives transliterators with equal settings and equal behaviour. Character names escaped by name in YAML text stand for exactly the named character, wherever and however often they occur.",
     ["configurations", "inputs"],
     "every configuration expressible in the notation, every named Unicode character, every input",
     "Tests compare two routes for one configuration and two character names; there are tens of thousands of names.",
     ["core.py", "process.py", "initialize.py"],
     [("constructors", "core.py:GraphTransliterator.from_yaml, from_yaml_file, from_easyreading_dict, from_dict"),
      ("unescaping", "initialize.py:_unescape_charnames")],
     ["settings and behaviour of the results"])

prop("C18", "Invalid settings are refused with a validation error",
     "Settings given as a dictionary, in easy-reading form or as YAML in which any rule, on-match rule or whitespace setting refers to an undefined token or class, or in which a required part is missing, empty or of a wrong type, are refused with a validation error, wherever in the settings the fault is. Settings without such a fault are accepted.",
     ["configurations"],
     "every valid configuration with one or more faults injected at any place, by any of the validating constructors",
     "Tests inject about ten faults into one configuration, usually at the first rule; the fault can be at any place of any configuration.",
     ["schemas.py", "process.py", "core.py"],
     [("validation of classes and tokens", "schemas.py:SettingsSchema.validate_token_classes, validate_tokens"),
      ("structure", "schemas.py:EasyReadingSettingsSchema, TransliterationRuleSchema, OnMatchRuleSchema")],
     ["exceptions of from_dict, from_easyreading_dict, from_yaml"])

prop("C19", "Pruning removes exactly the rules with the given productions",
     "Pruning by one production or a list of them returns a transliterator that keeps, in order, exactly the rules whose production equals none of them, and every other setting. It behaves like one configured from those rules, and the original is unchanged.",
     ["configurations", "inputs"],
     "every configuration (with equal, empty and nested-substring productions), every set of productions, repeated pruning",
     "One test prunes two productions of a three-rule configuration.",
     ["core.py"],
     [("pruning", "core.py:GraphTransliterator.pruned_of")],
     ["pruned_of(...).rules and behaviour; the original afterwards"])

prop("C20", "The exposed graph is a tree whose leaves are exactly the rules",
     "The exposed graph, freshly built (of rules in whatever order and of whatever cost) or loaded, is a tree from its single start node in which every rule is exactly one leaf, reached by the path of its tokens, with its context as the constraints of its last edge and its cost on it. Every edge's cost is the least cost of the rules below it, the children listed at a node are ordered by cost and complete for each next token, and the edge list names every edge once.",
     ["configurations", "histories"],
     "every valid configuration, and the graphs obtained by pruning and by loading dumps at every level",
     "Tests look at one graph of three rules; the invariants range over all trees.",
     ["initialize.py", "graphs.py", "schemas.py", "compression.py"],
     [("construction", "initialize.py:_graph_from"),
      ("data structure", "graphs.py:DirectedGraph"),
      ("loading", "schemas.py:DirectedGraphSchema; compression.py:decompress_config")],
     ["graph.node, graph.edge, graph.edge_list"])

prop("C21", "Coverage is reported complete exactly when everything was exercised",
     "A coverage-measuring transliterator reports complete coverage only if, since construction or the last clearing, every rule was reached in matching and every on-match rule was tried, and it does so once inputs have exercised all of them. Otherwise the check raises the corresponding incomplete-coverage error, or returns false when asked not to raise, and checking, dumping or iterating over settings never counts as exercising.",
     ["configurations", "histories"],
     "every configuration, every sequence of transliterations, clearings, checks, dumps, and property reads",
     "Tests check one bundled example with two sequences of calls.",
     ["core.py", "graphs.py"],
     [("visit logging", "graphs.py:VisitLoggingDirectedGraph, VisitLoggingList, VisitLoggingDict"),
      ("checks", "core.py:CoverageTransliterator.check_coverage, check_onmatchrules_coverage, clear_visited")],
     ["check_coverage, check_onmatchrules_coverage, clear_visited"])

prop("C22", "Measuring coverage does not change behaviour",
     "A coverage-measuring transliterator gives the same outputs, errors, tokens, matches, settings and dumps (null and no on-match rules being the same) as an ordinary one with the same configuration, before and after any coverage operation. It shares no visit record with other transliterators.",
     ["configurations", "inputs", "histories"],
     "every configuration, every input, every sequence of coverage operations",
     "Tests run the coverage transliterator only on the bundled examples' expected outputs.",
     ["core.py", "graphs.py"],
     [("wrapping of graph and on-match rules", "core.py:CoverageTransliterator.__init__; graphs.py:VisitLoggingDirectedGraph")],
     ["all public methods of both kinds"])

prop("C23", "Bundled transliterators agree from YAML and JSON and with their rules",
     "Every bundled transliterator, and every one added from a directory with the documented layout, behaves identically loaded from its YAML and its JSON file, and transliterates every input as its YAML rules demand. Its own tests pass and it is listed by name once; adding a second one of the same name is refused.",
     ["inputs", "configurations"],
     "every input over each bundled transliterator's vocabulary (with errors too), each way of loading it, and generated bundled packages",
     "Bundled tests run fixed inputs and JSON is never compared with YAML on others.",
     ["transliterators/bundled.py", "transliterators/__init__.py", "transliterators/example", "transliterators/itrans_devanagari_to_unicode"],
     [("loading", "transliterators/bundled.py:Bundled._init_from, new, from_YAML, from_JSON"),
      ("registry", "transliterators/__init__.py:add_transliterators, iter_names, iter_transliterators")],
     ["transliterate on all loadings; iter_names, run_yaml_tests"])

prop("C24", "The command line gives what the library gives",
     "Each command applied to a transliterator from any supported source prints what the corresponding library call yields: transliterate prints the output of one input, or the outputs of several in order, as text or as JSON, and dump, dump-tests, generate-tests, test and list-bundled their results. Options for ambiguity checking, error handling, output format and compression have their library effect, and failures give a non-zero exit status.",
     ["inputs", "configurations"],
     "every source kind, every configuration, any number and content of inputs, every option combination",
     "CLI tests run each command once or twice with fixed arguments.",
     ["cli.py"],
     [("commands", "cli.py:transliterate, dump, dump_tests, generate_tests, test, list_bundled, make_json"),
      ("source loading", "cli.py:load_transliterator")],
     ["output and exit status of the commands"])

prop("C25", "Equal configurations give identical dumps in every process",
     "Dumping a transliterator twice gives the same text, and so does dumping an equally configured one in another process, whatever the hash seed and whatever was done with either transliterator before. Listing a token's classes in another order does not matter.",
     ["configurations", "histories"],
     "every configuration, every compression level, any hash seed, and use of the transliterator between dumps",
     "Tests dump once in one process; ordering leaks show only across seeds, interpreters and histories.",
     ["core.py", "compression.py", "schemas.py"],
     [("ordering of dumped sets and edges", "core.py:GraphTransliteratorSchema; schemas.py:DirectedGraphSchema.sort_edge_list; compression.py:compress_config")],
     ["dumps at every level"])

prop("C26", "The caller's data is not modified and results are independent",
     "No operation modifies the settings, strings, lists or dictionaries passed to it, so that a settings object can be reused and gives an equal transliterator again. Using, pruning, dumping or switching the error mode of one transliterator leaves every other one made from the same settings, dump, or by pruning, unaffected.",
     ["histories", "configurations"],
     "every configuration, every constructor and loader, repeated use of the same settings object, any sequence of operations on the related transliterators",
     "Tests never reuse a settings object after construction nor compare it before and after.",
     ["core.py", "schemas.py", "process.py", "compression.py"],
     [("copying in loaders", "core.py:GraphTransliterator.load; schemas.py:DirectedGraphSchema.make_graph, SettingsSchema"),
      ("token list and productions taken by value", "initialize.py:_tokenizer_pattern_from; core.py:GraphTransliterator.pruned_of")],
     ["arguments before and after each call; behaviour of sibling transliterators"])

prop("C27", "Generated tests are correct and exercise every rule",
     "For a transliterator whose tests can be generated, the generated YAML maps inputs to exactly the outputs the transliterator gives for them. For every rule it contains an input consisting of tokens that satisfy the rule's context around its tokens, and for every on-match rule one of tokens that satisfy its previous and then its next classes.",
     ["configurations"],
     "every configuration for which generation succeeds, from the library and from the command line",
     "One test generates tests for the bundled example, where most parts are of length one.",
     ["transliterators/bundled.py", "cli.py"],
     [("generation", "transliterators/bundled.py:Bundled.generate_yaml_tests")],
     ["YAML text of generate_yaml_tests and generate-tests"])

prop("C28", "Every operation terminates in work bounded by its input",
     "Every construction, tokenization, match, transliteration, dump and load ends, by result or documented error, after a number of executed steps (source lines) bounded by a small polynomial in the size of the settings and linear in the length of the input. In particular no accepted settings and no input make tokenization or transliteration loop.",
     ["configurations", "inputs"],
     "every accepted configuration including degenerate ones, every input including empty, erroneous and very long ones, either error mode",
     "Tests stop at strings of a few dozen characters; non-termination and superlinear growth need hostile shapes.",
     ["core.py", "initialize.py", "ambiguity.py", "process.py", "schemas.py"],
     [("loops that advance", "core.py:GraphTransliterator.tokenize, transliterate, match_at"),
      ("non-empty tokens and rules enforced", "schemas.py:SettingsSchema, TransliterationRuleSchema")],
     ["number of executed source lines per call"])

prop("C29", "The directed graph data structure stays consistent",
     "After any sequence of additions, the graph holds exactly the added nodes under consecutive keys from zero with their data, exactly the added edges with the data last given for each, and an edge list naming each edge once. An addition with invalid keys or data raises a value error and leaves the graph unchanged.",
     ["histories"],
     "every sequence of node and edge additions, valid and invalid, on empty graphs and graphs initialized from data",
     "Tests make a few additions and seven invalid ones, without looking at the graph afterwards.",
     ["graphs.py"],
     [("validation before modification", "graphs.py:DirectedGraph.add_edge, add_node"),
      ("initialization", "graphs.py:DirectedGraph.__init__")],
     ["node, edge, edge_list"])

prop("C30", "Concurrent transliterations on one transliterator do not mix",
     "Threads transliterating, tokenizing, matching, dumping, pruning or loading with the same transliterator, or constructing others, at the same time each get the result (output, error, settings) they would get alone, under every interleaving. Threads using different transliterators do not affect each other either.",
     ["schedules"],
     "every interleaving, down to single source lines, of two or more calls on shared and on separate transliterators",
     "No test uses threads.",
     ["core.py", "graphs.py"],
     [("call-local output, position and tokens", "core.py:GraphTransliterator.transliterate, tokenize, match_at")],
     ["return values per thread"])

prop("C31", "Equivalent configurations transliterate alike",
     "Two configurations that say the same transliterate every input alike (output or error, warnings, tokens and matched rules), wherever no two equally specific rules compete: settings listed in another order (on-match rules keep theirs), classes or tokens renamed throughout, a class that a rule or on-match rule requires spelled out as one rule for each of its tokens, a class given a second name, parts that are empty given as empty, null or not at all, or tokens, classes and rules added that no token of the input reaches.",
     ["configurations", "inputs"],
     "every configuration, every chain of equivalent rewritings of it, and every input",
     "Tests compare no two configurations; an order or a name that matters by accident shows only against a twin.",
     ["core.py", "initialize.py", "schemas.py"],
     [("settings to internal form", "initialize.py:_tokens_by_class_of, _tokenizer_pattern_from, _onmatch_rules_lookup, _graph_from"),
      ("rules ordered by cost alone", "core.py:GraphTransliterator.from_dict, schemas.py:GraphTransliteratorSchema"),
      ("matching", "core.py:GraphTransliterator.match_at")],
     ["transliterate, last_input_tokens, last_matched_rules of twins"])

prop("C32", "Use leaves nothing behind",
     "However many calls are made, on whatever inputs, successful or failing, what a transliterator holds and what the library and the process keep (memory, open files, registrations) stays bounded by the settings and the last input, and a call takes no more steps than at first. Files that a call opens are closed when it returns. The library's functions leave the process as it was (working directory, environment, import path, random state, locale, logging configuration, limits) and write nothing to standard output or error.",
     ["histories", "inputs"],
     "every long run of any kind of call: transliterating, tokenizing, matching, dumping, pruning, constructing, loading, refusing",
     "Tests make a handful of calls; what grows by a little with each shows only after thousands.",
     ["core.py", "graphs.py", "initialize.py", "process.py", "schemas.py", "ambiguity.py", "transliterators"],
     [("state of the last call replaced, not added to", "core.py:GraphTransliterator.transliterate"),
      ("counters, not logs, of visits", "graphs.py:VisitLoggingDict, VisitLoggingList"),
      ("call-local working data", "core.py:GraphTransliterator.match_at, tokenize")],
     ["objects reachable from transliterators and the library's modules; process-wide settings; number of executed source lines"])

prop("C33", "Schemas of the parts lose nothing and refuse what is invalid",
     "Each exported schema (of rules, on-match rules, whitespace, directed graphs of transliterators, settings and transliterators), used on its own, newly made or used before, loads what it dumped, also as JSON text and many at a time, as an equal object, and a transliterator made of parts loaded so has equal settings, graph and behaviour. Rules, on-match rules and whitespace with a part missing, empty where it must not be or of a wrong type, and settings with a reference to something undefined, are refused with a validation error.",
     ["configurations", "inputs"],
     "every part of every valid configuration and the tree of its rules; every fault of the listed kinds in any part",
     "The suite loads and dumps whole transliterators of a few rules; the schemas are exported to be used on their own, on any parts.",
     ["schemas.py", "initialize.py", "graphs.py", "core.py"],
     [("schemas with conversions after loading and before dumping", "schemas.py:TransliterationRuleSchema, OnMatchRuleSchema, WhitespaceSettingsSchema, DirectedGraphSchema, SettingsSchema"),
      ("validation across parts", "schemas.py:SettingsSchema.validate_token_classes, validate_tokens")],
     ["dump, dumps, load, loads and validate of the exported schemas"])

prop("C34", "What is dumped describes the transliterator",
     "Uncompressed data dumped from any transliterator, however made, holds exactly the documented entries, as native types, each equal to what the transliterator has (tokens with classes, rules in order, whitespace, on-match rules and lookup, metadata, error mode, tokens by class, graph, tokenizer pattern, version), so that one who has only this data finds the rules the transliterator finds. The text dumped is that data as JSON. Compressed levels hold the same settings, with the graph at level 1 and without it, and so shorter, at level 2; by default data is uncompressed and text most compressed; other levels are refused. Data dumped loads as text, and text as data.",
     ["configurations", "inputs"],
     "every valid configuration and every way to make a transliterator of it; every level; levels that do not exist",
     "The suite compares a dump of one configuration to itself loaded; that a dump says what the transliterator is has to hold for every configuration.",
     ["core.py", "schemas.py", "graphs.py", "compression.py"],
     [("serialization of each entry", "core.py:GraphTransliteratorSchema"),
      ("levels", "core.py:GraphTransliterator.dump, dumps"),
      ("compression", "compression.py:compress_config, decompress_config")],
     ["dump, dumps, load, loads", "attributes of the transliterator", "compress_config and decompress_config"])

prop("C35", "Visit-logging collections read as plain ones and record what was read",
     "A visit-logging graph made of a directed graph (or of another visit-logging one) has its nodes, edges and edge list, and reading by key, iterating, slicing and asking for length or membership give what the graph gives. It reports complete coverage exactly when every node and every edge was read by its key since it was made or last cleared; otherwise the check raises the incomplete-coverage error naming exactly the nodes and edges missed, or, asked not to raise, returns false, with a warning for each. Iterating, slicing, membership, length, serializing, checking, and making another of it are no visits, and visits leave the graph it was made of and others as they were. Visit-logging lists and dictionaries record likewise the items read by index or key.",
     ["inputs", "histories"],
     "graphs of any shape, every sequence of reads, clearings, checks and derivations on several visit-logging graphs of one graph",
     "The suite visits one small graph once; that the record is of what was read and of nothing else must hold for every sequence of accesses.",
     ["graphs.py"],
     [("visit-logging list, dictionary and graph", "graphs.py:VisitLoggingList, VisitLoggingDict, VisitLoggingDirectedGraph"),
      ("coverage check", "graphs.py:VisitLoggingDirectedGraph.check_coverage")],
     ["items, iteration and check_coverage of the exported visit-logging classes", "warnings in logging"])

prop("C36", "A serialization of the wrong structure is refused when loaded",
     "Loading dumped data (as data or JSON text, with settings in its place or beside compressed ones given by keyword) in which a required part is missing or empty, any part with a documented type is of another one, a part that is not known is added, or on-match lookups stand without on-match rules, raises a validation error, and data of a later version the incorrect-version error, wherever in the data the fault is; data without a fault, and data without the parts that may be left out, are accepted and give the transliterator dumped. Refusing modifies nothing.",
     ["configurations", "inputs"],
     "every dump of every configuration with one fault at any place of tokens, rules, on-match rules, whitespace, lookups and graph, by load and loads",
     "The suite loads a handful of damaged settings; the fault can be at any depth of any of the nested parts, and each must be refused rather than end in another error or in a wrong transliterator.",
     ["core.py", "schemas.py"],
     [("serialization schema", "core.py:GraphTransliteratorSchema"), ("load and loads", "core.py:GraphTransliterator.load, loads"),
      ("parts of the graph", "schemas.py:DirectedGraphSchema, NodeDataSchema, EdgeDataSchema, ConstraintSchema"),
      ("rules and whitespace", "schemas.py:TransliterationRuleSchema, OnMatchRuleSchema, WhitespaceSettingsSchema")],
     ["exceptions and results of load and loads"])

prop("C37", "Testing a bundled transliterator judges every expectation",
     "Running tests on a bundled transliterator, given as a mapping or in its YAML file, succeeds exactly when every input transliterates to the text expected, however many there are and in whatever order. Otherwise it raises an assertion error naming an input of a wrong expectation, what was got and what was expected, or the error of an input that cannot be transliterated. Tests are read from the file as text, in order and losing none, and running them counts as covered exactly what transliterating their inputs does, changing nothing else. Metadata with a name, description and version, and other parts of the documented kinds, is accepted by the metadata schema as it is, that of each bundled transliterator among it, and metadata with a part missing, unknown or of another kind is refused.",
     ["configurations", "inputs"],
     "bundled transliterators over every easy-reading configuration; every mapping of tests with none, some or all expectations wrong; every metadata with one fault",
     "The suite runs tests that pass; a test runner that misses a wrong expectation makes every later change look right, and none of its own tests can show it.",
     ["transliterators/bundled.py", "transliterators/schemas.py"],
     [("test runner", "transliterators/bundled.py:Bundled.run_tests, run_yaml_tests, load_yaml_tests"), ("metadata", "transliterators/schemas.py:MetadataSchema")],
     ["run_tests, run_yaml_tests, load_yaml_tests, check_coverage", "MetadataSchema"])

prop("C38", "Copies and pickled transliterators behave alike and are independent",
     "A transliterator however made, used or not, and its graph, rules and settings, can be copied with copy and deepcopy and pickled with protocol 2 or later, also for another process (bundled ones where they are loaded). What results is of the same type and has the same settings, graph, trace of the last transliteration and record of coverage, and gives the same dumps, matches, outputs and errors; and errors raised can be copied and pickled alike. A deep copy or an unpickled one and the original do not see what is transliterated with, cleared or changed in the other.",
     ["configurations", "inputs", "histories"],
     "every configuration, way of making and way of copying, before and after any use",
     "The suite copies and pickles nothing, and whether an attribute can be pickled or is shared depends on every part of the state, whichever route made it.",
     ["core.py", "graphs.py", "rules.py", "exceptions.py"],
     [("state of a transliterator", "core.py:GraphTransliterator.__init__"), ("visit record", "graphs.py:VisitLoggingList, VisitLoggingDict, VisitLoggingDirectedGraph"),
      ("state for coverage", "core.py:CoverageTransliterator.__init__")],
     ["copy, deepcopy, pickle", "attributes, dumps and behaviour of the transliterators"])

prop("C39", "A call that is cut short leaves everything as it was",
     "When a call on a transliterator, or one that makes, loads, prunes, dumps or tests one, is cut short at whatever point by an exception from outside, such as an interrupt or lack of memory, that exception reaches the caller, and afterwards everything is as if the call had not been made: the settings, graph and dumps of the transliterators alive, what they and new ones give for every input in either error mode, which configurations are accepted, the arguments given, and, once cleared, what is measured as covered. (Only the details of the last match, and visits recorded before clearing, may differ. An exception raised while cleaning up after another is not meant.)",
     ["histories", "crash_points"],
     "every kind of call, every configuration, every source line of the library at which the call may end",
     "The suite lets every call finish; a setting that is switched for a while, a table that is filled in place or a result stored before it is complete shows only when a call ends in the middle.",
     ["core.py", "initialize.py", "graphs.py", "schemas.py", "transliterators/bundled.py"],
     [("state kept by calls", "core.py:GraphTransliterator.transliterate, tokenize, pruned_of, dump"), ("visit record", "graphs.py:VisitLoggingDirectedGraph")],
     ["attributes, dumps and behaviour after the call"])

prop("C40", "make-json makes the JSON of exactly what it names",
     "The make-json command writes, for the bundled transliterator of the name given, or with its regular-expression option for each whose name the expression matches from its start, a JSON file beside its YAML file that loads as what the YAML now demands and holds what dumping that gives, whatever the file held before, and tells of each. Other files stay as they are, also when nothing is matched (which it tells, successfully), and the JSON of one whose YAML is invalid or ambiguous stays as it is while the command fails. Without the option the name is no pattern.",
     ["configurations", "histories"],
     "every set of bundled transliterators, every name and expression, every state of the files",
     "The suite makes the JSON of the one example and looks at the exit status; which of several are chosen and what is in the files is not looked at.",
     ["cli.py", "transliterators/__init__.py", "transliterators/bundled.py"],
     [("command", "cli.py:make_json"), ("names", "transliterators/__init__.py:iter_names"), ("loading from YAML", "transliterators/bundled.py:Bundled.new, from_YAML")],
     ["files, output and exit status of the command"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
