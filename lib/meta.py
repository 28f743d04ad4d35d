# -*- coding: utf-8 -*-
"""Per-check budgets, required observations, and what counts as a non-trivial case."""
Q, H, T = 22, 36, 240  # H: checks whose cases are long
META = {
    "C01": dict(quick_s=Q, thorough_s=T, require=["positions", "matched", "no_match", "choices", "loaded"],
                rule="generated configurations and framed token sequences biased to satisfy rule contexts; distinct = shape of configuration, or of (matched rule, number of rules applicable, contact with a sequence boundary)"),
    "C02": dict(quick_s=Q, thorough_s=T, require=["positions", "matches", "loaded"],
                rule="as C01, small vocabularies; distinct = multiset of shapes of the rules applicable at a position, or of a configuration"),
    "C03": dict(quick_s=Q, thorough_s=T, require=["inputs", "tokens", "unrecognizable"],
                rule="generated vocabularies (prefix-heavy, metacharacters, Unicode, line breaks, wide) and strings of tokens and of shuffled characters; distinct = sequence of token lengths or of vocabulary lengths"),
    "C04": dict(quick_s=Q, thorough_s=T, require=["inputs", "runs_of_two_or_more", "consolidated_inputs", "unconsolidated_inputs"],
                rule="inputs of words and whitespace runs; distinct = (setting, pattern of whitespace/non-whitespace, which are the default)"),
    "C05": dict(quick_s=Q, thorough_s=T, require=["traces", "steps", "insertions", "multi_token_steps"],
                rule="transliterations checked against their reported trace; distinct = sequence of lengths of matched rules and presence of context"),
}
META.update({
    "C06": dict(quick_s=Q, thorough_s=T, require=["decisions", "insertions", "priority_decisions", "multi_class_insertions", "loaded"],
                rule="configurations with on-match rules and unique productions; distinct = (classes before, after, which rule, how many applied, contact with boundaries, length of matched rule)"),
    "C07": dict(quick_s=Q, thorough_s=T, require=["strict_unrecognizable", "strict_no_match", "strict_ok", "lenient_bad", "lenient_no_match", "mode_switches"],
                rule="inputs with injected errors in both modes; distinct = (mode, where the errors are)"),
    "C08": dict(quick_s=H, thorough_s=T, require=["transliterations", "failures", "details_checked", "histories", "compared_with_process"],
                rule="histories of 30 operations over 1-3 transliterators; distinct = sequence of (transliterator, operation)"),
    "C09": dict(quick_s=Q, thorough_s=T, require=["rules", "loaded", "configs"],
                rule="generated configurations; distinct = shape (tokens, rule part lengths, on-match rules)"),
    "C10": dict(quick_s=Q, thorough_s=T, require=["accepted", "refused", "overlap_windows", "accepted_with_overlaps", "best_matches", "accepted_in_other_order"],
                rule="configurations of short rules over few tokens, accepted by the check; every overlap of equally specific rules realised as sequences; distinct = (rule shapes, overlaps realised)"),
    "C11": dict(quick_s=Q, thorough_s=T, require=["refused", "accepted", "accepted_because_covered", "ambiguous_pairs", "checked_on_demand", "by_hand"],
                rule="configurations ambiguous, unambiguous and nearly so; distinct = shapes of the ambiguous pairs, or of the accepted rules"),
})
META.update({
    "C12": dict(quick_s=H, thorough_s=T, require=["roundtrips", "redumps", "pruned", "form_py0", "form_py1", "form_py2", "form_json0", "form_json1", "form_json2"],
                rule="generated transliterators (fresh and pruned), chains of 1-3 dump/load forms; distinct = (shape of configuration, error mode)"),
    "C13": dict(quick_s=H, thorough_s=T, require=["compactions", "drops"],
                rule="subsets of derivable entries removed from full dumps; distinct = (entries removed, how null parts are given, costs, form), or configuration shape"),
    "C14": dict(quick_s=H, thorough_s=T, require=["constructions", "refused", "lenient", "strict", "configs_ambiguous", "configs_unambiguous"],
                rule="routes x options x ambiguous or not; distinct = (route, ignore_errors, check_ambiguity, ambiguous, mode dumped)"),
    "C15": dict(quick_s=6, thorough_s=60, require=["loads", "later", "same", "earlier", "unnamed"],
                rule="dotted three-component versions near and far from the running one, at every level; distinct = version",
                assumptions=["versions have as many components as the running version's"]),
    "C16": dict(quick_s=Q, thorough_s=T, require=["rules", "onmatch_rules", "rules_with_all_parts"],
                rule="rules written in the documented notation by an independent writer; distinct = number of items in each part",
                assumptions=["tokens contain no blank (except the rule of a blank alone), parentheses or angle brackets; class names no white space, plus sign, parentheses or angle brackets"]),
    "C17": dict(quick_s=Q, thorough_s=T, require=["routes", "named_characters", "names_with_digits"],
                rule="configurations given by four routes, and YAML with characters escaped by name; distinct = shape of configuration, or character name"),
})
META.update({
    "C18": dict(quick_s=Q, thorough_s=T, require=["accepted", "refused", "fault_undefined_token", "fault_undefined_class", "fault_missing", "fault_empty", "route_from_yaml", "easyfault_onmatch_ref"],
                rule="one fault injected at any place of a generated valid configuration; distinct = (kind of fault, part of the settings, index of the rule, size)",
                assumptions=["settings are dictionaries of the documented shape apart from the fault injected"]),
})
META.update({
    "C19": dict(quick_s=Q, thorough_s=T, require=["prunings", "as_str", "as_list", "rules_removed", "rules_kept", "empty_production_requested", "substring_of_kept", "loaded"],
                rule="configurations with few, nested and empty productions; chains of 1-3 prunings by present, absent and partial productions; distinct = (shape, step, removed, kept, str or list)"),
    "C20": dict(quick_s=Q, thorough_s=T, require=["fresh", "pruned", "loaded_py0", "loaded_py1", "loaded_py2", "loaded_json0", "loaded_json1", "loaded_json2", "own_costs", "matched_by_own_costs", "nodes_with_rules_and_branches"],
                rule="graphs fresh, loaded at every level, pruned, and after use; distinct = shape of configuration, or set of token paths"),
})
META.update({
    "C21": dict(quick_s=Q, thorough_s=T, require=["verdicts", "complete", "complete_with_onmatch", "only_onmatch_missing", "one_rule_missing", "not_exercising", "histories"],
                rule="histories of transliterations, matches, clearings and operations that exercise nothing; distinct = (rules, rules exercised, on-match rules, tried, verdict)"),
})
META.update({
    "C22": dict(quick_s=Q, thorough_s=T, require=["comparisons", "records_compared", "incomplete_records", "bundled", "configs"],
                rule="ordinary and coverage-measuring transliterators of one configuration under interleaved operations, two of the latter made from the same parts; distinct = shape of configuration",
                assumptions=["null and an empty list of on-match rules are the same setting"]),
})
META.update({
    "C23": dict(quick_s=H, thorough_s=T, require=["bundled", "inputs", "errors", "outputs", "own_tests", "added", "tests_passed", "tests_failed", "duplicates_refused"],
                rule="inputs to every shipped transliterator and to packages of the documented layout generated in a scratch directory; distinct = (transliterator, token lengths of the input)"),
})
META.update({
    "C24": dict(quick_s=H, thorough_s=T, require=["command_transliterate", "command_dump", "command_generate-tests", "command_test", "command_dump-tests", "command_list-bundled", "several_inputs",
                                                  "failures", "successes", "broken_sources", "test_verdicts", "make_json", "processes", "ambiguous", "unambiguous"],
                rule="invocations in process and as processes compared with the corresponding library calls; distinct = (command, source, format, number of inputs, options, ambiguous, success)"),
})
META.update({
    "C25": dict(quick_s=12, min_cases=1, thorough_s=T, require=["configs", "same_process", "other_process", "processes", "twice"],
                rule="batches of 12 configurations dumped in this and in other processes (PyPy, and CPython with random hash seeds), classes shuffled, after other operations; distinct = shape of configuration",
                assumptions=["texts are compared between processes of the same interpreter"]),
})
META.update({
    "C26": dict(quick_s=H, thorough_s=T, require=["arguments_checked", "siblings_checked", "remade", "pruned", "toggles", "results_scribbled", "coverage"],
                rule="histories of operations on transliterators made from the same settings, dumps and by pruning, every argument compared with a snapshot; distinct = (shape, operations)"),
})
META.update({
    "C27": dict(quick_s=H, thorough_s=T, require=["generated", "tests", "rules_with_classes", "onmatch_rules", "loaded", "bundled"],
                rule="tests generated for generated configurations and what is bundled; distinct = lengths of the parts of a rule or on-match rule"),
})
META.update({
    "C28": dict(quick_s=H, thorough_s=T, min_cases=4, require=["calls", "configs", "linear_checks", "families", "degenerate", "refused", "ambiguity_checks", "hostile_rule", "hostile_onmatch"],
                rule="executed source lines of each call against a bound computed from settings and input, at lengths n, 2n and 4n, over generated, degenerate and growing settings; distinct = shapes, (unit, repetitions, mode), hostile keys",
                assumptions=["a step is an executed source line of the library; matching of regular expressions is bounded by CPU time of a process of its own"]),
})
META.update({
    "C29": dict(quick_s=Q, thorough_s=T, require=["states_checked", "nodes_added", "edges_added", "edges_again", "loops", "refused_node_data", "refused_edge_data", "refused_keys", "initialized", "graphs_of_transliterators"],
                rule="histories of valid and invalid additions to one or two graphs, the whole state compared with a model after each; distinct = sequences of operations"),
})
META.update({
    "C30": dict(quick_s=H, thorough_s=T, min_cases=2, require=["interleavings", "switches", "single_preemptions", "several_preemptions", "by_priority", "at_random", "shared", "separate", "outputs", "errors", "free_running_calls", "settings_calls"],
                rule="interleavings of two to four calls at source lines under a scheduler, results compared with those of a twin called alone; distinct = distinct interleavings (sequence of switches with thread and line) and shapes",
                assumptions=["threads switch between source lines of the library, and in free-running stress where the interpreter does"]),
})
META.update({
    "C31": dict(quick_s=Q, thorough_s=T, require=["comparisons", "outputs", "errors", "several_rules_matched", "change order", "change classes renamed", "change tokens renamed", "change class spelled out",
                                                  "change on match class spelled out", "change unreached added"],
                rule="configurations and up to three equivalent ones each, by one to four changes of listing order, names, spelling out or unreached additions; distinct = shape of configuration, or (changes, sizes)",
                assumptions=["inputs at which equally specific rules compete are left out"]),
    "C32": dict(quick_s=H, min_cases=3, thorough_s=T, require=["calls", "process_compared", "steps_compared", "call transliterate", "call construct", "call dumps", "call prune", "call coverage"],
                rule="one kind of call with ever different arguments, three times 60 to 9000 times; distinct = (kind of call, shape of configuration, error mode, measuring or not)",
                assumptions=["what is kept is found through attributes, containers, closures and defaults of the library's own modules, classes and transliterators"]),
})
META.update({
    "C33": dict(quick_s=Q, thorough_s=T, require=["parts", "graphs", "several", "alike", "transliterators", "faults", "refused"],
                rule="parts of generated configurations sent through each exported schema by several ways, and faulty ones; distinct = shape of part or configuration"),
})
META.update({
    "C34": dict(quick_s=Q, thorough_s=T, require=["described", "positions", "decompressed", "remade", "levels_refused", "followed", "made_pruned", "made_for_coverage", "made_of_parts"],
                rule="transliterators made in nine ways, dumped at every level as data and text; distinct = shape of configuration"),
})
META.update({
    "C35": dict(quick_s=Q, thorough_s=T, require=["graphs", "checks", "complete", "all_but_one", "collections"],
                rule="sequences of reads, clearings and checks on graphs of any shape and on lists and dictionaries; distinct = shape of graph and what was missed, or sequence of operations"),
})
META.update({
    "C36": dict(quick_s=Q, thorough_s=T, require=["accepted", "parts_left_out", "refused", "refused_version", "beside_compressed", "fault_wrong", "fault_missing", "fault_unknown", "fault_empty", "fault_lookup_only"],
                rule="dumped data with one part of the wrong type, missing, empty or unknown, at any place and by any route; distinct = place, its position and the value there"),
})
META.update({
    "C37": dict(quick_s=Q, thorough_s=T, require=["judged", "passed", "failed", "errors", "files", "coverage_complete", "coverage_incomplete", "metadata_accepted", "metadata_refused"],
                rule="tests of bundles with none, one, several or all expectations wrong, as mapping or file; metadata with one fault; distinct = number of tests, of wrong and failing ones and first inputs, or parts of the metadata and fault"),
})
META.update({
    "C38": dict(quick_s=Q, thorough_s=T, require=["copies", "independent", "coverage", "parts", "errors_copied", "other_process", "deepcopy", "copy", "pickle_2", "pickle_default", "made_pruned", "made_for_coverage"],
                rule="transliterators made in nine ways, used or not, copied in six ways, and copies of copies; distinct = way, how made, whether used, shape of the configuration"),
})
META.update({
    "C39": dict(quick_s=Q, thorough_s=T, require=["called_again", "cut_short", "exhausted", "new_ones", "histories", "during transliterate", "during tokenize", "during match_at", "during dump", "during pruned_of", "during from_dict", "during loads", "during coverage"],
                rule="calls of nineteen kinds, each cut short before every line of the library it executes or before lines picked at random; distinct = kind, line and type of the transliterator"),
    "C40": dict(quick_s=Q, thorough_s=T, require=["commands", "regex", "by_name", "none_chosen", "failing", "made"],
                rule="make-json run by name and by regular expression over two to seven bundled transliterators of generated settings in a copy of the package; distinct = names and numbers chosen, or shape of the configuration"),
})
