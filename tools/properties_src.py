prop('P01', 'Label eligibility follows longest-match partition with context rules',
 "A label is reported as in the repertoire exactly when scanning it left to right, taking at each position the longest repertoire entry that spells the label there and whose when/not-when context rule is satisfied at that position, consumes the whole label. Otherwise it is rejected as invalid, and the accepted and rejected parts together list every code point of the label, each rejected code point carrying either no rule (unknown) or the rules that excluded it.",
 ["inputs", "configurations"], "for every repertoire (code points, sequences, ranges, context rules), every rule outcome and every label",
 "Tests use a handful of fixed LGRs and labels; overlapping sequences combined with context rules and arbitrary labels form an unbounded product they only sample.",
 ["lgr/core.py", "lgr/char.py"],
 [("preliminary eligibility test", "lgr/core.py LGR._test_preliminary_eligibility"), ("public eligibility test", "lgr/core.py LGR.test_label_eligible"), ("prefix lookup", "lgr/char.py Repertoire.get_chars_from_prefix, CharBase.is_prefix_of")],
 observe=["LGR.test_label_eligible"])
prop('P02', 'A label gets the disposition of the first action it triggers',
 "The disposition of a label or variant label, and the reported action index, are those of the first action in document order (the LGR's actions followed by the five default actions) whose rule condition (match / not-match) and whose variant-type condition (any, all or only variants) both hold. For an original label the variant types considered are those of its applicable reflexive variants, and the label is ineligible exactly when the resulting disposition is invalid.",
 ["inputs", "configurations"], "for every list of actions, every set of variant types, every rule outcome and every label",
 "Tests fix a few action lists; the interaction of attribute combinations, ordering and empty type sets is combinatorial.",
 ["lgr/action.py", "lgr/core.py"],
 [("action trigger", "lgr/action.py Action.apply"), ("ordered application", "lgr/core.py LGR._apply_actions, DEFAULT_ACTIONS, LGR.effective_actions"), ("reflexive variants", "lgr/core.py LGR._test_label_disposition")],
 observe=["LGR.test_label_eligible", "LGR.compute_label_disposition"])
prop('P03', 'Variant generation yields exactly the permitted permutations',
 "For an eligible label, generation returns each permutation obtained by replacing the repertoire entries of the label with their context-valid variants once, with the set of variant types used and the disposition these imply, drops the invalid ones unless asked to keep them, and returns the original label last and only once. The summary of the dispositions counts exactly the labels returned with each. Labels longer than 63 code points are refused.",
 ["inputs", "configurations"], "for every repertoire with variants (reflexive, typed, context-dependent, sequences) and every eligible label",
 "Existing tests check specific LGR files; the property ranges over all variant graphs and labels.",
 ["lgr/core.py", "lgr/char.py"],
 [("permutation recursion", "lgr/core.py LGR._generate_label_variants, LGR._get_prefix_list"), ("disposition of each variant", "lgr/core.py LGR.compute_label_disposition")],
 observe=["LGR.compute_label_disposition"])
prop('P04', 'Variant labels and only they share an index label',
 "The index label is the lowest, in code point order, of the labels obtained by partitioning the label into context-valid repertoire entries and replacing each by the smallest of itself and its context-valid variants. In a symmetric and transitive LGR of single code points without context rules two labels have the same index label exactly when one is a variant of the other.",
 ["inputs", "configurations"], "for every LGR, every label and every pair of labels",
 "Collision detection relies on this for all labels; tests compare a few hand-computed index labels.",
 ["lgr/core.py"],
 [("index label", "lgr/core.py LGR.generate_index_label, LGR._generate_index_label_on_partition"), ("partitions", "lgr/core.py LGR._generate_label_partitions")],
 observe=["LGR.generate_index_label"])
prop('P05', 'The variant count estimate never understates the real number',
 "The estimated number of variants of a label is never lower than the number of distinct labels (original included) that variant generation returns for it, with or without hiding mixed-script variants. For a label whose entries and variants are single code points without context rules, with nothing hidden, the two are equal.",
 ["inputs", "configurations"], "for every variant graph over single code points, every script assignment and every label",
 "Callers use the estimate to decide whether generation is affordable; tests check a few labels.",
 ["lgr/core.py", "lgr/mixed_scripts_variant_filter.py"],
 [("estimate", "lgr/core.py LGR.estimate_variant_number")], observe=["LGR.estimate_variant_number", "LGR.compute_label_disposition"])
prop('P06', 'Hiding mixed-script variants removes exactly the mixed-script ones',
 "With mixed-script variants hidden, every returned variant label is also returned without hiding, with the same disposition, and all its code points are in scripts permitted with the scripts of the original label or in one single other script (with the scripts permitted alongside it). No variant label whose variant code points are all in scripts permitted with the label's own scripts is hidden, nor is one made of variants that are all in one single other script (or all in the same other scripts, permitted together). Common and Inherited are no scripts of their own.",
 ["inputs", "configurations"], "for every variant graph, script assignment and label",
 "The filter depends on every combination of scripts across positions; tests fix a few script layouts.",
 ["lgr/mixed_scripts_variant_filter.py", "lgr/core.py"],
 [("script filter", "lgr/mixed_scripts_variant_filter.py MixedScriptsVariantFilter"), ("use during generation", "lgr/core.py LGR._generate_label_variants")],
 observe=["LGR.compute_label_disposition(hide_mixed_script_variants=True)"])
prop('P07', 'Whole-label rules match exactly the labels their definition denotes',
 "A rule matches a label exactly when the label contains a stretch denoted by the rule's elements: literals, classes, any, choices, start, end, counts (n, n+, n:m), nested and referenced rules, look-behind and look-ahead. A context rule with an anchor matches only at the position of the code point being evaluated, whatever code points (supplementary ones included) precede it.",
 ["inputs", "configurations"], "for every rule built from the supported elements, every label and every anchor position",
 "Tests compile a few rules against ICU; semantics for all labels, counts and nesting cannot be sampled.",
 ["lgr/rule.py", "lgr/matcher.py", "lgr/classes.py"],
 [("pattern generation", "lgr/matcher.py get_pattern of each matcher"), ("match evaluation", "lgr/rule.py Rule.matches")], observe=["Rule.matches"])
prop('P08', 'Character classes denote the set their definition says',
 "For every code point, membership in a union, intersection, difference, symmetric difference or complement of classes is the corresponding set operation on membership in the operands, and a class by reference, tag, Unicode property or explicit list contains exactly the code points it refers to. Evaluating a class never changes the operands or later evaluations.",
 ["inputs", "configurations"], "for every class expression and every code point",
 "Tests check a few concrete sets.",
 ["lgr/classes.py"],
 [("set operations", "lgr/classes.py *.get_pattern")], observe=["Class.get_pattern(as_set=True)"])
prop('P09', 'Rule evaluation always reflects the current LGR',
 "After any sequence of edits (code points and tags added or removed, ranges added or deleted, tags deleted, rules and classes added or replaced), evaluating a rule gives the same answer as evaluating it in an LGR freshly built in the final state. Earlier evaluations and copies have no influence.",
 ["histories", "inputs"], "for every interleaving of edits and evaluations",
 "Tests build an LGR once and evaluate; stale cached state only shows on edit-after-evaluate histories.",
 ["lgr/rule.py", "lgr/core.py", "lgr/classes.py"],
 [("pattern cache", "lgr/rule.py Rule.get_pattern"), ("tag classes", "lgr/core.py LGR._add_cp_to_tag_classes, LGR._del_cp_from_tag_classes")],
 state=[("cached patterns", "regex text per rule", "lgr/rule.py Rule._pattern_cache")], observe=["Rule.matches", "Class.get_pattern"])
prop('P10', 'The repertoire behaves as a map of code points, sequences and ranges',
 "After any sequence of successful or failed additions and deletions of code points, sequences and ranges, membership, lookup, count and iteration agree with the set of entries that were added and not deleted: each entry exactly once (a range once), in ascending order of their code points. Deleting a code point of a range leaves the rest of the range in place. Prefix lookup returns exactly the entries starting with a code point, longest first. Adding a list of code points adds its maximal runs of consecutive code points as ranges and its other code points alone. The variants of an entry are found by their code points.",
 ["histories", "inputs"], "for every history of additions, deletions and expansions over all code points",
 "Tests use short fixed histories; overlap conditions depend on all orderings of range bounds.",
 ["lgr/char.py", "lgr/core.py"],
 [("indexed store", "lgr/char.py Repertoire"), ("edit API", "lgr/core.py LGR.add_cp, LGR.add_range, LGR.del_cp, LGR.del_range, LGR.expand_range")],
 state=[("char index", "first code point to entries", "lgr/char.py Repertoire._chardict"), ("ranges", "range bounds", "lgr/char.py Repertoire.ranges")], observe=["Repertoire.__iter__", "Repertoire.__contains__", "Repertoire.get_char", "Repertoire.get_chars_from_prefix"])
prop('P11', 'An edit either succeeds or leaves the LGR unchanged',
 "When adding or deleting a code point, sequence, range or variant raises an error, the repertoire, its variants, ranges, tags, tag classes and variant types are exactly as before the call. An addition is refused when the entry already exists, is not IDNA-valid, is outside the validating repertoire (unless overridden), uses undefined or repeated references, repeated tags, tags on a sequence, or both when and not-when.",
 ["inputs", "histories"], "for every LGR state and every edit with any combination of arguments",
 "Tests check that errors are raised, rarely that state is intact, and only for sample arguments.",
 ["lgr/core.py", "lgr/char.py"],
 [("argument checks before mutation", "lgr/core.py LGR.add_cp, LGR.add_range, LGR.add_variant, LGR.check_range"), ("overlap check", "lgr/char.py Repertoire._check_range_overlap")], observe=["LGR.add_*", "LGR.del_*"])
prop('P12', 'Tag classes hold exactly the code points carrying the tag',
 "After any sequence of edits, the class of a tag contains exactly the code points of the repertoire entries that carry the tag (none when no entry does), and deleting a tag removes it from every entry and removes its class.",
 ["histories", "inputs"], "for every history of additions and deletions with tags",
 "Tests check add then delete of one tagged code point.",
 ["lgr/core.py", "lgr/classes.py", "lgr/char.py"],
 [("tag class maintenance", "lgr/core.py LGR._add_cp_to_tag_classes, LGR._del_cp_from_tag_classes, LGR.del_tag")], observe=["LGR.get_tag_classes", "LGR.all_tags"])
prop('P13', 'References: unique ids, and deletion removes every use',
 "Every defined reference has an id (of digits, upper case letters and -_.:) no other reference has, whether the id was chosen or generated, and no repertoire entry or variant cites an undefined reference unless forced. Updating a reference changes the fields given and nothing else. Deleting a defined reference removes it and every citation of it by repertoire entries and variants, and nothing else; deleting an undefined one is refused and changes nothing.",
 ["histories", "inputs"], "for every history of reference additions (explicit and generated ids), citations and deletions",
 "Tests cover a few orders of explicit and generated ids.",
 ["lgr/metadata.py", "lgr/core.py", "lgr/char.py"],
 [("reference manager", "lgr/metadata.py ReferenceManager"), ("cascade delete", "lgr/core.py LGR.del_reference, lgr/char.py Repertoire.del_reference")], observe=["LGR.add_reference", "LGR.del_reference"])
prop('P14', 'Variant sets are the classes of connected code points',
 "The reported variant sets list, in order, for a symmetric variant relation, every group of two or more repertoire entries connected through variants exactly once, each sorted, and nothing else; a variant outside the repertoire joins the set of its entry only when asked for.",
 ["inputs", "configurations"], "for every variant graph",
 "Tests check three small graphs.",
 ["lgr/char.py"], [("graph traversal", "lgr/char.py Repertoire.get_variant_sets")], observe=["Repertoire.get_variant_sets"])
prop('P15', 'Symmetry and transitivity checks are exact',
 "The symmetry check succeeds exactly when every variant of every entry is itself an entry having the first as variant (and, unless rules are ignored, having it with the same when or not-when rule if the variant has one), the transitivity check exactly when every variant is an entry and every variant of a variant, other than the first entry, is a variant of the first entry, and the reports list exactly the offending pairs. The check of conditional variants reports exactly the variants whose rule does not exist. None of them changes the LGR.",
 ["inputs", "configurations"], "for every variant graph with any context rules",
 "Tests check a few good and bad graphs.",
 ["lgr/validate/symmetry.py", "lgr/validate/transitivity.py", "lgr/validate/conditional_variants.py"],
 [("symmetry", "lgr/validate/symmetry.py check_symmetry"), ("transitivity", "lgr/validate/transitivity.py check_transitivity"), ("conditional variants", "lgr/validate/conditional_variants.py check_conditional_variants")], observe=["check_symmetry", "check_transitivity"])
prop('P16', 'Statistics equal their definitions',
 "The statistics of an LGR (numbers of code points, ranges, sequences, code points with variants, variant mappings, mappings by type, code points by tag, rules; largest range, sequence and variant set) equal the counts over its repertoire taken directly from their definitions.",
 ["inputs", "configurations"], "for every repertoire", "Tests check one LGR.",
 ["lgr/validate/lgr_stats.py"], [("counting", "lgr/validate/lgr_stats.py generate_stats")], observe=["generate_stats"])
prop('P17', 'RFC 7940 compliance results: failures stick, policy is respected',
 "Whatever the order and number of notifications, a test case that failed once stays failed; the final result is FAIL, WARN or PASS exactly as the policy defines from executed and failed test cases. Validating an LGR runs the compliance checks exactly when asked, executes all of their test cases then, and the outcome does not depend on earlier validations. The test cases on data and rules fail exactly when the LGR has the defect they name: a variant type that is empty, contains a space or starts with an underscore; references of a code point, range or variant that are all integers but not ascending; a disposition that is not a standard one; and, if the LGR is for the Unicode version of the database, a code point of an entry, range or variant that is not IDNA-valid.",
 ["histories", "configurations"], "for every sequence of notifications, every policy and every sequence of validations",
 "Tests use one policy and never validate twice with different options in a controlled order.",
 ["lgr/rfc7940.py", "lgr/validate/__init__.py", "lgr/validate/miscellaneous.py"],
 [("result aggregation", "lgr/rfc7940.py LGRFormatTestResults"), ("check list", "lgr/validate/__init__.py validate_lgr")], observe=["LGR.get_rfc7940_validation", "LGR.validate"])
prop('P18', 'Metadata accepts exactly well-formed values',
 "Dates are accepted exactly when they are calendar dates written YYYY-MM-DD, Unicode versions exactly when written major.minor.update in decimal digits, language tags exactly when the tag registry knows them, and version, validity, scope and description checks report exactly the violations of their definition. A rejected value raises an error and is not stored unless forced, and a stored value reads back unchanged.",
 ["inputs"], "for every string up to the bound", "Tests check a few good and bad strings.",
 ["lgr/metadata.py", "lgr/validate/metadata.py"],
 [("setters", "lgr/metadata.py Metadata"), ("checks", "lgr/validate/metadata.py check_metadata")], observe=["Metadata setters", "check_metadata"])
prop('P19', 'Populating variants completes the relation and keeps what was there',
 "Populating an LGR terminates, leaves a symmetric and transitive variant relation, keeps every existing entry and every existing variant with its type and comment, adds only mappings required by symmetry or transitivity with type blocked, and does nothing the second time.",
 ["inputs", "configurations"], "for every variant graph, missing targets and context rules included", "Tests check a few graphs.",
 ["lgr/populate/__init__.py"], [("fixpoint", "lgr/populate/__init__.py populate_lgr")], observe=["LGR.populate_variants"])
prop('P20', 'Harmonized LGRs agree on their common code points',
 "Harmonizing two symmetric and transitive LGRs keeps the entries and variants each of them had, makes both results symmetric and transitive, and makes any two different code points present in both results that are variants of each other in one variants in the other. It adds no other entries than variants the other LGR (or the reference LGR, if given) has for a common code point, gives each entry it adds a reflexive mapping of type out-of-repertoire, and without a reference LGR the code points listed for review are exactly the ones of each LGR the other does not have. The inputs are left alone unless they are to be updated.",
 ["inputs", "configurations"], "for every pair of variant graphs", "Tests check a few pairs.",
 ["lgr/tools/harmonize.py", "lgr/populate/__init__.py"], [("harmonization", "lgr/tools/harmonize.py harmonize")], observe=["harmonize"])
prop('P21', 'Union holds everything both LGRs hold, intersection what they share',
 "The union of two LGRs contains an entry or variant exactly when at least one of them does, and the intersection exactly when both do, whichever order the operands are given in. Context rules of entries and types of variants that both operands agree on, or that only one of them has, are kept (where context rules of an entry differ, both are), and so are tags, actions (in order), rules, classes, references, languages and scopes, as union or intersection of what the operands have. Comments of operands that differ are both kept, equal ones once, and the Unicode version is the latest. The operands keep their content (only their ranges are expanded).",
 ["inputs", "configurations"], "for every pair of LGRs", "Tests compare two fixed files.",
 ["lgr/tools/compare/union.py", "lgr/tools/compare/intersect.py", "lgr/tools/compare/utils.py"],
 [("union", "lgr/tools/compare/union.py union_lgrs"), ("intersection", "lgr/tools/compare/intersect.py intersect_lgrs")], observe=["union_lgrs", "intersect_lgrs"])
prop('P22', 'Merging a set keeps all content and yields a consistent relation',
 "Merging a set of LGRs, each symmetric and transitive, is refused when a code point is under different rules in two of them, and otherwise contains exactly the code points and sequences of its members, every variant of its members, and otherwise only blocked variants required by symmetry and transitivity across the set; the merged relation is symmetric and transitive, and context rules, actions, classes and references stay attributable to the member they came from. The metadata of the merged set name every member's, its validity is the time all members are valid, its Unicode version the latest.",
 ["inputs", "configurations"], "for every set of LGRs", "Tests merge a few fixed files.",
 ["lgr/tools/merge_set.py"], [("merge", "lgr/tools/merge_set.py merge_lgr_set")], observe=["merge_lgr_set"])
prop('P23', 'Collision reports are exactly the pairs sharing an index label',
 "Labels of a list are reported as colliding exactly when they have the same index label, each group once and with all of its members; annotation gives every label its own disposition; and the difference report between two LGRs lists a label exactly when its dispositions or collisions differ.",
 ["inputs", "configurations"], "for every list of labels and every assignment of index labels and dispositions", "Tests check fixed lists.",
 ["lgr/tools/diff_collisions.py", "lgr/tools/annotate.py"], [("collisions", "lgr/tools/diff_collisions.py get_collisions, find_collisions"), ("annotation", "lgr/tools/annotate.py annotate")], observe=["get_collisions", "annotate"])
prop('P24', 'Comparing LGRs reports a difference exactly when they differ',
 "The comparison of two LGRs' code points reports each entry present in only one of them and each difference in comment, tags, context rules or variants of an entry present in both, and reports identical LGRs as equal. The same holds for metadata, references, and the names of classes, rules and action dispositions. Comparing two sets of LGRs names every script only one of them has, and compares every two LGRs of the sets with the same script.",
 ["inputs", "configurations"], "for every pair of LGRs", "Tests compare fixed files.",
 ["lgr/tools/compare/diff.py"], [("diff", "lgr/tools/compare/diff.py diff_lgrs")], observe=["diff_lgrs"])
prop('P25', 'Writing an LGR to XML and reading it back preserves it',
 "Parsing the XML written for an LGR gives an LGR with the same entries, ranges, variants, types, context rules, tags, comments, references, classes, rules, actions and metadata, in ascending order. Reading a document gives what it says: each entry, class, rule and action has the denotation the document gives it, optional parts may be missing, repeated entries are reported (and refused unless forced) without affecting the others, and the ordering checks report exactly the entries out of order.",
 ["inputs", "configurations"], "for every LGR", "Tests round-trip fixed files.",
 ["lgr/parser/xml_parser.py", "lgr/parser/xml_serializer.py"], [("parser", "lgr/parser/xml_parser.py XMLParser"), ("serializer", "lgr/parser/xml_serializer.py serialize_lgr_xml")], observe=["XMLParser.parse_document", "serialize_lgr_xml"])
prop('P26', 'Text table parsers load every good line and only good lines',
 "Parsing an RFC 3743, RFC 4290 or one-code-point-per-line table adds, for each well-formed line, exactly the code point or sequence it states with its references and (preferred or other) variants, whatever the letter case, white space, trailing comment or line ending used. Lines that do not start with a code point, comments and blank lines add nothing; a line with an invalid code point, a repeated entry or an invalid variant is reported as an error without affecting any other line and without stopping the parsing. The heuristic parser recognises RFC 3743 and RFC 4290 tables by their separators and reads them the same way.",
 ["inputs", "histories"], "for every sequence of lines up to the bound", "Tests parse fixed files.",
 ["lgr/parser/rfc3743_parser.py", "lgr/parser/rfc4290_parser.py", "lgr/parser/line_parser.py", "lgr/parser/heuristic_parser.py"], [("line loops", "lgr/parser/*_parser.py"), ("recognition", "lgr/parser/heuristic_parser.py HeuristicParser._check_rfc_format")], observe=["RFC3743Parser.parse_document", "RFC4290Parser.parse_document", "LineParser.parse_document", "HeuristicParser.parse_document"])
prop('P27', 'Formatting, collapsing and reading code points lose nothing',
 "Collapsing a list of code points gives the ordered, disjoint, maximal ranges covering exactly those code points; formatting a code point or sequence and reading it back gives the same code points, and different inputs never format alike. Reading a label or a list of labels gives exactly the code points written, in order, A-labels in whatever case, and refuses what is not a label (with spaces that do not separate code points, unless these are asked to be kept).",
 ["inputs"], "for every list of code points up to the bound", "Tests use fixed lists.",
 ["lgr/utils.py", "lgr/tools/utils.py"], [("collapse", "lgr/utils.py collapse_codepoints"), ("format", "lgr/utils.py format_cp, cp_to_str, cp_to_ulabel")], observe=["collapse_codepoints", "format_cp", "parse_label_input"])
prop('P28', 'IDN table review reports what the tables actually differ in',
 "A review of an IDN table against a reference LGR reports every entry, variant, explicit class, rule and action of either that concerns the table. Entries only in the reference are a subset, entries only in the table are to be checked, tags and context rules missing from the table are to be reviewed and additional ones are a note. Only identical variants match, in each direction; types that are less conservative, unknown types and additional conditions are to be reviewed, missing or different conditions are to be checked, more conservative types are a note. Rules match only if their content and the code points under them are the same, wherever these code points are (single or in ranges); actions match when equal. Code points the reference does not have and that no variant concerns are listed. Every language tag of the table is compared with every one of the reference: equal language and script, an equal language, or a script the language is always written in match, unknown tags are to be checked, others to be reviewed. An LGR compared with itself matches everywhere, and the overall result of every part is its most severe result. The review leaves both LGRs unchanged.",
 ["inputs", "configurations"], "for every pair of table and reference", "Tests review fixed tables.",
 ["lgr/tools/idn_review/repertoire.py", "lgr/tools/idn_review/variant_sets.py", "lgr/tools/idn_review/classes.py", "lgr/tools/idn_review/actions.py", "lgr/tools/idn_review/whole_label_evaluation_rules.py"],
 [("reports", "lgr/tools/idn_review/*.py")], observe=["review_lgr"])
prop('P29', 'Rebuilding an LGR reports exactly the entries that would be refused',
 "Rebuilding an LGR against a Unicode version and validating repertoire reports an error for exactly the entries that are not IDNA-valid or lie outside the validating repertoire and the variants for which they or their entry are not IDNA-valid, a script warning for exactly the code points outside the LGR's scripts, and leaves the LGR itself unchanged; without a Unicode database these checks are skipped. The IDNA 2008 compliance report lists exactly the entries that are not IDNA-valid and not marked as being out of the repertoire, and its totals agree.",
 ["inputs", "configurations"], "for every LGR, IDNA property assignment, script assignment and validating repertoire", "Tests rebuild fixed files.",
 ["lgr/validate/rebuild_lgr.py", "lgr/core.py", "lgr/tools/idna2008_compliance.py"], [("rebuild", "lgr/validate/rebuild_lgr.py rebuild_lgr")], observe=["rebuild_lgr"])
prop('P31', 'Definitions are accepted exactly when well formed',
 "A rule or class is accepted exactly when every rule or class it refers to, at any depth, is defined already, it has a name exactly because it is defined on its own (nested ones and references have none), and every combination of classes has the number of operands its operation takes (complement one, union two or more, others two). A definition that is refused raises an LGR error and changes nothing; one that is accepted, or forced, is found by its name, and other definitions stay as they were. References with content or a name, and actions with both match and not-match, cannot be made.",
 ["inputs", "histories"], "for every history of definitions and every shape and name of a definition up to the bound", "Tests define a few rules and classes.",
 ["lgr/core.py", "lgr/rule.py", "lgr/classes.py", "lgr/matcher.py", "lgr/action.py"], [("definitions", "lgr/core.py LGR.add_rule, LGR.add_class"), ("well-formedness", "lgr/rule.py Rule.validate, lgr/classes.py Class.validate, lgr/matcher.py")], observe=["LGR.add_rule", "LGR.add_class", "LGR.rules_lookup", "LGR.classes_lookup"])
prop('P32', 'Copies and results are independent, and reading changes nothing',
 "A copy of an LGR has the same content. Copying, union, intersection and harmonization leave the content of their operands as it was, and a later edit of an operand or of the result (entries, variants, ranges, tags, references, rules, classes, actions or metadata) never shows in the others. Checking, comparing, reviewing, writing or counting an LGR, and testing labels or generating variants or index labels with it, leaves it as it was.",
 ["inputs", "histories"], "for every LGR, operation and following edit up to the bound", "Tests look at results, not at what else changed.",
 ["lgr/core.py", "lgr/char.py", "lgr/tools/compare/union.py", "lgr/tools/compare/intersect.py", "lgr/tools/harmonize.py", "lgr/validate/__init__.py"],
 [("copies", "lgr/core.py LGR.__getstate__, LGR.__setstate__"), ("union, intersection", "lgr/tools/compare/*.py"), ("harmonization", "lgr/tools/harmonize.py harmonize")], observe=["copy.deepcopy(LGR)", "union_lgrs", "intersect_lgrs", "harmonize"])
prop('P33', 'Scripts of labels, code points and LGRs',
 "The script of a label is that of its first character that is neither Common nor Inherited: Hiragana, Katakana and Han together with one of them are Japanese, Hangul is Korean; a label of Common or Inherited characters only is Japanese if U+3006 or U+30FC is among them. A code point or sequence is in the scripts of an LGR exactly when each of its code points is Common, Inherited, or in a script one of the LGR's valid languages is written in, and its scripts are those of its code points; without scripts to look up everything is. A language tag gives its language and its script.",
 ["inputs"], "for every label and every assignment of scripts to characters", "Tests check a few labels.",
 ["lgr/tools/utils.py", "lgr/utils.py", "lgr/metadata.py", "lgr/core.py"], [("label script", "lgr/tools/utils.py get_rz_label_script"), ("scripts of an LGR", "lgr/metadata.py Metadata.get_scripts, lgr/utils.py script_iso15924_to_unicode"), ("code points", "lgr/core.py LGR.cp_in_script")], observe=["get_rz_label_script", "LGR.cp_in_script", "Metadata.get_scripts", "tag_to_language_script"])
prop('P30', 'XML output is schema-valid',
 "Every XML document written for an LGR validates against the RFC 7940 RELAX NG schema.",
 ["inputs", "configurations"], "for every LGR", "Tests validate fixed files.",
 ["lgr/validate/xml_validity.py", "lgr/parser/xml_serializer.py", "lgr/parser/xml_parser.py"], [("validation", "lgr/parser/xml_parser.py XMLParser.validate_document")], observe=["serialize_lgr_xml"])
