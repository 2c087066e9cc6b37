#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit statements)."""
import json, os
P = []

def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [],
                          hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'A label is in the repertoire exactly when its segmentation covers it',
  'For any LGR and label, reading the label from left to right and taking at each position the longest repertoire '
  'entry (code point, range member or sequence) that occurs there and whose context rule (when must match, not-when '
  'must not match, evaluated on the whole label at that position) is satisfied, the label passes if and only if every '
  'code point is covered by an entry taken. The valid code points reported are those covered, in order, and the '
  'invalid parts reported are exactly the positions not covered, each flagged as either outside the repertoire or as '
  'refused by the named context rules. The other forms of the same question (with or without collecting the matched '
  'entries) give the same answer.',
  ['inputs', 'programs'], 'every LGR (repertoire with sequences, ranges, context rules) and every label',
  'Tests use a few hand-written repertoires; overlap of sequences, ranges and context rules at the same position is '
  'a product space they sample at about ten points.',
  ['lgr/core.py', 'lgr/char.py'],
  [('preliminary eligibility', 'lgr/core.py LGR._test_preliminary_eligibility'),
   ('context rule test', 'lgr/core.py LGR._test_context_rules'),
   ('prefix lookup', 'lgr/char.py Repertoire.get_chars_from_prefix')],
  ['LGR.test_label_eligible', 'LGR._test_preliminary_eligibility'])

p('C02', 'The disposition of a label is that of the first triggered action',
  'A label that passes the repertoire test gets the disposition of the first action, in document order and then the '
  'RFC 7940 default actions (invalid, blocked, allocatable, activated, valid), whose rule condition (match / '
  'not-match) and variant-type condition (any / all / only) both hold for the label and for the types of the '
  'reflexive mappings of its code points; the position of that action is reported. A label that fails the repertoire '
  'test, or whose action yields invalid, is reported ineligible with disposition invalid, and every other label is '
  'reported eligible.',
  ['inputs', 'programs'], 'every LGR (actions, rules, reflexive mappings) and every label',
  'Tests check each action attribute in isolation on one or two labels; ordering, the empty type set, and '
  'combination of rule and variant conditions range over all action lists.',
  ['lgr/core.py', 'lgr/action.py'],
  [('action application', 'lgr/action.py Action.apply'),
   ('disposition computation', 'lgr/core.py LGR._test_label_disposition, LGR.effective_actions'),
   ('default actions', 'lgr/core.py DEFAULT_ACTIONS')],
  ['LGR.test_label_eligible'])

p('C03', 'Generated variants are exactly the permitted variant labels, once each',
  'For any LGR and eligible label, the variant labels produced are exactly those obtained by segmenting the label '
  'into repertoire entries and replacing each by itself or by one of its variants whose context rule holds, each '
  'produced once, the original label produced once and last. Each comes with the disposition of the first action '
  'triggered by the variant types used to reach it, only-variants actions firing only when every code point came from '
  'a mapping; variants that are not themselves eligible, or whose disposition is invalid, are left out unless invalid '
  'results are requested.',
  ['inputs', 'programs'], 'every LGR with variants (typed, conditional, reflexive, sequence, null) and every label of at most 63 code points',
  'The result is a set defined by a product over positions; tests compare a few dozen expected lists.',
  ['lgr/core.py'],
  [('variant generation', 'lgr/core.py LGR._generate_label_variants'),
   ('permutation and disposition', 'lgr/core.py LGR.compute_label_disposition')],
  ['LGR.compute_label_disposition', 'LGR.compute_label_disposition_summary'])

p('C04', 'Index labels identify variant sets',
  'The index label of an eligible label is the lexicographically smallest label obtainable by partitioning the label '
  'into repertoire entries (sequences included) and replacing each entry by the smallest of itself and its '
  'context-permitted variants, and a label outside the repertoire has none. Consequently, when the variant relation '
  'is symmetric and transitive, unconditional, and on single code points, two labels are variants of each other if '
  'and only if their index labels are equal.',
  ['inputs', 'programs'], 'every LGR and every label up to 63 code points',
  'The minimum ranges over all partitions and variant choices; tests pin a handful of examples.',
  ['lgr/core.py'],
  [('index label', 'lgr/core.py LGR.generate_index_label'),
   ('minimal prefix recursion', 'lgr/core.py LGR._get_prefix_min')],
  ['LGR.generate_index_label'])

p('C05', 'Whole-label and context rules match as RFC 7940 defines',
  'A rule built from start, end, any, literal code points or sequences, classes, choices, nested or referenced rules, '
  'counts (n, n+, n:m), look-behind, look-ahead and anchor matches a label if and only if some alignment of the label '
  'with that structure exists, a class that is empty matching no code point and a rule with no content matching '
  'nothing. As a context rule, a rule with an anchor must match with the anchor on the occurrence of the tested code '
  'points, and one without an anchor is tested on the whole label. The answer depends only on the rule as currently '
  'defined, not on earlier evaluations.',
  ['inputs', 'programs', 'histories'], 'every rule tree, class content, label and position, including after edits of tags and rules',
  'Rules are a programming language; tests execute about fifty fixed rules.',
  ['lgr/rule.py', 'lgr/matcher.py', 'lgr/classes.py', 'lgr/core.py'],
  [('pattern compilation', 'lgr/matcher.py *.get_pattern, lgr/rule.py Rule.get_pattern'),
   ('matching', 'lgr/rule.py Rule.matches'),
   ('pattern cache', 'lgr/rule.py Rule._pattern_cache')],
  ['Rule.matches', 'LGR.test_label_eligible'])

p('C06', 'Character classes denote the sets their definitions say',
  'The set denoted by a class is the set of its listed code points, of the single code points currently carrying its tag, of '
  'the code points with its Unicode property value, of the class it references, or the union, intersection, '
  'difference, symmetric difference or complement (over all of Unicode) of the sets its parts denote. Evaluating a '
  'class never changes it, the classes it refers to, or any later answer.',
  ['inputs', 'programs'], 'every class expression tree over literal, tag, property and referenced classes',
  'Set algebra over arbitrary nesting and aliasing; tests evaluate each operator once.',
  ['lgr/classes.py'],
  [('class evaluation', 'lgr/classes.py Class.get_pattern and combinator subclasses')],
  ['Class.get_pattern'])

p('C07', 'Repertoire edits follow the set semantics, and refused edits change nothing',
  'After any sequence of additions and deletions of code points, sequences, ranges and variants, and of range '
  'expansions, the repertoire holds exactly the entries and variants that sequence of edits implies, enumerated in '
  'code point order with each entry once and ranges as single entries, and lookups, membership and size agree with '
  'it. An edit that is refused reports the documented error (already present, not present, undefined or duplicate '
  'reference, tag on a sequence, duplicate tag, conflicting context rules, variant on an unexpanded range) and leaves '
  'the LGR exactly as it was. A variant is identified by its code points together with its context rules.',
  ['histories', 'inputs'], 'every sequence of public editing operations, valid or not',
  'Tests apply one or two operations to an empty LGR; interference between ranges, sequences and single code points '
  'needs longer histories.',
  ['lgr/core.py', 'lgr/char.py'],
  [('repertoire store', 'lgr/char.py Repertoire'), ('LGR editing API', 'lgr/core.py LGR.add_cp/del_cp/add_range/del_range/add_variant/del_variant/expand_range(s)')],
  ['LGR.repertoire iteration', 'LGR.get_char', 'LGR.get_variants'],
  [('repertoire', 'entries keyed by first code point', 'lgr/char.py Repertoire._chardict'),
   ('ranges', 'declared ranges', 'lgr/char.py Repertoire._ranges')])

p('C08', 'Tags and the classes they induce always agree with the repertoire',
  'At every point of an editing history, the class of a tag contains exactly the single code points (range members '
  'included) that currently carry the tag in the repertoire. Deleting a tag removes it from every entry and from the '
  'list of classes, deleting an entry or range removes its code points from every tag class, and listing tags returns '
  'each tag in use once.',
  ['histories'], 'every sequence of edits that add, delete or query tagged code points, ranges and tags',
  'Tests delete a tagged single code point once; ranges, expansion and re-insertion are not combined.',
  ['lgr/core.py', 'lgr/char.py', 'lgr/classes.py'],
  [('tag class maintenance', 'lgr/core.py LGR._add_cp_to_tag_class..., LGR.del_cp, LGR.del_tag'),
   ('tag lookup', 'lgr/core.py LGR.get_tags..., Repertoire.all_tags')],
  ['LGR.classes_lookup', 'LGR.classes', 'Char.tags'])

p('C09', 'References keep unique identifiers and entries never cite undefined ones',
  'Adding a reference without an identifier assigns one not in use, adding or updating never silently overwrites '
  'another reference, and listing returns the references in insertion order with the identifiers given. An entry or '
  'variant can only be added with identifiers that are defined and not repeated; deleting a reference removes it '
  'from the table and from every code point, range and variant that cited it, and from nothing else.',
  ['histories'], 'every sequence of reference and repertoire operations',
  'Identifier assignment depends on the whole history (numeric and textual ids, deletions); tests add two references.',
  ['lgr/metadata.py', 'lgr/core.py', 'lgr/char.py'],
  [('reference table', 'lgr/metadata.py ReferenceManager'),
   ('citation check and removal', 'lgr/core.py LGR.add_reference/del_reference, lgr/char.py Repertoire.del_reference')],
  ['LGR.reference_manager', 'Char.references', 'Variant.references'])

p('C10', 'Writing an LGR as XML and reading it back preserves it',
  'For any valid LGR, parsing the XML produced from it yields an LGR with the same metadata, references, repertoire '
  '(code points, ranges, sequences, comments, references, tags, context rules), variants (types, context rules, '
  'references, comments), classes, rules and actions, in the same order where order matters, and writing that again '
  'yields the same document. Parsing a document never depends on optional parts being present, on comments or on '
  'the order of attributes.',
  ['inputs', 'programs'], 'every LGR representable in the format, and every conformant document',
  'Round-trip quantifies over all documents; tests round-trip a few files and mostly compare fragments.',
  ['lgr/parser/xml_parser.py', 'lgr/parser/xml_serializer.py'],
  [('parser', 'lgr/parser/xml_parser.py XMLParser'), ('serializer', 'lgr/parser/xml_serializer.py serialize_lgr_xml')],
  ['XMLParser.parse_document', 'serialize_lgr_xml'])

p('C11', 'Populating variants yields the smallest symmetric, transitive closure',
  'Populating an LGR terminates with a variant relation that is the smallest symmetric and transitive one containing '
  'the relation it had, a code point that was only a variant target being added as a plain entry. Every mapping that '
  'was there keeps its type, references, comment and context rule (an unconditional one may take over the context '
  'rule of its reverse), the mappings added are of type blocked and carry no rule but one of their reverse, and every '
  'conditional mapping ends up with a conditional reverse. Nothing else changes, and populating again changes nothing.',
  ['inputs'], 'every LGR without unexpanded ranges among its variant sources and targets',
  'Closure is a fixpoint over the whole variant graph; tests check four small graphs.',
  ['lgr/populate/__init__.py'],
  [('closure loop', 'lgr/populate/__init__.py populate_lgr')],
  ['populate_lgr', 'LGR.get_variants'])

p('C12', 'Variant validators report exactly the violations present',
  'The symmetry check reports exactly the variant mappings whose target is not in the repertoire, whose reverse '
  'mapping is missing or, when context rules are considered, whose reverse lacks the same rule; the transitivity '
  'check reports exactly the chains a to b to c (c not a) without a mapping a to c; the conditional-variant check '
  'reports exactly the mappings whose context rule is not defined. Each succeeds if and only if there is no such '
  'violation, the recorded conformance outcomes agree, and checking changes neither the LGR nor later answers.',
  ['inputs'], 'every variant relation over code points and sequences with optional context rules and types',
  'The verdict quantifies over all pairs and triples of mappings; tests try single violations.',
  ['lgr/validate/symmetry.py', 'lgr/validate/transitivity.py', 'lgr/validate/conditional_variants.py'],
  [('symmetry', 'lgr/validate/symmetry.py check_symmetry'), ('transitivity', 'lgr/validate/transitivity.py check_transitivity'),
   ('conditional variants', 'lgr/validate/conditional_variants.py check_conditional_variants')],
  ['return values', 'LGRFormatTestResults', 'log messages'])

p('C13', 'The union of two LGRs contains both and nothing else',
  'The union contains exactly the code points and sequences present in either LGR, each with the variants and tags it has in either; the context rule of a shared code point is kept when both LGRs agree on it and dropped otherwise. Every reference, language, scope, class, rule and action of either, and the text of its version and description, is kept with its meaning (of actions and texts, those of the first LGR first) and nothing else is added, names defined differently in the two LGRs being changed so that nothing refers to the wrong definition, and the result is a working LGR. Neither input is modified, now or by editing the result.',
  ['inputs'], 'every pair of LGRs',
  'Presence and absence of each attribute on each side is a product space; tests merge two or three pairs.',
  ['lgr/tools/compare/union.py', 'lgr/tools/compare/utils.py'],
  [('union', 'lgr/tools/compare/union.py union_lgrs')],
  ['union_lgrs'])

p('C14', 'The intersection of two LGRs contains only what both have',
  'The intersection contains exactly the code points and sequences present in both LGRs, each with exactly the variants, tags and context rules both give it, and exactly the languages, scopes, references, classes, rules and actions that both define alike; the versions and descriptions of both are combined in the order given, the Unicode version is the greater one and the validity the common period. Nothing in the result refers to a definition that differs between the two, and the result is a working LGR. Neither input is modified, now or by editing the result.',
  ['inputs'], 'every pair of LGRs',
  'As for union: tests cover two or three pairs.',
  ['lgr/tools/compare/intersect.py'],
  [('intersection', 'lgr/tools/compare/intersect.py intersect_lgrs')],
  ['intersect_lgrs'])

p('C15', 'The comparison report lists exactly the differences',
  'Comparing two LGRs mentions a code point as added or removed exactly when one side lacks it, and otherwise exactly those of its comment, tags, context rules and variants that differ, and likewise for metadata, references, actions, and the names and definitions of classes and rules; comparing an LGR with itself reports no difference and swapping the arguments swaps the sides; a report that also shows the identical parts states exactly what both share. Comparing two LGR sets compares every two members of one script so, and names the scripts only one set has; comparing label dispositions under two LGRs reports exactly the variants whose disposition differs or that only one of them has. Neither input is modified.',
  ['inputs'], 'every pair of LGRs and every label list',
  'Only whole-report snapshots of two pairs are tested.',
  ['lgr/tools/compare/diff.py', 'lgr/tools/diff_collisions.py'],
  [('diff', 'lgr/tools/compare/diff.py diff_lgrs'), ('label differences', 'lgr/tools/diff_collisions.py get_collisions_delta / diff')],
  ['diff_lgrs', 'diff'])

p('C16', 'Harmonizing makes two LGRs agree on variants without losing content',
  "After harmonizing two LGRs, optionally through a reference LGR, each still has every code point and variant mapping it had, its variant relation is symmetric and transitive and, identity mappings aside, equal to the other's on the code points both then have; whatever was added is a consequence of the given LGRs' mappings, and a code point brought in by the other LGR is marked by an identity mapping of type out-of-repertoire. The inputs are not modified, now or by editing the results, nothing else changes, harmonizing the results again changes nothing, and the code points reported for review are those only one of the two has.",
  ['inputs'], 'every pair (and reference) of LGRs',
  'A fixpoint across two graphs; tests check two pairs.',
  ['lgr/tools/harmonize.py', 'lgr/populate/__init__.py'],
  [('harmonization', 'lgr/tools/harmonize.py harmonize')],
  ['harmonize'])

p('C17', 'Merging an LGR set keeps every member and its scripts apart',
  "The LGR merged from a set of LGRs of distinct languages contains exactly the code points of the members, each with the union of the tags (prefixed by the member's language, plus its script extensions), references and comments of its members and the variants of all of them, all blocked, completed only so that variants stay symmetric and transitive; each context rule, class and action (default ones excepted) is kept with the same content under a name prefixed by its member's language (the shared rule leading-combining-mark under Common-), and refers only to definitions of the same member. References are carried over by value, languages, scopes and versions are combined, the Unicode version is the greatest one and the validity the common period; members needing different context rules for one code point are refused. The members are unchanged, now or by editing the result, and the order in which they are listed does not matter.",
  ['inputs'], 'every list of LGRs with languages or scripts',
  'Only one or two sets are merged in tests.',
  ['lgr/tools/merge_set.py'],
  [('merge', 'lgr/tools/merge_set.py merge_lgr_set')],
  ['merge_lgr_set'])

p('C18', 'Collision checks find exactly the colliding labels',
  'For a list of labels (and a list of existing TLDs) two labels are reported as colliding if and only if both are in the repertoire and their index labels are equal: every colliding pair once, every group with all its members and their dispositions as variants of each other, labels that are TLDs, malformed or outside the repertoire being reported as such. The full dump lists for each label all its variants with their dispositions and the right counts, and the difference between two LGRs reports for each label exactly the dispositions that change and the variants added or removed. A report is only refused when some group is not symmetric, and the LGRs are unchanged.',
  ['inputs'], 'every LGR and every list of labels',
  'Grouping quantifies over all pairs; tests use lists of two or three labels.',
  ['lgr/tools/diff_collisions.py', 'lgr/tools/utils.py'],
  [('collision grouping', 'lgr/tools/diff_collisions.py get_collisions'), ('label reading', 'lgr/tools/utils.py read_labels')],
  ['get_collisions'])

p('C19', 'Legacy table formats are imported line by line without leakage',
  'Importing an RFC 3743, RFC 4290 or plain code point list, from a path, text or bytes and whether the format is given or detected, yields exactly the code points, variants (preferred ones of type activated), references, version and date that the well-formed lines state, in whatever line-ending or comment style. Comments, blank and malformed lines change nothing, a line repeating a code point only adds its new variants, and no line influences the entry of another code point.',
  ['inputs'], 'every text file in those formats, well formed or not',
  'Each test parses one clean file.',
  ['lgr/parser/rfc3743_parser.py', 'lgr/parser/rfc4290_parser.py', 'lgr/parser/heuristic_parser.py', 'lgr/parser/line_parser.py'],
  [('rfc3743', 'lgr/parser/rfc3743_parser.py'), ('rfc4290', 'lgr/parser/rfc4290_parser.py'), ('heuristic', 'lgr/parser/heuristic_parser.py'), ('one per line', 'lgr/parser/line_parser.py')],
  ['parser.parse_document'])

p('C20', 'The conformance verdict follows from the recorded test outcomes and policy',
  'A test counts as failed if any failure was recorded for it, in whatever order outcomes were recorded, and as '
  'passed only if it ran and never failed. The verdict is FAIL if a test required by the policy did not run or failed '
  'at error level, otherwise WARN if one failed at warning level, otherwise PASS; without policy it is FAIL exactly '
  'when some test failed, and the detailed report has one line per policy entry agreeing with the verdict.',
  ['histories', 'inputs'], 'every history of recorded outcomes and every policy',
  'Order-insensitivity and policy combinations form a product; tests cover a few.',
  ['lgr/rfc7940.py'],
  [('aggregation', 'lgr/rfc7940.py LGRFormatTestResults')],
  ['LGRFormatTestResults.get_final_result'])

p('C21', 'Metadata setters accept exactly the valid values',
  'A date, language tag or Unicode version is accepted exactly when it is valid under RFC 7940 and then read back '
  'unchanged, and otherwise refused with an error leaving the metadata as it was, or kept when forced (a bad language '
  'added or Unicode version being recorded as failed). The scripts derived from the languages always reflect the current '
  'language list, and the metadata check reports exactly the expired, not yet started or inverted validity periods, the '
  'unknown scope or description types and the versions that are not positive integers.',
  ['inputs', 'histories'], 'every sequence of metadata assignments with valid and invalid values',
  'Each setter is tested on one or two values and never in sequence.',
  ['lgr/metadata.py', 'lgr/memoize.py', 'lgr/validate/metadata.py'],
  [('setters', 'lgr/metadata.py Metadata'), ('script cache', 'lgr/memoize.py MethodAttributeMemoizer'),
   ('checks', 'lgr/validate/metadata.py')],
  ['Metadata properties', 'Metadata.get_scripts'])

p('C22', 'Statistics count what is in the LGR',
  'The summary statistics of an LGR equal the counts recomputed from its content: code points (range members included), '
  'sequences, ranges, the largest sequence and range, entries with variants, distinct mappings, average and largest '
  'number of variants, mappings per type, code points per tag and rules. Computing them again gives the same.',
  ['inputs'], 'every LGR',
  'Tests check totals of one small LGR.',
  ['lgr/validate/lgr_stats.py'],
  [('statistics', 'lgr/validate/lgr_stats.py generate_stats')],
  ['generate_stats'])

p('C23', 'Labels and code points survive conversion between notations',
  'A label given as Unicode text, as A-label (xn--) or as hexadecimal code points (U+XXXX, or XXXX after the first, space-separated) is read as the same code point sequence, malformed input is rejected, formatting followed by reading is the identity, and lists of code points and ranges are told apart, expanded and collapsed without loss. Reading a label file returns each line that holds a label once, in order, without comment, byte order mark or surrounding space, and flags exactly the malformed ones.',
  ['inputs'], 'every label and notation',
  'Conversions are tested on one example per form.',
  ['lgr/utils.py', 'lgr/tools/utils.py'],
  [('conversion', 'lgr/utils.py cp_to_str, format_cp, cp_to_ulabel, collapse_codepoints'), ('parsing', 'lgr/tools/utils.py parse_label_input, read_labels')],
  ['parse_label_input', 'read_labels'])

p('C24', 'An IDN table review flags each difference from the reference LGR once',
  'Reviewing an IDN table against a reference LGR lists every code point of either as matching, missing or differing (with the verdict the documented decision table gives for its rules, tags and variants), compares each variant set with the reference set having the same smallest member or, failing that, with one comparable to it by inclusion, and gives each named class, whole-label rule and action of either exactly one verdict, which is a match only if both define it alike. The numbers in each summary are those of the rows listed. A table reviewed against itself yields only matches, and the review tool writes exactly one such report for each table and reference it can read.',
  ['inputs'], 'every pair of table and reference',
  'Tests pin the output for a few pairs per report section.',
  ['lgr/tools/idn_review/review.py', 'lgr/tools/idn_review/repertoire.py', 'lgr/tools/idn_review/variant_sets.py', 'lgr/tools/idn_review/actions.py', 'lgr/tools/idn_review/classes.py', 'lgr/tools/idn_review/whole_label_evaluation_rules.py'],
  [('review', 'lgr/tools/idn_review/review.py review_lgr')],
  ['review_lgr'])

p('C25', 'Hiding mixed-script variants keeps exactly the single-script ones',
  'Hiding mixed-script variants keeps, with the disposition they have in the full variant set, exactly the variants whose code points are of the scripts of the original label, or of scripts written together with them (Japanese, Korean and Chinese labels; common and inherited characters go along with every script), plus the ones wholly in one other script that every part of the label can be mapped to. No variant mixing any other scripts is ever shown, and the predicted number counts the choices within the scripts of the label and the whole labels of each other script.',
  ['inputs'], 'every LGR and label over several scripts',
  'Tests use two labels.',
  ['lgr/mixed_scripts_variant_filter.py', 'lgr/core.py'],
  [('filter', 'lgr/mixed_scripts_variant_filter.py'), ('use', 'lgr/core.py LGR.compute_label_disposition')],
  ['LGR.compute_label_disposition(hide_mixed_script_variants=True)', 'LGR.estimate_variant_number'])

p('C26', 'Asking questions changes nothing',
  "Testing labels, generating variants or index labels (even if abandoned half-way or ending in an error), validating, computing statistics, serializing and comparing leave the LGR, the logging configuration and the library's global tables as they were, so that asking the same question again, in any order with others, or on a copy of the LGR, gives the same answer. Editing a copy, deep or pickled, leaves the LGR as it was, and editing the LGR leaves the copy.",
  ['histories'], 'every sequence of queries on any LGR',
  'Tests ask one question per fresh object.',
  ['lgr/core.py', 'lgr/validate/__init__.py', 'lgr/rule.py', 'lgr/tools/compare'],
  [('queries', 'lgr/core.py LGR.test_label_eligible, compute_label_disposition, generate_index_label'), ('check lists', 'lgr/validate/__init__.py')],
  ['XML serialization before/after', 'repeated answers'])

p('C27', 'Only permitted code points can enter the repertoire',
  'When a Unicode database or a validating repertoire is set, a code point (alone, in a sequence, in a range or as a variant target) that is not IDNA 2008 valid, or not in the validating repertoire where that applies, is refused with the corresponding error and the repertoire is left as it was; only the validating repertoire can be overridden or forced, and a forced range takes in those of its code points that are IDNA 2008 valid. Checking a range or a list of code points beforehand reports each code point once, in order, either as acceptable or with a reason that applies to it.',
  ['inputs', 'histories'], 'every code point, sequence, range or variant and every configuration of the checks',
  'Tests check one refused code point.',
  ['lgr/core.py'],
  [('insertion checks', 'lgr/core.py LGR._check_cp..., LGR.check_range')],
  ['LGR.add_cp', 'LGR.add_range', 'LGR.add_variant', 'LGR.check_range', 'LGR.add_codepoints'])

p('C28', 'Variant set size estimates bound and match the real number',
  'The estimated number of variants of an eligible label is the product over its repertoire entries of one plus the '
  'number of their non-identity mappings; it equals the number of labels generated when no context rule, sequence or '
  'action removes or merges any of them.',
  ['inputs'], 'every LGR and eligible label',
  'One example is tested.',
  ['lgr/core.py'],
  [('estimate', 'lgr/core.py LGR.estimate_variant_number')],
  ['LGR.estimate_variant_number'])

p('C29', 'Rebuilding and validating an LGR reports exactly its defects',
  "Rebuilding an LGR under a Unicode database, version and validating repertoire reports exactly the entries and variants these do not permit, each with a reason that applies to it, and the code points outside the LGR's scripts as warnings, leaving the LGR as it was. Whole-LGR validation runs every check once, in the same order and with the same results however often it is repeated, and records as failed exactly the RFC 7940 tests that fail: variant types, dispositions, order of references, code points of the Unicode version and, when parsing, the order of the listed code points.",
  ['inputs', 'histories'], 'every LGR, Unicode version and repetition of the validation',
  'Tests run each check once on one LGR.',
  ['lgr/validate/__init__.py', 'lgr/validate/rebuild_lgr.py', 'lgr/validate/miscellaneous.py'],
  [('driver', 'lgr/validate/__init__.py validate_lgr'), ('rebuild', 'lgr/validate/rebuild_lgr.py rebuild_lgr')],
  ['validate_lgr', 'rebuild_lgr'])

p('C30', 'Label annotation tools give every label its computed disposition',
  'Annotating a list outputs each label once, in order, with exactly the disposition, triggering action and refused code points that evaluating the label alone gives, and against an LGR set also whether it is in, or collides with a label of, the set labels (of which the unusable ones are listed). The validation and exercising commands report the same eligibility, disposition, action, collision and variants as evaluation does. The IDNA 2008 report lists exactly the entries with a code point IDNA 2008 does not permit, other than those marked out of repertoire, tells which IDNA 2003 permits, and counts the others.',
  ['inputs'], 'every LGR and label list',
  'Tests annotate three labels.',
  ['lgr/tools/annotate.py', 'lgr/tools/idna2008_compliance.py', 'tools/lgr_annotate.py', 'tools/lgr_validate.py', 'tools/lgr_cli.py'],
  [('annotation', 'lgr/tools/annotate.py annotate')],
  ['annotate'])

p('C31', 'Labels and language tags are given the scripts they are written with',
  'The script of a label is that of its first character having one, whatever neutral characters precede, Japanese when Han goes with kana (or when only signs shared by the kana are left) and Korean for Hangul. A language tag stands for the scripts its script subtag, or else the default script of its language, is written with, two- and three-letter codes of a language alike. The scripts and languages an LGR reports are those of its current language tags.',
  ['inputs', 'histories'], 'every label, every language tag and sequence of metadata changes',
  'Tests use one label per script and a few tags.',
  ['lgr/tools/utils.py', 'lgr/utils.py', 'lgr/metadata.py'],
  [('label scripts', 'lgr/tools/utils.py get_rz_label_script'), ('tags', 'lgr/utils.py tag_to_language_script, script_iso15924_to_unicode'), ('metadata', 'lgr/metadata.py get_scripts')],
  ['get_rz_label_script', 'tag_to_language_script', 'Metadata.get_scripts'])

p('C32', 'Class, rule and action definitions are accepted exactly when well formed',
  'Adding a class, rule or action, alone or by reading a document, is refused exactly when the definition is ill formed (a reference to a class or rule not defined before it, a nameless whole or a named part, a wrong number of combined classes, a reference together with a name or other content, both a match and a not-match rule), with an error that applies, and leaves the LGR as it was; forced, it is only refused when it contradicts itself. What is accepted is listed by name in the order given. A rule or class can be evaluated exactly when everything it leads to is defined by then, and otherwise fails with a rule error instead of giving an answer.',
  ['inputs', 'histories'], 'every sequence of definitions',
  'Tests build a few ill-formed definitions one at a time.',
  ['lgr/core.py', 'lgr/classes.py', 'lgr/rule.py', 'lgr/matcher.py', 'lgr/action.py', 'lgr/parser/xml_parser.py'],
  [('adding definitions', 'lgr/core.py add_class, add_rule, add_action'), ('well-formedness', 'lgr/classes.py, lgr/rule.py validate'), ('documents', 'lgr/parser/xml_parser.py _process_rules')],
  ['LGR.add_class', 'LGR.add_rule', 'LGR.add_action'])

p('C33', 'A document is read element by element, leaving out only what cannot be used',
  'Reading an XML document yields exactly the LGR that adding its references, code points, ranges and variants one after the other gives, with the metadata stated and whichever way the document is supplied. A strict reading ends at the first element that cannot be used, with an error that applies to it; a lenient one leaves out that element (of a range only the members concerned) and nothing else. The conformance outcomes recorded tell whether everything could be read, the code points are permitted and listed in order, and the language tags and Unicode version are given and valid.',
  ['inputs'], 'every document',
  'Tests read a handful of well-formed documents and a few faulty ones.',
  ['lgr/parser/xml_parser.py', 'lgr/parser/parser.py', 'lgr/core.py', 'lgr/metadata.py'],
  [('data', 'lgr/parser/xml_parser.py _process_data'), ('metadata', 'lgr/parser/xml_parser.py _process_meta')],
  ['XMLParser.parse_document', 'XMLParser.unicode_version'])

p('C34', 'The commands on LGR files write what the operation yields, and nothing else',
  'Each command on LGR files (dump, populate, union, intersection, comparison of LGRs and of sets of LGRs, merge, harmonize, import of a table, conformance) works on exactly the files named, in the role the option gives them, and writes or prints a document that any other command can read and that is what the operation yields for them, with every dump holding all the input says. It leaves every other file as it was, inputs included. Where an input cannot be used (absent, not an LGR, refused by the schema asked for) or the operation is not possible, no output is written and no document or passing verdict is printed; a verdict agrees with the outcome of each test listed.',
  ['inputs', 'histories'], 'every folder of files and every sequence of commands',
  'The tests call the functions behind the commands; none runs a command, or one on what another wrote.',
  ['tools/xml_dump.py', 'tools/lgr_compare.py', 'tools/lgr_merge_set.py', 'tools/lgr_harmonize', 'tools/lgr_populate_variants.py', 'tools/rfc7940_validate', 'lgr/tools/utils.py',
   'lgr/tools/compare/diff.py', 'lgr/rfc7940.py'],
  [('arguments', 'lgr/tools/utils.py LgrToolArgParser'), ('sets', 'lgr/tools/compare/diff.py diff_lgr_sets')],
  ['main', 'parse_lgr', 'merge_lgrs', 'diff_lgr_sets', 'LGRFormatTestResults'])

p('C35', 'The repertoire made of the IDNA2008 registry holds what the registry permits',
  'The repertoire made for a Unicode version holds each code point to which the registry of derived properties of that version gives PVALID, CONTEXTO or CONTEXTJ, once, and no other, whatever the order of its records, how they group code points into ranges, and what other registries the table holds. It carries nothing but the code points, and an LGR validated against it accepts exactly these.',
  ['inputs'], 'every table of registries and every version',
  'No test runs the tool, which needs the network.',
  ['tools/make_idna_repertoire.py', 'lgr/core.py'],
  [('selection', 'tools/make_idna_repertoire.py make_idna_repertoire'), ('ranges', 'lgr/core.py add_range')],
  ['make_idna_repertoire', 'LGR.add_cp'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P), 'properties')
