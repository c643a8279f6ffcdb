#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRI = "src/translator/table/primary.rs"
MUL = "src/translator/table/multipass.rs"
P = []

def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, technique=technique, note=note,
                  observe=observe or ["output of translating a text with a table"]))

MODEL = ("explicit-state reference model of table loading and translation; exhaustive enumeration of small tables x directions x texts, "
         "every model trace replayed on the real translator")

prop("P01", "Loading and translating always end with a result",
 "For every table source, direction, text and combination of emphasis spans, modes and cursor position, loading the table ends with a translator or an error and translating ends with a text. "
 "No input makes either of them panic, crash, run forever or refuse a loaded table's text.",
 ["inputs", "configurations"], "all table sources, all texts (every Unicode scalar value), all spans, modes and cursor positions",
 "Tests load a few dozen well-formed tables and short texts; a crash needs one particular combination of rule, position and text.",
 ["src/lib.rs", PRI, MUL, "src/parser.rs"],
 [("main loop consumes input or stops on zero-length repeats", PRI + " trace"), ("multipass loop with repeat detection", MUL + " trace"), ("span clamping", "src/translator/indication/emphasis.rs precompute"), ("parsers return errors", "src/parser.rs RuleParser::rule")],
 "bounded exhaustive execution of the real code: every opcode with every operand probe, all ordered pairs of rules, all option sets, every character; watchdog and supervising process name a case that hangs or crashes",
 "Exhaustive over the enumerated tables, texts and options; sizes are bounded (texts up to 1000 characters; nesting 64, plus extreme sizes in child processes).")

prop("P02", "Every line of a table is understood or reported with its line number",
 "Loading a table accepts exactly the lines whose prefixes, opcode and operands are well-formed, ignoring blank lines and comments and text after the last operand, and reports every other line, in order, with its line number. "
 "A table with a reported line is rejected as a whole; a rule whose action names an undefined swap class or that uses implicit dots of an undefined character is rejected when the table is compiled for a direction that needs it.",
 ["inputs"], "all sequences of lines; all opcodes, prefixes, operand counts and operand spellings; both directions",
 "Tests parse one good example of most opcodes; they cannot cover every operand syntax or show that errors accumulate with correct positions.",
 ["src/parser.rs", "src/parser/match_rule.rs", "src/parser/multipass/test.rs", "src/parser/multipass/action.rs", "src/parser/braille.rs"],
 [("rule parser", "src/parser.rs RuleParser::rule"), ("line loop and error accumulation", "src/parser.rs table"), ("pattern parsers", "src/parser/match_rule.rs PatternParser; src/parser/multipass/*.rs Parser")],
 MODEL, "Every opcode x every prefix, arity and operand probe; all short strings over the operand alphabets; all sequences of up to 4 line kinds.",
 ["result of loading a table from source: accepted, or the list of line numbers"])

prop("P03", "Translation depends on nothing but table, direction, text and options",
 "A loaded table gives the same output for the same text and options however often it is used, whatever was translated before, on whichever thread, and whatever other tables were loaded or used in between. "
 "The output is also the same in every run of the program, that is for every hash seed, and the same for both entry points when no option is given.",
 ["histories", "schedules", "configurations"], "all histories of calls, all call-level schedules of two threads, all hash seeds",
 "Each test makes one call on a fresh translator under one random seed; order and seed dependence need particular histories.",
 ["src/lib.rs", PRI, "src/translator/effect.rs", "src/translator/indication/emphasis.rs"],
 [("state is local to a call", PRI + " trace; src/translator/effect.rs Environment"), ("ordered transitions", "src/translator/trie.rs TrieNode"), ("emphasis sorted by rank", "src/translator/indication/emphasis.rs precompute")],
 "stateless model checking of the implementation: all call histories to a depth, all interleavings of two translators, all call schedules of two threads under a controlled scheduler, and enumerated hash seeds (getrandom replaced) until every order of a 4-element set has occurred",
 "Scheduling granularity is a call (a translation has no synchronisation inside). Seeds are enumerated until all 24 orders of a four-element hash set occur.")

prop("P04", "The most specific applicable rule wins, then the first defined",
 "Forward translation moves left to right and at each position uses, among the rules that apply there, the one that covers most characters, counting the neighbouring characters its opcode, prefixes or patterns look at; among equals match, context and nocross rules precede all others, and of rules of one kind the one defined first in the table wins. "
 "The text it covers is consumed and no rule is applied inside it, and a rule, whose text tables write in lower case, also applies to capitals.",
 ["inputs"], "all tables of competing rules (in every order) and all texts",
 "Tests compare one or two rules at a time; which rule wins depends on the set of rules, their order and the text.",
 [PRI, "src/translator/trie.rs", "src/parser.rs"],
 [("candidate sort", PRI + " translation_candidates"), ("weights and precedence", "src/translator/trie.rs insert, find_translations_from_node"), ("precedence of opcodes", "src/parser.rs HasPrecedence for Rule")],
 MODEL, "All ordered selections of up to 2-3 rules from pools; all texts over small alphabets to length 5-6.")

prop("P05", "Word-position opcodes apply exactly where their position allows",
 "Each opcode that restricts where its text may occur (whole word, beginning, middle or end of a word, prefix or suffix of a word, part of a word, beginning, middle or end of a number, standing alone) applies at exactly the occurrences whose neighbouring characters satisfy the opcode's documented condition, and nowhere else. "
 "The two ends of the text count as word boundaries.",
 ["inputs"], "all opcodes, all left and right neighbour characters, all texts",
 "Tests check each opcode with one or two neighbours; the condition ranges over every pair of neighbour kinds and ends of text.",
 ["src/translator/trie.rs", PRI],
 [("boundary transitions", "src/translator/trie.rs insert, find_translations_from_node"), ("opcode to boundary mapping", PRI + " compile")],
 MODEL, "21 opcodes x 8 texts x all combinations of 17 neighbour kinds on each side; all words to length 4; pairs of opcodes.")

prop("P06", "Class prefixes before and after restrict exactly the neighbouring character",
 "A rule for a literal word part with the prefix 'before CLASS' applies only where the next character belongs to the class, and with 'after CLASS' only where the previous one does; a missing neighbour belongs to no class. "
 "Classes may be defined after their use or extended later; a prefix that names a class nothing belongs to is ignored.",
 ["inputs"], "all opcodes that take the prefix, all classes, all neighbours",
 "Tests use one class and one neighbour.",
 ["src/parser.rs", PRI, "src/translator/trie.rs"],
 [("prefix parsing", "src/parser.rs with_class"), ("constraint resolution", PRI + " resolve_class_constraints; src/translator/trie.rs ResolvedClasses")],
 MODEL, "10 opcodes x 23 prefix combinations x texts of all neighbour kinds; competing class-restricted rules in every order.")

prop("P07", "Character definitions decide how single characters are rendered",
 "A defined character is rendered with the dots of its first definition, a derived character with the dots of its base unless it has its own, and a capital without definition like its lower-case letter. "
 "A character without any definition yields the table's undefined dots if given, otherwise the cells of its escaped hexadecimal code, and rules with implicit dots use the definitions of their characters wherever these stand in the table.",
 ["inputs"], "all orders of definitions; every character",
 "Tests render a few ASCII characters.",
 ["src/translator.rs", "src/translator/table.rs", PRI],
 [("definitions", "src/translator.rs CharacterDefinition::insert, resolve_implicit_dots"), ("undefined characters", PRI + " handle_undefined_char"), ("classes and bases", "src/translator/table.rs TableContext::compile")],
 MODEL, "All ordered pairs from 33 definitions, triples from 17; every character of U+0020-U+024F and edge characters.")

prop("P08", "Backward translation picks the longest, first-defined reading of the cells",
 "Backward translation reads the cells left to right and at each position uses the rule covering the most cells, preferring the first defined among equals, leaves unknown cells as the table prescribes, and treats rules restricted to the other direction as absent. "
 "Where a table's braille is uniquely decodable, translating forward and then backward returns the original text.",
 ["inputs"], "all tables of competing rules, all cell sequences, all texts for the round trip",
 "Tests read back a few words with single rules.",
 [PRI, "src/translator/trie.rs"],
 [("backward trie", PRI + " compile"), ("candidate sort", PRI + " translation_candidates")],
 MODEL + "; plus exhaustive forward/backward round trips", "All ordered selections of 2 of 13 rules x all cell sequences to length 5; round trip for all subsets of 6 rules x all texts to length 5.")

prop("P09", "Numbers are introduced and ended exactly where the numeric rules say",
 "With a number sign in the table, every maximal run of digits (continued by the table's numeric-mode characters or, without these, by its mid-number characters between digits) is preceded by exactly one number sign and written with literary digits. "
 "The non-number sign follows the run exactly when the next character is one of the table's no-contraction characters, and no multi-character contraction is used inside a run.",
 ["inputs"], "all settings of the numeric opcodes, all texts",
 "Tests translate a handful of numbers with one setting.",
 ["src/translator/indication/numeric.rs", "src/translator/position_constraints.rs", PRI],
 [("numeric indicator", "src/translator/indication/numeric.rs precompute"), ("no contractions in numbers", "src/translator/position_constraints.rs NumericConstrainer::compute")],
 MODEL, "Product of all numeric settings (480 tables) x all texts over digits, letters, separators and space to length 5.")

prop("P10", "Capitals are marked by the table's letter, word, passage and phrase signs",
 "A single capital is preceded by the capital-letter sign, a capitalised word by the word sign (closed by its end sign where lower case follows in the same word), a longer stretch by the passage signs when only these are defined, and a sequence of at least the configured number of capitalised words by the phrase signs placed before or after its last word as the table says. "
 "A text without capitals gets no capital sign, a sign the table does not define is never written, and no rule for several characters is applied across a place where a sign stands.",
 ["inputs"], "all settings of the capitalisation opcodes, all texts",
 "Tests use one setting and a few words each; the choice of sign depends on the whole phrase and the set of signs defined.",
 ["src/translator/indication/uppercase.rs", PRI],
 [("capitals indicator", "src/translator/indication/uppercase.rs precompute, emit_group, emit_run")],
 MODEL, "Product of all capital settings (576 tables) x all texts over a, A, B, space, hyphen to length 4, and phrases of up to 4 words.")

prop("P11", "Emphasis spans are marked with their class's signs, balanced and nested",
 "Each emphasis span whose class the table defines is marked by the letter, word, phrase or begin/end signs of that class according to the words it covers, leaving out separators (white space, or the class's mode characters) at its ends and the characters exempt from emphasis, and honouring the phrase length, whatever other spans overlap it and whatever rules the table has for the text. "
 "Where several classes begin or end at one place their signs are closed before others are opened, in the table's order of classes; spans of unknown classes or outside the text have no effect.",
 ["inputs"], "all spans and pairs of spans over all texts, all settings",
 "Tests mark one span in one text per setting.",
 ["src/translator/indication/emphasis.rs", "src/emphasis.rs"],
 [("emphasis indicator", "src/translator/indication/emphasis.rs precompute, emit"), ("ordering", "src/translator/indication/emphasis.rs EmitKind::rank")],
 MODEL, "Product of settings x all spans and all pairs of spans over all texts to length 4-5; three classes over texts of length 3.")

prop("P12", "Letter and no-contraction signs precede exactly the ambiguous letters",
 "The letter sign (or no-contraction sign) is written before a word exactly when that word, standing alone between spaces or boundaries, is one of the table's contraction words or a single letter, as the opcode prescribes. "
 "Letters listed as exempt, or next to characters listed as exempting, get none.",
 ["inputs"], "all settings and all texts", "Tests check a few letters.",
 ["src/translator/indication/lettersign.rs", "src/translator/indication/nocontract.rs"],
 [("letter sign", "src/translator/indication/lettersign.rs precompute"), ("no-contraction sign", "src/translator/indication/nocontract.rs precompute")],
 MODEL, "Product of settings (648 tables) x all texts over letters, digit, punctuation, space to length 5.")

prop("P13", "Computer braille covers exactly the triggered words and marked spans",
 "A word that contains a computer-braille trigger, and every span marked as computer braille, is written character by character in computer braille, using the table's six-dot computer definitions first, with no contraction or other rule applied inside or across its edges. "
 "Each maximal stretch of computer braille is enclosed once in the table's begin and end signs, also where marked spans overlap or touch each other or a triggered word.",
 ["inputs"], "all triggers, spans and texts", "Tests use one e-mail address and one span.",
 ["src/translator/table/primary.rs", "src/translator/indication/computer_braille.rs", "src/translator/position_constraints.rs", "src/parser/braille.rs"],
 [("scanner", PRI + " CompbrlScanner::enrich"), ("constraint", "src/translator/position_constraints.rs ComputerBrailleConstrainer"), ("signs", "src/translator/indication/computer_braille.rs precompute"), ("fallback cells", "src/parser/braille.rs fallback")],
 MODEL, "Product of settings x all texts over letters, trigger, digit, space to length 4; all spans and pairs of spans.")

prop("P14", "Match rules apply exactly where both context patterns match",
 "A match rule applies at an occurrence of its text exactly when the text before it ends with its first pattern and the text after it begins with its second, under the documented meaning of literals, character sets, attributes, boundaries, groups, alternatives, negation and the ?, * and + quantifiers, which take as much of the text as they can, from left to right. "
 "Among applicable match and other rules the choice follows the general order of specificity.",
 ["inputs"], "all pattern pairs and all texts", "Tests check a dozen patterns on a text each.",
 ["src/parser/match_rule.rs", "src/translator/match_pattern.rs", "src/translator/regexp.rs"],
 [("pattern parser", "src/parser/match_rule.rs PatternParser"), ("translation to expressions", "src/translator/match_pattern.rs from_match_rule"), ("matcher", "src/translator/regexp.rs find")],
 MODEL + " (backtracking matcher as oracle)", "All pairs of single-element patterns with every quantifier, all two-element contexts, x all texts to length 4.")

prop("P15", "Context and pass rules match their tests and replace only the bracketed part",
 "A context, correct or pass rule applies exactly where its test matches (strings, cells, character attributes and classes with their repetition counts, lookback, negation, beginning and end of text), and then replaces only the bracketed part, or everything matched if there are no brackets, by what its action writes. "
 "The rest of the matched text stays available to other rules, and of several rules that match from the same place the longest wins, then the first defined.",
 ["inputs"], "all tests, all actions, all stages, all texts", "Tests check each construct once.",
 ["src/parser/multipass/test.rs", "src/parser/multipass/action.rs", "src/translator/context_pattern.rs", MUL],
 [("test parser", "src/parser/multipass/test.rs"), ("compilation", "src/translator/context_pattern.rs from_instruction"), ("application", MUL + " trace")],
 MODEL, "All pairs of 53 test elements with and without brackets x all texts to length 4; all stages x 12 tests x 7 actions.")

prop("P16", "Pass variables hold what the rules applied so far have set",
 "A variable starts at zero in every stage of every translation, changes only when a rule that sets, increments or decrements it is applied, never leaves 0 to 255, and a rule that compares a variable applies exactly when the comparison holds at that moment.",
 ["inputs", "histories"], "all sequences of rule applications up to the bound", "Tests apply one assignment and one comparison.",
 ["src/translator/effect.rs", "src/translator/context_pattern.rs", "src/translator/regexp.rs"],
 [("environment", "src/translator/effect.rs Environment::apply"), ("comparison", "src/translator/regexp.rs Instruction")],
 MODEL, "All assignments x comparisons x all texts to length 5; all ordered triples of 14 rules per stage; saturation after 250-259 steps.")

prop("P17", "Stages run in order: correct, main, pass 2, 3, 4; reversed backward",
 "Forward translation applies the corrections, then the main rules, then the second, third and fourth pass, each to the complete output of the one before; backward translation applies them in the reverse order. "
 "A stage without rules changes nothing, and the order of the rules of different stages in the table does not matter.",
 ["inputs"], "all subsets and source orders of stages, all texts", "Tests run one or two stages together.",
 ["src/translator/pipeline.rs"], [("pipeline", "src/translator/pipeline.rs compile, trace_with_options")],
 MODEL, "All ordered triples of 15 rules of all stages x all texts to length 4; all 326 orderings of subsets of five stages.")

prop("P18", "Swap classes replace each character by its partner",
 "A rule whose action names a swap class replaces each character of the matched part by that character's partner in the class, in order, and a test that names the class matches exactly its members. "
 "Definitions with unequal numbers of partners and actions that name missing classes are rejected; a test that names a missing class matches nothing.",
 ["inputs"], "all swap classes, rules, stages and texts", "Tests swap one character.",
 ["src/translator/swap.rs", "src/translator/context_pattern.rs", "src/parser.rs"],
 [("swapper", "src/translator/swap.rs"), ("length check", "src/parser.rs fail_if_differing_number_of_replacements")],
 MODEL, "10 swap definitions x 28 rules x second rules x all texts to length 4, both directions.")

prop("P19", "Rules marked nocross never span a hyphenation point",
 "With a hyphenation dictionary in the table, a rule marked not to cross syllables applies forward only where no hyphenation point of the dictionary lies strictly inside the text it covers, and the next best rule is used instead; other rules, computer braille, and tables without a dictionary are unaffected. "
 "The hyphenation points are those of the dictionary's patterns (highest digit at each place, odd means break, at least the dictionary's or default margins from both ends of the word; of several patterns with the same letters the last counts), and an ill-formed dictionary is reported when the table is loaded.",
 ["inputs", "configurations"], "all dictionaries of small patterns, all words", "Tests use one dictionary and two words.",
 ["src/hyphenation.rs", "src/translator/position_constraints.rs", PRI],
 [("dictionary", "src/hyphenation.rs parse, break_points"), ("constraint", "src/translator/position_constraints.rs HyphenationConstrainer"), ("filter", PRI + " nocross_candidates")],
 MODEL + "; tables are loaded from files with dictionaries", "All dictionaries of up to two of a pool of patterns and headers x rules x all words.")

prop("P20", "Punctuation rules for word edges apply only at word edges",
 "A rule for punctuation before a word applies exactly to punctuation that no letter stands directly before and that a letter or digit follows before the next space; one for punctuation after a word applies exactly in the mirrored position. "
 "These rules are used from print to braille only.",
 ["inputs"], "all texts", "Tests check one word.",
 ["src/translator/position_constraints.rs", PRI],
 [("constraint", "src/translator/position_constraints.rs PunctuationConstrainer::compute")],
 MODEL, "All ordered pairs of 15 rules x all texts over letters, digits, brackets, comma and space to length 4.")

prop("P21", "Escapes and dot patterns denote exactly their characters and cells",
 "Every escape sequence in an operand stands for its documented character wherever characters may be written, and an invalid one is reported. "
 "A dot pattern denotes the cell with exactly those dots (any subset of dots 1-15, in any order), cells joined in sequence, 0 being the blank cell, and anything else is reported.",
 ["inputs"], "all escape sequences and dot patterns up to the bound; all 32768 cells", "Tests parse a few escapes and cells.",
 ["src/parser.rs", "src/parser/braille.rs"],
 [("unescape", "src/parser.rs unescape"), ("cells", "src/parser/braille.rs to_unicode")],
 MODEL, "All strings over the escape alphabet to length 5, over the dot alphabet to length 4, all 32768 cells.")

prop("P22", "Includes expand in place, once resolved, with every error reported",
 "Loading a table file behaves as if each include line were replaced by the rules of the named file, taken from the first directory of the search path that has it; a file may be included more than once along different paths but never from within itself, and chains deeper than the limit are refused. "
 "Every ill-formed line of a file is reported with file and line, every missing, unreadable or circular file that a well-formed file includes is reported too, and any of them rejects the whole table; loading several files is loading their concatenation.",
 ["configurations", "fault_sequences"], "all include graphs on three files, all placements of faults, all search paths", "Tests include one file once.",
 ["src/parser.rs", "src/lib.rs", "src/translator.rs"],
 [("expansion", "src/parser.rs expand_include, expand_includes"), ("depth limit", "src/parser.rs MAX_INCLUDE_DEPTH"), ("file reading", "src/parser.rs table_file")],
 "explicit-state enumeration of include graphs and file faults, against a reference expansion; each configuration laid out on disk and loaded by the real code",
 "All graphs on three files of up to two or three lines from a pool, with faults (missing, directory, not UTF-8, dangling and looping links), in two search directories.",
 ["result of loading table files: the rules in effect, or the list of errors"])

prop("P23", "Rules restricted to one direction have no effect in the other",
 "A rule with the prefix nofor has no effect whatsoever on forward translation and one with noback none on backward translation: the output equals that of the table without the rule. "
 "In its own direction the rule behaves as without the prefix.",
 ["inputs"], "all opcodes that take the prefixes, all prefix combinations, all texts", "Tests check a few opcodes in one direction.",
 ["src/parser.rs", PRI, "src/translator/pipeline.rs"],
 [("directions", "src/parser.rs HasDirection for Rule"), ("filter", "src/translator/pipeline.rs compile")],
 MODEL, "All opcodes x 18 prefix combinations x both directions x all texts to length 4.")

prop("P24", "The command line translates like the library and traces what it did",
 "The translate command prints exactly the library's translation of its argument or of each input line, in the requested direction, or nothing but the errors if the table cannot be loaded. "
 "The trace command prints the same translation and then, in order, every step of the main stage and every step of the other stages made by a rule, each with the text consumed, the text written, the rule responsible and the stage.",
 ["inputs", "configurations"], "all tables and texts of the pools, both directions, both styles, argument and line input", "The command line has no tests.",
 ["src/main.rs", "src/translator/pipeline.rs", "src/translator/translation.rs"],
 [("commands", "src/main.rs translate, trace, repl"), ("trace", "src/translator/pipeline.rs trace")],
 "reference model predicts every step of every stage; model traces are compared with the trace the command prints", "Tables of all features and pairs of features x a set of texts, both directions.",
 ["standard output of the command line tool"])

prop("P25", "The test runner passes a case exactly when the translation is as expected",
 "The check command reports a case of a test file as a success exactly when translating its input with the named tables, in each direction its mode asks for, gives the expected output after the file's display table has been applied, and as a failure otherwise; a case marked as expected failure counts as expected failure when it fails and as unexpected success when it passes. "
 "The counts printed per file and in total are the counts of its cases.",
 ["inputs", "configurations"], "all modes, flags, expectations and table definitions of the pools", "The runner has no tests of its own.",
 ["src/yaml.rs", "src/test.rs", "src/main.rs", "src/translator.rs"],
 [("parser", "src/yaml.rs"), ("verdict", "src/test.rs Test::check"), ("display table", "src/translator.rs DisplayTable"), ("summary", "src/main.rs check_yaml")],
 "reference model of the runner's verdicts; all combinations of mode, expectation, expected-failure marks and displays laid out as test files and run by the real command", "Product of modes x directions x xfail marks x right/wrong expectations x display tables x table forms.",
 ["standard output of the command line tool"])

prop("P26", "Queries find exactly the tables whose metadata match",
 "The query command lists exactly the table files on the search path whose metadata lines (#+key:value) contain every key and value asked for. "
 "A file without such lines, an unreadable file or another query does not affect the answer, and a malformed query is reported.",
 ["configurations", "inputs"], "all sets of metadata lines over three files, all queries", "The index has no tests.",
 ["src/metadata.rs", "src/main.rs"], [("index", "src/metadata.rs index"), ("lookup", "src/metadata.rs find")],
 "explicit-state enumeration of metadata placements and queries against a set-based model; each configuration laid out on disk and queried with the real command",
 "All sequences of up to two (thorough three) lines of 27 kinds, one file each, x all queries of one to two (three) of 24 conditions; all kinds of files in three places x orders of the search path.",
 ["standard output of the command line tool"])

prop("P27", "Backward translation restores capitals from the capital signs",
 "Reading braille back, a capital-letter sign capitalises exactly the next letter and a capital-word sign every letter up to its end sign or the end of the word, and the signs themselves do not appear in the text. "
 "Cells that coincide with a sign but belong to a rule of the table are read as that rule and mark nothing.",
 ["inputs"], "all sign settings, all cell sequences", "Tests read back three words.",
 ["src/translator/position_constraints.rs", PRI], [("constraint", "src/translator/position_constraints.rs BackwardCapsConstrainer::compute"), ("signs", PRI + " insert_backward_indicator")],
 MODEL, "Product of sign settings x all cell sequences to length 4 and sign/letter sequences of up to 4 pieces.")

prop("P28", "Backward translation reads digits after the number sign",
 "Reading braille back, cells shared by digits and letters are digits from a number sign until the run of digit cells ends or a non-number sign stands, and letters elsewhere; the signs do not appear in the text, and cells of a sign that belong to the cells of another rule mark nothing.",
 ["inputs"], "all sign settings, all cell sequences", "Tests read back two numbers.",
 ["src/translator/position_constraints.rs", PRI], [("constraint", "src/translator/position_constraints.rs BackwardNumericConstrainer::compute"), ("override", PRI + " register_backward_digit_override")],
 MODEL, "Product of sign settings x all cell sequences to length 4.")

prop("P29", "The parse command lists the rules of a table in order with their origin",
 "The parse command lists every rule of a table with its includes in place, one per line and in order, each with its kind, the file it stands in and its line, or nothing but the errors if there are any. "
 "Without a table it answers every line it reads that is neither empty nor a comment by the rule it is or by an error.",
 ["inputs", "configurations"], "all opcodes and operands of the pools, all include graphs of two files", "The command line has no tests.",
 ["src/main.rs", "src/parser.rs"], [("commands", "src/main.rs parse, parse_line, repl"), ("origin of rules", "src/parser.rs AnchoredRule"), ("expansion", "src/parser.rs expand_includes")],
 "explicit-state enumeration of include graphs and rule lines against the reference parser; each laid out on disk and listed by the real command",
 "All pairs of files of up to two lines from a pool; every opcode with every prefix, arity and operand probe, line by line.",
 ["standard output of the command line tool"])

NOT_APPLICABLE = json.load(open(os.path.join(ROOT, "tools/not_applicable.json")))
na = {x["property"] for x in NOT_APPLICABLE}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")

checks = [dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
               evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="model_checking", level_note=p["note"])
          for p in P if p["id"] not in na]
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=NOT_APPLICABLE,
    notes="One Rust program (mc/) holds the reference model and all suites; it is rebuilt from /repo's current tree by every check. Known findings: known_findings.txt."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
