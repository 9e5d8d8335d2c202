#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}
    if observe: anchors["observe_at"] = observe
    if state: anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    anchors["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})

LX = ["lexan/src/lexicon.rs", "lexan/src/matcher.rs", "lexan/src/analyzer.rs", "lexan/src/lib.rs"]
RT = ["lalr1/src/lib.rs", "alalr1/src/lib.rs"]
def lib(*n): return [c + "/src/" + x for c in ("lalr1_lib", "alalr1_lib") for x in n]

# ---------------------------------------------------------------- lexer
p("L01", "Longest-match token selection with literal priority and ambiguity detection",
  "At every position the lexical analyser returns the longest match: a literal when no regular expression match is strictly longer, otherwise the single regular expression with the longest match. "
  "When two or more regular expressions tie for a match strictly longer than any literal, an ambiguous-match error naming all of them is returned. "
  "When nothing matches, an unexpected-text error covering the text up to the next position at which anything (literal, regular expression or skip rule) matches is returned.",
  ["inputs", "configurations"], "every lexicon and every text",
  "The tests sample one lexicon and a few texts; tie-breaking, multi-way ambiguity and shared-prefix literals are never exercised.",
  LX, [("BasicTokenStream::next", "lexan/src/analyzer.rs"), ("LiteralMatcher::longest_match", "lexan/src/matcher.rs"),
       ("RegexMatcher::longest_matches", "lexan/src/matcher.rs"), ("Lexicon::distance_to_next_valid_byte", "lexan/src/lexicon.rs")],
  ["TokenStream::front"])
p("L02", "Lexemes are exact, contiguous slices of the input",
  "Every token and every lexical error carries exactly the input text that was matched (or rejected) at the current position, and the next scan starts at the first byte after it. "
  "Between two consecutive lexemes only text matched by skip rules is dropped; no byte is delivered twice or lost.",
  ["inputs"], "every text, lexicon and advance sequence",
  "Tests compare a handful of lexemes; loss or duplication for other match kinds and positions is not observed.",
  LX, [("BasicTokenStream::next / incr_index_and_location", "lexan/src/analyzer.rs")], ["Token::lexeme"],
  [("index", "byte position of the scan", "lexan/src/analyzer.rs")])
p("L03", "Token and error locations are the line and column of the first byte",
  "Every token and lexical error reports the label of its own source text and the one-based line number and offset at which its first byte lies, lines being separated by line feeds. "
  "Skipped text, rejected text and multi-line lexemes all advance the location, and a location is rendered as label:line:offset, the label quoted when it contains blanks and omitted when empty.",
  ["inputs"], "every text, mix of line endings, label and injection nesting",
  "One test moves over a single newline; mixed line endings, multi-line lexemes and errors are not sampled.",
  LX, [("BasicTokenStream::incr_index_and_location", "lexan/src/analyzer.rs"), ("Location", "lexan/src/analyzer.rs")], ["Token::location", "Display for Location"],
  [("location", "line and offset of the scan position", "lexan/src/analyzer.rs")])
p("L04", "Lexing always progresses and never splits a character",
  "For any UTF-8 text the lexical analyser only ever cuts the text at character boundaries, so it never panics on non-ASCII input. "
  "Each advance that yields a token or error consumes at least one byte, and skipping terminates, even when a regular expression can match the empty string.",
  ["inputs", "configurations"], "every UTF-8 text and lexicon, including patterns that match the empty string",
  "All test texts are ASCII and no test pattern can match the empty string.",
  LX, [("Lexicon::distance_to_next_valid_byte", "lexan/src/lexicon.rs"), ("SkipMatcher::skippable_count", "lexan/src/matcher.rs"), ("RegexMatcher::longest_matches", "lexan/src/matcher.rs")], ["TokenStream::advance"])
p("L05", "Patterns match only at the current position and skip rules are exhausted",
  "A regular expression or skip rule, including one with top-level alternatives, only matches text that starts exactly at the current position. "
  "Before a token is looked for, skip rules are applied repeatedly until none matches, and skipped text never becomes a token.",
  ["inputs", "configurations"], "every pattern and text",
  "Patterns in tests are parenthesised and followed by matching text, so an unanchored alternative cannot show.",
  LX, [("RegexMatcher::new, SkipMatcher::new", "lexan/src/matcher.rs"), ("SkipMatcher::skippable_count", "lexan/src/matcher.rs"), ("BasicTokenStream::next", "lexan/src/analyzer.rs")])
p("L06", "A lexicon is only built from distinct handles and non-empty valid patterns",
  "Constructing a lexicon fails, with an error naming the culprit, whenever two token handles (the end marker included) or two patterns are equal, a pattern is empty, or a regular expression is malformed. "
  "A lexicon that is built contains exactly the given literals, regular expressions, skip rules and end marker.",
  ["configurations"], "every list of literals, regular expressions, skip rules and end marker",
  "Tests check a few duplicates; empty and malformed patterns and duplicates in other positions are not covered.",
  LX, [("Lexicon::new", "lexan/src/lexicon.rs"), ("LiteralMatcher::new, RegexMatcher::new, SkipMatcher::new", "lexan/src/matcher.rs")])
p("L07", "Injected text is read first and the end marker is delivered exactly once",
  "Injecting text makes its first token the current one; its tokens are all delivered before the interrupted text resumes at the token that was current, and injecting text without tokens changes nothing. "
  "After the last token of the outermost text the end marker is delivered once, located at the end of that text, and any later advance yields an advanced-when-empty error.",
  ["inputs", "histories"], "every interleaving of advance and inject over every text",
  "One short history is tested; nested injection at end of text and repeated advance after the end are not.",
  LX, [("TokenStream::inject, TokenStream::advance, front, front_advance, advance_front", "lexan/src/analyzer.rs")], ["TokenStream::front"],
  [("token_stream_stack", "the texts being read, innermost last", "lexan/src/analyzer.rs")])
# ---------------------------------------------------------------- runtime
p("R01", "The parser runtime performs exactly the table's shift, reduce and accept",
  "In both runtimes a parse starts in state 0 and repeatedly does what the table says for the state on top and the current token: a shift pushes the token with the given state and advances once; a reduce pops exactly the production's right-hand side, calls its semantic action once with those attributes in order, and pushes the result with the go-to state of the uncovered state; accept ends the parse. "
  "State and attribute stacks stay in step and no token is consumed or repeated by a reduce. Text injected by a semantic action is read next.",
  ["inputs", "programs"], "every grammar table, text and semantic action",
  "Tests parse a few calculator expressions with one hand-made table.",
  RT, [("Parser::parse_text", "*/src/lib.rs"), ("ParseStack", "*/src/lib.rs")], ["Parser::parse_text"],
  [("states / attributes", "the parse stack", "*/src/lib.rs")])
p("R02", "Every error is reported once with its expected tokens and fails the parse",
  "In both runtimes each syntax or lexical error is reported exactly once, carrying the offending token (or lexical error) and the set of tokens expected in the state where it was met. "
  "A parse that met any error returns the last one as an error, even when recovery succeeded, and a parse that met none returns success.",
  ["inputs", "histories"], "every text, table and sequence of errors",
  "Tests do not check results after successful recovery nor the number of reports.",
  RT, [("Parser::parse_text", "*/src/lib.rs"), ("ReportError::report_error", "*/src/lib.rs")], ["Parser::parse_text", "ReportError::report_error"])
p("R03", "Error recovery unwinds to the topmost viable state, else skips tokens",
  "After an error both runtimes discard input tokens until some state on the stack can recover with the current token, pick the topmost such state, pop everything above it, push the error with the error go-to state of that state, and resume with the token unread. "
  "Every state on the stack, the initial one included, is a candidate, a state just used for recovery is not chosen again, and when the input ends first the parse fails with the error.",
  ["inputs", "histories"], "every table, stack content and remaining input",
  "The test grammar recovers in one state only; candidate order, the bottom of the stack and exhaustion are not exercised.",
  RT, [("ParseStack::distance_to_viable_state", "*/src/lib.rs"), ("Parser::recover_from_error", "*/src/lib.rs")], ["Parser::parse_text"])
# ---------------------------------------------------------------- generator
p("G01", "FIRST sets and nullability are the least fixpoint over the productions",
  "For every grammar the generators compute, for each non-terminal, exactly the tokens that can start one of its derivations and whether it can derive the empty string. "
  "This includes left-recursive, indirectly recursive and mutually nullable non-terminals, on which computation terminates.",
  ["programs"], "every grammar specification",
  "No unit test computes FIRST sets; the examples have no indirect left recursion and few nullable symbols.",
  lib("symbol/non_terminal.rs", "grammar.rs", "symbol/terminal.rs"), [("NonTerminal::set_firsts_data / Specification::new", "*_lib/src"), ("TokenSet::first_all_caps", "*_lib/src/symbol/terminal.rs")])
p("G02", "State closure adds every derivable item with every look-ahead token",
  "For each item whose next symbol is a non-terminal, closure adds every production of that non-terminal at its start, with look-ahead tokens FIRST(rest of the item followed by the item's look-ahead), until nothing changes. "
  "Existing items only ever gain look-ahead tokens.",
  ["programs"], "every grammar and item set", "Only the end-to-end example grammar is generated in tests.",
  lib("grammar.rs", "production.rs", "symbol/terminal.rs"), [("Specification::closure", "*_lib/src/grammar.rs"), ("TokenSet::first_all_caps", "*_lib/src/symbol/terminal.rs"), ("GrammarItemKey", "*_lib/src/production.rs")])
p("G03", "States are merged by kernel and reprocessed until look-aheads are stable",
  "The automaton has one state per distinct kernel, starting from the start item with the end token as look-ahead; every state has a transition on every symbol that follows a dot, to the state whose kernel is the shifted items. "
  "When reaching an existing state adds any look-ahead token to any of its items, that state is processed again so that the look-aheads end as the LALR(1) fixpoint.",
  ["programs"], "every grammar", "Look-ahead propagation across merged states needs particular grammars no test uses.",
  lib("grammar.rs", "state.rs", "production.rs"), [("Grammar::try_from", "*_lib/src/grammar.rs"), ("ParserState::merge_lookahead_sets", "*_lib/src/state.rs"), ("Grammar::equivalent_state", "*_lib/src/grammar.rs")])
p("G04", "Shift/reduce conflicts are resolved by precedence, then associativity",
  "On a shift/reduce conflict the higher precedence of the token and the production wins; at equal precedence a left-associative production is reduced, a production ending in the error symbol loses silently, and otherwise the shift is kept and the conflict counted as unresolved. "
  "The losing action, and nothing else, is removed from the state.",
  ["programs"], "every grammar with conflicts", "No test has conflicting grammars except the calculator's.",
  lib("state.rs"), [("ParserState::resolve_shift_reduce_conflicts", "*_lib/src/state.rs")])
p("G05", "Reduce/reduce conflicts are resolved in favour of the first production",
  "When two productions can be reduced on the same tokens, the one declared first keeps them, except that a production ending in the error symbol gives way to one that does not; apart from that exception the conflict is counted as unresolved. "
  "Only the common tokens of the losing production are removed.",
  ["programs"], "every grammar with conflicts", "No test grammar has a reduce/reduce conflict.",
  lib("state.rs", "production.rs"), [("ParserState::resolve_reduce_reduce_conflicts", "*_lib/src/state.rs")])
p("G06", "Unexpected conflict counts reject the grammar",
  "A grammar whose number of unresolved shift/reduce or reduce/reduce conflicts, summed over all states, differs from the declared expected number is rejected with an error describing the states concerned, unless the corresponding ignore option is given. "
  "When both numbers agree or are ignored the grammar is accepted.",
  ["programs", "configurations"], "every grammar, declaration and option combination", "Only the conflict-free example is generated.",
  lib("grammar.rs"), [("Grammar::try_from, Grammar::resolve_conflicts", "*_lib/src/grammar.rs")])
p("G07", "A specification with errors or undefined symbols never yields a parser",
  "A specification in which any non-terminal is used but not defined, or in which any error was reported while it was read, is rejected: no grammar object, and so no parser, is produced. "
  "Every use of an undefined non-terminal is reported with its location, and unused tokens, tags and non-terminals only cause warnings.",
  ["programs"], "every specification", "No test feeds an erroneous specification.",
  lib("grammar.rs", "symbol.rs", "symbol/non_terminal.rs"), [("Grammar::try_from", "*_lib/src/grammar.rs"), ("Specification::error", "*_lib/src/grammar.rs")])
p("G08", "Symbol table lookups and duplicate detection",
  "Defining a tag, token name, literal text, regular expression or skip rule a second time, or a non-terminal with a token's name, is an error naming the other definition. "
  "A name used in a production denotes the token of that name if there is one, otherwise the non-terminal of that name, which is created on first use; each use and definition is recorded at its location.",
  ["programs"], "every specification", "Not tested at all.",
  lib("symbol.rs", "symbol/tag.rs", "symbol/terminal.rs", "symbol/non_terminal.rs"), [("SymbolTable", "*_lib/src/symbol.rs")])
p("G09", "Precedence declarations and the precedence of productions",
  "Each precedence declaration gives all its tokens and tags its associativity and a level strictly higher than every earlier declaration; undeclared ones are non-associative at level zero. "
  "A production has the associativity and precedence of its explicit tag or, without one, of its first terminal, or level zero when it has none.",
  ["programs"], "every specification", "Only the calculator's two levels are exercised end to end.",
  lib("symbol.rs", "symbol/terminal.rs", "symbol/tag.rs", "production.rs"), [("SymbolTable::set_precedences", "*_lib/src/symbol.rs"), ("ProductionTail::new", "*_lib/src/production.rs")])
p("G10", "Generated action and go-to tables encode exactly the resolved automaton",
  "For every state the generated parser shifts on exactly the state's shift tokens to the recorded states, reduces each reducible production on exactly its remaining look-ahead tokens (accepting for the start production), and treats every other token as a syntax error. "
  "The generated go-to table has exactly the recorded non-terminal transitions.",
  ["programs"], "every grammar", "Only one generated parser is ever run.",
  lib("state.rs", "grammar.rs", "production.rs", "symbol/terminal.rs"), [("write_next_action_code, write_goto_table_code, GrammarItemSet::reductions", "*_lib/src")])
p("G11", "Generated production data and semantic actions match the specification",
  "The generated parser knows each production's left-hand side and length, and runs a production's action, if it has one, when that production is reduced, starting from the first right-hand-side attribute (or the default) as result. "
  "In actions `$n` denotes the n-th right-hand-side attribute, `$$` the result and `$INJECT` the injection function; a `$n` outside the production is reported as an error in the specification.",
  ["programs"], "every specification", "Only small actions of one grammar are run.",
  lib("production.rs", "grammar.rs"), [("Production::expanded_action", "*_lib/src/production.rs"), ("write_production_data_code, write_semantic_action_code", "*_lib/src/grammar.rs")])
p("G12", "Generated error-recovery and expected-token tables match the automaton",
  "A state is a recovery state for a token exactly when it has a transition on the error symbol to a state that can reduce a production ending in the error symbol on that token; its error go-to state is that transition's target. "
  "The expected tokens of a state are exactly the tokens it shifts or reduces on.",
  ["programs"], "every grammar", "The tests' table was written by hand; no generated recovery table is checked.",
  lib("state.rs", "grammar.rs", "production.rs"), [("is_recovery_state_for_token, look_ahead_set, error_goto_state_ident, write_error_recovery_code, write_look_ahead_set_code", "*_lib/src")])
p("G13", "Generated lexer tables, enums and names match the declared symbols",
  "The generated terminal enum has the end token and every declared token, the non-terminal enum every non-terminal in use, and the generated lexical analyser gets exactly the declared literals, regular expressions and skip rules with their own handles. "
  "Each symbol is displayed by its text or name, whatever characters the text contains.",
  ["programs"], "every specification", "One specification is generated; texts containing format characters are not sampled.",
  lib("grammar.rs", "symbol.rs", "symbol/terminal.rs"), [("write_symbol_enum_code, write_lexical_analyzer_code", "*_lib/src/grammar.rs")])
p("G14", "Generation is deterministic",
  "Generating from the same specification always produces the same text: nothing in the output or in any decision depends on hash iteration order, time, randomness, environment, addresses or what the process did before.",
  ["programs", "histories", "schedules"], "every specification, process and run", "A single run cannot reveal order or history dependence.",
  lib("grammar.rs", "state.rs", "production.rs", "symbol.rs", "lib.rs"), [("BTree collections throughout; production identifiers per specification", "*_lib/src")])
p("G15", "Productions are numbered 0,1,2,... per specification, the start one being 0",
  "Within each specification productions are numbered consecutively from zero in declaration order; number zero is the generated start production deriving the first declared non-terminal, and it alone is accepted rather than reduced. "
  "The dummy production of the error symbol, present only when the symbol is used, comes last.",
  ["programs", "histories"], "every specification, and any number of them in one process", "Tests generate at most one grammar per process.",
  lib("production.rs", "grammar.rs"), [("Production::new, Specification::new_production, Specification::new", "*_lib/src")])
p("G16", "Predicates guard their reductions in the augmented generator",
  "In the augmented generator a production with a predicate is reduced only when its predicate holds; candidates sharing a token are tried in declaration order, the unpredicated one last, and when all predicates fail the token is a syntax error. "
  "In a predicate `$n` denotes the n-th right-hand-side attribute on the stack and `$?` the current token's tag.",
  ["programs"], "every augmented specification", "No test uses predicates.",
  ["alalr1_lib/src/state.rs", "alalr1_lib/src/production.rs"], [("write_next_action_code, expanded_predicate, resolve_reduce_reduce_conflicts", "alalr1_lib/src")])
p("T01", "Checked-in parser tables are the LALR(1) tables of the checked-in grammars",
  "The specification parsers shipped in both generator libraries encode, state for state, the LALR(1) automaton of the grammar file they were generated from: actions, go-to entries, production data, expected tokens and recovery states, and the lexer tables. ",
  ["inputs"], "every state and token of both shipped parsers", "Tests parse a few specifications, touching a small part of the tables.",
  lib("parser.rs") + ["lalr1_lib/src/parser.laps", "alalr1_lib/src/parser.alaps"], [("generated next_action, goto_state, production_data, look_ahead_set", "*_lib/src/parser.rs")])
p("T03", "Specification-reading actions build the model the specification text describes",
  "For every production of the specification language the shipped parser's action records what the text says: tokens, skip rules, precedence levels, attribute and target types, expected conflicts, productions with their symbols, tag, predicate and action text, in order. "
  "Each mistake that an action detects is reported and counted, and leaves a value of the right kind so that reading continues without a panic.",
  ["inputs"], "every specification text, including erroneous ones", "Erroneous specifications are not tested.",
  lib("parser.rs", "attributes.rs", "grammar.rs"), [("do_semantic_action", "*_lib/src/parser.rs"), ("AttributeData accessors", "*_lib/src/attributes.rs")])
p("C01", "Generators never overwrite an existing output without --force",
  "Without the force option neither generator creates, truncates or writes any file that already exists, neither the parser nor the states description; it says so and exits with a failure status. "
  "With it, or when the files do not exist, they are written.",
  ["configurations", "inputs"], "every option combination and file system content", "The command-line programs have no tests.",
  ["lalr1_gen/src/main.rs", "alalr1_gen/src/main.rs"], [("main", "*_gen/src/main.rs")])
p("C02", "Any failure gives a non-zero exit status and no parser file",
  "Whenever the specification cannot be read, does not parse, is rejected, or an output file cannot be written, the generators print a message and exit with a non-zero status. "
  "When the failure precedes writing, no output file has been created or touched; status zero means that both files were written.",
  ["configurations", "inputs", "fault_sequences"], "every failure point", "The command-line programs have no tests.",
  ["lalr1_gen/src/main.rs", "alalr1_gen/src/main.rs"] + lib("lib.rs"), [("main", "*_gen/src/main.rs"), ("ParserGenerator", "*_lib/src/lib.rs")])
p("C03", "No write error is dropped while generating",
  "Every error from creating or writing the parser or description file is returned to the caller as an error, and nothing more is written after it. "
  "Success is returned only when every part was written.",
  ["fault_sequences"], "a failure of any write", "Tests never make a write fail.",
  lib("grammar.rs", "state.rs", "lib.rs"), [("write_* methods", "*_lib/src")])
p("C04", "%inject includes the named file in place, or reports why not",
  "An inject directive makes the content of the named file be read, labelled with its path, immediately after the directive's terminating dot. "
  "A missing, unreadable or empty file is reported as an error at the directive's location and counted, and reading continues.",
  ["inputs", "fault_sequences"], "every file content and failure", "No test injects a file.",
  lib("parser.rs"), [("InjectionHead action", "*_lib/src/parser.rs")])
# ---------------------------------------------------------------- not claimed
p("N01", "A generated parser always compiles",
  "For every accepted specification the generated Rust file compiles when its preamble, actions and attribute type do.",
  ["programs"], "every specification", "One generated parser is compiled.",
  lib("grammar.rs", "state.rs"), [("writers", "*_lib/src")])
p("N02", "Parsing terminates for every text",
  "parse_text returns for every grammar, text and semantic action, whatever the actions inject and whatever predicates decide.",
  ["inputs", "programs"], "every action", "Not a finite set.",
  RT, [("Parser::parse_text", "*/src/lib.rs")])
p("N03", "Literal token escapes denote the characters they spell",
  "A literal token in a specification is matched in the text as the characters its escape sequences denote.",
  ["programs"], "every literal", "Only plain literals are used.",
  lib("grammar.rs"), [("write_lexical_analyzer_code", "*_lib/src/grammar.rs")])
p("N04", "Lexing and generation scale acceptably",
  "Lexing is linear in the text up to regular expression cost and generation finishes in reasonable time for practical grammars.",
  ["inputs", "programs"], "every input size", "No performance tests.",
  LX, [("matchers", "lexan/src/matcher.rs")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
