"""Which functions carry which property.

Every function of the workspace is listed with the properties its behaviour matters to.  Names are canonical:
generic arguments removed and the augmented crates written like the plain ones (`alalr1_lib` -> `lalr1_lib`)."""
import re

from mir import strip_generics

CRATES = ('alalr1_lib', 'alalr1_gen', 'alalr1')
_m = {}


def canon(p):
    r = _m.get(p)
    if r is None:
        q = p.replace('alalr1', 'lalr1')
        # impl blocks are named in several ways: <S as Trait>::m, mod::<impl Trait for S>::m
        m = re.match(r"^(?:[\w:]*)?<(?:impl )?(.*)>::([\w:]+)$", q) if '<impl ' in q else None
        if m:
            t = m.group(1)
            if ' for ' in t:
                tr, s = t.split(' for ', 1)
                q = '<%s as %s>::%s' % (s, tr, m.group(2))
        m = re.match(r'^<(.*) as (.*?)>::([\w:]+)$', q)
        if m:
            s = strip_generics(m.group(1)).split(' ')[-1].lstrip('&')
            t = m.group(2)
            tn = strip_generics(t).split('::')[-1]
            arg = re.search(r'<(.*)>$', t)
            a = ''
            if arg and tn in ('From', 'TryFrom', 'Index', 'BitOrAssign', 'FromIterator'):
                a = '<' + '|'.join(re.findall(r'(\w+)(?=$|[,<>)])', arg.group(1)))[:60] + '>'
            r = '%s as %s%s::%s' % (s, tn, a, m.group(3))
        else:
            r = strip_generics(q)
        _m[p] = r
    return r


# regular expression on the canonical name -> properties
TABLE = '''
# ------------------------------------------------------------------ lexan
lexan::LexicalAnalyzer::new                              L06 L01
lexan::LexicalAnalyzer::token_stream                     L02 L03 L07
lexan::analyzer::BasicTokenStream::advance               L02 L04 L07
lexan::analyzer::BasicTokenStream::front                 L01 L02 L07
lexan::analyzer::BasicTokenStream::incr_index_and_location  L02 L03 L04
lexan::analyzer::BasicTokenStream::is_empty              L07
lexan::analyzer::BasicTokenStream::location              L03 L07
lexan::analyzer::BasicTokenStream::new                   L01 L02 L03 L05 L07
lexan::analyzer::BasicTokenStream::next                  L01 L02 L03 L04 L05 L07
lexan::analyzer::Error::is_\\w+                           L07 R02 R03
lexan::analyzer::Error as Display::fmt                   L01 L03 R02
lexan::analyzer::Error as (PartialEq|Clone).*            L01 L07
lexan::analyzer::List as .*                              L01
lexan::analyzer::Location::(new|line_number|offset|label)  L03
lexan::analyzer::Location as (Display|Clone|Default|PartialEq|Ord|PartialOrd).*  L03
lexan::analyzer::Token::lexeme                           L02
lexan::analyzer::Token::location                         L03
lexan::analyzer::Token::tag                              L01 R01
lexan::analyzer::Token as Display::fmt                   L03
lexan::analyzer::Token as (Clone|PartialEq).*            L02 L07
lexan::analyzer::TokenStream::new                        L03 L07
lexan::analyzer::TokenStream::(advance|front|advance_front|front_advance)  L07 L02 R01 R02 R03
lexan::analyzer::TokenStream::inject                     L07 L03 C04 R01
lexan::analyzer::TokenStream::is_empty                   L07 R01 R03
lexan::lexicon::Lexicon::distance_to_next_valid_byte     L01 L02 L04
lexan::lexicon::Lexicon::end_marker                      L06 L07
lexan::lexicon::Lexicon::longest_(literal|regex)_match(es)?  L01 L02 L04
lexan::lexicon::Lexicon::new                             L06 L05
lexan::lexicon::Lexicon::skippable_count                 L05 L02 L04
lexan::lexicon::Lexicon as .*                            L06
lexan::matcher::LiteralMatcher::(longest_match|matches)  L01 L04
lexan::matcher::LiteralMatcher(Node)?::(new|add)         L06 L01 L02 L04
lexan::matcher::RegexMatcher::(longest_matches|matches)  L01 L04 L05
lexan::matcher::RegexMatcher::new                        L05 L06
lexan::matcher::SkipMatcher::(skippable_count|matches)   L04 L05 L01
lexan::matcher::SkipMatcher::new                         L05 L06
lexan::matcher::anchored_regex                           L05 L06
lexan::matcher::non_empty_match                          L01 L04 L05
lexan::matcher::\\w+ as Default::default                  L06
lexan::error::LexanError as .*                           L06

# ------------------------------------------------------------------ runtimes
lalr1::OrderedSet::\\w+                                   R02 R03
lalr1::OrderedSet as (Display|FromIterator|IntoIterator|Default|Clone|PartialEq).*  R02 R03
lalr1::ParseStack::(new|current_state|push_terminal|push_non_terminal)  R01
lalr1::ParseStack::(at_len_minus_n|pop_n)                R01 R03
lalr1::ParseStack::(distance_to_viable_state|is_last_error_state|push_error)  R03
lalr1::Parser::do_semantic_action                        R01
lalr1::Parser::error_goto_state                          R03
lalr1::Parser::parse_text                                R01 R02 R03
lalr1::Parser::recover_from_error                        R02 R03
lalr1::ReportError::report_error                         R02
lalr1::Error as .*                                       R02
lalr1::Symbol as .*                                      R01
lalr1::Action as .*                                      R01

# ------------------------------------------------------------------ library: entry points
lalr1_lib::ParserGenerator::new                          C02 G06 G07
lalr1_lib::ParserGenerator as TryFrom.*                  C02 G06 G07
lalr1_lib::ParserGenerator::write_parser_code_to_file    C02 C03
lalr1_lib::Error as .*                                   C02
lalr1_lib::grammar::Error as .*                          C02 G06 G07

# specification reading
lalr1_lib::attributes::AttributeData::predicate          T03 G16
lalr1_lib::attributes::AttributeData.*                   T03
lalr1_lib::grammar::Specification::new                   T03 G01 G07 G15 C02
lalr1_lib::grammar::Specification::(new_production|push_production)  G15 T03
lalr1_lib::grammar::Specification::(error|warning)       G07
lalr1_lib::grammar::report_(error|warning)               G07
lalr1_lib::grammar::Specification as (ReportError|Default).*  G07 T03
lalr1_lib::grammar::Specification::is_allowable_name     T03
lalr1_lib::grammar::Specification::set_preamble          T03
lalr1_lib::grammar::Specification::write_preamble_text   T03 G13 C03
lalr1_lib::grammar::Specification as Parser::do_semantic_action  T03 C04 G06 G07 G08 G09 G11 G15 G16
lalr1_lib::grammar::Specification as Parser::(lexical_analyzer|next_action|goto_state|production_data|look_ahead_set|viable_error_recovery_states|error_goto_state)  T01
lalr1_lib::parser::AA\\w+ as .*                           T01

# automaton
lalr1_lib::grammar::Specification::closure               G02
lalr1_lib::grammar::Grammar as TryFrom.*                 G02 G03 G06 G07
lalr1_lib::grammar::Grammar::(equivalent_state|first_unprocessed_state|new_parser_state)  G03
lalr1_lib::grammar::Grammar::resolve_conflicts           G04 G05 G06
lalr1_lib::grammar::Grammar::describe_\\w+                G06
lalr1_lib::grammar::Grammar::error_recovery_state_set_for_token  G12
lalr1_lib::grammar::Grammar::format_u32_set              G12
lalr1_lib::grammar::Grammar::write_description           C03 G06
lalr1_lib::grammar::Grammar::write_error_recovery_code   G12 C03
lalr1_lib::grammar::Grammar::write_goto_table_code       G10 G12 C03
lalr1_lib::grammar::Grammar::write_next_action_code      G10 G16 C03
lalr1_lib::grammar::Grammar::write_lexical_analyzer_code  G13 C03
lalr1_lib::grammar::Grammar::write_look_ahead_set_code   G12 C03
lalr1_lib::grammar::Grammar::write_parser_code           G10 G11 G12 G13 C03
lalr1_lib::grammar::Grammar::write_parser_code_to_file   C03
lalr1_lib::grammar::Grammar::write_parser_implementation_code  G10 G11 G12 G13 C03
lalr1_lib::grammar::Grammar::write_symbol_enum_code      G13 C03
lalr1_lib::grammar::Specification::write_production_data_code  G11 C03
lalr1_lib::grammar::Specification::write_semantic_action_code  G11 C03

# items and productions
lalr1_lib::production::GrammarItemKey::(associativity|precedence)  G04 G09
lalr1_lib::production::GrammarItemKey::has_error_recovery_tail  G04 G05
lalr1_lib::production::GrammarItemKey::has_reducible_error_recovery_tail  G12
lalr1_lib::production::GrammarItemKey::(is_closable|rhs_tail)  G02
lalr1_lib::production::GrammarItemKey::is_kernel_item    G03
lalr1_lib::production::GrammarItemKey::is_reducible      G03 G05 G10 G12
lalr1_lib::production::GrammarItemKey::next_symbol(_is)?  G02 G03 G04
lalr1_lib::production::GrammarItemKey::production        G04 G05 G10
lalr1_lib::production::GrammarItemKey::has_no_predicate  G05 G16
lalr1_lib::production::GrammarItemKey::shifted           G03
lalr1_lib::production::GrammarItemKey as (From|Ord|PartialOrd|PartialEq|Clone).*  G02 G03 G05
lalr1_lib::production::GrammarItemKey as Display::fmt    G06
lalr1_lib::production::GrammarItemSet::closable_set      G02
lalr1_lib::production::GrammarItemSet::error_recovery_look_ahead_set_contains  G12
lalr1_lib::production::GrammarItemSet::(generate_goto_kernel|irreducible_key_set|kernel_key_set)  G03
lalr1_lib::production::GrammarItemSet::(get_mut|insert|iter)  G02 G03
lalr1_lib::production::GrammarItemSet::look_ahead_intersection  G05
lalr1_lib::production::GrammarItemSet::reducible_key_set  G04 G05 G12
lalr1_lib::production::GrammarItemSet::reducible_look_ahead_set  G12 G04
lalr1_lib::production::GrammarItemSet::reductions        G10 G16
lalr1_lib::production::GrammarItemSet::remove_look_ahead_symbols  G04 G05
lalr1_lib::production::GrammarItemSet as .*              G02 G03 G04 G05
lalr1_lib::production::Production::(associativity|precedence)  G04 G09
lalr1_lib::production::Production::expanded_action       G11
lalr1_lib::production::Production::(expanded_predicate|has_predicate)  G16
lalr1_lib::production::Production::has_error_recovery_tail  G04 G05 G12
lalr1_lib::production::Production::ident                 G10 G11 G15
lalr1_lib::production::Production::(is_empty|len|right_hand_side_symbols|left_hand_side)  G01 G02 G03 G11
lalr1_lib::production::Production::is_start_production   G10 G15
lalr1_lib::production::Production::new                   G15 G11
lalr1_lib::production::Production as Display::fmt        G06
lalr1_lib::production::Production as .*                  G03 G05 G14
lalr1_lib::production::ProductionId.*                    G15
lalr1_lib::production::ProductionTail::invalid_references  G11 G16
lalr1_lib::production::ProductionTail::new               G09 G11 G16
lalr1_lib::production::ProductionTail.* as .*            G11 G09
lalr1_lib::production::RHS_CRE.*                         G11 G16
lalr1_lib::production::Reductions.*                      G10 G16
lalr1_lib::production::rhs_associated_precedence         G09

# states
lalr1_lib::state::ParserState::add_(goto|shift_action)   G03 G10
lalr1_lib::state::ParserState::description               G06 G10
lalr1_lib::state::ParserState::error_goto_state_ident    G12
lalr1_lib::state::ParserState::(generate_goto_kernel|kernel_key_set|non_kernel_key_set|mark_as_processed|needs_reprocessing|is_processed|merge_lookahead_sets)  G03
lalr1_lib::state::ParserState::ident                     G10 G12 G06
lalr1_lib::state::ParserState::is_recovery_state_for_token  G12
lalr1_lib::state::ParserState::look_ahead_set            G12
lalr1_lib::state::ParserState::new                       G03
lalr1_lib::state::ParserState::(reduce_reduce|shift_reduce)_conflict_count  G06
lalr1_lib::state::ParserState::resolve_reduce_reduce_conflicts  G05 G16
lalr1_lib::state::ParserState::resolve_shift_reduce_conflicts  G04
lalr1_lib::state::ParserState::set_error_recovery_state  G12
lalr1_lib::state::ParserState::write_goto_table_code     G10 C03
lalr1_lib::state::ParserState::write_next_action_code    G10 G16 C03
lalr1_lib::state::\\w+ as .*                              G03 G14

# symbols
lalr1_lib::symbol::Symbol::is_non_terminal               G02 G09 G10
lalr1_lib::symbol::Symbol as (Ord|PartialOrd|PartialEq|From|Clone).*  G02 G03 G08
lalr1_lib::symbol::Symbol as Display::fmt                G13 G06
lalr1_lib::symbol::Associativity as Display.*            G13
lalr1_lib::symbol::Associativity as .*                   G04 G09
lalr1_lib::symbol::Error as .*                           G08
lalr1_lib::symbol::SymbolTable::(add_skip_rule|new_literal_token|new_regex_token|new_tag|non_terminal_defined_at|symbol_used_at|get_literal_token|get_tag|get_token|error_symbol_used_at|start_non_terminal_used_at)  G08 T03
lalr1_lib::symbol::SymbolTable::(tokens|literal_tokens|regex_tokens|skip_rules|non_terminals|used_non_terminal_specials)  G13 G01
lalr1_lib::symbol::SymbolTable::(error_non_terminal|start_non_terminal)  G08 G15 G12
lalr1_lib::symbol::SymbolTable::set_precedences          G09
lalr1_lib::symbol::SymbolTable::(undefined_non_terminals|unused_\\w+)  G07
lalr1_lib::symbol::SymbolTable::description              G06
lalr1_lib::symbol::SymbolTable as Default::default       G08 G09
lalr1_lib::symbol::non_terminal::NonTerminal::(add_defined_at|add_used_at|first_definition|is_undefined|is_unused|used_at)  G07 G08
lalr1_lib::symbol::non_terminal::NonTerminal::(firsts_data|set_firsts_data)  G01
lalr1_lib::symbol::non_terminal::NonTerminal::(is_error|is_start)  G12 G13 G15
lalr1_lib::symbol::non_terminal::NonTerminal::name       G10 G11 G13
lalr1_lib::symbol::non_terminal::NonTerminal::new_\\w+    G08 G01
lalr1_lib::symbol::non_terminal::FirstsData as Display::fmt  G06
lalr1_lib::symbol::non_terminal::FirstsData as .*        G01
lalr1_lib::symbol::non_terminal::NonTerminal(Data)? as .*  G01 G03 G08
lalr1_lib::symbol::tag::Tag::(associativity|precedence|set_associativity|set_precedence)  G09
lalr1_lib::symbol::tag::.*                               G08 G09
lalr1_lib::symbol::terminal::Token::(associativity|precedence|associativity_and_precedence|precedence_has_been_set|set_associativity|set_precedence)  G09 G04
lalr1_lib::symbol::terminal::Token::(add_used_at|defined_at|is_unused)  G07 G08
lalr1_lib::symbol::terminal::Token::(name|text)          G10 G13
lalr1_lib::symbol::terminal::(Token|TokenData)::new\\w*   G08 G09
lalr1_lib::symbol::terminal::Token as Display::fmt       G13
lalr1_lib::symbol::terminal::Token(Data)? as .*          G01 G02 G08
lalr1_lib::symbol::terminal::TokenSet::(contains|difference|insert|intersection|iter|len|new|remove|union)  G01 G02 G03 G04 G05 G12
lalr1_lib::symbol::terminal::TokenSet::(display_as_or_list|formated_as_macro_call|formated_as_or_list)  G10 G12
lalr1_lib::symbol::terminal::TokenSet::first_all_caps    G01 G02 G10 G12
lalr1_lib::symbol::terminal::TokenSet as Display::fmt    G06
lalr1_lib::symbol::terminal::TokenSet as .*              G01 G02 G03

# ------------------------------------------------------------------ generators
lalr1_gen::main                                          C01 C02
lalr1_gen::with_changed_extension                        C01 C02
lalr1_gen::CLOptions as (StructOpt|StructOptInternal).*  C01 C02 G06
'''

RULES = []
for _l in TABLE.split('\n'):
    _l = _l.strip()
    if _l and not _l.startswith('#'):
        _p = re.split(r'\s{2,}', _l)
        RULES.append((re.compile('^(?:' + _p[0].replace('\\\\', '\\') + ')$'), _p[1].split()))


def properties_of(path):
    c = canon(path)
    for rx, ps in RULES:
        if rx.match(c):
            return ps
    return []


# what the functions of a property call inside these crates matters to it too ...
EXPAND = {p: ('lalr1_lib::',) for p in 'G01 G02 G03 G04 G05 G06 G07 G08 G09 G10 G11 G12 G13 G15 G16 T03'.split()}
EXPAND.update({p: ('lexan::',) for p in ('L01', 'L02', 'L04')})
EXPAND.update({p: ('lalr1::',) for p in ('R01', 'R02', 'R03')})
# ... except through the functions that only order other parts' work
ORCH = re.compile(
    r'^(lalr1::Parser::parse_text|lalr1_lib::ParserGenerator.*|lalr1_lib::grammar::Grammar as TryFrom.*|'
    r'lalr1_lib::grammar::Specification::new|lalr1_lib::grammar::Specification as Parser::.*|lalr1_gen::main|'
    r'lalr1_lib::grammar::Grammar::write_(parser_code.*|parser_implementation_code|description)|'
    r'lalr1_lib::grammar::Grammar::resolve_conflicts|lexan::LexicalAnalyzer::.*|'
    r'lalr1_lib::grammar::Specification::(error|warning|new_production)|lalr1_lib::grammar::Grammar::describe_.*|'
    r'.*::description)$')


def functions(prop, X):
    """the reference functions that carry the property: listed ones, and their callees"""
    bodies = X.ref.prog.bodies
    fns = {p for p, b in bodies.items() if b.kind == 'fn' and prop in properties_of(p)}
    crates = EXPAND.get(prop)
    if crates:
        def outer(p):
            while '::{' in p and p in bodies and bodies[p].kind != 'fn':
                p = p[:p.rindex('::{')]
            return p
        calls = {}
        for q, cs in X.ref.callers.items():
            q = outer(q)
            if q in bodies and bodies[q].kind == 'fn' and canon(q).startswith(crates):
                for c in cs:
                    calls.setdefault(outer(c), set()).add(q)
        todo = [p for p in fns if not ORCH.match(canon(p))]
        while todo:
            for q in calls.get(todo.pop(), ()):
                if q not in fns and not ORCH.match(canon(q)):
                    fns.add(q)
                    todo.append(q)
    return sorted(fns)


# what the specification parser's actions mean, by the left-hand side of the production they belong to
ARMS = [(re.compile('^(?:%s)$' % a), b.split()) for a, b in (
    ('Injection|InjectionHead', 'C04 T03'),
    ('TokenDefinition|NewTokenName|SkipDefinition|RegularExpression', 'T03 G08'),
    ('PrecedenceDefinition|TagList|Tag', 'T03 G08 G09'),
    ('TaggedPrecedence', 'T03 G08 G09'),
    ('ProductionGroup|ProductionGroupHead|ProductionTail|ProductionTailList', 'T03 G08 G09 G11 G15 G16'),
    ('Symbol|SymbolList', 'T03 G08 G11'),
    ('Action', 'T03 G11'),
    ('Predicate', 'T03 G16'),
    ('Expected.*|Number', 'T03 G06'),
    ('.*', 'T03'))]
_arms = {}


def action_properties(path, detail):
    """the properties a difference in a semantic action of the specification parser concerns; None: all of them"""
    if not _arms:
        import json
        import os
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        _arms.update(json.load(open(os.path.join(root, 'ref', 'arms.json'))))
    crate = 'alalr1_lib' if 'alalr1_lib' in path else 'lalr1_lib'
    ns = set(re.findall(r'\barg1-(\d+)==0', detail.split('; source:')[0]))
    if re.search(r'\barg1==0', detail.split('; source:')[0]):
        ns.add('0')
    if not ns:
        return None
    out = set()
    for n in ns:
        lhs = _arms[crate].get(n, ['?'])[0]
        out |= set(next(ps for rx, ps in ARMS if rx.match(lhs)))
    if 'error_count' in detail or ": Error: " in detail:
        out.add('G07')
    return out


def concerns(prop, path, finding):
    if canon(path).endswith('Specification as Parser::do_semantic_action'):
        ps = action_properties(path, finding.detail)
        return ps is None or prop in ps
    return True


def main_api(path, body):
    """functions a user calls: their behaviour is observable as it stands"""
    c = canon(path)
    if c.startswith('lexan::') or c.startswith('lalr1::'):
        return body.vis == 'pub'
    if c.startswith('lalr1_gen::'):
        return c.endswith('::main')
    return c in ('lalr1_lib::ParserGenerator::new', 'lalr1_lib::ParserGenerator::write_parser_code_to_file',
                 'lalr1_lib::grammar::Specification::new', 'lalr1_lib::grammar::Grammar::write_parser_code_to_file',
                 'lalr1_lib::grammar::Grammar::write_description') or ' as ' in c and (
        c.startswith('lalr1_lib::ParserGenerator as') or c.startswith('lalr1_lib::grammar::Grammar as TryFrom') or
        ' as Parser::' in c or ' as ReportError::' in c or body.trait is not None)
