"""writes properties.jsonl (the single place the property texts are kept)"""
import json, os
B = 'include/boost/metaparse/v1/'
P = []
def p(id, title, st, over, qt, why, files, mech, observe):
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
              'anchors': {'files': [B + f for f in files], 'mechanism': [{'name': a, 'where': B + b} for a, b in mech], 'observe_at': observe, 'hook_needed': None}})
ALL = 'every string, every source position (line, column, previous character), every user-supplied parser/function, in C++98, C++11 and C++14 and later'
p('C01', 'Parsing results: acceptance, rejection and their accessors',
  'The value a parser returns is either an acceptance carrying exactly the result, remaining input and position it was built from, or a rejection carrying exactly its message and position; the accessors give back exactly these parts (also through lazily evaluated arguments), and the error test is true for rejections and false for everything else. A result that is a rejection is passed through unchanged wherever a continuation is guarded against errors, and the continuation is used otherwise.',
  ['inputs', 'programs'], 'every result type, message type, remaining string and position, given eagerly or lazily, in every language standard',
  'The tests build a handful of results from fixed types; the claim is for every type put into a result.',
  ['accept.hpp', 'reject.hpp', 'is_error.hpp', 'get_result.hpp', 'get_remaining.hpp', 'get_position.hpp', 'get_message.hpp', 'unless_error.hpp', 'fail.hpp', 'return_.hpp'],
  [('accept / reject members', 'accept.hpp'), ('unless_error', 'unless_error.hpp')], ['get_result', 'get_remaining', 'get_position', 'get_message', 'is_error', 'unless_error'])
p('C02', 'Source positions follow the consumed text',
  'Consuming a character moves the position to the next line, column 1, exactly when the character is a carriage return or a line feed not preceded by a carriage return, and otherwise one column to the right on the same line, and remembers the character as the previous one. The start position is line 1, column 1 with no previous character, and the line, column and previous-character accessors return what the position was built from.',
  ['inputs', 'histories'], 'every position and every character value, hence every sequence of characters consumed',
  'The tests move over a few characters; the CR/LF rule depends on every pair of previous and current character at every line and column.',
  ['next_char.hpp', 'next_line.hpp', 'source_position.hpp', 'start.hpp', 'one_char.hpp', 'cpp14/impl/../one_char.hpp'.replace('cpp14/impl/../', ''), 'impl/next_char.hpp'.replace('impl/', '')],
  [('next_char / next_line', 'next_char.hpp')], ['get_line', 'get_col', 'get_prev_char', 'next_char', 'next_line', 'start'])
p('C03', 'Source positions are totally ordered',
  'Positions compare lexicographically by line, then column, then previous character: equality holds exactly when all three agree, and the six comparison operations are consistent with that single total order.',
  ['inputs'], 'every pair of positions', 'Tests compare a few hand-picked pairs; an order is a statement about all pairs and triples.',
  ['source_position.hpp', 'source_position_tag.hpp'], [('comparison specialisations', 'source_position.hpp')], ['equal_to', 'not_equal_to', 'less', 'less_equal', 'greater', 'greater_equal'])
p('C04', 'Consumption and position consistency of every library parser',
  'Whenever a parser built from this library accepts, the remaining input is a suffix of the input and the returned position is the starting position advanced over exactly the consumed characters; parsers documented as not consuming (lookahead, negation, conditional, unit and end-of-input parsers) return the input and position unchanged. This holds provided it holds for the user-supplied parsers it is built from.',
  ['inputs', 'programs'], ALL, 'Tests look at the remaining text or the position of single examples; the invariant is over all parsers composed in all ways and all inputs.',
  ['one_char.hpp', 'foldl.hpp', 'cpp11/sequence.hpp', 'look_ahead.hpp'], [('every parser threads remaining input and position of its sub-parsers', 'foldl.hpp')], ['get_remaining', 'get_position'])
p('C05', 'Single-character parsers accept exactly their character class',
  'Each single-character parser (any character, a given literal, digit, letter, whitespace, a range with both ends included, one of a set, anything except a set) accepts exactly when the input is non-empty and its first character is in the documented class, consumes exactly that character and returns it as the result. Otherwise it fails without consuming anything, at the starting position, with its documented error, including at the end of the input.',
  ['inputs'], 'every first character (all 256 values), every rest of the input, every parameterisation and every position, in every language standard',
  'Tests try one or two characters per parser; class boundaries, other parameters and other positions are not sampled.',
  ['one_char.hpp', 'lit_c.hpp', 'lit.hpp', 'digit.hpp', 'letter.hpp', 'space.hpp', 'range_c.hpp', 'range.hpp', 'cpp11/one_of_c.hpp', 'cpp98/one_of_c.hpp', 'one_char_except_c.hpp', 'cpp11/one_char_except.hpp', 'cpp11/one_char_except_c.hpp', 'cpp98/one_char_except.hpp', 'cpp98/one_char_except_c.hpp', 'util/is_digit.hpp', 'util/is_letter.hpp', 'util/is_whitespace_c.hpp', 'util/in_range_c.hpp'],
  [('accept_when / one_char', 'accept_when.hpp')], ['apply of the parser'])
p('C06', 'Sequencing parsers thread input, position, results and first error',
  'A sequence of parsers runs them left to right, each on what the previous one left over, fails with the first failing parser\'s own error, and otherwise returns the results in order (or the result selected by first / last / middle / n-th, or the given template applied to them). An out-of-range index and an empty list of parsers are reported as the documented error, and an unclosed middle construct is reported with the position where it was opened.',
  ['inputs', 'programs'], ALL + '; any number of parsers and any index',
  'Tests use two or three fixed parsers; the claim is for any number of parsers, any index and any failing point.',
  ['cpp11/sequence.hpp', 'cpp98/sequence.hpp', 'cpp11/first_of.hpp', 'cpp98/first_of.hpp', 'cpp11/last_of.hpp', 'cpp98/last_of.hpp', 'cpp11/nth_of_c.hpp', 'cpp98/nth_of_c.hpp', 'cpp11/nth_of.hpp', 'cpp98/nth_of.hpp', 'cpp11/impl/nth_of_c.hpp', 'cpp11/impl/nth_of_c_skip_remaining.hpp', 'middle_of.hpp', 'sequence_apply.hpp', 'impl/sequence_impl.hpp'.replace('impl/sequence_impl.hpp', 'sequence_apply.hpp')],
  [('sequence / nth_of_c_impl', 'cpp11/sequence.hpp')], ['apply of the parser'])
p('C07', 'Alternatives, optional parts and lookahead',
  'A choice between parsers returns the result of the first alternative that accepts, each tried on the original input at the original position; when all fail it reports the error that got furthest. Optional parts, conditionals, lookahead, negation and the "must fail immediately" parser decide only on whether their operand accepts (and where it failed) and never lose or consume input beyond what is documented.',
  ['inputs', 'programs'], ALL + '; any number of alternatives', 'Tests use up to three alternatives with fixed errors; the selection rule depends on the order and the error positions of all alternatives.',
  ['cpp11/one_of.hpp', 'cpp98/impl/one_of.hpp', 'optional.hpp', 'except.hpp', 'look_ahead.hpp', 'if_.hpp', 'fail_at_first_char_expected.hpp', 'alphanum.hpp'],
  [('one_of', 'cpp11/one_of.hpp')], ['apply of the parser'])
p('C08', 'Left folds and repetition apply the parser as often as it accepts',
  'A left fold (and repetition, which collects results in order) applies its parser until it first fails, combines the results from left to right starting from the given state or from the result of a start parser, and accepts with the input and position where the first failure occurred; the "at least one" forms fail with the parser\'s own error when it does not accept once. Iterating n times runs the parser exactly n times and fails with its first error.',
  ['inputs', 'programs'], ALL + '; any number of repetitions', 'Tests repeat a fixed parser zero to three times; the claim is for any number of iterations and any state function.',
  ['foldl.hpp', 'foldl1.hpp', 'foldl_start_with_parser.hpp', 'repeated.hpp', 'repeated1.hpp', 'cpp11/repeated_one_of.hpp', 'cpp98/repeated_one_of.hpp', 'cpp11/repeated_one_of1.hpp', 'cpp98/repeated_one_of1.hpp', 'iterate.hpp', 'iterate_c.hpp', 'impl/iterate_impl.hpp'],
  [('foldl', 'foldl.hpp')], ['apply of the parser'])
p('C09', 'Right folds combine from the right',
  'A right fold applies its parser until it first fails, obtains the initial state at that point (a constant, or by running a start parser whose failure makes the whole fold fail), and combines the results from right to left; input and position are those left after the last parser that ran. The "at least one" form fails with the parser\'s own error when it does not accept once.',
  ['inputs', 'programs'], ALL + '; any number of repetitions', 'Tests fold a few elements; the claim is for any number of elements and any operation.',
  ['foldr.hpp', 'foldr1.hpp', 'foldr_start_with_parser.hpp'], [('foldr_start_with_parser', 'foldr_start_with_parser.hpp')], ['apply of the parser'])
p('C10', 'Reject-incomplete folds refuse half-parsed elements',
  'The reject-incomplete variants of folding and repetition behave like the plain ones when the repeated parser finally fails at the very position where that element started, and otherwise fail with that parser\'s error, so that input is never silently dropped in the middle of an element.',
  ['inputs', 'programs'], ALL + '; any number of repetitions', 'Tests use one incomplete example each; the distinction depends on the position of the last error after any number of elements.',
  ['foldl_reject_incomplete.hpp', 'foldl_reject_incomplete1.hpp', 'foldl_reject_incomplete_start_with_parser.hpp', 'foldr_reject_incomplete.hpp', 'foldr_reject_incomplete1.hpp', 'repeated_reject_incomplete.hpp', 'repeated_reject_incomplete1.hpp', 'fail_at_first_char_expected.hpp'],
  [('foldl_reject_incomplete', 'foldl_reject_incomplete.hpp')], ['apply of the parser'])
p('C11', 'Transforming results and errors touches only what it should',
  'Transforming a result, replacing it, filtering it with a predicate, requiring the entire input, and transforming or replacing the error (message) change exactly the documented part of the outcome and leave every other part (remaining input, position, the other kind of outcome) as the operand produced it. The unit parsers (return, fail, end of input) accept or fail without consuming anything, and the argument-swapping adaptor applies its operation to the same two arguments in the opposite order.',
  ['inputs', 'programs'], ALL, 'Tests apply one function to one parser; what is left untouched is not observed for other inputs.',
  ['transform.hpp', 'transform_error.hpp', 'transform_error_message.hpp', 'change_error_message.hpp', 'accept_when.hpp', 'always.hpp', 'always_c.hpp', 'return_.hpp', 'fail.hpp', 'empty.hpp', 'entire_input.hpp', 'swap.hpp'],
  [('accept_when', 'accept_when.hpp')], ['apply of the parser'])
p('C12', 'Numbers and character utilities compute the right values',
  'The digit-value and integer parsers return the decimal value of the digits they consume, for any number of digits, consuming as many digits as there are and failing (digit expected) when there is none. The character utilities (digit/letter/case/whitespace tests, digit-to-number and number-to-digit conversion, range tests) agree with the ASCII definition for every argument, in plain and curried form, and report a non-digit as an error.',
  ['inputs'], 'every digit string and every character / integer value', 'Tests evaluate a few numbers and characters.',
  ['digit_val.hpp', 'int_.hpp', 'util/digit_to_int.hpp', 'util/digit_to_int_c.hpp', 'util/int_to_digit.hpp', 'util/int_to_digit_c.hpp', 'util/in_range.hpp', 'util/in_range_c.hpp', 'cpp11/util/in_range.hpp'.replace('cpp11/', ''), 'util/is_digit.hpp', 'util/is_letter.hpp', 'util/is_lcase_letter.hpp', 'util/is_ucase_letter.hpp', 'util/is_whitespace.hpp', 'util/is_whitespace_c.hpp'],
  [('int_ = foldl1<digit_val>', 'int_.hpp')], ['int_', 'digit_val', 'util metafunctions'])
p('C13', 'Keywords, tokens and spaces',
  'A keyword parser accepts exactly when the input starts with the keyword, consumes exactly it and returns the given value, and otherwise fails at the first differing character with the literal expected there. A token parser runs its operand and then skips all directly following whitespace, keeping the operand\'s result; the spaces parser needs at least one whitespace character and consumes all of them.',
  ['inputs', 'programs'], ALL + '; every keyword', 'Tests use one keyword and a few spaces.',
  ['keyword.hpp', 'token.hpp', 'spaces.hpp', 'space.hpp'], [('keyword', 'keyword.hpp')], ['apply of the parser'])
p('C14', 'Compile-time strings behave as sequences of characters',
  'The compile-time string is a faithful sequence: size, emptiness, front, back, indexing, iteration from begin to end, pushing, popping and clearing agree with the same operations on the list of its characters, equality holds exactly for equal character lists, and the C string it exposes holds exactly its characters followed by a terminating zero. No operation loses, reorders or invents characters.',
  ['inputs', 'configurations'], 'every string (up to the length limit in C++98), every index and character, in every language standard',
  'Tests use strings of at most a few characters; lengths near the limit and all positions are not sampled.',
  ['string.hpp', 'cpp11/string.hpp', 'cpp98/string.hpp', 'cpp98/impl/at_c.hpp', 'cpp98/impl/size.hpp', 'cpp98/impl/update_c.hpp', 'cpp98/impl/pop_front.hpp', 'cpp98/impl/pop_back.hpp', 'cpp98/impl/push_back_c.hpp', 'cpp98/impl/push_front_c.hpp', 'cpp11/impl/at_c.hpp', 'cpp11/impl/pop_back.hpp', 'cpp11/impl/pop_front.hpp', 'cpp11/impl/push_back_c.hpp', 'cpp11/impl/push_front_c.hpp', 'cpp11/impl/size.hpp', 'cpp11/impl/concat.hpp', 'impl/string_iterator.hpp', 'string_tag.hpp'],
  [('*_impl<string_tag> specialisations', 'string.hpp')], ['mpl::size', 'mpl::at', 'mpl::front', 'mpl::begin', 'mpl::push_back', 'mpl::c_str'])
p('C15', 'String literals are converted exactly',
  'The string-literal macro produces the compile-time string with exactly the characters of the literal, in order, for every literal up to the configured maximum length (including the empty one and lengths at and around every power of two), and a longer literal is rejected at compile time. The value form of the macro is an object of that same string type.',
  ['inputs', 'configurations'], 'every literal of every length up to the limit', 'Tests convert a few short literals; the assembly of long literals from blocks is not sampled at every length.',
  ['cpp11/string.hpp', 'cpp11/impl/string.hpp', 'cpp11/impl/string_at.hpp', 'cpp11/impl/concat.hpp'],
  [('make_string', 'cpp11/impl/string.hpp')], ['BOOST_METAPARSE_STRING'])
p('C16', 'Building a parser runs it from the start of the input',
  'A built parser applied to a text runs the parser on the whole text from line 1, column 1; when the parser accepts, the metafunction evaluates to exactly its result and ignores what is left, and when it fails, compilation is made to fail with a diagnostic carrying the message and position of that failure.',
  ['inputs', 'programs'], 'every parser and every input', 'Tests build a single parser.',
  ['build_parser.hpp'], [('build_parser', 'build_parser.hpp')], ['build_parser::apply'])
p('C17', 'Grammars parse what their EBNF rules say',
  'A grammar parses exactly as its rules read: references to imported parsers and to other rules, single-quoted terminals (with the escapes \\n, \\r, \\t, \\\\ and \\\'), sequences, alternatives (|), repetition (* and +) and brackets have the same outcome (result, remaining input, position, error) as the corresponding hand-written combination of parsers for every input and starting position; the semantic action of a rule, and only of that rule, is applied to its result; the start symbol is the one given (S when none is given); a rule may be used before the definition that follows it; and a rule text that is not of the documented form does not compile.',
  ['programs', 'inputs'], 'every grammar text and every input', 'Tests use a few grammars.',
  ['grammar.hpp'], [('grammar', 'grammar.hpp')], ['grammar::apply'])
p('C18', 'Error messages are complete sentences about their parameters',
  'The text of each library error message (its get_value) is its fixed wording with every parameter shown exactly, in its own place: "Expected: " and the expected character; "index (N) out of range [lowest-highest]"; the nested message followed by " (see line:column)" of the opening construct; a fixed sentence for the messages without parameters. Integers appear in decimal and no parameter is swapped, dropped or altered, whatever its value.',
  ['inputs'], 'every parameter value', 'Tests print a few messages.',
  ['error/literal_expected.hpp', 'error/index_out_of_range.hpp', 'error/unpaired.hpp', 'define_error.hpp'], [('get_value', 'define_error.hpp')], ['get_value()'])
p('C19', 'Every public header works on its own and names the current version',
  'Including any one public header (boost/metaparse/X.hpp, error/X.hpp, util/X.hpp) by itself compiles and makes the name(s) it documents available; each public name boost::metaparse::X denotes the very same entity as boost::metaparse::v1::X; and what the header declares behaves as specified in a program that includes nothing else but the headers of the arguments the user passes in: no definition silently comes from another header. This holds in every supported language standard.',
  ['configurations', 'programs'], 'every public header in C++98, C++11 and C++14', 'The tests include many headers together, so a definition that another header happens to bring in is never missed.',
  ['../accept.hpp', '../one_of.hpp', 'optional.hpp', 'fwd/accept.hpp'], [('public headers', '../accept.hpp')], ['boost::metaparse::*'])
p('C20', 'The parsing-error printer reports what parsing really did',
  'Constructing debug_parsing_error<P, S> (or its ::type, or the build_parser form, which means the wrapped parser) runs P on S from line 1, column 1 and prints, for every parser and every text: the heading, the input text, and then either "Parsing was successful. Remaining string is:" and exactly the text the parser left over, or "Parsing failed:" and "line L, col C: M" with the line, the column and the text of the message of the error the parser rejected with, numbers in decimal and line and column not mixed up. It then ends the program with a successful exit status.',
  ['inputs', 'programs'], 'every parser, every input text, every outcome', 'No test constructs a debug_parsing_error: it prints and ends the program.',
  ['debug_parsing_error.hpp'], [('debug_parsing_error', 'debug_parsing_error.hpp')], ['debug_parsing_error'])
import itertools
for x in P:
    x['anchors']['files'] = sorted(set(x['anchors']['files']))
if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    for x in P:
        for f in x['anchors']['files']:
            if not os.path.exists('/repo/' + f): print('missing', x['id'], f)
    open(os.path.join(here, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
