#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=["include/lexertl/"+f for f in files],
            mechanism=[dict(name=n,where=w) for n,w in mech],
            state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
            observe_at=observe or [],hook_needed=None)))
p("L01","lookup returns the longest match and the id of the state that ended it",
 "For every well-formed state machine and every input, lookup() returns the longest non-trivial run of characters, from the current position, that leads the machine's transition table (including its beginning-of-line and end-of-line transitions) to an accepting state, and reports the id and user id stored in that accepting state. If no accepting state is reached, exactly one character is consumed and the id is npos. Accepting with the skip id continues with the next token and is never reported.",
 ["inputs","programs"],"all tables satisfying the table invariant (any alphabet, any number of states) and all inputs of any length, compressed and uncompressed, with every feature flag combination instantiated",
 "Tests scan a few dozen fixed strings with a few dozen machines; the claim is over all tables and all inputs.",
 ["lookup.hpp","match_results.hpp"],[("detail::next main loop, end_state, longest-match bookkeeping","lookup.hpp detail::next"),("lookup_state::end_state / check_eol","lookup.hpp")],
 ["match_results::id","match_results::user_id","match_results::first/second"])
p("L02","every lookup makes progress, stays inside the input and covers it contiguously",
 "For every machine and input, each lookup leaves first <= second <= eoi, starts the new token exactly where the previous one (or the skipped text) ended, never reads at or beyond eoi, and advances by at least one character unless the winning match is empty. At end of input it reports the eoi id with an npos user id and leaves the positions at eoi, however often it is called again.",
 ["inputs","programs","histories"],"all inputs, all well-formed tables, all call sequences",
 "Sampled strings cannot show absence of over-reads or skipped characters for every table/input pair.",
 ["lookup.hpp","match_results.hpp"],[("curr_ != results_.eoi guards; no-match branch ++results_.second","lookup.hpp detail::next")],["match_results::first/second/eoi"])
p("L03","start state and BOL flag after a lookup come from the winning match only",
 "After a lookup that matched, the lexer start state carried in the results is the next-state recorded by the winning accepting state (or the popped one) and the beginning-of-line flag tells whether the last consumed character is a newline; characters scanned beyond the winning match influence neither. After a failed lookup the start state is unchanged and the flag reflects the single consumed character.",
 ["inputs","histories"],"all tables with several start states, all inputs with and without newlines around the match end",
 "Only visible when the scan overruns the winning match by particular characters; tests hold a handful of such cases.",
 ["lookup.hpp"],[("reset_start_state / reset_end_bol / start_state / bol","lookup.hpp lookup_state")],["match_results::state","match_results::bol"])
p("L04","recursive lookup pushes and pops start states in strict stack order",
 "In a recursive machine a winning push match pushes exactly (pushed start state, token id), a winning pop match removes exactly the top entry and resumes in the start state it holds, and any other match leaves the stack unchanged. Popping an empty stack throws runtime_error and never corrupts the results; the stack effect belongs only to the winning match.",
 ["inputs","histories"],"all push/pop histories and all recursive tables",
 "Histories of pushes and pops are unbounded; tests exercise nesting depth of a few.",
 ["lookup.hpp","match_results.hpp"],[("lookup_state::pop, is_id_eoi, reset_recursive","lookup.hpp")],["recursive_match_results::stack"])
p("L05","wide-character ranges are sliced into byte sequences exactly",
 "When the machine is byte-compressed, a wide character range is compiled into byte transitions such that a character is matched by the compiled machine exactly if it lies in the range: no character of the range is lost and none outside is gained, for UTF-16 and for the full 24-bit range. The lookup feeds the bytes of a character most significant first, consistently with the slicing.",
 ["inputs","programs"],"all ranges [lo,hi] in 0..0xFFFF (16-bit) and 0..0x10FFFF (24-bit), all characters",
 "There are ~2^42 ranges; tests use a few hand-picked Unicode classes.",
 ["parser/parser.hpp","lookup.hpp"],[("slice_range / insert_range","parser.hpp"),("next_char multi-byte loop","lookup.hpp")],["match of a single wide character against a class"])
p("L06","character-class set algebra is exact and keeps ranges normalised",
 "A character class behaves as a mathematical set of characters: insert is union, negate is complement up to the maximum character, intersect moves exactly the common characters out of both operands into the overlap, remove is difference, and size/any/equality questions agree with the set. The stored ranges stay sorted, non-overlapping and non-adjacent after inserting and negating.",
 ["inputs","histories"],"all class values, all ranges, every operation sequence, 8-bit and 32-bit characters",
 "The interesting cases are arbitrary interleavings of adjacent/overlapping ranges at the ends of the alphabet; tests insert a few ranges.",
 ["string_token.hpp"],[("insert / negate / intersect / remove / adjust","string_token.hpp")],["basic_string_token::_ranges"])
p("L07","the alphabet partition separates exactly what the rules distinguish",
 "Building a machine splits the alphabet into equivalence classes that are pairwise disjoint, together cover every character used by some rule, and refine every character class of the rules; the lookup table maps each character to its own class, or to the dead column if no rule uses it. Intersecting two mapped sets preserves the total characters and positions.",
 ["inputs","programs"],"all families of character classes over the alphabet",
 "The number of overlapping class families is unbounded; tests contain a few overlapping classes.",
 ["partition/charset.hpp","partition/equivset.hpp","generator.hpp"],[("charset::intersect","partition/charset.hpp"),("equivset::intersect","partition/equivset.hpp"),("partition_charsets, fill_lookup, build_set_mapping","generator.hpp")],["basic_internals::_lookup"])
p("L08","the built machine recognises exactly the regular expressions, first rule winning",
 "For every rule set accepted by rules::push, the machine built by generator::build accepts from each start state exactly the strings denoted by the rules of that start state, and when several rules accept the same longest string the earliest pushed rule supplies id, user id and next start state. Alternation, concatenation, grouping, classes, greedy repetition and anchors have their usual meaning.",
 ["inputs","programs"],"all regular expressions and all strings",
 "The product of expressions and strings is infinite; tests check a finite list.",
 ["generator.hpp","parser/parser.hpp","parser/tree/sequence_node.hpp","parser/tree/selection_node.hpp","parser/tree/iteration_node.hpp","parser/tree/leaf_node.hpp","parser/tree/end_node.hpp","partition/equivset.hpp"],
 [("nullable/firstpos/lastpos/followpos in node constructors","parser/tree/*.hpp"),("closure, set_transitions, build_dfa","generator.hpp"),("reduce/parse actions","parser/parser.hpp")],["lookup() result of a built machine"])
p("L09","the syntax tree computes nullable, firstpos, lastpos and followpos exactly",
 "For every regular expression tree, a node is nullable exactly if its language contains the empty string, its first and last positions are those of the operands combined by the textbook rules, and building a sequence or an iteration adds to followpos of each last position exactly the first positions that may come next and changes nothing else. Copying a subtree yields an equal, independent subtree.",
 ["programs"],"all trees built from leaf, end, sequence, selection and iteration nodes",
 "Tests only see the effect through a few complete regexes.",
 ["parser/tree/node.hpp","parser/tree/leaf_node.hpp","parser/tree/end_node.hpp","parser/tree/sequence_node.hpp","parser/tree/selection_node.hpp","parser/tree/iteration_node.hpp"],
 [("node constructors, append_firstpos/lastpos/followpos, copy_node","parser/tree/*.hpp")],["basic_node accessors"])
p("L10","minimising a state machine never changes what it recognises",
 "state_machine::minimise merges only states whose rows are identical and renumbers every transition, end-of-line link and beginning-of-line start consistently, so every lookup gives the same result before and after. The dead state stays state 0, the start state stays state 1, and the table never grows.",
 ["programs","inputs"],"all well-formed DFA tables and all inputs",
 "Tests minimise a handful of machines and compare a few strings.",
 ["state_machine.hpp"],[("minimise_dfa: duplicate detection, lookup_ renumbering, table copy","state_machine.hpp")],["basic_internals::_dfa"])
p("L11","a saved state machine loads back identically",
 "Saving a state machine to a stream and loading it into another state machine reproduces exactly the eoi id, lookup tables, alphabet sizes, feature flags and transition tables, for every machine and every supported id type, and reads back nothing more and nothing less than was written. Loading replaces the previous content of the target.",
 ["programs"],"all machines (any number of start states, any table values) and id types uint8_t..uint64_t",
 "Tests round-trip no more than a few machines with the default id type.",
 ["serialise.hpp","internals.hpp"],[("save / load, output_vec / input_vec","serialise.hpp")],["basic_internals fields"])
p("L12","replace() substitutes every match and copies everything else verbatim",
 "For every machine, input, format string and overload, lexertl::replace yields the input with each token reported by lookup replaced by its format text (the fixed text, or the map entry for its id; a token without an entry is copied) and all skipped text copied unchanged and in order; a character no rule matches is a token of its own (id npos); nothing is lost, duplicated or reordered, and all overloads (iterator output and string results, C-string and string arguments) agree.",
 ["inputs","programs"],"all inputs, formats and machines, all overloads and any output iterator",
 "Unit tests do not cover replace for general inputs and output iterators.",
 ["replace.hpp"],[("replace overloads","replace.hpp")],["returned string / output iterator"])
p("L13","the UTF-8 iterators decode and encode exactly and stay in bounds",
 "Iterating over well-formed UTF-8 yields exactly its code points, one per increment, consuming exactly the bytes that encode it; encoding a code point yields exactly the bytes of its UTF-8 form; and decoding inverts encoding for every code point. On malformed or truncated input the iterator still terminates and never reads past the end.",
 ["inputs"],"all code points 0..0x10FFFF and all byte strings",
 "1.1 million code points times their context; tests use a handful.",
 ["utf_iterators.hpp"],[("basic_utf8_in_iterator::next, basic_utf8_out_iterator::next","utf_iterators.hpp")],["operator*, operator++"])
p("L14","the UTF-16 iterators decode and encode exactly and stay in bounds",
 "Iterating over well-formed UTF-16 yields exactly its code points, consuming one unit for a BMP character and two for a surrogate pair; encoding a code point yields exactly its UTF-16 units; decoding inverts encoding for every code point. On a lone surrogate or truncated input the iterator still terminates and never reads past the end.",
 ["inputs"],"all code points and all 16-bit unit strings",
 "1.1 million code points; tests use a handful.",
 ["utf_iterators.hpp"],[("basic_utf16_in_iterator::next, basic_utf16_out_iterator","utf_iterators.hpp")],["operator*, operator++"])
p("L15","a failed build leaves the target state machine unchanged",
 "If generator::build throws for any reason (parse failure of a rule, id overflow, empty rules), the state machine passed in keeps exactly the content it had before the call; if it succeeds, nothing of the previous content remains.",
 ["inputs","fault_sequences"],"all rule sets and every throwing point in build",
 "Tests never look at the target after a failure.",
 ["generator.hpp","internals.hpp"],[("build into a local internals object and swap at the end","generator.hpp build/create")],["basic_state_machine::data()"])
p("L16","the rule collection stays consistent under every sequence of pushes",
 "After any sequence of successful or failing calls on a rules object, every start state owns exactly one regex, id, user id, next state, push and pop entry per rule, in push order, and the queries (empty, ids, states, features) agree with what was pushed. Reserved ids, unknown or ill-formed state and macro names and duplicate names are rejected with runtime_error and leave the collection as it was.",
 ["histories","inputs"],"all call sequences on rules, valid and invalid arguments",
 "Histories are unbounded; tests push a few fixed rules.",
 ["rules.hpp"],[("push overloads, validate, check_for_invalid_id, push_state, insert_macro","rules.hpp")],["rules accessors"])
p("L17","numeric escapes denote exactly their value and out-of-range ones are rejected",
 "In a regular expression, an octal escape, a hexadecimal escape and a control escape denote exactly the character whose code the digits spell (as many digits as the syntax takes, no more), and a value above the maximum character of the character type is rejected with an error instead of being wrapped or truncated.",
 ["inputs"],"all digit strings of any length, char, wchar_t and char32_t",
 "Digit strings are unbounded; tests try \\777 and \\xfff only.",
 ["parser/tokeniser/re_tokeniser_helper.hpp"],[("decode_octal, decode_hex, decode_control","re_tokeniser_helper.hpp")],["charset produced by tokenising the escape"])
p("L18","counted repetition matches exactly the requested counts",
 "For every sub-expression r and counts n <= m, r{n}, r{n,} and r{n,m} (and ?, *, +) match exactly the strings that are n..m (or n or more, 0..1, 0 or more, 1 or more) consecutive matches of r; malformed counts, {0} as an upper bound and m < n are rejected, and a count is never wrapped to a different number.",
 ["inputs","programs"],"all repeat counts and all repeated sub-expressions",
 "Counts are unbounded; tests use a few small ones.",
 ["parser/parser.hpp","parser/tokeniser/re_tokeniser.hpp"],[("optional, zero_or_more, one_or_more, repeatn","parser.hpp"),("repeat_n","re_tokeniser.hpp")],["match of the built machine"])
p("L19","pushing any text as a rule either succeeds or throws, it never crashes",
 "For every byte string given as a regular expression, macro or state list, the library either accepts it or throws runtime_error; it never reads outside the text, fails an internal assertion, loops for ever or has undefined behaviour, and an accepted rule can be built.",
 ["inputs"],"all byte strings as regex",
 "The fail tests are 84 fixed strings; the claim is over all strings.",
 ["parser/parser.hpp","parser/tokeniser/re_tokeniser.hpp","parser/tokeniser/re_token.hpp","rules.hpp"],[("token precedence table and reduce loop","re_token.hpp, parser.hpp"),("tokeniser end-of-string checks","re_tokeniser.hpp")],["exceptions thrown by rules::push and generator::build"])
p("L20","the token iterator enumerates exactly the tokens of repeated lookup",
 "Dereferencing and incrementing a lexertl::iterator yields exactly the sequence of results that repeated lookup() calls on the same range yield, pre- and post-increment included, it compares equal to the end iterator exactly after the last token, and copies are independent.",
 ["inputs","histories"],"all machines, inputs and iterator operation sequences",
 "Tests iterate a few inputs.",
 ["iterator.hpp"],[("constructor, operator++, operator==, lookup()","iterator.hpp")],["iterator operations"])
p("L21","the stream iterator presents the stream exactly",
 "Reading through stream_shared_iterator yields every character of the underlying stream exactly once and in order, regardless of buffer length, increments and how many copies are alive, each copy keeps its own position, and the end iterator is reached exactly at the end of the stream; text between two live copies stays readable.",
 ["inputs","histories"],"all stream contents, buffer lengths and interleavings of copy, increment and destruction",
 "Buffer refills happen at data-dependent points; tests do not exercise them systematically.",
 ["stream_shared_iterator.hpp"],[("reload_buffer, check_buf, lowest index bookkeeping","stream_shared_iterator.hpp")],["operator*, operator++, =="])
p("L22","state and id counts that do not fit the id type are reported, not wrapped",
 "If the number of states, character classes or start states needed exceeds what the chosen id type can represent, building throws runtime_error; a machine is never produced whose state numbers were silently truncated.",
 ["programs","configurations"],"all rule sets and id types, in particular small ones",
 "Tests only use the 16-bit id type with small machines.",
 ["generator.hpp","parser/parser.hpp"],[("overflow checks in closure, build and parser::lookup","generator.hpp, parser.hpp")],["exception vs. built machine"])
p("L23","the character state machine has exactly the transitions of the compressed table",
 "Converting a state machine to a character state machine gives, for every start state, state and character, the same successor, acceptance, id, user id, push/pop and line-anchor data as the table it came from, and minimising it preserves this.",
 ["programs"],"all non-compressed machines and all characters",
 "Tests do not compare the conversion at all.",
 ["sm_to_csm.hpp","state_machine.hpp"],[("sm_to_csm, basic_char_state_machine::append, minimise_dfa","state_machine.hpp, sm_to_csm.hpp")],["basic_char_state_machine::_sm_vector"])
p("L24","generated C++ lexers behave like lookup on the same machine",
 "For every state machine, the C++ source emitted by the table-based and the code-based generators, once compiled, produces for every input the same token sequence as lookup() on the machine it was generated from.",
 ["programs","inputs"],"all machines and inputs",
 "Needs compiling generated code per machine; no existing test does it.",
 ["generate_cpp.hpp"],[("table_based_cpp / char_state_machine code generation","generate_cpp.hpp")],["results of the generated function"])
p("L25","case-insensitive matching adds exactly the other-case forms",
 "With the icase flag or (?i:...), a character or class matches exactly the characters it matched before together with their simple upper and lower case counterparts, for every character; without it case is respected.",
 ["inputs"],"all characters and classes in every character type",
 "Over a million characters; tests use a few letters.",
 ["parser/tokeniser/re_tokeniser_helper.hpp","parser/tokeniser/re_tokeniser.hpp"],[("fold / add_char / add_range","re_tokeniser_helper.hpp")],["charset produced for an insensitive class"])
p("L26","lazy (abstemious) repetition stops at the earliest possible end",
 "A rule that ends in a lazy repetition (??, *?, +?, {n,m}?), where what follows the lazy part cannot be matched by its body, matches the shortest string its lazy part allows while the greedy parts of the same and of other rules keep longest-match semantics, and a lazy operator never changes the set of strings at which a match may end except by removing longer continuations.",
 ["inputs","programs"],"all expressions combining greedy and lazy operators",
 "Tests check a finite list of abstemious expressions.",
 ["generator.hpp","abstemious.hpp","parser/tree/node.hpp"],[("greedy_repeat handling in closure / end states","generator.hpp"),("abstemious rewriting","abstemious.hpp")],["lookup() result"])
p("L27","memory_file maps exactly the bytes of the file",
 "Opening a file with memory_file exposes exactly its bytes and size, an empty or missing file yields a null, empty mapping, and closing or reopening releases the mapping and never leaves a dangling one.",
 ["inputs","fault_sequences"],"all files and open/close histories",
 "No test touches memory_file.",
 ["memory_file.hpp"],[("open / close","memory_file.hpp")],["data(), size()"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
assert len({x['id'] for x in P})==len(P)
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
