VC = 'contract-based deductive verification (own VC generator over the clang AST of the real headers, z3/cvc5)'
TB = 'Trusted: clang AST, the VC generator in vc/, z3/cvc5, the std:: models listed in the evidence file. '
CLAIMS = {
 'L13': (VC, 'proof', 'Every byte buffer of any length and every code point, unbounded; BV-exact arithmetic. ' + TB + 'Instantiations const char*/char32_t and const char32_t*.'),
 'L14': (VC, 'proof', 'Every unit buffer of any length and every code point, unbounded; BV-exact arithmetic. ' + TB + 'Instantiations char16_t and wchar_t (32 bit) with char32_t.'),
 'L06': (VC, 'proof', 'Every normalised range vector of any length over char, char16_t, char32_t and wchar_t; membership of an arbitrary character. ' + TB + 'to_string is not covered.'),
 'L11': (VC, 'proof', 'Every machine content for id types uint8, uint16, uint32: save appends an encoding of the machine to the stream, load reads exactly that encoding into any target. The decimal text of a number is the assumed contract of the standard streams. ' + TB),
 'L12': (VC, 'proof', 'All 18 overloads, every text, format and token sequence, unbounded; output to a pointer. lookup is used by its contract (L01-L04). ' + TB),
 'L10': (VC, 'proof', 'Every transition table with the stated shape (whole rows, entries inside the table), any number of rows and columns, unbounded; id types uint8, uint16, uint32; the simulation from old to new rows is a lemma over the contracts. ' + TB),
 'L20': (VC, 'proof', 'Every machine, range and number of increments: begin, pre- and post-increment, dereference and end comparison are proved against the contract of lookup, for three iterator instantiations. ' + TB + 'lookup itself is covered by L01-L04.'),
 'L09': (VC, 'proof', 'Every tree of any size: constructors, getters, append_followpos, greedy marks, traverse, copy_node and copy() of all five node classes, plus two lemmas (textbook recursion and the copy induction). Nodes live in a heap model addressed by integers; children are distinct well-formed nodes. ' + TB),
 'L05': (VC, 'proof', 'Every set of ranges of char16_t and char32_t characters: slicing, the collection of boxes, the byte set ids and the tree pushed accept exactly the bytes of the characters in the ranges. ' + TB + 'The set algebra is taken from L06, the byte order of lookup from L01, the meaning of sequence and selection nodes from L08/L09.'),
 'L17': (VC, 'proof', 'Every regular expression text: octal, hexadecimal (any number of digits), control and simple escapes give exactly their value, consume exactly their digits and are rejected exactly when malformed or too big, for five pairs of character types. ' + TB),
 'L18': (VC, 'proof', 'Every count text and every operand: repeat_n reads exactly the counts written (or rejects them), optional, zero_or_more, one_or_more and repeatn build a tree that is exactly n to m copies of the operand, for char, char16_t and char32_t machines. Node classes by their contracts (L09). ' + TB),
 'L15': (VC, 'proof', 'Every rules object and every target: build throws before it writes anything to the target, and otherwise writes a complete machine; add_states grows every per-state vector by one dead entry. Instantiations 16 and 8 bit ids, char32_t, character machine. The functions build calls are used by contract. ' + TB),
 'L08': (VC, 'exploration', 'Proved for every tree and alphabet: closure_ex, closure, set_transitions, build_tree and build_dfa build the subset construction of followpos with the priority of the first rule (16 and 8 bit ids). Bounded: the parser driver, the alphabet partition and the composition, by a search against a backtracking matcher. Known finding: wide character rules with $ . ' + TB),
 'L16': (VC, 'exploration', 'Proved for every rules object and argument: push to INITIAL, push_state, insert_macro, validate and check_for_invalid_id store exactly what was given, or throw and change nothing. Bounded: the six parameter push to named states and the forwarding overloads, by search against a record of the calls. ' + TB),
 'L21': (VC, 'exploration', 'Proved for every stream, buffer size and set of live iterators: reload_buffer, lowest, highest, subtract, erase, start, check_master, update_state, *, ++ and the copy constructor keep every iterator on its character. Bounded: assignment, destruction, comparison, by search over histories. ' + TB),
 'L22': (VC, 'exploration', 'Proved for any number of rows, classes, start states and byte sets: closure, build_dfa, build, push_state and the byte set lookup throw before a number is truncated (8 and 16 bit ids). Bounded: the alphabet partition, by search against 32 bit ids. ' + TB),
 'L26': (VC, 'exploration', 'Proved: which end node a row carries and where a lazy row stops (closure_ex, closure, build_dfa), for every tree and alphabet. Bounded: which leaves the parser marks lazy and the composition, by search against the shortest match. ' + TB),
 'L27': (VC, 'proof', 'Every sequence of operations (class invariant), file size and outcome of the system calls, for char, wchar_t and char32_t. POSIX open/fstat/mmap/munmap/close are assumed contracts; the Windows branch is not covered. ' + TB),
 **{k: (VC, 'proof', 'Every table machine satisfying the stated invariants (rows inside the table, dead row, one end-of-line step, empty matches without skip/continue/pop), every input and stack, unbounded. Loops cut by invariants, goto targets cut by label invariants; the longest-match statement is a lemma by induction over the attempt. Instantiations char, char16_t, char32_t, recursive and non-recursive, and three flag sets. ' + TB) for k in ('L01', 'L02', 'L03', 'L04')},
}
from collections import defaultdict
NA = defaultdict(lambda: 'no contract built yet (work in progress)')
