from .closure import *
CS = [c for i in ('table, 16 bit ids', 'table, 8 bit ids') for c in (closure_ex(i), closure(i), set_transitions(i), build_tree(i), build_dfa(i))]
GROUPS = [dict(driver=DRIVER, contracts=CS)]
LEVEL = 'exploration'
SEARCH = ['L08.cpp']
RULE = 'random expressions over all operators, rules in several start states and all id types, matched against a backtracking reference on texts produced from the expressions; non-trivial: texts on which more than one rule or length matches'
ASSUMPTIONS = ['every subtree a parser rule builds denotes the language of its text (tree constructors and followpos: L09; counted repetition: L18)', 'the partition of the alphabet separates what the rules distinguish (L07)', 'the textbook theorem that the subset construction over followpos recognises the union of the rules is not redone here']
BOUNDED = ['regular expression parser driver (reduce, sequence, alternatives, macros), partition_charsets and equivset: bounded search against a backtracking matcher']
