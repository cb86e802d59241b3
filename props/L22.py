"""numbers that do not fit the id type are reported: rows, character classes, start states and byte sets"""
from .closure import *
from . import L15, L16, L05
INS = ('table, 16 bit ids', 'table, 8 bit ids')
CS = [c for i in INS for c in (closure(i, big=True), build_dfa(i))] + [c for i in INS for c in L15.make(i)]
GROUPS = [dict(driver=DRIVER, contracts=CS), dict(driver=L16.DRIVER, contracts=[c for c in L16.CS if c.name.startswith('push_state')]), dict(driver=L05.DRIVER, contracts=[c for c in L05.CS if c.name.startswith('lookup')])]
LEVEL = 'exploration'
SEARCH = ['L22.cpp']
RULE = 'rule sets whose number of states, character classes, start states, words or character sets lies around the limit of an 8 bit id type, against the same rules with a 32 bit id type; non-trivial: every rule set'
ASSUMPTIONS = ['the number of rules of one start state stays below the largest id (unique rule numbers are otherwise rejected elsewhere)', 'the partition of the alphabet (partition_charsets) numbers its classes one by one; its loops over lists are checked by the bounded search only']
BOUNDED = ['partition_charsets, partition of equivalence sets: bounded search (8 bit ids against 32 bit ids)']
