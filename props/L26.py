"""lazy repetition: which end nodes a row carries, where a row stops, and which side of an overlap stays lazy"""
from .closure import *
INS = ('table, 16 bit ids', 'table, 8 bit ids')
CS = [c for i in INS for c in (closure_ex(i), closure(i), build_dfa(i))]
GROUPS = [dict(driver=DRIVER, contracts=CS)]
LEVEL = 'exploration'
SEARCH = ['L26.cpp']
RULE = 'random rules that end in a lazy repetition among greedy rules, against the shortest match the lazy part allows; non-trivial: texts where a longer match exists'
ASSUMPTIONS = ['the greedy marks of the nodes are those of the expression (L09, L18)']
BOUNDED = ['parser: which leaves a lazy operator marks when other parts follow it, and the composition of the parts into the statement: bounded search']
