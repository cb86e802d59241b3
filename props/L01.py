from .lookup_common import *
GROUPS = groups(['c', 'w', 'u', 'c0'],[lemma_longest(True)])
LEVEL = 'proof'
SEARCH = ['L01.cpp']
BUDGET = 15
