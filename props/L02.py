from .lookup_common import *
GROUPS = groups(['c', 'ca', 'c0', 'cr'])
LEVEL = 'proof'
SEARCH = ['L02.cpp']
BUDGET = 15
