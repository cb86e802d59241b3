from .lookup_common import *
GROUPS = groups(['c', 'cr', 'u'])
LEVEL = 'proof'
SEARCH = ['L03.cpp']
BUDGET = 15
