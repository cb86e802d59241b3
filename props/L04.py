from .lookup_common import *
GROUPS = groups(['cr', 'ur'])
LEVEL = 'proof'
SEARCH = ['L04.cpp']
BUDGET = 15
