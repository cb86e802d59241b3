#define PROP 2
#include "lookup.cpp"
