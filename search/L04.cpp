#define PROP 4
#include "lookup.cpp"
