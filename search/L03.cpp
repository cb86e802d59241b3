#define PROP 3
#include "lookup.cpp"
