#define PROP 1
#include "lookup.cpp"
