#define CONCURRENT 1
#include "c15.cpp"
