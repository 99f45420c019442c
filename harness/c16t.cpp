#define CONCURRENT
#include "c16.cpp"
