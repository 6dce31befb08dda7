#define STR_FUZZ
#include "str.cpp"
