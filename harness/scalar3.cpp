#define GRP_C
#include "scalar.inc"
