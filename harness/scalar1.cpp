#define GRP_A
#include "scalar.inc"
