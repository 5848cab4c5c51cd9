#define GRP_B
#include "scalar.inc"
