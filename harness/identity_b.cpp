#include "identity.h"
#define TU_FN tu_b
#include "identity_tu.inc"
