#define C30_PART 1
#include "mc/c30_numerics.h"
