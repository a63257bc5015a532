#define C30_PART 3
#include "mc/c30_numerics.h"
