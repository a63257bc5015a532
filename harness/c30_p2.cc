#define C30_PART 2
#include "mc/c30_numerics.h"
