#define C30_PART 0
#include "mc/c30_numerics.h"
