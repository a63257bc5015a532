#include "mc/c30_numerics.h"
