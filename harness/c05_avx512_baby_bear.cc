// The AVX-512 version is not part of the default build: compiled here.
#define TACHYON_HAS_AVX512
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear_avx512.cc"
