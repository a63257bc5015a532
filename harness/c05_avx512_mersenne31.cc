// The AVX-512 version is not part of the default build: compiled here.
#define TACHYON_HAS_AVX512
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31_avx512.cc"
