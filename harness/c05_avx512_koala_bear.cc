// The AVX-512 version is not part of the default build: compiled here.
#define TACHYON_HAS_AVX512
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear_avx512.cc"
