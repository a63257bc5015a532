// Stand-in for boringssl's chacha_core (RFC 8439 block function).
#ifndef MC_STUB_CHACHA_H_
#define MC_STUB_CHACHA_H_
#include <stdint.h>
#include <string.h>
static inline void mc_qr(uint32_t* x, int a, int b, int c, int d) {
  auto r = [](uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
  x[a] += x[b]; x[d] = r(x[d] ^ x[a], 16);
  x[c] += x[d]; x[b] = r(x[b] ^ x[c], 12);
  x[a] += x[b]; x[d] = r(x[d] ^ x[a], 8);
  x[c] += x[d]; x[b] = r(x[b] ^ x[c], 7);
}
static inline void chacha_core(uint8_t output[64], const uint32_t input[16]) {
  uint32_t x[16]; memcpy(x, input, 64);
  for (int i = 0; i < 10; ++i) {
    mc_qr(x, 0, 4, 8, 12); mc_qr(x, 1, 5, 9, 13); mc_qr(x, 2, 6, 10, 14); mc_qr(x, 3, 7, 11, 15);
    mc_qr(x, 0, 5, 10, 15); mc_qr(x, 1, 6, 11, 12); mc_qr(x, 2, 7, 8, 13); mc_qr(x, 3, 4, 9, 14);
  }
  for (int i = 0; i < 16; ++i) x[i] += input[i];
  memcpy(output, x, 64);
}
#endif
