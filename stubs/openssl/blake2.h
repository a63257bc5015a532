// Stand-in for (patched) boringssl's BLAKE2b (RFC 7693).
#ifndef MC_STUB_BLAKE2_H_
#define MC_STUB_BLAKE2_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define BLAKE2B256_DIGEST_LENGTH 32
#define BLAKE2B512_DIGEST_LENGTH 64
#define BLAKE2B_CBLOCK 128
#define BLAKE2B_PERSONAL_LENGTH 16
struct blake2b_state_st { uint64_t h[8]; uint64_t t_low, t_high; uint8_t block[128]; size_t block_used; };
typedef struct blake2b_state_st BLAKE2B_CTX;
static inline void mc_b2b_compress(BLAKE2B_CTX* S, const uint8_t* blk, size_t num, int last) {
  static const uint64_t IV[8] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,
    0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
  static const uint8_t sg[10][16] = {
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
    {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
    {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
    {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
    {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
  S->t_low += num; if (S->t_low < num) S->t_high++;
  uint64_t m[16], v[16]; memcpy(m, blk, 128);
  for (int i = 0; i < 8; ++i) { v[i] = S->h[i]; v[i+8] = IV[i]; }
  v[12] ^= S->t_low; v[13] ^= S->t_high; if (last) v[14] = ~v[14];
  auto r = [](uint64_t x, int n) { return (x >> n) | (x << (64 - n)); };
  auto G = [&](int a, int b, int c, int d, uint64_t x, uint64_t y) {
    v[a] += v[b] + x; v[d] = r(v[d] ^ v[a], 32); v[c] += v[d]; v[b] = r(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = r(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = r(v[b] ^ v[c], 63); };
  for (int i = 0; i < 12; ++i) { const uint8_t* s = sg[i % 10];
    G(0,4,8,12,m[s[0]],m[s[1]]); G(1,5,9,13,m[s[2]],m[s[3]]); G(2,6,10,14,m[s[4]],m[s[5]]); G(3,7,11,15,m[s[6]],m[s[7]]);
    G(0,5,10,15,m[s[8]],m[s[9]]); G(1,6,11,12,m[s[10]],m[s[11]]); G(2,7,8,13,m[s[12]],m[s[13]]); G(3,4,9,14,m[s[14]],m[s[15]]); }
  for (int i = 0; i < 8; ++i) S->h[i] ^= v[i] ^ v[i+8];
}
static inline void mc_b2b_init(BLAKE2B_CTX* S, const char* personal, uint64_t len) {
  static const uint64_t IV[8] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,
    0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
  memset(S, 0, sizeof *S); memcpy(S->h, IV, 64); S->h[0] ^= 0x01010000 | len;
  if (personal) { uint64_t a, b; memcpy(&a, personal, 8); memcpy(&b, personal + 8, 8); S->h[6] ^= a; S->h[7] ^= b; }
}
static inline void BLAKE2B512_InitWithPersonal(BLAKE2B_CTX* S, const char* p) { mc_b2b_init(S, p, 64); }
static inline void BLAKE2B512_Init(BLAKE2B_CTX* S) { mc_b2b_init(S, nullptr, 64); }
static inline void BLAKE2B512_Update(BLAKE2B_CTX* S, const void* d, size_t n) {
  const uint8_t* p = (const uint8_t*)d;
  while (n--) { if (S->block_used == 128) { mc_b2b_compress(S, S->block, 128, 0); S->block_used = 0; } S->block[S->block_used++] = *p++; }
}
static inline void BLAKE2B512_Final(uint8_t* out, BLAKE2B_CTX* S) {
  memset(S->block + S->block_used, 0, 128 - S->block_used);
  mc_b2b_compress(S, S->block, S->block_used, 1); memcpy(out, S->h, 64);
}
static inline void BLAKE2B512(const uint8_t* d, size_t n, uint8_t* out) { BLAKE2B_CTX S; BLAKE2B512_Init(&S); BLAKE2B512_Update(&S, d, n); BLAKE2B512_Final(out, &S); }
#endif
