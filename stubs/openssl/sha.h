// Stand-in for boringssl's SHA-256 (FIPS 180-4).
#ifndef MC_STUB_SHA_H_
#define MC_STUB_SHA_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define SHA256_DIGEST_LENGTH 32
#define SHA256_CBLOCK 64
struct sha256_state_st { uint32_t h[8]; uint32_t Nl, Nh; uint8_t data[SHA256_CBLOCK]; unsigned num, md_len; };
typedef struct sha256_state_st SHA256_CTX;
static inline void mc_sha256_block(uint32_t* h, const uint8_t* p) {
  static const uint32_t K[64] = {
    0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
    0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
    0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
    0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
    0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
    0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
    0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
    0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
  auto r = [](uint32_t v, int n) { return (v >> n) | (v << (32 - n)); };
  uint32_t w[64];
  for (int i = 0; i < 16; ++i) w[i] = (uint32_t)p[4*i] << 24 | (uint32_t)p[4*i+1] << 16 | (uint32_t)p[4*i+2] << 8 | p[4*i+3];
  for (int i = 16; i < 64; ++i) {
    uint32_t s0 = r(w[i-15], 7) ^ r(w[i-15], 18) ^ (w[i-15] >> 3), s1 = r(w[i-2], 17) ^ r(w[i-2], 19) ^ (w[i-2] >> 10);
    w[i] = w[i-16] + s0 + w[i-7] + s1;
  }
  uint32_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
  for (int i = 0; i < 64; ++i) {
    uint32_t t1 = hh + (r(e,6)^r(e,11)^r(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i];
    uint32_t t2 = (r(a,2)^r(a,13)^r(a,22)) + ((a&b)^(a&c)^(b&c));
    hh=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
  }
  h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=hh;
}
static inline int SHA256_Init(SHA256_CTX* c) {
  static const uint32_t iv[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
  memset(c, 0, sizeof *c); memcpy(c->h, iv, 32); c->md_len = 32; return 1;
}
static inline int SHA256_Update(SHA256_CTX* c, const void* d, size_t n) {
  const uint8_t* p = (const uint8_t*)d; uint64_t mc_bits = ((uint64_t)c->Nh << 32 | c->Nl) + (uint64_t)n * 8; c->Nl = (uint32_t)mc_bits; c->Nh = (uint32_t)(mc_bits >> 32);
  while (n--) { c->data[c->num++] = *p++; if (c->num == 64) { mc_sha256_block(c->h, c->data); c->num = 0; } }
  return 1;
}
static inline int SHA256_Final(uint8_t* out, SHA256_CTX* c) {
  uint64_t bits = (uint64_t)c->Nh << 32 | c->Nl; uint8_t b = 0x80; SHA256_Update(c, &b, 1); b = 0;
  while (c->num != 56) SHA256_Update(c, &b, 1);
  uint8_t l[8]; for (int i = 0; i < 8; ++i) l[i] = (uint8_t)(bits >> (56 - 8*i));
  SHA256_Update(c, l, 8);
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 4; ++j) out[4*i+j] = (uint8_t)(c->h[i] >> (24 - 8*j));
  return 1;
}
#endif
