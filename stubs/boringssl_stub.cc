#include <string.h>

#include "openssl/blake2.h"
#include "openssl/chacha.h"
#include "openssl/sha.h"

namespace {
inline uint32_t rotl32(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
inline uint32_t rotr32(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline uint64_t rotr64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }

const uint64_t kIV[8] = {
    0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull,
    0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full,
    0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
const uint8_t kSigma[10][16] = {
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
    {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
    {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
    {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
    {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
    {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
    {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
    {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
    {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
    {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};

void mix(uint64_t v[16], int a, int b, int c, int d, uint64_t x, uint64_t y) {
  v[a] += v[b] + x;
  v[d] = rotr64(v[d] ^ v[a], 32);
  v[c] += v[d];
  v[b] = rotr64(v[b] ^ v[c], 24);
  v[a] += v[b] + y;
  v[d] = rotr64(v[d] ^ v[a], 16);
  v[c] += v[d];
  v[b] = rotr64(v[b] ^ v[c], 63);
}

void transform(BLAKE2B_CTX* s, const uint8_t block[128], size_t n, int last) {
  uint64_t v[16], m[16];
  for (int i = 0; i < 8; ++i) v[i] = s->h[i], v[i + 8] = kIV[i];
  s->t_low += n;
  if (s->t_low < n) s->t_high++;
  v[12] ^= s->t_low;
  v[13] ^= s->t_high;
  if (last) v[14] = ~v[14];
  memcpy(m, block, 128);
  for (int r = 0; r < 12; ++r) {
    const uint8_t* g = kSigma[r % 10];
    mix(v, 0, 4, 8, 12, m[g[0]], m[g[1]]);
    mix(v, 1, 5, 9, 13, m[g[2]], m[g[3]]);
    mix(v, 2, 6, 10, 14, m[g[4]], m[g[5]]);
    mix(v, 3, 7, 11, 15, m[g[6]], m[g[7]]);
    mix(v, 0, 5, 10, 15, m[g[8]], m[g[9]]);
    mix(v, 1, 6, 11, 12, m[g[10]], m[g[11]]);
    mix(v, 2, 7, 8, 13, m[g[12]], m[g[13]]);
    mix(v, 3, 4, 9, 14, m[g[14]], m[g[15]]);
  }
  for (int i = 0; i < 8; ++i) s->h[i] ^= v[i] ^ v[i + 8];
}

const uint32_t kK[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};

void sha_block(SHA256_CTX* c, const uint8_t* p) {
  uint32_t w[64];
  for (int i = 0; i < 16; ++i)
    w[i] = uint32_t(p[4 * i]) << 24 | uint32_t(p[4 * i + 1]) << 16 |
           uint32_t(p[4 * i + 2]) << 8 | p[4 * i + 3];
  for (int i = 16; i < 64; ++i) {
    uint32_t s0 = rotr32(w[i - 15], 7) ^ rotr32(w[i - 15], 18) ^ (w[i - 15] >> 3);
    uint32_t s1 = rotr32(w[i - 2], 17) ^ rotr32(w[i - 2], 19) ^ (w[i - 2] >> 10);
    w[i] = w[i - 16] + s0 + w[i - 7] + s1;
  }
  uint32_t a = c->h[0], b = c->h[1], cc = c->h[2], d = c->h[3], e = c->h[4],
           f = c->h[5], g = c->h[6], h = c->h[7];
  for (int i = 0; i < 64; ++i) {
    uint32_t t1 = h + (rotr32(e, 6) ^ rotr32(e, 11) ^ rotr32(e, 25)) +
                  ((e & f) ^ (~e & g)) + kK[i] + w[i];
    uint32_t t2 = (rotr32(a, 2) ^ rotr32(a, 13) ^ rotr32(a, 22)) +
                  ((a & b) ^ (a & cc) ^ (b & cc));
    h = g; g = f; f = e; e = d + t1; d = cc; cc = b; b = a; a = t1 + t2;
  }
  c->h[0] += a; c->h[1] += b; c->h[2] += cc; c->h[3] += d;
  c->h[4] += e; c->h[5] += f; c->h[6] += g; c->h[7] += h;
}
}  // namespace

extern "C" {
void BLAKE2B512_InitWithPersonal(BLAKE2B_CTX* b, const char personal[16]) {
  memset(b, 0, sizeof(*b));
  memcpy(b->h, kIV, sizeof(kIV));
  b->h[0] ^= 0x01010000 | BLAKE2B512_DIGEST_LENGTH;
  if (personal) {
    uint64_t l, r;
    memcpy(&l, personal, 8);
    memcpy(&r, personal + 8, 8);
    b->h[6] ^= l;
    b->h[7] ^= r;
  }
}
void BLAKE2B512_Init(BLAKE2B_CTX* b) { BLAKE2B512_InitWithPersonal(b, nullptr); }
void BLAKE2B512_Update(BLAKE2B_CTX* b, const void* in, size_t len) {
  const uint8_t* p = static_cast<const uint8_t*>(in);
  while (len) {
    if (b->block_used == 128) {
      transform(b, b->block, 128, 0);
      b->block_used = 0;
    }
    size_t n = 128 - b->block_used;
    if (n > len) n = len;
    memcpy(b->block + b->block_used, p, n);
    b->block_used += n;
    p += n;
    len -= n;
  }
}
void BLAKE2B512_Final(uint8_t out[64], BLAKE2B_CTX* b) {
  memset(b->block + b->block_used, 0, 128 - b->block_used);
  transform(b, b->block, b->block_used, 1);
  memcpy(out, b->h, 64);
}
void chacha_core(uint8_t output[64], const uint32_t input[16]) {
  uint32_t x[16];
  memcpy(x, input, 64);
  auto qr = [&](int a, int b, int c, int d) {
    x[a] += x[b]; x[d] = rotl32(x[d] ^ x[a], 16);
    x[c] += x[d]; x[b] = rotl32(x[b] ^ x[c], 12);
    x[a] += x[b]; x[d] = rotl32(x[d] ^ x[a], 8);
    x[c] += x[d]; x[b] = rotl32(x[b] ^ x[c], 7);
  };
  for (int i = 0; i < 10; ++i) {
    qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
    qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
  }
  for (int i = 0; i < 16; ++i) x[i] += input[i];
  memcpy(output, x, 64);
}
int SHA256_Init(SHA256_CTX* c) {
  memset(c, 0, sizeof(*c));
  const uint32_t iv[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a,
                          0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  memcpy(c->h, iv, 32);
  c->md_len = 32;
  return 1;
}
int SHA256_Update(SHA256_CTX* c, const void* in, size_t len) {
  const uint8_t* p = static_cast<const uint8_t*>(in);
  uint64_t bits = (uint64_t(c->Nh) << 32 | c->Nl) + (uint64_t(len) << 3);
  c->Nl = uint32_t(bits);
  c->Nh = uint32_t(bits >> 32);
  while (len) {
    size_t n = 64 - c->num;
    if (n > len) n = len;
    memcpy(c->data + c->num, p, n);
    c->num += n;
    p += n;
    len -= n;
    if (c->num == 64) {
      sha_block(c, c->data);
      c->num = 0;
    }
  }
  return 1;
}
int SHA256_Final(uint8_t out[32], SHA256_CTX* c) {
  uint64_t bits = uint64_t(c->Nh) << 32 | c->Nl;
  uint8_t pad = 0x80, zero = 0;
  SHA256_Update(c, &pad, 1);
  while (c->num != 56) SHA256_Update(c, &zero, 1);
  uint8_t l[8];
  for (int i = 0; i < 8; ++i) l[i] = uint8_t(bits >> (56 - 8 * i));
  SHA256_Update(c, l, 8);
  for (int i = 0; i < 8; ++i) {
    out[4 * i] = c->h[i] >> 24; out[4 * i + 1] = c->h[i] >> 16;
    out[4 * i + 2] = c->h[i] >> 8; out[4 * i + 3] = c->h[i];
  }
  return 1;
}
}
