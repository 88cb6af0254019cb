// Stand-in for boringssl sha.h (SHA-256 only), with boringssl's state layout.
#ifndef VERIF_STUB_SHA_H_
#define VERIF_STUB_SHA_H_
#include <stddef.h>
#include <stdint.h>
#define SHA256_CBLOCK 64
#define SHA256_DIGEST_LENGTH 32
extern "C" {
struct sha256_state_st {
  uint32_t h[8];
  uint32_t Nl, Nh;
  uint8_t data[SHA256_CBLOCK];
  unsigned num, md_len;
};
typedef struct sha256_state_st SHA256_CTX;
int SHA256_Init(SHA256_CTX* sha);
int SHA256_Update(SHA256_CTX* sha, const void* data, size_t len);
int SHA256_Final(uint8_t out[SHA256_DIGEST_LENGTH], SHA256_CTX* sha);
}
#endif
