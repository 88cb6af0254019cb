// Stand-in for the (patched) boringssl blake2.h; RFC 7693.
#ifndef VERIF_STUB_BLAKE2_H_
#define VERIF_STUB_BLAKE2_H_
#include <stddef.h>
#include <stdint.h>
#define BLAKE2B256_DIGEST_LENGTH (256 / 8)
#define BLAKE2B512_DIGEST_LENGTH (512 / 8)
#define BLAKE2B_CBLOCK 128
#define BLAKE2B_PERSONAL_LENGTH 16
extern "C" {
struct blake2b_state_st {
  uint64_t h[8];
  uint64_t t_low, t_high;
  uint8_t block[BLAKE2B_CBLOCK];
  size_t block_used;
};
typedef struct blake2b_state_st BLAKE2B_CTX;
void BLAKE2B512_Init(BLAKE2B_CTX* b2b);
void BLAKE2B512_InitWithPersonal(BLAKE2B_CTX* b2b, const char personal[BLAKE2B_PERSONAL_LENGTH]);
void BLAKE2B512_Update(BLAKE2B_CTX* b2b, const void* data, size_t len);
void BLAKE2B512_Final(uint8_t out[BLAKE2B512_DIGEST_LENGTH], BLAKE2B_CTX* b2b);
}
#endif
