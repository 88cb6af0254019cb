// Stand-in for the (patched) boringssl chacha.h; RFC 8439 block function.
#ifndef VERIF_STUB_CHACHA_H_
#define VERIF_STUB_CHACHA_H_
#include <stdint.h>
extern "C" void chacha_core(uint8_t output[64], const uint32_t input[16]);
#endif
