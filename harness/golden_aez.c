/* Frozen reference: AEZ v4.1 as of the pinned commit, under other names. */
#define aez_setup   golden_aez_setup
#define aez_encrypt golden_aez_encrypt
#define aez_decrypt golden_aez_decrypt
#include "golden/aez_golden.inc"
