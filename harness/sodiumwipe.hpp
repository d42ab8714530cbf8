// libsodium leaves residues of its own on the stack (its digest buffer, for
// one). It is trusted here, so the stack below each of its functions is wiped
// when it returns (link-time wrapping); what remains on the stack was left by
// the library under test.
#pragma once
namespace scan {
__attribute__((noinline)) inline void wipe_below()
{
    unsigned char b[12288];
    __builtin_memset(b, 0, sizeof b);
    asm volatile("" ::"r"(b) : "memory");
}
}
// every argument of these functions is of integer class: pass them through
#define SODIUM_WIPED(n)                                                                                                                            \
    extern "C" long __real_##n(long, long, long, long, long, long, long, long, long, long);                                                        \
    extern "C" long __wrap_##n(long a, long b, long c, long d, long e, long f, long g, long h, long i, long j)                                     \
    {                                                                                                                                              \
        long r = __real_##n(a, b, c, d, e, f, g, h, i, j);                                                                                         \
        scan::wipe_below();                                                                                                                        \
        return r;                                                                                                                                  \
    }
SODIUM_WIPED(crypto_generichash)
SODIUM_WIPED(crypto_generichash_init)
SODIUM_WIPED(crypto_generichash_update)
SODIUM_WIPED(crypto_generichash_final)
SODIUM_WIPED(crypto_generichash_blake2b)
SODIUM_WIPED(crypto_generichash_blake2b_salt_personal)
SODIUM_WIPED(crypto_generichash_blake2b_init)
SODIUM_WIPED(crypto_generichash_blake2b_init_salt_personal)
SODIUM_WIPED(crypto_generichash_blake2b_update)
SODIUM_WIPED(crypto_generichash_blake2b_final)
SODIUM_WIPED(crypto_hash_sha512)
SODIUM_WIPED(crypto_hash_sha512_init)
SODIUM_WIPED(crypto_hash_sha512_update)
SODIUM_WIPED(crypto_hash_sha512_final)
SODIUM_WIPED(crypto_stream_chacha20)
SODIUM_WIPED(crypto_stream_chacha20_xor)
SODIUM_WIPED(crypto_stream_chacha20_xor_ic)
SODIUM_WIPED(crypto_stream_chacha20_ietf)
SODIUM_WIPED(crypto_stream_chacha20_ietf_xor)
SODIUM_WIPED(crypto_stream_chacha20_ietf_xor_ic)
SODIUM_WIPED(crypto_aead_chacha20poly1305_ietf_encrypt)
SODIUM_WIPED(crypto_aead_chacha20poly1305_ietf_decrypt)
SODIUM_WIPED(crypto_aead_chacha20poly1305_ietf_encrypt_detached)
SODIUM_WIPED(crypto_aead_chacha20poly1305_ietf_decrypt_detached)
