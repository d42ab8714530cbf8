#pragma once
#include "common.hpp"
#include <wmmintrin.h>
extern "C" {
typedef struct
{
    __m128i I[3], J[3], L;
} golden_ctx;
void golden_aez_setup(const unsigned char* key, unsigned keylen, golden_ctx* ctx);
void golden_aez_encrypt(const golden_ctx* ctx, const char* n, unsigned nbytes, unsigned abytes, const char* src, unsigned bytes, char* dst);
int  golden_aez_decrypt(const golden_ctx* ctx, const char* n, unsigned nbytes, unsigned abytes, const char* src, unsigned bytes, char* dst);
}
struct GoldenPrp
{
    golden_ctx c;
    explicit GoldenPrp(const Bytes& key)
    {
        golden_aez_setup((const unsigned char*)key.data(), 48, &c);
    }
    Bytes enc(const Bytes& in) const
    {
        char  n[16] = {0};
        Bytes out(in.size() + 32, 0), i2 = in + Bytes(32, 0);
        golden_aez_encrypt(&c, n, 16, 0, i2.data(), (unsigned)in.size(), &out[0]);
        out.resize(in.size());
        return out;
    }
};
