#ifndef FAKE_RELIC_CONF_H
#define FAKE_RELIC_CONF_H
#define RLC_FP_BYTES 32
#define RLC_BN_BITS 1024
#endif
