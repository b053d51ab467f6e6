// Stand-in for evmc's C types (evmc is not installed here).
#ifndef VERIF_EVMC_H
#define VERIF_EVMC_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
typedef struct evmc_address {
    uint8_t bytes[20];
} evmc_address;
typedef struct evmc_bytes32 {
    uint8_t bytes[32];
} evmc_bytes32;
typedef struct evmc_bytes32 evmc_uint256be;
#endif
