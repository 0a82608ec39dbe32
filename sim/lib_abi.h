#ifndef LIB_ABI_H
#define LIB_ABI_H
#include <stddef.h>
#include <stdint.h>
struct sim_set { const char *name; const void *ps; };
struct sim_abi {
    size_t ctx_size, ctx_align, sha256_size, sha512_size, shake_size;
    const struct sim_set *sets;
    void (*gen_key)(void), (*init_sign)(void), (*sign)(void), (*init_verify)(void), (*update_verify)(void), (*verify)(void);
    void (*size_sk)(void), (*size_pk)(void), (*size_sig)(void);
    void (*h256_init)(void), (*h256_update)(void), (*h256_final)(void), (*h256_trunc)(void), (*h256_save)(void), (*h256_restore)(void);
    void (*h512_init)(void), (*h512_update)(void), (*h512_final)(void), (*h512_trunc)(void), (*h512_save)(void), (*h512_restore)(void);
    void (*shk_init)(void), (*shk_absorb)(void), (*shk_finalize)(void), (*shk_squeeze)(void);
};
#endif
