/* Compiled together with one configuration of the library under test into a shared object.
 * Exposes only the public API as a table, plus the sizes that depend on the configuration. */
#include <stdlib.h>
#include "tiny_sphincs.h"
#include "sha2.h"
#include "fips202.h"
#include "lib_abi.h"

static const struct sim_set sets[] = {
#if TS_SUPPORT_SHA2
    { "sha2_128f", &ts_ps_sha2_128f_simple },
#if TS_SUPPORT_S
    { "sha2_128s", &ts_ps_sha2_128s_simple },
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
    { "sha2_192f", &ts_ps_sha2_192f_simple },
#if TS_SUPPORT_S
    { "sha2_192s", &ts_ps_sha2_192s_simple },
#endif
#endif
#if TS_SUPPORT_L5
    { "sha2_256f", &ts_ps_sha2_256f_simple },
#if TS_SUPPORT_S
    { "sha2_256s", &ts_ps_sha2_256s_simple },
#endif
#endif
#endif
#if TS_SUPPORT_SHAKE
    { "shake_128f", &ts_ps_shake_128f_simple },
#if TS_SUPPORT_S
    { "shake_128s", &ts_ps_shake_128s_simple },
#endif
#if TS_SUPPORT_L3 || TS_SUPPORT_L5
    { "shake_192f", &ts_ps_shake_192f_simple },
#if TS_SUPPORT_S
    { "shake_192s", &ts_ps_shake_192s_simple },
#endif
#endif
#if TS_SUPPORT_L5
    { "shake_256f", &ts_ps_shake_256f_simple },
#if TS_SUPPORT_S
    { "shake_256s", &ts_ps_shake_256s_simple },
#endif
#endif
#endif
    { 0, 0 }
};

#ifndef SIM_GUEST
/* every allocation made by the library goes through the simulator (linked with --wrap) */
extern void *sim_malloc( size_t n );
extern void sim_free( void *p );
extern void *sim_realloc( void *p, size_t n );
void *__wrap_malloc( size_t n ) { return sim_malloc( n ); }
void *__wrap_calloc( size_t a, size_t b ) {
    unsigned char *p = sim_malloc( a*b );
    if (p) for (size_t i=0; i<a*b; i++) p[i] = 0;
    return p;
}
void *__wrap_realloc( void *p, size_t n ) { return sim_realloc( p, n ); }
void __wrap_free( void *p ) { sim_free( p ); }
#endif

#ifdef SIM_LEAK
/* so do the copies, whose length (and for comparisons, the length of the common prefix) an observer can see */
#include <string.h>
extern void sim_leak_mem( const void *d, const void *s, size_t n );
extern void *__real_memcpy( void *d, const void *s, size_t n ), *__real_memmove( void *d, const void *s, size_t n ), *__real_memset( void *d, int c, size_t n );
extern int __real_memcmp( const void *a, const void *b, size_t n );
void *__wrap_memcpy( void *d, const void *s, size_t n ) { sim_leak_mem( d, s, n ); return __real_memcpy( d, s, n ); }
void *__wrap_memmove( void *d, const void *s, size_t n ) { sim_leak_mem( d, s, n ); return __real_memmove( d, s, n ); }
void *__wrap_memset( void *d, int c, size_t n ) { sim_leak_mem( d, 0, n ); return __real_memset( d, c, n ); }
int __wrap_memcmp( const void *a, const void *b, size_t n ) {
    const unsigned char *p = a, *q = b;
    size_t i = 0;
    while (i < n && p[i] == q[i]) i++;
    sim_leak_mem( a, b, n );
    sim_leak_mem( 0, 0, i );
    return i == n ? 0 : p[i] < q[i] ? -1 : 1;
}
#endif

/* The hash interfaces are bound by name only, so that a tree without one of them still loads. */
#define WEAK(n) extern void w_##n(void) __asm__("ts_" #n) __attribute__((weak))
WEAK(SHA256_init); WEAK(SHA256_update); WEAK(SHA256_final); WEAK(SHA256_final_trunc); WEAK(SHA256_save_state); WEAK(SHA256_restore_state_after_64);
WEAK(SHA512_init); WEAK(SHA512_update); WEAK(SHA512_final); WEAK(SHA512_final_trunc); WEAK(SHA512_save_state); WEAK(SHA512_restore_state_after_128);
WEAK(shake256_inc_init); WEAK(shake256_inc_absorb); WEAK(shake256_inc_finalize); WEAK(shake256_inc_squeeze);
#define FN(x) ((void (*)(void))(x))
const struct sim_abi sim_abi = {
    sizeof(struct ts_context), _Alignof(struct ts_context),
    sizeof(SHA256_CTX), sizeof(SHA512_CTX), sizeof(SHAKE256_CTX),
    sets,
    FN(ts_gen_key), FN(ts_init_sign), FN(ts_sign), FN(ts_init_verify), FN(ts_update_verify), FN(ts_verify),
    FN(ts_size_private_key), FN(ts_size_public_key), FN(ts_size_signature),
    w_SHA256_init, w_SHA256_update, w_SHA256_final, w_SHA256_final_trunc, w_SHA256_save_state, w_SHA256_restore_state_after_64,
    w_SHA512_init, w_SHA512_update, w_SHA512_final, w_SHA512_final_trunc, w_SHA512_save_state, w_SHA512_restore_state_after_128,
    w_shake256_inc_init, w_shake256_inc_absorb, w_shake256_inc_finalize, w_shake256_inc_squeeze,
};
