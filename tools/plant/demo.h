/* Shared by the demonstrations: keys, one-piece signing and verification. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "tiny_sphincs.h"
#ifdef __cplusplus
}
#endif
static unsigned demo_seed = 1;
static int demo_rand( unsigned char *p, size_t n ) { unsigned r = demo_seed; for (size_t i = 0; i < n; i++) { r = r * 1664525u + 1013904223u; p[i] = r >> 24; } return 1; }
static void demo_key( const struct ts_parameter_set *ps, unsigned seed, unsigned char *sk, unsigned char *pk ) { demo_seed = seed; if (!ts_gen_key( sk, pk, ps, demo_rand )) { puts( "keygen failed" ); exit( 1 ); } }
static unsigned char *demo_sign( const struct ts_parameter_set *ps, const unsigned char *sk, const void *m, size_t len ) {
    unsigned n = ts_size_signature( ps ); unsigned char *s = (unsigned char *)malloc( n + 64 ); struct ts_context *c = (struct ts_context *)calloc( 1, sizeof *c );
    ts_init_sign( c, m, len, ps, sk, 0 ); if (ts_sign( s, n, c ) != n) { puts( "signature has the wrong size" ); exit( 1 ); } free( c ); return s; }
static int demo_verify( const struct ts_parameter_set *ps, const unsigned char *pk, const void *m, size_t len, const unsigned char *s, unsigned n ) {
    struct ts_context *c = calloc( 1, sizeof *c ); ts_init_verify( c, m, len, ps, pk ); ts_update_verify( s, n, c ); int r = ts_verify( c ); free( c ); return r; }
#define CHECK(x) do { if (!(x)) { printf( "line %d: %s\n", __LINE__, #x ); exit( 1 ); } } while (0)
