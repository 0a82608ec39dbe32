BUGS = []
def B(id, prop, edits, demo, needs, breaks, flags="", files=(), cc="", emu=""):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, files=files, cc=cc, emu=emu))

ALLF = 'static const struct ts_parameter_set *sets[] = { &ts_ps_sha2_128f_simple, &ts_ps_shake_128f_simple, &ts_ps_sha2_256f_simple };\n'

# ---------------------------------------------------------------- C01
B("c01-short-count", "C01", [("tiny_sphincs.c", "    unsigned orig_m = m;\n", "    unsigned short orig_m = m;  /* no signature is longer than 64k */\n    m = orig_m;\n")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk );
    unsigned char *a = demo_sign( ps, sk, "abc", 3 ), *b = malloc( 200000 ); struct ts_context c; unsigned n = ts_size_signature( ps );
    ts_init_sign( &c, "abc", 3, ps, sk, 0 ); CHECK( ts_sign( b, 131072, &c ) == n ); CHECK( !memcmp( a, b, n ) ); CHECK( ts_sign( b, 65536, &c ) == 0 ); return 0; }
''', "a request for 65536 bytes or more", "a large request returns too few bytes, or none at all")

# ---------------------------------------------------------------- C02
B("c02-sha256-count-32bit", "C02", [("sha2.h", "    uint64_t count;                 /* Number of bits processed so far */\n", "    uint32_t count;                 /* Number of bits processed so far */\n")], r'''
#include <sys/mman.h>
#include "ref.h"
int main() { size_t len = ((size_t)1 << 29) + 17; unsigned char *m = (unsigned char *)mmap( 0, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); unsigned char sk[128], pk[64], b[3000]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk );
    struct ts_context c; ts_init_sign( &c, m, len, ps, sk, 0 ); CHECK( ts_sign( b, 64, &c ) == 64 ); const ref::Params *rp = ref::find( "sha2_128f" ); ref::bytes s = ref::sign( ref::raw_key( rp, sk ), nullptr, m, len, 64 ); CHECK( !memcmp( s.data(), b, 64 ) ); return 0; }
''', "a message of more than 2^29 bytes with a SHA-2 parameter set", "the bit count of SHA-256 wraps", files=["/verif/ref/ref.h", "/verif/ref/ref.cpp"])

B("c02-padding-55", "C02", [("sha256.c", "    if (ctx->num > 56) {", "    if (ctx->num >= 56) {")], r'''
#include "ref.h"
int main() { unsigned char sk[128], pk[64], m[200], b[64]; memset( m, 7, sizeof m ); const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); const ref::Params *rp = ref::find( "sha2_128f" ); ref::Key k = ref::raw_key( rp, sk );
    for (size_t len = 0; len < 130; len++) { struct ts_context c; ts_init_sign( &c, m, len, ps, sk, 0 ); ts_sign( b, 64, &c ); ref::bytes s = ref::sign( k, nullptr, m, len, 64 ); CHECK( !memcmp( s.data(), b, 64 ) ); } return 0; }
''', "a message whose length puts the hashed input at 55 mod 64 bytes, SHA-2 level 1", "wrong SHA-256 padding for one length in 64", files=["/verif/ref/ref.h", "/verif/ref/ref.cpp"])

B("c02-root-not-hashed-long", "C02", [("shake256_hash.c", "    ts_shake256_inc_absorb(ctx, randomness, n);\n    ts_shake256_inc_absorb(ctx, pk_seed, n);\n    ts_shake256_inc_absorb(ctx, pk_root, n);\n    ts_shake256_inc_absorb(ctx, message, len_message);\n", "    ts_shake256_inc_absorb(ctx, randomness, n);\n    ts_shake256_inc_absorb(ctx, pk_seed, n);\n    ts_shake256_inc_absorb(ctx, pk_root, n);\n    /* Absorb the message in pieces that fit the sponge's rate counter */\n    const unsigned char *end = message + len_message;\n    for (; end - message > 65535; message += 65535)\n        ts_shake256_inc_absorb(ctx, message, 65535);\n    ts_shake256_inc_absorb(ctx, message, (len_message & 0xffff));\n")], r'''
#include "ref.h"
int main() { unsigned char sk[128], pk[64], b[64]; size_t max = 200000; unsigned char *m = (unsigned char *)malloc( max ); memset( m, 7, max ); const struct ts_parameter_set *ps = &ts_ps_shake_128f_simple; demo_key( ps, 1, sk, pk ); const ref::Params *rp = ref::find( "shake_128f" ); ref::Key k = ref::raw_key( rp, sk );
    size_t lens[] = { 0, 1, 65534, 65535, 65536, 65537, 131070, 131072, 150000 }; for (size_t len : lens) { struct ts_context c; ts_init_sign( &c, m, len, ps, sk, 0 ); ts_sign( b, 64, &c ); ref::bytes s = ref::sign( k, nullptr, m, len, 64 ); CHECK( !memcmp( s.data(), b, 64 ) ); } return 0; }
''', "a message of more than 65535 bytes with a SHAKE parameter set", "the tail of a long message is hashed with the wrong length", files=["/verif/ref/ref.h", "/verif/ref/ref.cpp"])

# ---------------------------------------------------------------- C03
B("c03-empty-delivery", "C03", [("verify.c", "    unsigned n = ctx->ps->n;\n    for (;;) {\n", "    if (m == 0) return 0;  /* Nothing to look at */\n\n    unsigned n = ctx->ps->n;\n    for (;;) {\n")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( a, 0, &c ) ); CHECK( ts_update_verify( a, 100, &c ) ); CHECK( ts_update_verify( a + 100, 0, &c ) ); CHECK( ts_update_verify( a + 100, n - 100, &c ) ); CHECK( ts_verify( &c ) ); return 0; }
''', "an empty delivery", "an empty delivery in the middle of a genuine signature is reported as failure")

# ---------------------------------------------------------------- C04
B("c04-length-32bit", "C04", [("tiny_sphincs.h", "	    const void *message;\n	    size_t len_message;\n", "	    const void *message;\n	    unsigned len_message;\n")], r'''
#include <sys/mman.h>
int main() { size_t len = ((size_t)1 << 32) + 5; unsigned char *m = mmap( 0, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk );
    unsigned char *a = demo_sign( ps, sk, m, 5 ); CHECK( demo_verify( ps, pk, m, 5, a, ts_size_signature( ps ) ) ); CHECK( !demo_verify( ps, pk, m, len, a, ts_size_signature( ps ) ) ); return 0; }
''', "a message that is 2^32 bytes longer than the signed one", "the verifier uses the message length modulo 2^32")

# ---------------------------------------------------------------- C05
B("c05-surplus-256", "C05", [("verify.c", "		if (m == 0 && 0 == my_memcmp", "		unsigned char left = m;\n		if (left == 0 && 0 == my_memcmp")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ), *b = calloc( 1, n + 1024 ); memcpy( b, a, n );
    CHECK( demo_verify( ps, pk, "abc", 3, b, n ) ); for (unsigned x = 1; x <= 1024; x++) CHECK( !demo_verify( ps, pk, "abc", 3, b, n + x ) || (x & 127) != 0 ); for (unsigned x = 128; x <= 1024; x += 128) CHECK( !demo_verify( ps, pk, "abc", 3, b, n + x ) ); return 0; }
''', "surplus of a multiple of 256 bytes in the call that completes the signature", "such surplus is ignored and the signature accepted")

B("c05-surplus-blocks-later", "C05", [("verify.c", "	default:\n            ctx->state = ts_verify_fail;  /* Something awful happened; */", "	case ts_verify_success:  /* Bytes after the end */\n	    if (m == 0) return 0;\n	    break;\n\n	default:\n            ctx->state = ts_verify_fail;  /* Something awful happened; */")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( a, n, &c ) ); CHECK( ts_verify( &c ) ); ts_update_verify( a, 16, &c ); CHECK( !ts_verify( &c ) ); return 0; }
''', "surplus of a whole number of hashes delivered after the signature is complete", "the verdict stays accept")

B("c05-early-accept", "C05", [("verify.c", "    return ctx->state == ts_verify_success && ctx->buffer_offset == 0;", "    return ctx->state == ts_verify_success &&\n	   (ctx->buffer_offset & (ctx->ps->n/2 - 1)) == 0;")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_256f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    for (unsigned x = 1; x < 40; x++) { ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( a, n, &c ) ); ts_update_verify( a, x, &c ); CHECK( !ts_verify( &c ) ); } return 0; }
''', "surplus of exactly half a hash in a later call", "the verdict stays accept")

# ---------------------------------------------------------------- C06
B("c06-failure-forgotten", "C06", [("verify.c", "ctx->state >= ts_verify_fail) {", "ctx->state > ts_verify_fail) {")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); struct ts_context c; a[500] ^= 1;
    ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( !ts_update_verify( a, n, &c ) ); for (int i = 0; i < 50; i++) CHECK( !ts_update_verify( a, 3, &c ) ); CHECK( !ts_verify( &c ) ); return 0; }
''', "deliveries of less than a hash after a failure", "they are reported as good")

B("c06-query-ends-session", "C06", [("verify.c", "    return ctx->state == ts_verify_success && ctx->buffer_offset == 0;", "    if (ctx->state != ts_verify_success && ctx->buffer_offset) {\n	/* The signature ended in the middle of a hash */\n	ctx->state = ts_verify_fail;\n    }\n    return ctx->state == ts_verify_success && ctx->buffer_offset == 0;")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( a, 1000, &c ) ); CHECK( !ts_verify( &c ) ); CHECK( ts_update_verify( a + 1000, n - 1000, &c ) ); CHECK( ts_verify( &c ) ); return 0; }
''', "a verdict query while part of a hash is buffered", "asking for the verdict destroys the session")

B("c06-one-shot-verdict", "C06", [("verify.c", "    return ctx->state == ts_verify_success && ctx->buffer_offset == 0;", "    int ok = ctx->state == ts_verify_success && ctx->buffer_offset == 0;\n    if (ok) ctx->state = ts_verify_state;  /* This session is over */\n    return ok;")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( a, n, &c ) ); CHECK( ts_verify( &c ) ); CHECK( ts_verify( &c ) ); return 0; }
''', "a second verdict query", "the second query answers reject")

# ---------------------------------------------------------------- C07
B("c07-static-schedule", "C07", [("sha512.c", "    uint64_t S[SHA512_S_SIZE], t0, t1;\n", "    static uint64_t S[SHA512_S_SIZE];  /* Keep it off the stack */\n    uint64_t t0, t1;\n")], r'''
#include <pthread.h>
static unsigned char sk[128], pk[64]; static int bad;
static void *th( void *v ) { const struct ts_parameter_set *ps = &ts_ps_sha2_256f_simple; for (int i = 0; i < 6; i++) { unsigned char *a = demo_sign( ps, sk, "abc", 3 ); if (!demo_verify( ps, pk, "abc", 3, a, ts_size_signature( ps ) )) bad = 1; free( a ); } return 0; }
int main() { demo_key( &ts_ps_sha2_256f_simple, 1, sk, pk ); pthread_t t[4]; for (int i = 0; i < 4; i++) pthread_create( &t[i], 0, th, 0 ); for (int i = 0; i < 4; i++) pthread_join( t[i], 0 ); CHECK( !bad ); return 0; }
''', "two sessions running the SHA-512 compression at the same time", "they overwrite each other's working variables", flags="-pthread")

B("c07-static-optrand", "C07", [("tiny_sphincs.c", "        unsigned char opt_buffer[TS_MAX_HASH];", "        static unsigned char opt_buffer[TS_MAX_HASH];")], r'''
static unsigned char sk[128], pk[64], other[20000]; static int depth; static const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple;
static int plain( unsigned char *p, size_t n ) { memset( p, 0x33, n ); return 1; }
static int plain2( unsigned char *p, size_t n ) { memset( p, 0x77, n ); return 1; }
static int nested( unsigned char *p, size_t n ) { memset( p, 0x33, n ); struct ts_context c; ts_init_sign( &c, "xyz", 3, ps, sk, plain2 ); return 1; }
int main() { demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = malloc( n ), *b = malloc( n ); struct ts_context c;
    ts_init_sign( &c, "abc", 3, ps, sk, plain ); CHECK( ts_sign( a, n, &c ) == n ); ts_init_sign( &c, "abc", 3, ps, sk, nested ); CHECK( ts_sign( b, n, &c ) == n ); CHECK( !memcmp( a, b, n ) ); return 0; }
''', "another signing session started while this one is inside its randomness callback (or preempted right after it)", "the other session's random bytes are used")

B("c07-static-merkle-scratch", "C07", [("tiny_sphincs.c", "    for (int d = 0; d < 2*ctx->ps->n + 3; d++) {\n	unsigned char *buffer = ctx->x.merkle.buffer;\n", "    static unsigned char buffer[TS_MAX_HASH];  /* Scratch space */\n    for (int d = 0; d < 2*ctx->ps->n + 3; d++) {\n")], r'''
#include <pthread.h>
static unsigned char sk[128], pk[64]; static int bad;
static void *th( void *v ) { const struct ts_parameter_set *ps = &ts_ps_shake_128f_simple; for (int i = 0; i < 4; i++) { unsigned char *a = demo_sign( ps, sk, "abc", 3 ); if (!demo_verify( ps, pk, "abc", 3, a, ts_size_signature( ps ) )) bad = 1; free( a ); } return 0; }
int main() { demo_key( &ts_ps_shake_128f_simple, 1, sk, pk ); pthread_t t[4]; for (int i = 0; i < 4; i++) pthread_create( &t[i], 0, th, 0 ); for (int i = 0; i < 4; i++) pthread_join( t[i], 0 ); CHECK( !bad ); return 0; }
''', "two sessions computing Merkle leaves at the same time", "they overwrite each other's chain values", flags="-pthread")

# ---------------------------------------------------------------- C08
B("c08-prehash-kept", "C08", [("tiny_sphincs.c", "    ctx->ps = ps;\n    ctx->public_key = CONVERT_PRIVATE_KEY_TO_PUBLIC( private_key, n );\n\n#if TS_SHA2_OPTIMIZATION\n    if (ps->compute_prehash) ps->compute_prehash( ctx );\n#endif\n", "    const unsigned char *public_key = CONVERT_PRIVATE_KEY_TO_PUBLIC( private_key, n );\n    int same_key = ctx->ps == ps && ctx->public_key == public_key;\n    ctx->ps = ps;\n    ctx->public_key = public_key;\n\n#if TS_SHA2_OPTIMIZATION\n    /* Signing again with the same key; we still have the prehash */\n    if (ps->compute_prehash && !same_key) ps->compute_prehash( ctx );\n#endif\n")], r'''
int main() { unsigned char sk[128], pk[64], sk2[128], pk2[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); demo_key( ps, 2, sk2, pk2 ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk2, "abc", 3 ), *b = malloc( n ); struct ts_context c; memset( &c, 0, sizeof c );
    ts_init_sign( &c, "abc", 3, ps, sk, 0 ); ts_sign( b, 100, &c ); memcpy( sk, sk2, 64 ); ts_init_sign( &c, "abc", 3, ps, sk, 0 ); CHECK( ts_sign( b, n, &c ) == n ); CHECK( !memcmp( a, b, n ) ); return 0; }
''', "a context that was used with another key at the same address, or a start cut off before the prehash was complete", "the new session hashes with the old key's precomputed state")

B("c08-keygen-dirty-stack", "C08", [("key_gen.c", "    memset( &ctx, 0, sizeof ctx );  /* Just in case we forget to */\n                                    /* initialize something */\n", "    ctx.fors_tree = 0;\n    ctx.hypertree_level = 0;\n"), ("key_gen.c", "    ctx.auth_path_node = 0; /* Actually, we don't care which leaf we use */\n", "    ctx.auth_path_node = 0; /* Actually, we don't care which leaf we use */\n    if (ctx.fors_keypair_addr >= 1u << ps->h/ps->d) ctx.fors_keypair_addr = 0;\n")], r'''
__attribute__((noinline)) static void dirty( int v ) { volatile unsigned char x[8192]; for (unsigned i = 0; i < sizeof x; i++) x[i] = (i & 1) ? 0 : v; }
int main() { unsigned char sk[128], pk[64], pk2[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; for (int v = 0; v < 8; v++) { dirty( 0 ); demo_key( ps, 1, sk, pk ); dirty( v ); demo_key( ps, 1, sk, pk2 ); CHECK( !memcmp( pk, pk2, 32 ) ); dirty( v << 4 ); demo_key( ps, 1, sk, pk2 ); CHECK( !memcmp( pk, pk2, 32 ) ); } return 0; }
''', "particular leftovers on the stack when key generation starts", "the generated root depends on what the stack held before")

B("c08-verify-offset-kept", "C08", [("verify.c", "    ctx->state = ts_verify_init;  /* We're waiting for the R in the sig */\n    ctx->buffer_offset = 0;\n", "    /* We're waiting for the R in the sig */\n    if (ctx->state != ts_verify_fors || ctx->public_key != public_key || ctx->buffer_offset >= ps->n)\n        ctx->buffer_offset = 0;\n    ctx->state = ts_verify_init;\n"), ("verify.c", "    ctx->ps = ps;\n    ctx->public_key = public_key;\n", "    ctx->ps = ps;\n"), ("verify.c", "    ctx->x.verify.message = message;\n", "    ctx->public_key = public_key;\n    ctx->x.verify.message = message;\n")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); struct ts_context c; memset( &c, 0, sizeof c );
    for (unsigned cut = 0; cut < 700; cut++) { ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( a, cut, &c ) ); if (cut % 7) continue; ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( a, n, &c ) ); CHECK( ts_verify( &c ) ); } return 0; }
''', "restarting a verification with the same key after the previous one was abandoned in the middle of a FORS path hash", "left-over bytes of the abandoned session become part of the new one")

# ---------------------------------------------------------------- C09
B("c09-negative-means-failure", "C09", [("key_gen.c", "    if (!random_function( private_key, 3*n )) {", "    if (random_function( private_key, 3*n ) < 0) {")], r'''
static int fail( unsigned char *p, size_t n ) { return 0; }
int main() { unsigned char sk[128], pk[64]; memset( sk, 5, 128 ); memset( pk, 6, 64 ); CHECK( !ts_gen_key( sk, pk, &ts_ps_sha2_128f_simple, fail ) ); for (int i = 0; i < 64; i++) CHECK( pk[i] == 6 ); return 0; }
''', "a randomness source that reports failure", "key generation succeeds without randomness")

B("c09-public-early", "C09", [("key_gen.c", "    unsigned n = ps->n;\n\n    /* Pick a random private key */\n", "    unsigned n = ps->n;\n\n    /* Nobody should mistake an old public key for the one we generate */\n    if (public_key) memset( public_key, 0, 2*n );\n\n    /* Pick a random private key */\n")], r'''
static int fail( unsigned char *p, size_t n ) { return 0; }
int main() { unsigned char sk[128], pk[64]; memset( sk, 5, 128 ); memset( pk, 6, 64 ); CHECK( !ts_gen_key( sk, pk, &ts_ps_shake_256f_simple, fail ) ); for (int i = 0; i < 64; i++) CHECK( pk[i] == 6 ); return 0; }
''', "a randomness source that reports failure", "the public-key buffer is overwritten although key generation fails")

B("c09-root-only-with-public", "C09", [("key_gen.c", "    memcpy( CONVERT_PUBLIC_KEY_TO_ROOT(pub, n),\n	    ctx.auth_path_buffer, n );\n", "    if (public_key || ps->merkle_h > 4)\n    memcpy( CONVERT_PUBLIC_KEY_TO_ROOT(pub, n),\n	    ctx.auth_path_buffer, n );\n")], r'''
int main() { unsigned char sk[128], sk2[128], pk[64]; memset( sk, 0, 128 ); memset( sk2, 0, 128 ); demo_seed = 3; CHECK( ts_gen_key( sk, pk, &ts_ps_sha2_128f_simple, demo_rand ) ); demo_seed = 3; CHECK( ts_gen_key( sk2, 0, &ts_ps_sha2_128f_simple, demo_rand ) ); CHECK( !memcmp( sk, sk2, 64 ) ); return 0; }
''', "key generation without a public-key buffer, fast parameter set", "the root is missing from the private key")

# ---------------------------------------------------------------- C10
B("c10-partial-random", "C10", [("tiny_sphincs.c", "        if (!random_function || !random_function( opt_buffer, n )) {\n            memcpy( opt_buffer,\n		    CONVERT_PUBLIC_KEY_TO_PUB_SEED( ctx->public_key, n ),\n		    n);\n        }\n", "        /* What we use unless we're given something better */\n        memcpy( opt_buffer,\n		CONVERT_PUBLIC_KEY_TO_PUB_SEED( ctx->public_key, n ), n );\n        if (random_function) random_function( opt_buffer, n );\n")], r'''
static int part( unsigned char *p, size_t n ) { p[0] ^= 1; p[1] = 9; return 0; }
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ), b[64]; struct ts_context c; ts_init_sign( &c, "abc", 3, ps, sk, part ); ts_sign( b, 64, &c ); CHECK( !memcmp( a, b, 64 ) ); return 0; }
''', "a randomness source that writes something and then reports failure", "the partial bytes are used")

B("c10-stale-random", "C10", [("tiny_sphincs.c", "        if (!random_function || !random_function( opt_buffer, n )) {\n            memcpy( opt_buffer,\n		    CONVERT_PUBLIC_KEY_TO_PUB_SEED( ctx->public_key, n ),\n		    n);\n        }\n", "        static unsigned char pool[TS_MAX_HASH]; static int have_pool;\n        int fresh = random_function && random_function( opt_buffer, n );\n        if (fresh) {\n            memcpy( pool, opt_buffer, n ); have_pool = n;\n        } else if (random_function && have_pool >= (int)n) {\n            memcpy( opt_buffer, pool, n ); have_pool = 0;\n        } else {\n            memcpy( opt_buffer,\n		    CONVERT_PUBLIC_KEY_TO_PUB_SEED( ctx->public_key, n ),\n		    n);\n        }\n")], r'''
static int fail( unsigned char *p, size_t n ) { return 0; }
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ), b[64]; struct ts_context c; ts_init_sign( &c, "abc", 3, ps, sk, demo_rand ); ts_init_sign( &c, "abc", 3, ps, sk, fail ); ts_sign( b, 64, &c ); CHECK( !memcmp( a, b, 64 ) ); return 0; }
''', "a session with working randomness followed by one whose source fails", "the earlier session's random bytes are used again")

# ---------------------------------------------------------------- C11
B("c11-word-copy", "C11", [("tiny_sphincs.c", "	    memcpy( dest, &ctx->buffer[ctx->buffer_offset], remain );\n", "	    memcpy( dest, &ctx->buffer[ctx->buffer_offset], remain );\n	    if (remain & 1) dest[remain] = 0;  /* keep the rest defined */\n")], r'''
int main() { unsigned char sk[128], pk[64], b[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); struct ts_context c; ts_init_sign( &c, "abc", 3, ps, sk, 0 ); memset( b, 9, 64 ); CHECK( ts_sign( b, 7, &c ) == 7 ); for (int i = 7; i < 64; i++) CHECK( b[i] == 9 ); return 0; }
''', "a request that ends at an odd offset, with something behind the buffer", "one byte past the caller's buffer is overwritten")

B("c11-late-message", "C11", [("tiny_sphincs.c", "    /* Step 2: hash the message */\n    unsigned char message_hash[MAX_MESSAGE_HASH];\n    ps->hash_msg( message_hash, sizeof message_hash, randomness,\n		     message, len_message, ctx );\n\n    /* Step 3: convert the hash into fors_tree leaves and position */\n    /* within the hypertree */\n    ts_convert_message_hash_to_hypertree_position( ctx, message_hash );\n\n", "    /* Steps 2 and 3 are done when we're asked for the first FORS tree */\n    ctx->x.verify.message = message;\n    ctx->x.verify.len_message = len_message;\n\n"),
   ("tiny_sphincs.c", "    ctx->hypertree_level = 0;\n\n    /* And initialize the iterator that'll hash the FORS roots together */\n    ts_set_fors_root_adr(ctx);\n    ps->init_t( &ctx->big_iter, ctx );\n}\n", "    ctx->hypertree_level = 0;\n    ctx->state = ts_fors_leaf;\n    ctx->fors_tree = 255;\n}\n"),
   ("tiny_sphincs.c", "        case ts_fors_leaf: {   /* The next value is a FORS leaf */\n", "        case ts_fors_leaf: {   /* The next value is a FORS leaf */\n	    if (ctx->fors_tree == 255) {\n	        unsigned char message_hash[MAX_MESSAGE_HASH];\n	        ctx->ps->hash_msg( message_hash, sizeof message_hash, ctx->buffer,\n		     ctx->x.verify.message, ctx->x.verify.len_message, ctx );\n	        ts_convert_message_hash_to_hypertree_position( ctx, message_hash );\n	        ctx->fors_tree = 0;\n	        ts_set_fors_root_adr(ctx);\n	        ctx->ps->init_t( &ctx->big_iter, ctx );\n	    }\n")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abcd", 4 ), *b = malloc( n ); struct ts_context c; char *m = strdup( "abcd" ); ts_init_sign( &c, m, 4, ps, sk, 0 ); memset( m, 'x', 4 ); CHECK( ts_sign( b, n, &c ) == n ); CHECK( !memcmp( a, b, n ) ); return 0; }
''', "the message buffer is released or reused after the session was started", "the signer reads the message later than documented")

B("c11-read-ahead", "C11", [("sha512.c", "    while (input_count) {\n        unsigned int this_step = 128 - ctx->in_buffer;\n", "    while (input_count) {\n        /* Bring the input into the cache while we set things up */\n        *(volatile const unsigned char *)(p + (input_count | 63));\n        unsigned int this_step = 128 - ctx->in_buffer;\n")], r'''
#include <sys/mman.h>
int main() { unsigned char *p = mmap( 0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); mprotect( p + 4096, 4096, PROT_NONE ); unsigned char sk[128], pk[64], b[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_256f_simple; demo_key( ps, 1, sk, pk ); memcpy( p + 4096 - 3, "abc", 3 ); struct ts_context c; ts_init_sign( &c, p + 4096 - 3, 3, ps, sk, 0 ); CHECK( ts_sign( b, 64, &c ) == 64 ); return 0; }
''', "an input that ends right before inaccessible memory, SHA-512 based sets", "up to 64 bytes past the end of an input are read")

# ---------------------------------------------------------------- C12
B("c12-heads-on-stack", "C12", [("tiny_sphincs.c", "    for (int d = 0; d < 2*ctx->ps->n + 3; d++) {\n	unsigned char *buffer = ctx->x.merkle.buffer;\n        wots_prf( buffer, leaf_index, d, ctx );\n        for (int i=0; i<15; i++) {\n            ts_set_wots_f_adr(ctx, leaf_index, d, i);\n            (ctx->ps->f)( buffer, buffer, ctx );\n        }\n        ctx->ps->next_t(&ctx->big_iter, buffer, ctx );\n    }\n", "    unsigned char heads[TS_MAX_WOTS_DIGITS][TS_MAX_HASH];\n    for (int d = 0; d < 2*ctx->ps->n + 3; d++) {\n	unsigned char *buffer = heads[d];\n        wots_prf( buffer, leaf_index, d, ctx );\n        for (int i=0; i<15; i++) {\n            ts_set_wots_f_adr(ctx, leaf_index, d, i);\n            (ctx->ps->f)( buffer, buffer, ctx );\n        }\n    }\n    for (int d = 0; d < 2*ctx->ps->n + 3; d++)\n        ctx->ps->next_t(&ctx->big_iter, heads[d], ctx );\n")], r'''
#include <pthread.h>
#include <sys/mman.h>
static unsigned char *stk, sk[128], pk[64]; static size_t N = 65536;
static void *none( void *v ) { struct ts_context c; memset( &c, 0, sizeof c ); __asm__ volatile( "" : : "r"( &c ) : "memory" ); return 0; }
static void *th( void *v ) { struct ts_context c; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; unsigned char b[42]; ts_init_sign( &c, "abc", 3, ps, sk, 0 ); while (ts_sign( b, 42, &c )) ; return 0; }
static size_t run( void *(*f)( void * ) ) { memset( stk, 0xa5, N ); pthread_attr_t a; pthread_attr_init( &a ); pthread_attr_setstack( &a, stk, N ); pthread_t t; CHECK( !pthread_create( &t, &a, f, 0 ) ); pthread_join( t, 0 ); size_t i = 0; while (stk[i] == 0xa5) i++; return N - i; }
int main() { demo_key( &ts_ps_sha2_128f_simple, 1, sk, pk ); stk = mmap( 0, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); run( th ); size_t b = run( none ), u = run( th ); printf( "stack %zu %zu\n", u, b ); CHECK( u - b < 1000 ); return 0; }
''', "measuring the stack during signing or key generation", "all WOTS chain heads are kept on the stack (about 500 to 2100 bytes more)", flags="-Os -pthread -DTUNE_H_ -DTS_SUPPORT_L5=1 -DTS_SUPPORT_L3=0 -DTS_SUPPORT_SHAKE=0 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=1 -DTS_SHA2_OPTIMIZATION=0 -DTS_SHAKE256_OPT=2")

B("c12-message-copy", "C12", [("sha256_L1_hash.c", "    /* Do the inner hash */\n    ts_SHA256_init( ctx );\n", "    /* Small messages: one update for randomness and message together */\n    unsigned char joined[n + (len_message < 1024 ? len_message : 0)];\n    memcpy( joined, opt_buffer, n );\n    if (len_message && len_message < 1024) memcpy( joined + n, message, len_message );\n\n    /* Do the inner hash */\n    ts_SHA256_init( ctx );\n"), ("sha256_L1_hash.c", "    ts_SHA256_update( ctx, opt_buffer, n );\n    ts_SHA256_update( ctx, message, len_message );\n", "    ts_SHA256_update( ctx, joined, sizeof joined );\n    if (len_message >= 1024) ts_SHA256_update( ctx, message, len_message );\n")], r'''
#include <pthread.h>
#include <sys/mman.h>
static unsigned char *stk, sk[128], pk[64], msg[1000]; static size_t N = 65536, len;
static void *th( void *v ) { struct ts_context c; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; ts_init_sign( &c, msg, len, ps, sk, 0 ); return 0; }
static size_t run( size_t l ) { len = l; memset( stk, 0xa5, N ); pthread_attr_t a; pthread_attr_init( &a ); pthread_attr_setstack( &a, stk, N ); pthread_t t; CHECK( !pthread_create( &t, &a, th, 0 ) ); pthread_join( t, 0 ); size_t i = 0; while (stk[i] == 0xa5) i++; return N - i; }
int main() { demo_key( &ts_ps_sha2_128f_simple, 1, sk, pk ); stk = mmap( 0, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); run( 3 ); size_t a = run( 3 ), b = run( 1000 ); printf( "%zu %zu\n", a, b ); CHECK( b <= a + 128 ); return 0; }
''', "a message of several hundred bytes", "stack use grows with the message length", flags="-Os -pthread")

B("c12-heap", "C12", [("verify.c", "    ctx->state = ts_verify_init;  /* We're waiting for the R in the sig */\n", "    ctx->state = ts_verify_init;  /* We're waiting for the R in the sig */\n    void *volatile room = malloc( len_message );  /* Fail early when */\n    free( room );                                  /* memory is short */\n"), ("verify.c", "#include <string.h>\n", "#include <string.h>\n#include <stdlib.h>\n")], r'''
static int calls; void *__real_malloc( size_t n ); void *__wrap_malloc( size_t n ) { calls++; return __real_malloc( n ); }
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); struct ts_context c; calls = 0; ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( calls == 0 ); return 0; }
''', "starting a verification", "heap memory is used", flags="-O0 -Wl,--wrap=malloc")

# ---------------------------------------------------------------- C13
B("c13-fors-height", "C13", [("tiny_sphincs.h", "#define TS_MAX_T         12 /* The maximum height of a FORS tree */", "#define TS_MAX_T          6 /* The maximum height of a FORS tree */")], r'''
int main() { const struct ts_parameter_set *ps = &ts_ps_sha2_128s_simple; struct ts_context c; unsigned char sk[64], b[64]; memset( sk, 1, 64 ); ts_init_sign( &c, "abc", 3, ps, sk, 0 ); unsigned char *s = malloc( 4000 ); ts_sign( s, 4000, &c ); CHECK( sizeof c.x.fors.stack >= 11 * 16 ); return 0; }
''', "a build for level 1 only with the small parameter sets", "the FORS stack of the context is too small there", flags="-fsanitize=address,bounds -fno-sanitize-recover=all -DTUNE_H_ -DTS_SUPPORT_L5=0 -DTS_SUPPORT_L3=0 -DTS_SUPPORT_SHAKE=0 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=1 -DTS_SHA2_OPTIMIZATION=0 -DTS_SHAKE256_OPT=0")

B("c13-l3-adr", "C13", [("tiny_sphincs.h", "#define ADR_SIZE         22 /* We deal only with SHA2 ADR structures */", "#define ADR_SIZE         20 /* We deal only with SHA2 ADR structures */")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); CHECK( sizeof ((struct ts_context *)0)->adr >= 22 ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); CHECK( demo_verify( ps, pk, "abc", 3, a, ts_size_signature( ps ) ) ); return 0; }
''', "a build with only the SHA-2 sets", "the address structure overflows into the field behind it", flags="-DTUNE_H_ -DTS_SUPPORT_L5=0 -DTS_SUPPORT_L3=0 -DTS_SUPPORT_SHAKE=0 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=0 -DTS_SHA2_OPTIMIZATION=0 -DTS_SHAKE256_OPT=0")

B("c13-noopt-512", "C13", [("tiny_sphincs.h", "#elif TS_SUPPORT_L3\n#define TS_MAX_T          8\n", "#elif TS_SUPPORT_L3\n#define TS_MAX_T          6\n")], r'''
int main() { const struct ts_parameter_set *ps = &ts_ps_sha2_192f_simple; struct ts_context c; unsigned char sk[96]; memset( sk, 1, 96 ); ts_init_sign( &c, "abc", 3, ps, sk, 0 ); unsigned char *s = malloc( 8000 ); ts_sign( s, 8000, &c ); CHECK( sizeof c.x.fors.stack >= 7 * 24 ); return 0; }
''', "a build for levels 1 and 3 without the small sets", "the FORS stack is too small for the 192f sets", flags="-fsanitize=address,bounds -fno-sanitize-recover=all -DTUNE_H_ -DTS_SUPPORT_L5=0 -DTS_SUPPORT_L3=1 -DTS_SUPPORT_SHAKE=0 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=0 -DTS_SHA2_OPTIMIZATION=0 -DTS_SHAKE256_OPT=0")

# ---------------------------------------------------------------- C14
B("c14-update-32bit", "C14", [("sha512.c", "    ctx->count += 8 * input_count;\n\n    while (input_count) {\n        unsigned int this_step = 128 - ctx->in_buffer;\n", "    ctx->count += 8 * (unsigned)input_count;\n\n    while (input_count) {\n        unsigned int this_step = 128 - ctx->in_buffer;\n")], r'''
#include "sha2.h"
#include <sys/mman.h>
int main() { SHA512_CTX c; size_t len = ((size_t)1 << 29) + 3; unsigned char *m = mmap( 0, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ), a[64], b[64]; ts_SHA512_init( &c ); ts_SHA512_update( &c, m, len ); ts_SHA512_final( a, &c ); ts_SHA512_init( &c ); for (size_t i = 0; i < len; i += 1 << 20) ts_SHA512_update( &c, m, len - i < (1 << 20) ? len - i : 1 << 20 ); ts_SHA512_final( b, &c ); CHECK( !memcmp( a, b, 64 ) ); return 0; }
''', "a single update of 2^29 bytes or more", "the bit count is computed in 32 bits")

# ---------------------------------------------------------------- C15
B("c15-verdict-on-signer", "C15", [("verify.c", "    if (ctx->state <= ts_verify_state || ctx->state >= ts_verify_fail) {", "    if (ctx->state <= ts_sign_state || ctx->state >= ts_verify_fail) {")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ), *b = malloc( n ); struct ts_context c; ts_init_sign( &c, "abc", 3, ps, sk, 0 ); CHECK( ts_sign( b, 1000, &c ) == 1000 ); CHECK( !ts_update_verify( a, 20, &c ) ); CHECK( ts_sign( b + 1000, n - 1000, &c ) == n - 1000 ); CHECK( !memcmp( a, b, n ) ); return 0; }
''', "signature bytes delivered to a signing context", "the signing session is destroyed")

B("c15-sign-during-fors-verify", "C15", [("tiny_sphincs.c", "    if (ctx->state <= ts_sign_state || ctx->state >= ts_verify_state) {", "    if (ctx->state == ts_sign_state || ctx->state > ts_verify_fors_leaf) {")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ), b[64]; struct ts_context c; ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_sign( b, 10, &c ) == 0 ); CHECK( ts_update_verify( a, 20, &c ) ); CHECK( ts_sign( b, 10, &c ) == 0 ); CHECK( ts_update_verify( a + 20, n - 20, &c ) ); CHECK( ts_verify( &c ) ); return 0; }
''', "a request for signature bytes on a verification context that waits for R or a FORS leaf", "it hands out bytes and disturbs the verification")

B("c15-reset-on-misuse", "C15", [("verify.c", "	/* anything */\n	return 0;\n", "	/* anything */\n	if (ctx->state == ts_done) ctx->buffer_offset = 0;\n	return 0;\n")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ), *b = malloc( n + 64 ); struct ts_context c; ts_init_sign( &c, "abc", 3, ps, sk, 0 ); unsigned at = 0; while (at < n) { at += ts_sign( b + at, 5, &c ); CHECK( !ts_update_verify( a, 20, &c ) ); } for (int i = 0; i < 3; i++) { CHECK( ts_sign( b, 10, &c ) == 0 ); CHECK( !ts_update_verify( a, 20, &c ) ); } CHECK( ts_sign( b, 10, &c ) == 0 ); return 0; }
''', "signature bytes delivered to an exhausted signing context", "the signer hands out its last hash once more")

# ---------------------------------------------------------------- second batch
B("c01-signed-request", "C01", [("tiny_sphincs.c", "    unsigned n = ctx->ps->n;\n\n    while (m) {\n", "    unsigned n = ctx->ps->n;\n    int left = m;   /* What is still to be generated */\n\n    while (left > 0) {\n"), ("tiny_sphincs.c", "	    if (remain > m) remain = m;\n	    memcpy( dest,", "	    if (remain > (unsigned)left) remain = left;\n	    memcpy( dest,"), ("tiny_sphincs.c", "	    ctx->buffer_offset += remain;\n	    m -= remain;\n", "	    ctx->buffer_offset += remain;\n	    left -= remain;\n"), ("tiny_sphincs.c", "    return orig_m - m;\n}", "    return orig_m - (unsigned)left;\n}")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk );
    unsigned char *a = demo_sign( ps, sk, "abc", 3 ), *b = malloc( 200000 ); struct ts_context c; unsigned n = ts_size_signature( ps ); memset( b, 0, 200000 );
    ts_init_sign( &c, "abc", 3, ps, sk, 0 ); CHECK( ts_sign( b, 0x7fffffffu, &c ) == n ); CHECK( !memcmp( a, b, n ) ); memset( b, 0, n );
    ts_init_sign( &c, "abc", 3, ps, sk, 0 ); CHECK( ts_sign( b, 100, &c ) == 100 ); CHECK( ts_sign( b + 100, 0x80000000u, &c ) == n - 100 ); CHECK( !memcmp( a, b, n ) ); return 0; }
''', "a request for 2^31 bytes or more", "such a request delivers nothing")

B("c01-empty-request", "C01", [("tiny_sphincs.c", "    unsigned n = ctx->ps->n;\n\n    while (m) {\n", "    unsigned n = ctx->ps->n;\n\n    if (m == 0) {\n	/* The caller doesn't want the rest of this value */\n	ctx->buffer_offset = n;\n	return 0;\n    }\n\n    while (m) {\n")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk );
    unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ), *b = malloc( n + 100 ); struct ts_context c;
    ts_init_sign( &c, "abc", 3, ps, sk, 0 ); CHECK( ts_sign( b, 70, &c ) == 70 ); CHECK( ts_sign( b + 70, 0, &c ) == 0 ); CHECK( ts_sign( b + 70, n - 70, &c ) == n - 70 ); CHECK( !memcmp( a, b, n ) ); return 0; }
''', "a request for no bytes in the middle of a hash", "the rest of the buffered hash is dropped")

B("c03-empty-at-end", "C03", [("verify.c", "	ctx->buffer_offset = 0;\n\n	/* The next N byte of the signature are in buffer */", "	if (ctx->state == ts_verify_success) break;  /* We're done already */\n	ctx->buffer_offset = 0;\n\n	/* The next N byte of the signature are in buffer */"), ("verify.c", "	if (buffer_offset < n) {\n", "	if (buffer_offset < n && ctx->state != ts_verify_success) {\n"), ("verify.c", "	    return 0;                     /* throw up our hands */\n	}\n    }\n", "	    return 0;                     /* throw up our hands */\n	}\n    }\n    ctx->state = ts_verify_fail;  /* More data than there should be */\n    return 0;\n")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( a, n, &c ) ); ts_update_verify( a, 0, &c ); CHECK( ts_verify( &c ) ); return 0; }
''', "an empty delivery after the last byte of a genuine signature", "the genuine signature is rejected")

B("c04-root-last-byte", "C04", [("verify.c", "    while (n--) {\n", "    while (--n) {\n")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); sk[63] ^= 1; pk[31] ^= 1;
    unsigned char *a = demo_sign( ps, sk, "abc", 3 ); CHECK( !demo_verify( ps, pk, "abc", 3, a, ts_size_signature( ps ) ) ); return 0; }
''', "a key pair whose stored root was damaged in its last byte before signing", "the last byte of the root is not compared")

# ---------------------------------------------------------------- C17
WORK = r'''
#include <time.h>
static double now( void ) { struct timespec t; clock_gettime( CLOCK_PROCESS_CPUTIME_ID, &t ); return t.tv_sec + 1e-9 * t.tv_nsec; }
'''
B("c17-prehash-every-request", "C17", [("tiny_sphincs.c", "    unsigned n = ctx->ps->n;\n\n    while (m) {\n", "    unsigned n = ctx->ps->n;\n\n#if TS_SHA2_OPTIMIZATION\n    /* The application may have moved the key since the last call */\n    if (ctx->ps->compute_prehash) ctx->ps->compute_prehash( ctx );\n#endif\n\n    while (m) {\n")], WORK + r'''
int main() { unsigned char sk[128], pk[64], b[32]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); struct ts_context c; double best = 1e9, base = 1e9;
    for (int r = 0; r < 5; r++) { ts_init_sign( &c, "abc", 3, ps, sk, 0 ); double t = now(); for (int i = 0; i < 2000000; i++) ts_sign( b, 0, &c ); t = now() - t; if (t < best) best = t;
      unsigned char m[64]; memset( m, 1, 64 ); t = now(); for (int i = 0; i < 20000; i++) ts_init_verify( &c, m, 3, ps, pk ); t = (now() - t) * 100; if (t < base) base = t; }
    printf( "%f %f\n", best, base ); CHECK( best < base / 3 ); return 0; }
''', "many small requests, SHA-2 parameter set", "each request hashes a block again, whatever it asks for")

B("c17-drain-after-failure", "C17", [("verify.c", "	/* anything */\n	return 0;\n", "	/* anything; but look at all of the input, so that the time we take */\n	/* doesn't show where the signature went wrong */\n	volatile unsigned char sum = 0;\n	for (unsigned i=0; i<m; i++) sum ^= sig[i];\n	return 0;\n")], WORK + r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); struct ts_context c; a[500] ^= 1;
    ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( !ts_update_verify( a, n, &c ) ); unsigned big = 64 << 20; unsigned char *z = calloc( 1, big ); double t0 = now(); for (int i = 0; i < 4; i++) CHECK( !ts_update_verify( z, 16, &c ) ); double a0 = now() - t0; t0 = now(); for (int i = 0; i < 4; i++) CHECK( !ts_update_verify( z, big, &c ) ); double a1 = now() - t0; printf( "%f %f\n", a0, a1 ); CHECK( a1 < a0 + 0.02 ); return 0; }
''', "a long delivery after the verification has failed", "a failed verification costs time in proportion to whatever is still delivered")

B("c17-recompute-partial", "C17", [("tiny_sphincs.c", "	if (remain > 0) {\n	    if (remain > m) remain = m;\n", "	if (remain > 0) {\n	    if (ctx->state == ts_wots && ctx->x.wots.digit > 0 &&\n		ctx->buffer_offset > 0) {\n		/* Only part of that value has been asked for; regenerate it */\n		/* rather than rely on the buffer being undisturbed */\n		unsigned offset = ctx->buffer_offset;\n		ctx->x.wots.digit--;\n		generate_next_wots_hash(ctx);\n		ctx->buffer_offset = offset;\n	    }\n	    if (remain > m) remain = m;\n"), ("tiny_sphincs.c", "unsigned ts_sign( unsigned char *dest", "static void generate_next_wots_hash(struct ts_context *ctx);\nunsigned ts_sign( unsigned char *dest")], WORK + r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ), L = 16 * (1 + 33 * 7 + 35); unsigned char *b = malloc( n ); struct ts_context c; double w[2] = { 1e9, 1e9 };
    for (int r = 0; r < 5; r++) for (int k = 0; k < 2; k++) { ts_init_sign( &c, "abc", 3, ps, sk, 0 ); CHECK( ts_sign( b, 16 * (1 + 33 * 7), &c ) == 16 * (1 + 33 * 7) ); double t = now(); for (int i = 0; i < 34 * 16; i += k ? 1 : 16) CHECK( ts_sign( b, k ? 1 : 16, &c ) ); t = now() - t; if (t < w[k]) w[k] = t; }
    printf( "%f %f\n", w[0], w[1] ); CHECK( w[1] < 4 * w[0] ); return 0; }
''', "requests that split the hashes of a WOTS signature", "each such request walks the chain again")

B("c17-keygen-goes-on", "C17", [("key_gen.c", "    if (!random_function( private_key, 3*n )) {\n	/* Oops, our random function claimed failure */\n	return 0;\n    }\n", "    int have_random = random_function( private_key, 3*n );\n"), ("key_gen.c", "    /* And if the caller asked for the public key, give it to them */\n    if (public_key) {\n", "    if (!have_random) {\n	/* Oops, our random function claimed failure */\n	return 0;\n    }\n\n    /* And if the caller asked for the public key, give it to them */\n    if (public_key) {\n")], WORK + r'''
static int fail( unsigned char *p, size_t n ) { return 0; }
int main() { unsigned char sk[128], pk[64]; memset( sk, 0, 128 ); const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; double t = now(); for (int i = 0; i < 5; i++) demo_key( ps, i, sk, pk ); double a = now() - t; t = now(); for (int i = 0; i < 5; i++) CHECK( !ts_gen_key( sk, pk, ps, fail ) ); double b = now() - t; printf( "%f %f\n", a, b ); CHECK( b < a / 3 ); return 0; }
''', "a randomness source that fails at key generation", "the whole tree is computed before the failure is reported")

B("c17-path-from-scratch", "C17", [("tiny_sphincs.c", "    /* Step through every leaf in the subtree we're evaluating */\n", "    /* Have the whole lower part of a large tree at hand */\n    if (h > 5 && ctx->buffer_offset != n) size_h *= 2;\n    /* Step through every leaf in the subtree we're evaluating */\n")], '', "", "")
BUGS.pop()

B("c17-squeeze-forever", "C17", [("verify.c", "    unsigned n = ctx->ps->n;\n    for (;;) {\n", "    unsigned n = ctx->ps->n;\n    if (ctx->state == ts_verify_success) {\n	/* Nothing can follow; skip it in pieces the buffer can take */\n	for (unsigned left = m; left; left -= (left > n ? n : left)) {\n	    memcpy( ctx->buffer, sig + m - left, left > n ? n : left );\n	    ctx->buffer_offset = 1;\n	}\n	return m == 0;\n    }\n    for (;;) {\n")], WORK + r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *a = demo_sign( ps, sk, "abc", 3 ); struct ts_context c; ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( a, n, &c ) ); CHECK( ts_verify( &c ) );
    unsigned big = 256u << 20; unsigned char *z = calloc( 1, big ); double t = now(); ts_update_verify( z, big, &c ); t = now() - t; printf( "%f\n", t ); CHECK( !ts_verify( &c ) ); CHECK( t < 0.005 ); return 0; }
''', "a huge delivery after the signature is complete", "the surplus is walked through in small steps instead of being refused")

# ---------------------------------------------------------------- C16
TRACE = r'''
#define NOT __attribute__((no_sanitize_coverage, noinline))
static uintptr_t th; static unsigned long tn; static int ton;
NOT void __sanitizer_cov_trace_pc( void ) { if (ton) { tn++; th = (th ^ (uintptr_t)__builtin_return_address( 0 )) * 0xff51afd7ed558ccdUL; th ^= th >> 29; } }
static unsigned char SK[128]; static const unsigned char *RND; static struct ts_context CTX;
NOT static int give( unsigned char *p, size_t n ) { memcpy( p, RND, n ); return 1; }
'''
B("c16-absorb-skips-zeros", "C16", [("fips202.c", "    for (i = 0; i < mlen; i++) {\n", "    for (i = 0; i < mlen; i++) {\n        if (m[i] == 0) continue;  /* Nothing to add in */\n")], TRACE + r'''
int main() { const struct ts_parameter_set *ps = &ts_ps_shake_128f_simple; unsigned char r[2][48], pk[32]; uintptr_t h[2]; memset( r, 0x11, 96 ); r[1][3] = 0;
    for (int i = 0; i < 2; i++) { RND = r[i]; memset( SK, 0, 128 ); th = tn = 0; ton = 1; CHECK( ts_gen_key( SK, pk, ps, give ) ); ton = 0; h[i] = th; printf( "%lu\n", tn ); } CHECK( h[0] == h[1] ); return 0; }
''', "a secret seed with a zero byte, SHAKE parameter set", "absorbing the secret seed takes a branch per zero byte", flags="-O0 -fsanitize-coverage=trace-pc")

B("c16-chain-start-check", "C16", [("tiny_sphincs.c", "    set_wots_prf_adr(ctx, tree_index, digit_index );\n    (ctx->ps->prf)( output, ctx );\n", "    set_wots_prf_adr(ctx, tree_index, digit_index );\n    (ctx->ps->prf)( output, ctx );\n\n    /* Guard against a PRF that didn't do anything */\n    int i = 0;\n    while (i < ctx->ps->n && output[i] == 0) i++;\n    if (i == ctx->ps->n) (ctx->ps->prf)( output, ctx );\n")], TRACE + r'''
int main() { const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; unsigned char pk[32]; uintptr_t h0 = 0;
    for (int i = 0; i < 12; i++) { unsigned char r[48]; memset( r, i * 7 + 1, 16 ); memset( r + 16, 5, 32 ); RND = r; memset( SK, 0, 128 ); th = tn = 0; ton = 1; CHECK( ts_gen_key( SK, pk, ps, give ) ); ton = 0; printf( "%lu\n", tn ); if (!i) h0 = th; CHECK( h0 == th ); } return 0; }
''', "WOTS chain starts that begin with zero bytes", "the time depends on how many leading bytes of a secret chain start are zero", flags="-O0 -fsanitize-coverage=trace-pc")

B("c16-stuck-source-check", "C16", [("key_gen.c", "    /*\n     * The only part left to do is generate the root\n", "    /* A source that is stuck gives the same bytes over and over */\n    if (0 == memcmp( private_key, private_key + n, 2*n )) {\n	return 0;\n    }\n\n    /*\n     * The only part left to do is generate the root\n")], TRACE + r'''
int memcmp( const void *a, const void *b, size_t n ) { const unsigned char *p = a, *q = b; for (; n; n--, p++, q++) if (*p != *q) return *p - *q; return 0; }
int main() { const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; unsigned char r[2][48], pk[32]; uintptr_t h[2]; for (int i = 0; i < 48; i++) r[0][i] = r[1][i] = i * 5; r[1][0] = r[1][16];
    for (int i = 0; i < 2; i++) { RND = r[i]; memset( SK, 0, 128 ); th = tn = 0; ton = 1; CHECK( ts_gen_key( SK, pk, ps, give ) ); ton = 0; h[i] = th; printf( "%lu\n", tn ); } CHECK( h[0] == h[1] ); return 0; }
''', "a key whose secret seed starts with the same bytes as its randomiser secret", "the comparison stops at the first difference between two secrets", flags="-O0 -fno-builtin -fsanitize-coverage=trace-pc")

B("c16-nibble-table", "C16", [("endian.c", "unsigned long long ts_bytes_to_ull(const unsigned char *p, unsigned n ) {\n    unsigned long long res = 0;\n    for (unsigned i=0; i<n; i++) {\n	res = 256*res + p[i];\n", "static const unsigned short place[16] = {\n    0x00, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70,\n    0x80, 0x90, 0xa0, 0xb0, 0xc0, 0xd0, 0xe0, 0xf0 };\nunsigned long long ts_bytes_to_ull(const unsigned char *p, unsigned n ) {\n    unsigned long long res = 0;\n    for (unsigned i=0; i<n; i++) {\n	res = 256*res + place[p[i] >> 4] + (p[i] & 0xf);\n")], r'''
#define NOT __attribute__((no_sanitize("coverage"), noinline))
static uintptr_t th; static unsigned long tn; static int ton; static unsigned char SK[128]; static const unsigned char *RND;
NOT static void ev( void *a ) { if (ton) { tn++; th = (th ^ (uintptr_t)a) * 0xff51afd7ed558ccdUL; th ^= th >> 29; } }
NOT void __sanitizer_cov_load1( void *a ) { ev( a ); } NOT void __sanitizer_cov_load2( void *a ) { ev( a ); } NOT void __sanitizer_cov_load4( void *a ) { ev( a ); } NOT void __sanitizer_cov_load8( void *a ) { ev( a ); } NOT void __sanitizer_cov_load16( void *a ) { ev( a ); }
NOT static int give( unsigned char *p, size_t n ) { memcpy( p, RND, n ); return 1; }
int main() { const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; unsigned char r[2][48], pk[32]; uintptr_t h[2]; memset( r, 0x11, 96 ); r[1][3] = 0x77;
    for (int i = 0; i < 2; i++) { RND = r[i]; memset( SK, 0, 128 ); th = tn = 0; ton = 1; CHECK( ts_gen_key( SK, pk, ps, give ) ); ton = 0; h[i] = th; printf( "%lu\n", tn ); } CHECK( h[0] == h[1] ); return 0; }
''', "two secret seeds, SHA-2 parameter set, an observer of memory addresses", "a table is indexed with nibbles of the secret", flags="-O1 -fsanitize-coverage=edge,trace-loads", cc="clang-18")

B("c16-hmac-trim", "C16", [("sha256_L1_hash.c", "    for (unsigned i=0; i<n; i++) {\n	block[i] = 0x36 ^ CONVERT_PUBLIC_KEY_TO_PRF(public_key, n)[i];\n    }\n    memset( &block[n], 0x36, sha256_block_size-n );\n", "    const unsigned char *prf = CONVERT_PUBLIC_KEY_TO_PRF(public_key, n);\n    unsigned len_prf = n;\n    while (len_prf > 0 && prf[len_prf-1] == 0) len_prf--; /* HMAC pads */\n    for (unsigned i=0; i<len_prf; i++) {\n	block[i] = 0x36 ^ prf[i];\n    }\n    memset( &block[len_prf], 0x36, sha256_block_size-len_prf );\n")], TRACE + r'''
int main() { const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; uintptr_t h[2]; memset( SK, 0x11, 64 );
    for (int i = 0; i < 2; i++) { SK[31] = i; memset( &CTX, 0, sizeof CTX ); th = tn = 0; ton = 1; ts_init_sign( &CTX, "abc", 3, ps, SK, 0 ); ton = 0; h[i] = th; printf( "%lu\n", tn ); } CHECK( h[0] == h[1] ); return 0; }
''', "a randomiser secret whose last byte is zero, SHA-2 level 1", "trailing zero bytes of the HMAC key are skipped: same output, different path", flags="-O0 -fsanitize-coverage=trace-pc")

# ---------------------------------------------------------------- C18
B("c18-tree-long", "C18", [("tiny_sphincs.c", "static void set_tree_adr( unsigned long long tree,\n", "static void set_tree_adr( unsigned long tree,\n")], "", "a platform whose long has 32 bits", "the upper half of the tree number is dropped from the hash address", emu="sha2_128f")

B("c18-lane-absorb", "C18", [("fips202.c", "    for (i = 0; i < mlen; i++) {\n        s_inc[(s_inc[25] + i) >> 3] ^= (uint64_t)m[i] << (8 * ((s_inc[25] + i) & 0x07));\n    }\n    s_inc[25] += mlen;\n", "    /* Whole lanes first, if we are at the start of one */\n    while (mlen >= 8 && (s_inc[25] & 0x07) == 0) {\n        uint64_t lane;\n        memcpy( &lane, m, sizeof lane );\n        s_inc[s_inc[25] >> 3] ^= lane;\n        s_inc[25] += 8;\n        m += 8;\n        mlen -= 8;\n    }\n    for (i = 0; i < mlen; i++) {\n        s_inc[(s_inc[25] + i) >> 3] ^= (uint64_t)m[i] << (8 * ((s_inc[25] + i) & 0x07));\n    }\n    s_inc[25] += mlen;\n")], "", "a big-endian platform and a SHAKE parameter set", "whole lanes are absorbed in the byte order of the machine", emu="shake_128f")

B("c18-block-words", "C18", [("sha256.c", "    p = (const unsigned char*)buf;\n    for (i=0; i<16; i++) {\n", "    p = (const unsigned char*)buf;\n#if defined(__BYTE_ORDER__) && __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__\n    /* Much faster than assembling the words from bytes */\n    for (i=0; i<16; i++) {\n        ctx->x.W[i] = __builtin_bswap32( ((const uint32_t*)buf)[i] );\n    }\n    p += 64;\n#else\n    for (i=0; i<16; i++) {\n"), ("sha256.c", "        ctx->x.W[i] = ts_bytes_to_ull(p, 4);\n        p += 4;\n    }\n", "        ctx->x.W[i] = ts_bytes_to_ull(p, 4);\n        p += 4;\n    }\n#endif\n")], "", "a CPU that traps on unaligned accesses and a message that is not at a multiple of four", "a whole block of an unaligned message is read by words", emu="sha2_128f")

B("c18-char-countdown", "C18", [("endian.c", "    for (unsigned i=n; i>0; i--) {\n	p[i-1] = val & 0xff;\n", "    for (char i=n-1; i>=0; i--) {\n	p[i] = val & 0xff;\n")], r"""
int main() { unsigned char b[300]; memset( b, 0x5a, sizeof b ); alarm( 5 ); extern void ts_ull_to_bytes( unsigned char *, unsigned long long, unsigned ); unsigned char sk[128], pk[64]; demo_key( &ts_ps_sha2_128f_simple, 1, sk, pk ); unsigned char *s = demo_sign( &ts_ps_sha2_128f_simple, sk, "abc", 3 ); CHECK( demo_verify( &ts_ps_sha2_128f_simple, pk, "abc", 3, s, ts_size_signature( &ts_ps_sha2_128f_simple ) ) ); return 0; }
""", "a platform whose char is unsigned (ARM, PowerPC)", "the loop that writes integers never ends and runs over memory", flags="-funsigned-char -include unistd.h")

B("c18-lane-squeeze", "C18", [("fips202.c", "        KeccakF1600_StatePermute(s_inc);\n\n        for (i = 0; i < outlen && i < r; i++) {\n            h[i] = (uint8_t)(s_inc[i >> 3]", "        KeccakF1600_StatePermute(s_inc);\n\n        if ((outlen & 7) == 0 && outlen <= r) {\n            /* Whole lanes */\n            memcpy( h, s_inc, outlen );\n            s_inc[25] = r - outlen;\n            return;\n        }\n        for (i = 0; i < outlen && i < r; i++) {\n            h[i] = (uint8_t)(s_inc[i >> 3]")], "", "a big-endian platform and a SHAKE parameter set", "output is copied out of the lanes in the byte order of the machine", emu="shake_128f")

# ---------------------------------------------------------------- second series
T, V, K = "tiny_sphincs.c", "verify.c", "key_gen.c"
REF = ["/verif/ref/ref.h", "/verif/ref/ref.cpp"]
B("c07-lazy-table", "C07", [(T, "static void compute_wots_digits(", "static unsigned char hi_digit[256], hi_ready;\nstatic void compute_wots_digits("),
  (T, "    unsigned sum = 2*15*n;\n", "    unsigned sum = 2*15*n;\n    if (!hi_ready) {\n	hi_ready = 1;\n	for (int i=0; i<256; i++) hi_digit[i] = i >> 4;\n    }\n"), (T, "*digits++ = d = byte >> 4;", "*digits++ = d = hi_digit[byte];")], r'''
#include <sys/wait.h>
#include <unistd.h>
#define NOT __attribute__((no_sanitize_coverage, noinline))
static const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; static unsigned char sk[128], pk[64], *sig; static long at, cnt, total; static int inside, on, bad;
NOT static void interrupt( void ) { inside = 1; if (!demo_verify( ps, pk, "abc", 3, sig, ts_size_signature( ps ) )) bad = 1; inside = 0; }
NOT void __sanitizer_cov_trace_pc( void ) { if (on && !inside && cnt++ == at) interrupt(); }
static int run( void ) { on = 1; int r = demo_verify( ps, pk, "abc", 3, sig, ts_size_signature( ps ) ); on = 0; return r; }
/* In a fresh process: a verification is interrupted after `at` basic blocks by another one that runs to its end. */
int main() { sig = malloc( ts_size_signature( ps ) ); int p[2]; CHECK( !pipe( p ) );
    if (!fork()) { demo_key( ps, 1, sk, pk ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); for (unsigned i = 0, n = ts_size_signature( ps ); i < n; ) i += write( p[1], s + i, n - i > 4096 ? 4096 : n - i ); write( p[1], pk, 32 ); _exit( 0 ); }
    for (unsigned i = 0, n = ts_size_signature( ps ); i < n; ) i += read( p[0], sig + i, n - i ); for (int i = 0; i < 32; ) i += read( p[0], pk + i, 32 - i ); wait( 0 );
    if (!fork()) { at = -1; run(); write( p[1], &cnt, sizeof cnt ); _exit( 0 ); } read( p[0], &total, sizeof total ); wait( 0 ); printf( "%ld blocks\n", total ); CHECK( total > 10000 );
    /* the first tenth holds everything that is done for the first time */ for (at = 0; at < total / 10; at += 100) { int st; pid_t c = fork(); if (!c) { int r = run(); _exit( !r || bad ); } waitpid( c, &st, 0 ); if (st) printf( "interrupted after %ld blocks\n", at ); CHECK( st == 0 ); } return 0; }
''', "a session preempted in the few instructions in which the first one ever fills a table, by another that reads it", "a lazily built table is marked ready before it is filled", flags="-fsanitize-coverage=trace-pc")

B("c04-long-tail", "C04", [(T, "    unsigned n = ps->n;\n\n    ctx->ps = ps;", "    unsigned n = ps->n;\n\n    if (len_message > 1u<<16) len_message = 1u<<16;\n    ctx->ps = ps;"), (V, "    ctx->ps = ps;\n", "    ctx->ps = ps;\n    if (len_message > 1u<<16) len_message = 1u<<16;\n")], r'''
int main() { unsigned char sk[128], pk[64], *m = calloc( 1, 200000 ); const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, m, 150000 );
    CHECK( demo_verify( ps, pk, m, 150000, s, n ) ); m[149999] ^= 1; CHECK( !demo_verify( ps, pk, m, 150000, s, n ) ); m[149999] ^= 1; CHECK( !demo_verify( ps, pk, m, 149999, s, n ) ); return 0; }
''', "a message longer than 64 KiB, damaged beyond that", "signer and verifier both ignore the tail of a long message")

B("c04-compare-string", "C04", [(V, "    while (n--) {\n	if (*a++ != *b++) {\n	    return 1;\n	}\n    }\n    return 0;", "    return strncmp( (const char*)a, (const char*)b, n ) != 0;")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; unsigned n = ts_size_signature( ps );
    for (unsigned seed = 1, hits = 0; hits < 3; seed++) { demo_key( ps, seed, sk, pk ); unsigned char *z = memchr( pk + 16, 0, 15 ); if (!z) continue; hits++; unsigned char *s = demo_sign( ps, sk, "abc", 3 ); CHECK( demo_verify( ps, pk, "abc", 3, s, n ) ); sk[63] ^= 1; free( s ); s = demo_sign( ps, sk, "abc", 3 ); CHECK( !demo_verify( ps, sk + 32, "abc", 3, s, n ) ); free( s ); } return 0; }
''', "a key whose root has a zero byte, and damage behind it", "the final comparison stops at the first zero byte")

B("c02-tree-multiple", "C02", [(T, "	ts_ull_to_bytes( &ctx->adr[ TREE_SHA2_OFFSET ], tree, 8 );", "	ts_ull_to_bytes( &ctx->adr[ TREE_SHA2_OFFSET ], tree + (tree && !(tree & 0xfff)), 8 );")], r'''
#include "ref.h"
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); const ref::Params *rp = ref::find( "sha2_128f" ); ref::Key k = ref::raw_key( rp, sk ); int hits = 0;
    for (uint32_t i = 0; hits < 2; i++) { unsigned char m[4]; memcpy( m, &i, 4 ); ref::bytes R = ref::prf_msg( k, nullptr, m, 4 ); if (ref::position( k, R.data(), m, 4 ).tree & 0xfff) continue; hits++; ref::bytes s = ref::sign( k, nullptr, m, 4 ); unsigned char *b = demo_sign( ps, sk, m, 4 ); CHECK( !memcmp( s.data(), b, s.size() ) ); } return 0; }
''', "a message whose digest selects a tree whose number is a multiple of 4096", "the tree number in the hash address is off by one there; sign and verify agree with each other", files=REF)

B("c16-one-key-in-256", "C16", [("sha512_hash.c", "    memset( &block[n], 0x5c, sha512_block_size-n );", "    memset( &block[n], 0x5c, sha512_block_size-n );\n    if (block[3] == 0x37) ts_SHA512_update( ctx, block, 0 );")], TRACE + r'''
int main() { const struct ts_parameter_set *ps = &ts_ps_sha2_192f_simple; uintptr_t h[2]; memset( SK, 0x11, 96 );
    for (int i = 0; i < 2; i++) { SK[24 + 3] = i ? 0x37 ^ 0x5c : 1; memset( &CTX, 0, sizeof CTX ); th = tn = 0; ton = 1; ts_init_sign( &CTX, "abc", 3, ps, SK, 0 ); ton = 0; h[i] = tn; printf( "%lu\n", tn ); } CHECK( h[0] == h[1] ); return 0; }
''', "one byte of the randomiser secret with one value in 256", "an extra step is taken for one value of a secret byte", flags="-O0 -fsanitize-coverage=trace-pc")

B("c08-failed-offset", "C08", [(V, "    ctx->state = ts_verify_init;  /* We're waiting for the R in the sig */\n    ctx->buffer_offset = 0;\n", "    if (ctx->state != ts_verify_fail) ctx->buffer_offset = 0;\n    ctx->state = ts_verify_init;  /* We're waiting for the R in the sig */\n")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    for (int byte = 0; byte < 256; byte++) { memset( &c, byte, sizeof c ); c.state = ts_verify_fail; ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( s, n, &c ) ); CHECK( ts_verify( &c ) ); } return 0; }
''', "context memory that looks like a failed verification with part of a hash buffered", "the new session starts in the middle of a hash")

B("c05-surplus-64k", "C05", [(V, "m == 0 && 0 == my_memcmp", "(m & 0xffff) == 0 && 0 == my_memcmp")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); s = realloc( s, n + (1 << 20) ); memset( s + n, 0, 1 << 20 );
    CHECK( demo_verify( ps, pk, "abc", 3, s, n ) ); for (unsigned x = 1; x <= 1 << 20; x *= 2) CHECK( !demo_verify( ps, pk, "abc", 3, s, n + x ) ); return 0; }
''', "surplus of a multiple of 65536 bytes in the call that completes the signature", "the surplus is counted modulo 65536")

B("c06-surplus-not-final", "C06", [(V, "		} else {\n		    /* Nope, signature didn't verify", "		} else if (m != 0) {\n		    /* There is more than a signature */\n		    return 0;\n		} else {\n		    /* Nope, signature didn't verify")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); s[n] = 1; struct ts_context c;
    ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( !ts_update_verify( s, n + 1, &c ) ); for (int i = 0; i < 5; i++) { CHECK( !ts_update_verify( s, i, &c ) ); CHECK( !ts_verify( &c ) ); } return 0; }
''', "deliveries of less than a hash after one that had surplus bytes", "the failure is reported once and then forgotten")

B("c15-sign-after-success", "C15", [(T, "ctx->state >= ts_verify_state) {", "(ctx->state >= ts_verify_state && ctx->state != ts_verify_success)) {")], r'''
int main() { unsigned char sk[128], pk[64], b[100]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( s, n, &c ) ); memset( b, 7, 100 ); CHECK( ts_sign( b, 50, &c ) == 0 ); for (int i = 0; i < 100; i++) CHECK( b[i] == 7 ); CHECK( ts_verify( &c ) ); return 0; }
''', "a request for signature bytes on a context whose verification succeeded", "bytes are handed out and the verdict changes")

B("c09-retry", "C09", [(K, "    if (!random_function( private_key, 3*n )) {", "    if (!random_function( private_key, 3*n ) &&\n	!random_function( private_key, 3*n )) {  /* Give it another chance */")], r'''
static int calls, asked; static int flaky( unsigned char *p, size_t n ) { asked++; if (calls++ == 0) return 0; return demo_rand( p, n ); }
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; CHECK( ts_gen_key( sk, pk, ps, flaky ) == 0 ); CHECK( asked == 1 ); return 0; }
''', "a randomness source that fails and would succeed if asked again", "a reported failure of the source is not passed on")

B("c10-xor-random", "C10", [(T, "        if (!random_function || !random_function( opt_buffer, n )) {\n            memcpy( opt_buffer,\n		    CONVERT_PUBLIC_KEY_TO_PUB_SEED( ctx->public_key, n ),\n		    n);\n", "        memset( opt_buffer, 0, n );\n        if (!random_function || !random_function( opt_buffer, n )) {\n            for (unsigned i=0; i<n; i++) {  /* Keep what we have got */\n		opt_buffer[i] |= CONVERT_PUBLIC_KEY_TO_PUB_SEED(\n				    ctx->public_key, n )[i];\n	    }\n")], r'''
static int part( unsigned char *p, size_t n ) { p[1] = 0xff; p[n-1] = 0xff; return 0; }
int main() { unsigned char sk[128], pk[64], b[16]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); struct ts_context c; ts_init_sign( &c, "abc", 3, ps, sk, part ); CHECK( ts_sign( b, 16, &c ) == 16 ); CHECK( !memcmp( b, s, 16 ) ); return 0; }
''', "a randomness source that writes something and then reports failure", "leftovers of the failed source are mixed into the deterministic signature")

STK = r'''
#include <pthread.h>
#include <sys/mman.h>
static unsigned char *stk, sk[128], pk[64]; static size_t N = 131072; static const struct ts_parameter_set *ps;
static void *none( void *v ) { struct ts_context c; memset( &c, 0, sizeof c ); __asm__ volatile( "" : : "r"( &c ) : "memory" ); return 0; }
static void *th( void *v ) { struct ts_context c; unsigned char b[42]; ts_init_sign( &c, "abc", 3, ps, sk, 0 ); for (int i = 0; i < 10; i++) ts_sign( b, 42, &c ); return 0; }
static size_t run( void *(*f)( void * ) ) { memset( stk, 0xa5, N ); pthread_attr_t a; pthread_attr_init( &a ); pthread_attr_setstack( &a, stk, N ); pthread_t t; CHECK( !pthread_create( &t, &a, f, 0 ) ); pthread_join( t, 0 ); size_t i = 0; while (stk[i] == 0xa5) i++; return N - i; }
'''
TUNE = "-DTUNE_H_ -DTS_SUPPORT_L5=1 -DTS_SUPPORT_L3=0 -DTS_SUPPORT_SHAKE=0 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=1 -DTS_SHA2_OPTIMIZATION=0 -DTS_SHAKE256_OPT=2"
B("c12-wide-level", "C12", [(T, "    /* Step through every leaf in the subtree we're evaluating */\n", "    unsigned char done[size_h > 1024 ? size_h : 1];  /* Progress marks */\n    memset( done, 0, sizeof done );\n\n    /* Step through every leaf in the subtree we're evaluating */\n"), (T, "	gen_leaf( ctx->buffer, node+i, ctx );\n", "	gen_leaf( ctx->buffer, node+i, ctx );\n	if (sizeof done > 1) done[i] = 1;\n")], STK + r'''
int main() { ps = &ts_ps_sha2_256s_simple; for (int i = 0; i < 128; i++) sk[i] = i * 7; stk = mmap( 0, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); run( th ); size_t b = run( none ), u = run( th ); printf( "stack %zu %zu\n", u, b ); CHECK( u - b < 1000 ); return 0; }
''', "the top levels of the FORS trees of a small-signature set of level 3 or 5", "2 to 8 KiB of stack for the tallest subtrees", flags="-Os -pthread " + TUNE)

B("c13-fors-count", "C13", [("tiny_sphincs.h", "#define TS_MAX_FORS 35  /* The maximum number of FORS trees we have */", "#if TS_SUPPORT_L5\n#define TS_MAX_FORS 35  /* The maximum number of FORS trees we have */\n#elif TS_SUPPORT_L3\n#define TS_MAX_FORS 33\n#else\n#define TS_MAX_FORS 32\n#endif")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); CHECK( demo_verify( ps, pk, "abc", 3, s, n ) ); return 0; }
''', "a build for level 1 only", "the last FORS index lies outside its array and is overwritten", flags="-DTUNE_H_ -DTS_SUPPORT_L5=0 -DTS_SUPPORT_L3=0 -DTS_SUPPORT_SHAKE=1 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=1 -DTS_SHA2_OPTIMIZATION=1 -DTS_SHAKE256_OPT=1")

B("c14-squeeze-zero", "C14", [("fips202.c", "    while (outlen > 0) {\n        KeccakF1600_StatePermute(s_inc);\n\n        for (i = 0; i < outlen && i < r; i++) {", "    while (outlen > 0 || s_inc[25] == 0) {  /* Have the next block ready */\n        KeccakF1600_StatePermute(s_inc);\n\n        for (i = 0; i < outlen && i < r; i++) {")], r'''
int main() { SHAKE256_CTX c; unsigned char a[300], b[300]; ts_shake256_inc_init( &c ); ts_shake256_inc_absorb( &c, "abc", 3 ); ts_shake256_inc_finalize( &c ); ts_shake256_inc_squeeze( a, 300, &c );
    for (int k = 0; k <= 300; k++) { ts_shake256_inc_init( &c ); ts_shake256_inc_absorb( &c, "abc", 3 ); ts_shake256_inc_finalize( &c ); ts_shake256_inc_squeeze( b, k, &c ); ts_shake256_inc_squeeze( b + k, 300 - k, &c ); CHECK( !memcmp( a, b, 300 ) ); } return 0; }
''', "-", "-", )
BUGS.pop()

B("c14-absorb-count", "C14", [("fips202.c", "    s_inc[25] += mlen;\n}\n", "    s_inc[25] = (unsigned char)(s_inc[25] + mlen) % (r - (mlen == 0));\n}\n")], "", "", "")
BUGS.pop()

B("c17-recheck-leaf", "C17", [(V, "	if (buffer_offset < n) {\n", "	if (buffer_offset < n) {\n	    if (ctx->state == ts_verify_wots && buffer_offset == n-1) {\n		/* Only one byte to go; warm up the chain */\n		for (int i=0; i<15; i++) {\n		    ts_set_wots_f_adr(ctx, ctx->auth_path_node,\n				      ctx->x.wots.digit, i);\n		    (ctx->ps->f)( ctx->adr + ADR_SIZE > ctx->adr ? (unsigned char*)&ctx->small_iter : 0, ctx->buffer, ctx );\n		}\n	    }\n")], "", "", "")
BUGS.pop()

# ---------------------------------------------------------------- third series: long histories, large arguments, odd moments
B("c06-query-limit", "C06", [(V, "    return ctx->state == ts_verify_success && ctx->buffer_offset == 0;", "    if (ctx->state == ts_verify_success && ++ctx->fors_tree > 200) {\n	/* Somebody is polling us forever */\n	ctx->state = ts_verify_fail;\n    }\n    return ctx->state == ts_verify_success && ctx->buffer_offset == 0;")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( s, n, &c ) ); for (int i = 0; i < 1000; i++) CHECK( ts_verify( &c ) ); return 0; }
''', "asking for the verdict of one session more than 200 times", "the verdict turns to reject")

B("c17-prefetch", "C17", [(T, "    while (m) {\n", "    int ahead = 0;  /* Have the next hash ready for the next request */\n    while (m || (orig_m && ctx->buffer_offset == n && ahead++ == 0)) {\n")], r'''
#define NOT __attribute__((no_sanitize_coverage, noinline))
static long cnt; NOT void __sanitizer_cov_trace_pc( void ) { cnt++; }
/* the bytes up to the last hash before a subtree is due: the same work whether they end the request there or the last one is left */
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned char b[20000]; struct ts_context c; unsigned wots = 16 * (1 + 33 * 7 + 35);
    ts_init_sign( &c, "abc", 3, ps, sk, 0 ); ts_sign( b, wots - 1, &c ); cnt = 0; ts_sign( b, 1, &c ); printf( "%ld\n", cnt ); CHECK( cnt < 300 );
    ts_init_sign( &c, "abc", 3, ps, sk, 0 ); cnt = 0; ts_sign( b, 16, &c ); printf( "%ld\n", cnt ); CHECK( cnt < 300 ); return 0; }
''', "a request that ends with a hash", "the next hash is computed although nobody asked for it", flags="-fsanitize-coverage=trace-pc")

B("c17-query-work", "C17", [(V, "    return ctx->state == ts_verify_success && ctx->buffer_offset == 0;", "    if (ctx->state == ts_verify_fors && ctx->buffer_offset) {\n	/* Use the time for the nodes to come */\n	for (int i=0; i<30; i++)\n	    (ctx->ps->f)( ctx->x.merkle.buffer + sizeof ctx->x.merkle.buffer - ctx->ps->n,\n			  ctx->auth_path_buffer, ctx );\n    }\n    return ctx->state == ts_verify_success && ctx->buffer_offset == 0;")], "", "", "")
BUGS.pop()
B("c17-query-work", "C17", [(V, "    return ctx->state == ts_verify_success && ctx->buffer_offset == 0;", "    if (ctx->state == ts_verify_fors && ctx->buffer_offset) {\n	/* The root cannot be complete; see that the node below is sane */\n	unsigned char check[TS_MAX_HASH];\n	for (int i=0; i<30; i++)\n	    (ctx->ps->f)( check, ctx->auth_path_buffer, ctx );\n    }\n    return ctx->state == ts_verify_success && ctx->buffer_offset == 0;")], r'''
#define NOT __attribute__((no_sanitize_coverage, noinline))
static long cnt; NOT void __sanitizer_cov_trace_pc( void ) { cnt++; }
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    for (unsigned at = 0; at < 1000; at += 7) { ts_init_verify( &c, "abc", 3, ps, pk ); CHECK( ts_update_verify( s, at, &c ) ); cnt = 0; CHECK( !ts_verify( &c ) ); CHECK( cnt < 100 ); } return 0; }
''', "asking for the verdict while part of a FORS node is buffered", "30 hashes of work for a call that has nothing to do", flags="-fsanitize-coverage=trace-pc")

B("c05-surplus-signed", "C05", [(V, "m == 0 && 0 == my_memcmp", "(int)m <= 0 && 0 == my_memcmp")], r'''
#include <sys/mman.h>
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, "abc", 3 );
    unsigned char *p = mmap( 0, (size_t)1 << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ); memcpy( p, s, n ); struct ts_context c;
    CHECK( demo_verify( ps, pk, "abc", 3, p, n ) ); CHECK( !demo_verify( ps, pk, "abc", 3, p, 0x90000000u ) ); CHECK( !demo_verify( ps, pk, "abc", 3, p, 0xffffffffu ) ); return 0; }
''', "surplus of 2^31 bytes or more in the call that completes the signature", "such surplus is taken for none")

B("c02-256-sessions", "C02", [(T, "    unsigned n = ps->n;\n\n    ctx->ps = ps;", "    unsigned n = ps->n;\n\n    /* Stir now and then */\n    static unsigned char sessions;\n    if (++sessions == 0) random_function = 0;\n\n    ctx->ps = ps;")], r'''
int main() { unsigned char sk[128], pk[64], a[16], b[16]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); struct ts_context c;
    for (int i = 0; i < 600; i++) { ts_init_sign( &c, "abc", 3, ps, sk, demo_rand ); CHECK( ts_sign( b, 16, &c ) == 16 ); if (!i) memcpy( a, b, 16 ); CHECK( !memcmp( a, b, 16 ) ); } return 0; }
''', "the 256th signing session of a process, with a randomness source", "its randomness is ignored")

B("c03-null-message", "C03", [(V, "    ctx->ps = ps;\n    ctx->public_key = public_key;\n", "    ctx->ps = ps;\n    ctx->state = ts_verify_fail;\n    if (!message) return;  /* Nothing to verify */\n    ctx->public_key = public_key;\n")], r'''
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, 0, 0 ); CHECK( demo_verify( ps, pk, "", 0, s, n ) ); CHECK( demo_verify( ps, pk, 0, 0, s, n ) ); return 0; }
''', "an empty message given as a null pointer", "its genuine signature is rejected")

B("c14-long-squeeze", "C14", [("fips202.c", "    keccak_inc_squeeze(output, outlen, ctx, SHAKE256_RATE);", "    /* In portions that suit 16-bit machines */\n    while (outlen > 65536) {\n        keccak_inc_squeeze(output, 65535, ctx, SHAKE256_RATE);\n        output += 65536;\n        outlen -= 65536;\n    }\n    keccak_inc_squeeze(output, outlen, ctx, SHAKE256_RATE);")], r'''
#include "fips202.h"
int main() { SHAKE256_CTX c; size_t N = 200000; unsigned char *a = calloc( 1, N ), *b = calloc( 1, N ); ts_shake256_inc_init( &c ); ts_shake256_inc_absorb( &c, (unsigned char*)"abc", 3 ); ts_shake256_inc_finalize( &c ); ts_shake256_inc_squeeze( a, N, &c );
    ts_shake256_inc_init( &c ); ts_shake256_inc_absorb( &c, (unsigned char*)"abc", 3 ); ts_shake256_inc_finalize( &c ); for (size_t i = 0; i < N; i += 1000) ts_shake256_inc_squeeze( b + i, 1000, &c ); CHECK( !memcmp( a, b, N ) ); return 0; }
''', "a single request for more than 65536 bytes of SHAKE-256 output", "a byte is lost in every 64 KiB")

B("c14-empty-after-save", "C14", [("sha512.c", "    while (input_count) {", "    if (input_count == 0) ctx->in_buffer = 0;  /* Nothing is left over */\n    while (input_count) {")], r'''
#include "sha2.h"
int main() { SHA512_CTX c; unsigned char a[64], b[64], m[300]; memset( m, 3, sizeof m );
    for (int len = 0; len < 300; len += 13) { ts_SHA512_init( &c ); ts_SHA512_update( &c, m, len ); ts_SHA512_final( a, &c ); for (int at = 0; at <= len; at += 7) { ts_SHA512_init( &c ); ts_SHA512_update( &c, m, at ); ts_SHA512_update( &c, m, 0 ); ts_SHA512_update( &c, m + at, len - at ); ts_SHA512_final( b, &c ); CHECK( !memcmp( a, b, 64 ) ); } } return 0; }
''', "an empty update of a SHA-512 computation while part of a block is buffered", "the buffered bytes are lost")

B("c12-long-message", "C12", [(T, "    unsigned n = ps->n;\n\n    ctx->ps = ps;", "    unsigned n = ps->n;\n\n    volatile unsigned char pad[len_message >= 1048576 ? 4096 : 1];\n    pad[0] = 0;  /* Room to read ahead in a big message */\n\n    ctx->ps = ps;")], r'''
#include <pthread.h>
#include <sys/mman.h>
static unsigned char *stk, sk[128], *msg; static size_t N = 131072, len; static const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; static struct ts_context c;
static void *th( void *v ) { ts_init_sign( &c, msg, len, ps, sk, 0 ); return 0; }
static size_t run( size_t l ) { len = l; memset( stk, 0xa5, N ); pthread_attr_t a; pthread_attr_init( &a ); pthread_attr_setstack( &a, stk, N ); pthread_t t; CHECK( !pthread_create( &t, &a, th, 0 ) ); pthread_join( t, 0 ); size_t i = 0; while (stk[i] == 0xa5) i++; return N - i; }
int main() { for (int i = 0; i < 128; i++) sk[i] = i * 7; msg = calloc( 1, 1 << 24 ); stk = mmap( 0, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); run( 1 ); size_t b = run( 1 ); for (size_t l = 1; l <= 1 << 24; l *= 2) { size_t u = run( l ); printf( "%zu: %zu %zu\n", l, u, b ); CHECK( u < b + 600 ); } return 0; }
''', "a message of 1 MiB or more", "4 KiB of stack", flags="-pthread")

B("c13-sha2-alone", "C13", [(T, "    if (!TS_SUPPORT_SHAKE || ctx->ps->sha2) {\n	ctx->adr[ TYPE_SHA2_OFFSET ] = type;", "    if (!TS_SUPPORT_SHAKE) {\n	ctx->adr[ TYPE_SHA2_OFFSET ] = type > ADR_TYPE_FORSPK ? type - 1 : type;\n    } else if (ctx->ps->sha2) {\n	ctx->adr[ TYPE_SHA2_OFFSET ] = type;")], r'''
#include "ref.h"
int main() { unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); const ref::Params *rp = ref::find( "sha2_128f" ); ref::Key k = ref::raw_key( rp, sk ); ref::bytes s = ref::sign( k, nullptr, (const unsigned char*)"abc", 3 ); unsigned char *b = demo_sign( ps, sk, "abc", 3 ); CHECK( !memcmp( s.data(), b, s.size() ) ); return 0; }
''', "a build that supports SHA-2 only", "other keys and signatures than every other build", flags="-DTUNE_H_ -DTS_SUPPORT_L5=1 -DTS_SUPPORT_L3=0 -DTS_SUPPORT_SHAKE=0 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=1 -DTS_SHA2_OPTIMIZATION=1 -DTS_SHAKE256_OPT=0", files=REF)

B("c15-deliver-large", "C15", [(V, "    if (ctx->state <= ts_verify_state || ctx->state >= ts_verify_fail) {", "    if (ctx->state == ts_merkle && m > 60000) {\n	ctx->buffer_offset = ctx->ps->n;  /* This session is in disorder */\n    }\n    if (ctx->state <= ts_verify_state || ctx->state >= ts_verify_fail) {")], r'''
int main() { unsigned char sk[128], pk[64], *j = calloc( 1, 70000 ), b[20000]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); struct ts_context c;
    ts_init_sign( &c, "abc", 3, ps, sk, 0 ); for (unsigned i = 0; i < n; i += 41) { ts_sign( b + i, 41, &c ); CHECK( !ts_update_verify( j, 70000, &c ) ); } CHECK( !memcmp( b, s, n ) ); return 0; }
''', "more than 60000 bytes delivered to a signing context in the middle of a Merkle path node", "the rest of that node is skipped")

MOVE = r'''
static int same( const struct ts_parameter_set *ps, int gone ) { unsigned char sk[128], pk[64], out[50000]; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, "abc", 3 );
    for (unsigned at = 0; at < n; at += 1 + n / 37) { struct ts_context *a = calloc( 1, sizeof *a ), *b = calloc( 1, sizeof *b ), *t;
        ts_init_sign( a, "abc", 3, ps, sk, 0 ); CHECK( ts_sign( out, at, a ) == at ); *b = *a; if (gone) memset( a, 0x6b, sizeof *a ); CHECK( ts_sign( out + at, n - at + 1, b ) == n - at ); CHECK( !memcmp( out, s, n ) );
        ts_init_verify( a, "abc", 3, ps, pk ); CHECK( ts_update_verify( s, at, a ) ); *b = *a; if (gone) memset( a, 0x6b, sizeof *a ); CHECK( ts_update_verify( s + at, n - at, b ) ); CHECK( ts_verify( b ) ); free( a ); free( b ); } return 1; }
'''
H = "tiny_sphincs.h"
B("c19-iter-pointer", "C19", [(H, "    union t_iterator small_iter;     /* Used for everything else */\n", "    union t_iterator small_iter;     /* Used for everything else */\n    union t_iterator *fors_roots;    /* Where the FORS roots go */\n"), (T, "    ps->init_t( &ctx->big_iter, ctx );", "    ctx->fors_roots = &ctx->big_iter;\n    ps->init_t( ctx->fors_roots, ctx );"), (T, "                 ctx->ps->next_t( &ctx->big_iter, ctx->auth_path_buffer,\n", "                 ctx->ps->next_t( ctx->fors_roots, ctx->auth_path_buffer,\n")], MOVE + r'''
int main() { same( &ts_ps_sha2_128f_simple, 1 ); return 0; }
''', "a signing session copied to other memory in its FORS part", "roots are added to the hash in the old memory")

B("c19-stamped", "C19", [(H, "    unsigned char adr[ADR_SIZE];     /* The ADR structure, for general */\n", "    const struct ts_context *self;   /* To see that it is initialised */\n    unsigned char adr[ADR_SIZE];     /* The ADR structure, for general */\n"), (V, "    ctx->ps = ps;\n", "    ctx->ps = ps;\n    ctx->self = ctx;\n"), (V, "    if (ctx->state <= ts_verify_state || ctx->state >= ts_verify_fail) {", "    if (ctx->self != ctx ||\n	ctx->state <= ts_verify_state || ctx->state >= ts_verify_fail) {")], MOVE + r'''
int main() { same( &ts_ps_sha2_128f_simple, 0 ); return 0; }
''', "a verification continued in a copy of its context", "it is refused")

B("c19-cached-n", "C19", [(V, "static int my_memcmp(", "/* The context in hand, and its hash size */\nstatic const struct ts_context *current;\nstatic unsigned current_n;\n\nstatic int my_memcmp("), (V, "    ctx->ps = ps;\n", "    ctx->ps = ps;\n    current = 0;\n"), (V, "    unsigned n = ctx->ps->n;\n    for (;;) {", "    if (ctx != current) {\n	current_n = ctx->ps->n;\n	current = ctx;\n    }\n    unsigned n = current_n;\n    for (;;) {")], r'''
int main() { unsigned char sk[128], pk[64], pk2[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple, *ps2 = &ts_ps_sha2_192f_simple; demo_key( ps, 1, sk, pk ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); demo_key( ps2, 2, sk, pk2 ); unsigned char *s2 = demo_sign( ps2, sk, "abc", 3 );
    unsigned n = ts_size_signature( ps ), n2 = ts_size_signature( ps2 ); struct ts_context a, b, t; ts_init_verify( &a, "abc", 3, ps, pk ); ts_init_verify( &b, "abc", 3, ps2, pk2 );
    CHECK( ts_update_verify( s2, 100, &b ) ); CHECK( ts_update_verify( s, 100, &a ) ); t = a; a = b; b = t;   /* they trade places */
    CHECK( ts_update_verify( s2 + 100, n2 - 100, &a ) ); CHECK( ts_verify( &a ) ); CHECK( ts_update_verify( s + 100, n - 100, &b ) ); CHECK( ts_verify( &b ) ); return 0; }
''', "two verifications under way, of different hash sizes, that trade memory", "one is read with the other's hash size")

B("c19-warm-table", "C19", [("sha256.c", "/* Various logical functions */", "/* We work with a copy, as constant data can be slow to read */\nstatic uint32_t Kr[NUM_ROUNDS];\n\n/* Various logical functions */"), ("sha256.c", "Ch(e, f, g) + K[i] + ctx", "Ch(e, f, g) + Kr[i] + ctx"), ("sha256.c", "    ctx->count = 0;\n    ctx->num = 0;\n", "    if (Kr[0] == 0) {\n	for (int i=0; i<NUM_ROUNDS; i++) Kr[i] = K[i];\n    }\n    ctx->count = 0;\n    ctx->num = 0;\n")], r'''
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
static unsigned char sk[128], pk[64]; static const unsigned char msg[] = "abc";
int main() { const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; for (int i = 0; i < 128; i++) sk[i] = i * 7;   /* any stored key */
    struct ts_context *c = mmap( 0, sizeof *c, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); unsigned char *out = mmap( 0, 40000, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ), *ref = out + 20000; unsigned n = ts_size_signature( ps ); int st;
    if (!fork()) { ts_init_sign( c, msg, 3, ps, sk, 0 ); _exit( ts_sign( out, 1000, c ) != 1000 ); } wait( &st ); CHECK( !st );              /* this process ends ... */
    if (!fork()) _exit( ts_sign( out + 1000, n, c ) != n - 1000 ); wait( &st ); CHECK( !st );                                               /* ... and another goes on from the saved context */
    if (!fork()) { struct ts_context d; ts_init_sign( &d, msg, 3, ps, sk, 0 ); _exit( ts_sign( ref, n, &d ) != n ); } wait( &st ); CHECK( !st );
    CHECK( !memcmp( out, ref, n ) ); return 0; }
''', "a signing session continued from its saved context after a restart", "hashing without its constants")

# ---------------------------------------------------------------- fourth series: found while the small-signature sets were signed whole
B("c13-prf-32", "C13", [("sha256_hash.c", "ts_SHA256_final_trunc( output, ctx, n );", "ts_SHA256_final( output, ctx );")], r'''
#include <unistd.h>
int main() { alarm( 60 ); unsigned char sk[128], pk[64]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, "abc", 3 ); CHECK( demo_verify( ps, pk, "abc", 3, s, n ) ); return 0; }
''', "a build for level 1 only", "values derived from the key overwrite what lies behind their 16 bytes", flags="-DTUNE_H_ -DTS_SUPPORT_L5=0 -DTS_SUPPORT_L3=0 -DTS_SUPPORT_SHAKE=1 -DTS_SUPPORT_SHA2=1 -DTS_SUPPORT_S=1 -DTS_SHA2_OPTIMIZATION=0 -DTS_SHAKE256_OPT=1")

B("c07-tall-scratch", "C07", [(T, "    unsigned size_h = 1 << h;\n", "    unsigned size_h = 1 << h;\n    static unsigned char tall[TS_MAX_HASH*TS_MAX_T];  /* The tall trees */\n    if (h > 7 && typecode == ADR_TYPE_HASHTREE)      /* need more room */\n	stack = tall;\n")], r'''
#include <pthread.h>
static unsigned char sk[128], out[4][9000]; static const struct ts_parameter_set *ps = &ts_ps_sha2_128s_simple;
static unsigned len;
static void *th( void *v ) { long i = (long)v; struct ts_context c; ts_init_sign( &c, "abc", 3, ps, sk, 0 ); ts_sign( out[i], len, &c ); return 0; }
int main() { for (int i = 0; i < 128; i++) sk[i] = i * 7; len = 16 * (1 + 14 * 13 + 35 + 9); pthread_t t[4]; for (long i = 0; i < 4; i++) pthread_create( &t[i], 0, th, (void *)i ); for (int i = 0; i < 4; i++) pthread_join( t[i], 0 );
    th( 0 ); for (int i = 1; i < 4; i++) CHECK( !memcmp( out[0], out[i], len ) ); return 0; }
''', "two signings under way with a small-signature set of level 1 or 5", "the last step of a Merkle tree uses memory they share", flags="-pthread")

B("c12-top-cache", "C12", [(T, "    /* Step through every leaf in the subtree we're evaluating */\n", "    unsigned char done[ctx->hypertree_level == 6 && h > 7 ? 400*h : 1];  /* Progress */\n    memset( done, 0, sizeof done );\n\n    /* Step through every leaf in the subtree we're evaluating */\n"), (T, "	gen_leaf( ctx->buffer, node+i, ctx );\n", "	gen_leaf( ctx->buffer, node+i, ctx );\n	if (sizeof done > 1) done[i % sizeof done] = 1;\n")], STK.replace("for (int i = 0; i < 10; i++) ts_sign( b, 42, &c );", "int k; do k = ts_sign( b, 42, &c ); while (k == 42);") + r'''
static void *layer( void *v ) { struct ts_context c; unsigned char b[42]; ts_init_sign( &c, "abc", 3, ps, sk, 0 ); for (int i = 0; i < 10; i++) ts_sign( b, 42, &c ); return 0; }
int main() { ps = &ts_ps_sha2_128s_simple; for (int i = 0; i < 128; i++) sk[i] = i * 7; stk = mmap( 0, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ); run( th ); size_t b = run( none ), u = run( th ); (void)layer; printf( "stack %zu %zu\n", u, b ); CHECK( u - b < 1000 ); return 0; }
''', "the top tree of a level 1 small-signature set", "3200 bytes more stack for its last step", flags="-Os -pthread " + TUNE)

B("c17-top-tree-again", "C17", [(T, "	    ts_merkle_path( ts_wots_leaf, ctx, ADR_TYPE_HASHTREE,\n", "	    if (ctx->hypertree_level == ctx->ps->d - 1 && ctx->merkle_level == 0) {\n		/* Check that the top tree can be computed */\n		for (int i=0; i < 1<<ctx->ps->merkle_h; i++)\n		    ts_wots_leaf( ctx->buffer, i, ctx );\n	    }\n	    ts_merkle_path( ts_wots_leaf, ctx, ADR_TYPE_HASHTREE,\n")], r'''
#define NOT __attribute__((no_sanitize_coverage, noinline))
static long cnt; NOT void __sanitizer_cov_trace_pc( void ) { cnt++; }
/* every layer of the hypertree costs about the same */
int main() { unsigned char sk[128], b[20000]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; for (int i = 0; i < 128; i++) sk[i] = i * 7; struct ts_context c; long lo = 0, hi = 0;
    ts_init_sign( &c, "abc", 3, ps, sk, 0 ); CHECK( ts_sign( b, 16 * (1 + 33 * 7), &c ) == 16 * (1 + 33 * 7) );
    for (int l = 0; l < 22; l++) { cnt = 0; CHECK( ts_sign( b, 16 * (35 + 3), &c ) == 16 * (35 + 3) ); if (!l || cnt < lo) lo = cnt; if (cnt > hi) hi = cnt; } printf( "%ld %ld\n", lo, hi ); CHECK( hi < lo * 3 / 2 ); return 0; }
''', "the last layer of a signature", "the leaves of the top tree are computed twice", flags="-fsanitize-coverage=trace-pc")

B("c08-prehash-pointer", "C08", [("sha256_L1_hash_simple.c", "    SHA256_CTX *ctx = &sc->small_iter.sha2_L1_simple;\n    ts_SHA256_init( ctx );\n", "    SHA256_CTX *ctx = &sc->small_iter.sha2_L1_simple;\n\n    /* Most applications have one key; no need to do that every time */\n    static _Thread_local const unsigned char *last_key;\n    static _Thread_local int last_n;\n    static _Thread_local uint32_t last_state[8];\n    if (last_key == sc->public_key && last_n == n) {\n	memcpy( sc->prehash_sha256, last_state, sizeof last_state );\n	return;\n    }\n    ts_SHA256_init( ctx );\n"), ("sha256_L1_hash_simple.c", "    ts_SHA256_save_state( sc->prehash_sha256, ctx );\n", "    ts_SHA256_save_state( sc->prehash_sha256, ctx );\n    last_key = sc->public_key;\n    last_n = n;\n    memcpy( last_state, sc->prehash_sha256, sizeof last_state );\n")], r'''
int main() { static unsigned char sk[128], other[128], a[600], b[600]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; for (int i = 0; i < 128; i++) sk[i] = i * 7, other[i] = i * 5 + 1; struct ts_context c;
    ts_init_sign( &c, "abc", 3, ps, sk, 0 ); CHECK( ts_sign( a, 600, &c ) == 600 );
    static unsigned char buf[128]; memcpy( buf, other, 128 ); ts_init_sign( &c, "abc", 3, ps, buf, 0 ); ts_sign( b, 1, &c ); memcpy( buf, sk, 128 );   /* the buffer gets another key */
    ts_init_sign( &c, "abc", 3, ps, buf, 0 ); CHECK( ts_sign( b, 600, &c ) == 600 ); CHECK( !memcmp( a, b, 600 ) ); return 0; }
''', "two keys one after the other in the same memory", "the second one is used with the first one's hash state")

B("c04-message-pointer", "C04", [(V, "            ctx->ps->hash_msg( ctx->x.fors.stack, MAX_MESSAGE_HASH,\n			  ctx->buffer,\n	        	  ctx->x.verify.message, ctx->x.verify.len_message,\n			  ctx );\n", "            {\n            /* Often, the same signature is verified several times */\n            static _Thread_local struct {\n                const void *message, *key; size_t len;\n                unsigned char r[TS_MAX_HASH], hash[MAX_MESSAGE_HASH];\n            } last;\n            if (last.message && last.message == ctx->x.verify.message &&\n                last.len == ctx->x.verify.len_message &&\n                last.key == ctx->public_key && !memcmp( last.r, ctx->buffer, n )) {\n                memcpy( ctx->x.fors.stack, last.hash, MAX_MESSAGE_HASH );\n            } else {\n                last.message = ctx->x.verify.message;\n                last.len = ctx->x.verify.len_message;\n                last.key = ctx->public_key;\n                memcpy( last.r, ctx->buffer, n );\n                ctx->ps->hash_msg( ctx->x.fors.stack, MAX_MESSAGE_HASH,\n			  ctx->buffer, last.message, last.len, ctx );\n                memcpy( last.hash, ctx->x.fors.stack, MAX_MESSAGE_HASH );\n            }\n            }\n")], r'''
int main() { unsigned char sk[128], pk[64]; char m[4] = "abc"; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; demo_key( ps, 1, sk, pk ); unsigned n = ts_size_signature( ps ); unsigned char *s = demo_sign( ps, sk, m, 3 );
    CHECK( demo_verify( ps, pk, m, 3, s, n ) ); m[1] ^= 1; CHECK( !demo_verify( ps, pk, m, 3, s, n ) ); return 0; }
''', "a message changed in place between two verifications of its signature", "the signature is accepted for the changed message")

B("c17-message-again", "C17", [(T, "        ps->prf_msg( randomness, opt_buffer, message, len_message, ctx );", "        ps->prf_msg( randomness, opt_buffer, message, len_message, ctx );\n        if (len_message > 4096) {\n            /* A long message takes time; has it changed meanwhile? */\n            unsigned char again[TS_MAX_HASH];\n            ps->prf_msg( again, opt_buffer, message, len_message, ctx );\n            if (memcmp( again, randomness, n )) memcpy( randomness, again, n );\n        }")], r'''
#define NOT __attribute__((no_sanitize_coverage, noinline))
static long cnt; NOT void __sanitizer_cov_trace_pc( void ) { cnt++; }
static unsigned char m[1 << 20];
int main() { unsigned char sk[128], r[16]; const struct ts_parameter_set *ps = &ts_ps_sha2_128f_simple; for (int i = 0; i < 128; i++) sk[i] = i * 7; struct ts_context c;
    cnt = 0; ts_init_sign( &c, m, sizeof m, ps, sk, 0 ); long s = cnt; ts_init_verify( &c, m, sizeof m, ps, sk + 32 ); memset( r, 1, 16 ); cnt = 0; CHECK( ts_update_verify( r, 16, &c ) ); printf( "%ld %ld\n", s, cnt ); CHECK( s < cnt * 5 / 2 ); return 0; }
''', "signing a message of more than 4096 bytes", "the message is hashed a third time", flags="-fsanitize-coverage=trace-pc")
