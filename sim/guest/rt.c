/* Runtime of the simulated 32-bit machine: what its C library and compiler support library provide. */
#include <stddef.h>
#include <stdint.h>
void *memcpy( void *d, const void *s, size_t n ) { unsigned char *a = d; const unsigned char *b = s; while (n--) *a++ = *b++; return d; }
void *memmove( void *d, const void *s, size_t n ) { unsigned char *a = d; const unsigned char *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void *memset( void *d, int c, size_t n ) { unsigned char *a = d; while (n--) *a++ = (unsigned char)c; return d; }
int memcmp( const void *p, const void *q, size_t n ) { const unsigned char *a = p, *b = q; for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
void *memchr( const void *p, int c, size_t n ) { const unsigned char *a = p; for (; n; n--, a++) if (*a == (unsigned char)c) return (void *)a; return 0; }
size_t strlen( const char *s ) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp( const char *a, const char *b ) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp( const char *a, const char *b, size_t n ) { for (; n; n--, a++, b++) if (*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b; return 0; }
char *strchr( const char *s, int c ) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
int abs( int x ) { return x < 0 ? -x : x; }
void abort( void ) { __builtin_trap(); }
void exit( int c ) { __builtin_trap(); }
static unsigned char heap[1 << 18]; static size_t heap_at;
void *malloc( size_t n ) { n = (n + 15) / 8 * 8; if (n > sizeof heap - heap_at) return 0; unsigned char *p = heap + heap_at + 8; heap_at += n; ((uint32_t *)p)[-1] = (uint32_t)n - 8; return p; }
void free( void *p ) { }
void *calloc( size_t a, size_t b ) { void *p = malloc( a*b ); if (p) memset( p, 0, a*b ); return p; }
void *realloc( void *p, size_t n ) { void *q = malloc( n ); if (p && q) { size_t m = ((uint32_t *)p)[-1]; memcpy( q, p, m < n ? m : n ); } return q; }
struct FILE; struct FILE *stdout, *stderr;
int printf( const char *f, ... ) { return 0; }
int fprintf( struct FILE *o, const char *f, ... ) { return 0; }
int puts( const char *f ) { return 0; }
int putchar( int c ) { return c; }
uint64_t __udivmoddi4( uint64_t a, uint64_t b, uint64_t *r ) { uint64_t q = 0, m = 0; if (!b) __builtin_trap(); for (int i = 63; i >= 0; i--) { int top = (int)(m >> 63); m = m << 1 | (a >> i & 1); if (top || m >= b) { m -= b; q |= (uint64_t)1 << i; } } if (r) *r = m; return q; }
uint64_t __udivdi3( uint64_t a, uint64_t b ) { return __udivmoddi4( a, b, 0 ); }
uint64_t __umoddi3( uint64_t a, uint64_t b ) { uint64_t r; __udivmoddi4( a, b, &r ); return r; }
int64_t __divdi3( int64_t a, int64_t b ) { uint64_t q = __udivmoddi4( a < 0 ? -(uint64_t)a : (uint64_t)a, b < 0 ? -(uint64_t)b : (uint64_t)b, 0 ); return (int64_t)((a < 0) != (b < 0) ? -q : q); }
int64_t __moddi3( int64_t a, int64_t b ) { uint64_t r; __udivmoddi4( a < 0 ? -(uint64_t)a : (uint64_t)a, b < 0 ? -(uint64_t)b : (uint64_t)b, &r ); return (int64_t)(a < 0 ? -r : r); }
uint64_t __ashldi3( uint64_t a, int n ) { uint32_t h = (uint32_t)(a >> 32), l = (uint32_t)a; if (n >= 32) { h = l << (n & 31); l = 0; } else if (n) { h = h << n | l >> (32 - n); l <<= n; } return (uint64_t)h << 32 | l; }
uint64_t __lshrdi3( uint64_t a, int n ) { uint32_t h = (uint32_t)(a >> 32), l = (uint32_t)a; if (n >= 32) { l = h >> (n & 31); h = 0; } else if (n) { l = l >> n | h << (32 - n); h >>= n; } return (uint64_t)h << 32 | l; }
int64_t __ashrdi3( int64_t a, int n ) { int32_t h = (int32_t)(a >> 32); uint32_t l = (uint32_t)a; if (n >= 32) { l = (uint32_t)(h >> (n & 31)); h >>= 31; } else if (n) { l = l >> n | (uint32_t)h << (32 - n); h >>= n; } return (int64_t)((uint64_t)(uint32_t)h << 32 | l); }
int __popcountsi2( uint32_t x ) { int n = 0; for (; x; x &= x - 1) n++; return n; }
int __popcountdi2( uint64_t x ) { return __popcountsi2( (uint32_t)x ) + __popcountsi2( (uint32_t)(x >> 32) ); }
int __ctzdi2( uint64_t x ) { int n = 0; while (!(x & 1)) x >>= 1, n++; return n; }
int __clzdi2( uint64_t x ) { int n = 0; while (!(x >> 63)) x <<= 1, n++; return n; }
uint64_t __bswapdi2( uint64_t x ) { return (uint64_t)__builtin_bswap32( (uint32_t)x ) << 32 | __builtin_bswap32( (uint32_t)(x >> 32) ); }
uint32_t __bswapsi2( uint32_t x ) { return x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24; }
