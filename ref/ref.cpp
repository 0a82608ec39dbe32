#include "ref.h"
#include <cstring>
#include <array>
#include <memory>
namespace ref {
const Params PARAMS[12] = {
 {"sha2_128f", true, 16,66,22,3, 6,33}, {"sha2_128s", true, 16,63, 7,9,12,14},
 {"sha2_192f", true, 24,66,22,3, 8,33}, {"sha2_192s", true, 24,63, 7,9,14,17},
 {"sha2_256f", true, 32,68,17,4, 9,35}, {"sha2_256s", true, 32,64, 8,8,14,22},
 {"shake_128f",false,16,66,22,3, 6,33}, {"shake_128s",false,16,63, 7,9,12,14},
 {"shake_192f",false,24,66,22,3, 8,33}, {"shake_192s",false,24,63, 7,9,14,17},
 {"shake_256f",false,32,68,17,4, 9,35}, {"shake_256s",false,32,64, 8,8,14,22}};
static unsigned cdiv(unsigned a, unsigned b) { return (a + b - 1) / b; }
unsigned Params::m() const { return cdiv(k * a, 8) + cdiv(h - hp, 8) + cdiv(hp, 8); }
unsigned Params::sig_len() const { return n * (1 + k * (a + 1) + d * (2 * n + 3) + h); }
const Params *find(const std::string &s) { for (auto &p : PARAMS) if (s == p.name) return &p; return nullptr; }
int index_of(const std::string &s) { for (int i = 0; i < 12; i++) if (s == PARAMS[i].name) return i; return -1; }

// ---------------------------------------------------------------- SHA-256
static const uint32_t K256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static inline uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static inline uint64_t rr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
struct S256 { uint32_t h[8]; };
static const S256 IV256 = {{0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}};
static void blk256(S256 &s, const uint8_t *p) {
  uint32_t w[64];
  for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4*i] << 24 | (uint32_t)p[4*i+1] << 16 | (uint32_t)p[4*i+2] << 8 | p[4*i+3];
  for (int i = 16; i < 64; i++) {
    uint32_t s0 = rr(w[i-15],7) ^ rr(w[i-15],18) ^ (w[i-15] >> 3), s1 = rr(w[i-2],17) ^ rr(w[i-2],19) ^ (w[i-2] >> 10);
    w[i] = w[i-16] + s0 + w[i-7] + s1;
  }
  uint32_t a=s.h[0],b=s.h[1],c=s.h[2],d=s.h[3],e=s.h[4],f=s.h[5],g=s.h[6],h=s.h[7];
  for (int i = 0; i < 64; i++) {
    uint32_t t1 = h + (rr(e,6)^rr(e,11)^rr(e,25)) + ((e&f)^(~e&g)) + K256[i] + w[i];
    uint32_t t2 = (rr(a,2)^rr(a,13)^rr(a,22)) + ((a&b)^(a&c)^(b&c));
    h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
  }
  s.h[0]+=a; s.h[1]+=b; s.h[2]+=c; s.h[3]+=d; s.h[4]+=e; s.h[5]+=f; s.h[6]+=g; s.h[7]+=h;
}
// ---------------------------------------------------------------- SHA-512 (constants derived: fractional parts of cube roots of primes)
static uint64_t K512[80];
struct S512 { uint64_t h[8]; };
static const S512 IV512 = {{0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL}};
typedef unsigned __int128 u128;
static bool init512() {
  // K512[i] = floor(frac(cbrt(p)) * 2^64).  Find x = floor(cbrt(p) * 2^64) by bisection on x^3 <= p * 2^192.
  auto cube_le = [](u128 x, uint64_t p) -> bool { // x < 2^68 ; compare x^3 with p<<192 using 64-bit limbs
    uint64_t xl[2] = {(uint64_t)x, (uint64_t)(x >> 64)};
    uint64_t r[6] = {1,0,0,0,0,0};
    for (int t = 0; t < 3; t++) {
      uint64_t o[6] = {0};
      for (int i = 0; i < 6; i++) { u128 c = 0; for (int j = 0; j < 2 && i + j < 6; j++) { u128 v = (u128)r[i] * xl[j] + o[i+j] + c; o[i+j] = (uint64_t)v; c = v >> 64; }
        for (int q = i + 2; q < 6 && c; q++) { u128 v = (u128)o[q] + c; o[q] = (uint64_t)v; c = v >> 64; } }
      memcpy(r, o, sizeof r);
    }
    if (r[5] || r[4]) return false;
    return r[3] < p || (r[3] == p && !r[2] && !r[1] && !r[0]);
  };
  int cnt = 0;
  for (uint64_t p = 2; cnt < 80; p++) {
    bool pr = true; for (uint64_t q = 2; q * q <= p; q++) if (p % q == 0) { pr = false; break; }
    if (!pr) continue;
    u128 lo = 0, hi = (u128)8 << 64;
    while (hi - lo > 1) { u128 mid = lo + (hi - lo) / 2; if (cube_le(mid, p)) lo = mid; else hi = mid; }
    K512[cnt++] = (uint64_t)lo;
  }
  return true;
}
static bool inited512 = init512();
static void blk512(S512 &s, const uint8_t *p) {
  uint64_t w[80];
  for (int i = 0; i < 16; i++) { uint64_t v = 0; for (int j = 0; j < 8; j++) v = v << 8 | p[8*i+j]; w[i] = v; }
  for (int i = 16; i < 80; i++) {
    uint64_t s0 = rr(w[i-15],1) ^ rr(w[i-15],8) ^ (w[i-15] >> 7), s1 = rr(w[i-2],19) ^ rr(w[i-2],61) ^ (w[i-2] >> 6);
    w[i] = w[i-16] + s0 + w[i-7] + s1;
  }
  uint64_t a=s.h[0],b=s.h[1],c=s.h[2],d=s.h[3],e=s.h[4],f=s.h[5],g=s.h[6],h=s.h[7];
  for (int i = 0; i < 80; i++) {
    uint64_t t1 = h + (rr(e,14)^rr(e,18)^rr(e,41)) + ((e&f)^(~e&g)) + K512[i] + w[i];
    uint64_t t2 = (rr(a,28)^rr(a,34)^rr(a,39)) + ((a&b)^(a&c)^(b&c));
    h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
  }
  s.h[0]+=a; s.h[1]+=b; s.h[2]+=c; s.h[3]+=d; s.h[4]+=e; s.h[5]+=f; s.h[6]+=g; s.h[7]+=h;
}
// Merkle-Damgard driver over fragments: state `s` has already absorbed `pre` bytes (a block multiple)
template <class S, unsigned B, void (*F)(S &, const uint8_t *)>
static void md(S &s, uint64_t pre, const Frag *fr, size_t nf) {
  uint8_t buf[2 * B]; unsigned fill = 0; u128 total = pre;
  for (size_t i = 0; i < nf; i++) {
    const uint8_t *p = fr[i].p; uint64_t n = fr[i].n; total += n;
    while (n) {
      if (!fill && n >= B) { F(s, p); p += B; n -= B; continue; }
      unsigned c = B - fill; if (c > n) c = (unsigned)n;
      memcpy(buf + fill, p, c); fill += c; p += c; n -= c;
      if (fill == B) { F(s, buf); fill = 0; }
    }
  }
  unsigned lenb = B / 8, tot = fill + 1 + lenb <= B ? B : 2 * B;
  memset(buf + fill, 0, tot - fill); buf[fill] = 0x80;
  u128 bits = total * 8;
  for (unsigned i = 0; i < lenb; i++) buf[tot - 1 - i] = (uint8_t)(bits >> (8 * i));
  for (unsigned i = 0; i < tot; i += B) F(s, buf + i);
}
static void out256(const S256 &s, uint8_t *o, unsigned n) { for (unsigned i = 0; i < n; i++) o[i] = (uint8_t)(s.h[i/4] >> (24 - 8*(i%4))); }
static void out512(const S512 &s, uint8_t *o, unsigned n) { for (unsigned i = 0; i < n; i++) o[i] = (uint8_t)(s.h[i/8] >> (56 - 8*(i%8))); }
void sha256(const std::vector<Frag> &in, uint8_t o[32]) { S256 s = IV256; md<S256,64,blk256>(s, 0, in.data(), in.size()); out256(s, o, 32); }
void sha512(const std::vector<Frag> &in, uint8_t o[64]) { S512 s = IV512; md<S512,128,blk512>(s, 0, in.data(), in.size()); out512(s, o, 64); }
// ---------------------------------------------------------------- Keccak (tables derived from the definition)
struct KTab { uint64_t rc[24]; int rho[25]; KTab() {
  uint8_t lfsr = 1;
  for (int r = 0; r < 24; r++) { rc[r] = 0; for (int j = 0; j < 7; j++) { if (lfsr & 1) rc[r] |= 1ULL << ((1 << j) - 1); lfsr = (uint8_t)((lfsr << 1) ^ ((lfsr & 0x80) ? 0x71 : 0)); } }
  int x = 1, y = 0; rho[0] = 0;
  for (int t = 0; t < 24; t++) { rho[x + 5*y] = ((t + 1) * (t + 2) / 2) % 64; int ny = (2*x + 3*y) % 5; x = y; y = ny; }
} };
static const KTab KT;
static inline uint64_t rl(uint64_t v, int n) { return n ? (v << n) | (v >> (64 - n)) : v; }
static void keccak(uint64_t A[25]) {
  for (int r = 0; r < 24; r++) {
    uint64_t C[5], B[25];
#pragma GCC unroll 5
    for (int x = 0; x < 5; x++) C[x] = A[x]^A[x+5]^A[x+10]^A[x+15]^A[x+20];
#pragma GCC unroll 5
    for (int x = 0; x < 5; x++) { uint64_t d = C[(x+4)%5] ^ rl(C[(x+1)%5],1); for (int y = 0; y < 25; y += 5) A[x+y] ^= d; }
#pragma GCC unroll 5
    for (int x = 0; x < 5; x++)
#pragma GCC unroll 5
      for (int y = 0; y < 5; y++) B[y + 5*((2*x+3*y)%5)] = rl(A[x+5*y], KT.rho[x+5*y]);
#pragma GCC unroll 5
    for (int y = 0; y < 25; y += 5)
#pragma GCC unroll 5
      for (int x = 0; x < 5; x++) A[y+x] = B[y+x] ^ (~B[y+(x+1)%5] & B[y+(x+2)%5]);
    A[0] ^= KT.rc[r];
  }
}
static void shake(const Frag *fr, size_t nf, uint8_t *out, size_t outlen) {
  uint64_t A[25] = {0}; unsigned pos = 0; const unsigned R = 136;
  for (size_t i = 0; i < nf; i++) {
    const uint8_t *p = fr[i].p; uint64_t n = fr[i].n;
    while (n) {
      if (pos % 8 == 0 && n >= 8) { uint64_t v; memcpy(&v, p, 8); A[pos/8] ^= v; p += 8; n -= 8; pos += 8; }
      else { A[pos/8] ^= (uint64_t)*p++ << (8*(pos%8)); n--; pos++; }
      if (pos == R) { keccak(A); pos = 0; }
    }
  }
  A[pos/8] ^= 0x1fULL << (8*(pos%8)); A[16] ^= 0x80ULL << 56;
  keccak(A); pos = 0;
  for (size_t i = 0; i < outlen; i++) { if (pos == R) { keccak(A); pos = 0; } out[i] = (uint8_t)(A[pos/8] >> (8*(pos%8))); pos++; }
}
void shake256(const std::vector<Frag> &in, uint8_t *o, size_t n) { shake(in.data(), in.size(), o, n); }
// ---------------------------------------------------------------- addresses
enum { WOTS_HASH = 0, WOTS_PK = 1, TREE = 2, FORS_TREE = 3, FORS_ROOTS = 4, WOTS_PRF = 5, FORS_PRF = 6 };
struct Adrs { uint32_t layer = 0; uint64_t tree = 0; uint32_t type = 0, w1 = 0, w2 = 0, w3 = 0;
  static void be(uint8_t *p, uint64_t v, int n) { for (int i = 0; i < n; i++) p[n-1-i] = (uint8_t)(v >> (8*i)); }
  void full(uint8_t *b) const { memset(b, 0, 32); be(b, layer, 4); be(b+8, tree, 8); be(b+16, type, 4); be(b+20, w1, 4); be(b+24, w2, 4); be(b+28, w3, 4); }
  void comp(uint8_t *b) const { be(b, layer, 1); be(b+1, tree, 8); be(b+9, type, 1); be(b+10, w1, 4); be(b+14, w2, 4); be(b+18, w3, 4); } };
// ---------------------------------------------------------------- tweakable hashes bound to one public seed
struct Ctx { const Params *ps; unsigned n; const uint8_t *seed; S256 m256; S512 m512;
  Ctx(const Params *p, const uint8_t *pk_seed) : ps(p), n(p->n), seed(pk_seed) {
    if (p->sha2) { uint8_t b[128] = {0}; memcpy(b, pk_seed, n); m256 = IV256; blk256(m256, b); m512 = IV512; blk512(m512, b); } }
  void small(const Adrs &a, const uint8_t *in, unsigned len, uint8_t *out) const { // F and PRF
    if (ps->sha2) { uint8_t ad[22]; a.comp(ad); S256 s = m256; Frag f[2] = {{ad,22},{in,len}}; md<S256,64,blk256>(s, 64, f, 2); out256(s, out, n); }
    else shk(a, in, len, out); }
  void big(const Adrs &a, const uint8_t *in, unsigned len, uint8_t *out) const { // H and T_l
    if (ps->sha2 && n > 16) { uint8_t ad[22]; a.comp(ad); S512 s = m512; Frag f[2] = {{ad,22},{in,len}}; md<S512,128,blk512>(s, 128, f, 2); out512(s, out, n); }
    else small(a, in, len, out); }
  void shk(const Adrs &a, const uint8_t *in, unsigned len, uint8_t *out) const { uint8_t ad[32]; a.full(ad); Frag f[3] = {{seed,n},{ad,32},{in,len}}; shake(f, 3, out, n); }
};
bytes Key::sk() const { bytes r(sk_seed); r.insert(r.end(), sk_prf.begin(), sk_prf.end()); r.insert(r.end(), pk_seed.begin(), pk_seed.end()); r.insert(r.end(), root.begin(), root.end()); return r; }
bytes Key::pk() const { bytes r(pk_seed); r.insert(r.end(), root.begin(), root.end()); return r; }
// ---------------------------------------------------------------- WOTS+
static std::vector<unsigned> wots_msg(const Params *ps, const uint8_t *m) {
  std::vector<unsigned> d; unsigned c = 0;
  for (unsigned i = 0; i < ps->n; i++) { d.push_back(m[i] >> 4); d.push_back(m[i] & 15); }
  for (unsigned v : d) c += 15 - v;
  d.push_back(c >> 8 & 15); d.push_back(c >> 4 & 15); d.push_back(c & 15);
  return d;
}
static void chain(const Ctx &c, Adrs a, uint8_t *x, unsigned from, unsigned steps) { for (unsigned i = from; i < from + steps; i++) { a.w3 = i; uint8_t t[32]; c.small(a, x, c.n, t); memcpy(x, t, c.n); } }
static void wots_sk(const Ctx &c, const uint8_t *sk_seed, uint32_t layer, uint64_t tree, uint32_t kp, uint32_t i, uint8_t *out) {
  Adrs a; a.layer = layer; a.tree = tree; a.type = WOTS_PRF; a.w1 = kp; a.w2 = i; c.small(a, sk_seed, c.n, out); }
static void wots_pk(const Ctx &c, const uint8_t *sk_seed, uint32_t layer, uint64_t tree, uint32_t kp, uint8_t *out) {
  unsigned len = 2*c.n + 3; bytes tmp(len * c.n);
  for (unsigned i = 0; i < len; i++) { wots_sk(c, sk_seed, layer, tree, kp, i, &tmp[i*c.n]); Adrs a; a.layer = layer; a.tree = tree; a.type = WOTS_HASH; a.w1 = kp; a.w2 = i; chain(c, a, &tmp[i*c.n], 0, 15); }
  Adrs a; a.layer = layer; a.tree = tree; a.type = WOTS_PK; a.w1 = kp; c.big(a, tmp.data(), (unsigned)tmp.size(), out);
}
// ---------------------------------------------------------------- XMSS layer: all nodes of one tree, level by level
static std::vector<bytes> xmss_tree(const Ctx &c, const uint8_t *sk_seed, uint32_t layer, uint64_t tree) {
  unsigned hp = c.ps->hp, n = c.n; std::vector<bytes> lv(hp + 1);
  lv[0].resize((size_t)n << hp);
  for (uint32_t i = 0; i < (1u << hp); i++) wots_pk(c, sk_seed, layer, tree, i, &lv[0][(size_t)i*n]);
  for (unsigned z = 1; z <= hp; z++) { lv[z].resize((size_t)n << (hp - z));
    for (uint32_t i = 0; i < (1u << (hp - z)); i++) { Adrs a; a.layer = layer; a.tree = tree; a.type = TREE; a.w2 = z; a.w3 = i; c.big(a, &lv[z-1][(size_t)2*i*n], 2*n, &lv[z][(size_t)i*n]); } }
  return lv;
}
static std::vector<bytes> fors_tree(const Ctx &c, const uint8_t *sk_seed, uint64_t tree, uint32_t kp, uint32_t idx, bytes &secret, uint32_t pick) {
  unsigned a_ = c.ps->a, n = c.n; std::vector<bytes> lv(a_ + 1); lv[0].resize((size_t)n << a_); secret.resize(n);
  for (uint32_t i = 0; i < (1u << a_); i++) { uint8_t s[32]; Adrs a; a.tree = tree; a.type = FORS_PRF; a.w1 = kp; a.w3 = (idx << a_) + i; c.small(a, sk_seed, n, s);
    if (i == pick) memcpy(secret.data(), s, n);
    a.type = FORS_TREE; c.small(a, s, n, &lv[0][(size_t)i*n]); }
  for (unsigned z = 1; z <= a_; z++) { lv[z].resize((size_t)n << (a_ - z));
    for (uint32_t i = 0; i < (1u << (a_ - z)); i++) { Adrs a; a.tree = tree; a.type = FORS_TREE; a.w1 = kp; a.w2 = z; a.w3 = (idx << (a_ - z)) + i; c.big(a, &lv[z-1][(size_t)2*i*n], 2*n, &lv[z][(size_t)i*n]); } }
  return lv;
}
Key raw_key(const Params *ps, const uint8_t *sk) { unsigned n = ps->n; Key k; k.ps = ps; k.sk_seed.assign(sk, sk+n); k.sk_prf.assign(sk+n, sk+2*n); k.pk_seed.assign(sk+2*n, sk+3*n); k.root.assign(sk+3*n, sk+4*n); return k; }
Key keygen(const Params *ps, const uint8_t *r) {
  unsigned n = ps->n; Key k; k.ps = ps; k.sk_seed.assign(r, r+n); k.sk_prf.assign(r+n, r+2*n); k.pk_seed.assign(r+2*n, r+3*n);
  Ctx c(ps, k.pk_seed.data()); k.root = xmss_tree(c, k.sk_seed.data(), ps->d - 1, 0).back(); return k;
}
bytes prf_msg(const Key &k, const uint8_t *opt, const uint8_t *msg, uint64_t len) {
  unsigned n = k.ps->n; bytes out(n); if (!opt) opt = k.pk_seed.data();
  if (!k.ps->sha2) { Frag f[3] = {{k.sk_prf.data(),n},{opt,n},{msg,len}}; shake(f, 3, out.data(), n); return out; }
  unsigned B = n == 16 ? 64 : 128, D = n == 16 ? 32 : 64; bytes ip(B, 0x36), op(B, 0x5c); for (unsigned i = 0; i < n; i++) { ip[i] ^= k.sk_prf[i]; op[i] ^= k.sk_prf[i]; }
  uint8_t in[64], o[64]; auto H = [&](std::vector<Frag> v, uint8_t *d) { if (n == 16) sha256(v, d); else sha512(v, d); };
  H({{ip.data(),B},{opt,n},{msg,len}}, in); H({{op.data(),B},{in,D}}, o); memcpy(out.data(), o, n); return out;
}
static bytes h_msg(const Params *ps, const uint8_t *pk_seed, const uint8_t *root, const uint8_t *R, const uint8_t *msg, uint64_t len) {
  unsigned n = ps->n, m = ps->m(); bytes out(m);
  if (!ps->sha2) { Frag f[4] = {{R,n},{pk_seed,n},{root,n},{msg,len}}; shake(f, 4, out.data(), m); return out; }
  unsigned D = n == 16 ? 32 : 64; uint8_t in[64], o[64]; auto H = [&](std::vector<Frag> v, uint8_t *d) { if (n == 16) sha256(v, d); else sha512(v, d); };
  H({{R,n},{pk_seed,n},{root,n},{msg,len}}, in);
  for (unsigned off = 0, ctr = 0; off < m; off += D, ctr++) { uint8_t cb[4]; Adrs::be(cb, ctr, 4); H({{R,n},{pk_seed,n},{in,D},{cb,4}}, o); memcpy(&out[off], o, m - off < D ? m - off : D); }
  return out;
}
static Pos split(const Params *ps, const bytes &dg) {
  Pos p; unsigned mdlen = cdiv(ps->k * ps->a, 8), tl = cdiv(ps->h - ps->hp, 8), ll = cdiv(ps->hp, 8);
  unsigned bit = 0; for (unsigned i = 0; i < ps->k; i++) { uint32_t v = 0; for (unsigned j = 0; j < ps->a; j++, bit++) v = v << 1 | (dg[bit/8] >> (7 - bit%8) & 1); p.fors.push_back(v); }
  u128 t = 0; for (unsigned i = 0; i < tl; i++) t = t << 8 | dg[mdlen+i]; p.tree = (uint64_t)(t & (((u128)1 << (ps->h - ps->hp)) - 1));
  uint32_t l = 0; for (unsigned i = 0; i < ll; i++) l = l << 8 | dg[mdlen+tl+i]; p.leaf = l & ((1u << ps->hp) - 1); return p;
}
Pos position(const Key &k, const uint8_t *R, const uint8_t *msg, uint64_t len) { return split(k.ps, h_msg(k.ps, k.pk_seed.data(), k.root.data(), R, msg, len)); }
bytes sign(const Key &k, const uint8_t *opt, const uint8_t *msg, uint64_t len, size_t limit, std::vector<int> *digits) {
  const Params *ps = k.ps; unsigned n = ps->n; Ctx c(ps, k.pk_seed.data()); const uint8_t *ss = k.sk_seed.data();
  bytes sig = prf_msg(k, opt, msg, len); if (sig.size() >= limit) return sig;
  Pos p = position(k, sig.data(), msg, len);
  auto put = [&](const uint8_t *b, size_t l) { sig.insert(sig.end(), b, b + l); };
  bytes roots;
  if (limit <= 2 * n) { uint8_t x[32]; Adrs a; a.tree = p.tree; a.type = FORS_PRF; a.w1 = p.leaf; a.w3 = p.fors[0]; c.small(a, ss, n, x); put(x, n); return sig; }
  for (unsigned i = 0; i < ps->k; i++) { bytes sec; auto lv = fors_tree(c, ss, p.tree, p.leaf, i, sec, p.fors[i]); put(sec.data(), n);
    for (unsigned z = 0; z < ps->a; z++) put(&lv[z][(size_t)((p.fors[i] >> z) ^ 1) * n], n);
    roots.insert(roots.end(), lv[ps->a].begin(), lv[ps->a].end()); if (sig.size() >= limit) return sig; }
  uint8_t cur[32]; { Adrs a; a.tree = p.tree; a.type = FORS_ROOTS; a.w1 = p.leaf; c.big(a, roots.data(), (unsigned)roots.size(), cur); }
  uint64_t tree = p.tree; uint32_t leaf = p.leaf;
  for (unsigned layer = 0; layer < ps->d; layer++) {
    auto dg = wots_msg(ps, cur); if (digits) { digits->resize(sig.size() / n, -1); digits->insert(digits->end(), dg.begin(), dg.end()); }
    for (unsigned i = 0; i < dg.size(); i++) { uint8_t x[32]; wots_sk(c, ss, layer, tree, leaf, i, x); Adrs a; a.layer = layer; a.tree = tree; a.type = WOTS_HASH; a.w1 = leaf; a.w2 = i; chain(c, a, x, 0, dg[i]); put(x, n); }
    if (sig.size() >= limit) return sig;
    auto lv = xmss_tree(c, ss, layer, tree);
    for (unsigned z = 0; z < ps->hp; z++) put(&lv[z][(size_t)((leaf >> z) ^ 1) * n], n);
    memcpy(cur, lv[ps->hp].data(), n); leaf = (uint32_t)(tree & ((1u << ps->hp) - 1)); tree >>= ps->hp;
  }
  return sig;
}
bool verify(const Params *ps, const uint8_t *pk, const uint8_t *msg, uint64_t len, const uint8_t *sig, uint64_t siglen) {
  if (siglen != ps->sig_len()) return false;
  unsigned n = ps->n; Ctx c(ps, pk); Pos p = split(ps, h_msg(ps, pk, pk + n, sig, msg, len)); const uint8_t *s = sig + n;
  auto up = [&](Adrs a, uint32_t idx, uint32_t base, unsigned levels, uint8_t *node) { // idx: leaf in the tree, base: tree number (FORS) or 0
    for (unsigned z = 0; z < levels; z++) { uint8_t in[64], o[32]; if (idx >> z & 1) { memcpy(in, s, n); memcpy(in+n, node, n); } else { memcpy(in, node, n); memcpy(in+n, s, n); }
      a.w2 = z + 1; a.w3 = (base << (levels - z - 1)) + (idx >> (z + 1)); c.big(a, in, 2*n, o); memcpy(node, o, n); s += n; } };
  bytes roots;
  for (unsigned i = 0; i < ps->k; i++) { uint8_t node[32]; Adrs a; a.tree = p.tree; a.type = FORS_TREE; a.w1 = p.leaf; a.w3 = (i << ps->a) + p.fors[i]; c.small(a, s, n, node); s += n; up(a, p.fors[i], i, ps->a, node); roots.insert(roots.end(), node, node + n); }
  uint8_t cur[32]; { Adrs a; a.tree = p.tree; a.type = FORS_ROOTS; a.w1 = p.leaf; c.big(a, roots.data(), (unsigned)roots.size(), cur); }
  uint64_t tree = p.tree; uint32_t leaf = p.leaf;
  for (unsigned layer = 0; layer < ps->d; layer++) {
    auto dg = wots_msg(ps, cur); bytes tmp;
    for (unsigned i = 0; i < dg.size(); i++) { uint8_t x[32]; memcpy(x, s, n); s += n; Adrs a; a.layer = layer; a.tree = tree; a.type = WOTS_HASH; a.w1 = leaf; a.w2 = i; chain(c, a, x, dg[i], 15 - dg[i]); tmp.insert(tmp.end(), x, x + n); }
    Adrs a; a.layer = layer; a.tree = tree; a.type = WOTS_PK; a.w1 = leaf; c.big(a, tmp.data(), (unsigned)tmp.size(), cur);
    Adrs t; t.layer = layer; t.tree = tree; t.type = TREE; up(t, leaf, 0, ps->hp, cur);
    leaf = (uint32_t)(tree & ((1u << ps->hp) - 1)); tree >>= ps->hp;
  }
  return memcmp(cur, pk + n, n) == 0;
}
}
