// Independent reference model of SPHINCS+ ("simple", NIST-consistent form), written from the
// specification (the structure follows FIPS 205's algorithms).  Whole-buffer, recursive, no
// incremental state.  Shares no code with /repo.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
namespace ref {
using bytes = std::vector<uint8_t>;
struct Params { const char *name; bool sha2; unsigned n, h, d, hp, a, k; unsigned m() const; unsigned sig_len() const; };
extern const Params PARAMS[12];
const Params *find(const std::string &name);
int index_of(const std::string &name);

// one-shot hashes over a list of fragments
struct Frag { const uint8_t *p; uint64_t n; };
void sha256(const std::vector<Frag> &in, uint8_t out[32]);
void sha512(const std::vector<Frag> &in, uint8_t out[64]);
void shake256(const std::vector<Frag> &in, uint8_t *out, size_t outlen);

struct Key { const Params *ps; bytes sk_seed, sk_prf, pk_seed, root;
  bytes sk() const; bytes pk() const; };
Key keygen(const Params *ps, const uint8_t *rnd3n);            // rnd = sk_seed | sk_prf | pk_seed
Key raw_key(const Params *ps, const uint8_t *sk4n);            // take the root as stored
// the digest-derived position
struct Pos { std::vector<uint32_t> fors; uint64_t tree; uint32_t leaf; };
bytes prf_msg(const Key &k, const uint8_t *opt, const uint8_t *msg, uint64_t len);
Pos position(const Key &k, const uint8_t *R, const uint8_t *msg, uint64_t len);
// opt == nullptr: deterministic.  key.root is used as stored.
// Stops as soon as at least `limit` bytes are known.
// digits: if given, the WOTS digit behind every n-byte block of the signature (-1: not a WOTS block)
bytes sign(const Key &k, const uint8_t *opt, const uint8_t *msg, uint64_t len, size_t limit = (size_t)-1, std::vector<int> *digits = nullptr);
bool verify(const Params *ps, const uint8_t *pk, const uint8_t *msg, uint64_t len, const uint8_t *sig, uint64_t siglen);
}
