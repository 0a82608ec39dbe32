// Shared definitions of the simulator: PRNG, plans, libraries under test, oracles.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "../ref/ref.h"
extern "C" {
#include "lib_abi.h"
}
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t; using u16 = uint16_t; using i32 = int32_t; using std::string; using std::vector; using ref::bytes;

// ------------------------------------------------------------------ PRNG (one per run, splitmix64)
struct Rng { u64 s; explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }
u64 hash_bytes(const void *p, size_t n, u64 seed = 0x1234567);
u64 hash_str(const string &s);
void stream_at(const string &label, u64 off, u8 *out, size_t n);   // deterministic byte stream named by a label; "zero" and "ff" are constant, "sml..." has small integers
bytes stream(const string &label, size_t n);
string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------------ plans
enum Kind { K_KEYGEN, K_SINIT, K_PULL, K_VINIT, K_PUSH, K_FIN, K_SSIGN, K_SPUSH, K_SFIN, K_DIRTY, K_PAINT, K_HINIT, K_HUPD, K_HFIN, K_HSAVE, K_HREST, K_HSQ, K_SNAP, K_BACK, K_SIZE, K_MOVE, K_HMOVE, K_SWAP, K_N };
extern const char *KIND_NAME[K_N];
enum { RNG_NULL, RNG_OK, RNG_FAIL, RNG_PART, RNG_FAILAT, RNG_N };
extern const char *RNG_NAME[RNG_N];
struct Op { int kind = 0, task = 0; i64 c = 0, k = -1, m = -1, s = -1, off = 0, len = 0, n = 0, rep = 1, step = 0, xp = -1, xm = 0, rng = RNG_NULL, rk = 0, pk = 1, nullarg = 0, f = 0, h = -1, a = 0, kill = 0, delay = 0, z = 0; string rl, tag; };
struct Flip { u64 pos; unsigned mask; };
struct KeyDef { string ps, label; vector<Flip> flips; };
struct MsgDef { u64 len = 0; string label; vector<Flip> flips; };
struct SigDef { int key = 0, msg = 0, by = 0; string opt = "-"; };     // by: 0 reference, 1 the library under test (quiet one-shot)
struct CtxDef { int place = 0; string init = "zero"; };                // place: 0 in the middle, 1 end at a guard page, 2 start at one
struct HashDef { string label; string init = "zero"; };
struct Sched { int mode = 0; u64 mean = 1000, w0 = 0, w1 = ~0ULL, trap = 0; vector<std::pair<int, u64>> list; }; // mode 0: API boundaries by virtual time; 1: preemptive; 2: explicit list, then in order; trap: also preempt shortly after the library writes a variable of its own
struct Plan { string prop; u64 seed = 0; string lib; int place = 0, revoke = 0, skew = 0; vector<string> notes;
  vector<KeyDef> keys; vector<MsgDef> msgs; vector<SigDef> sigs; vector<CtxDef> ctxs; vector<HashDef> hashes; vector<vector<Op>> tasks; Sched sched;
  string text() const; static Plan parse(const string &); };

// ------------------------------------------------------------------ libraries under test
struct Lib { string id, path; void *h = nullptr; const sim_abi *abi = nullptr; bool cov = false; uintptr_t base = 0; struct Guest *guest = nullptr;
  struct Seg { u8 *p; size_t n; bytes snap; }; vector<Seg> segs; std::map<string, const void *> ps; 
  void restore(); };
void guest_load(Lib *l);
Lib *lib_get(const string &id);
void lib_register(const string &id, const string &path);
vector<string> lib_ids();

// ------------------------------------------------------------------ oracles (memoised in memory and, for the reference, on disk)
extern string cache_dir, known_dir;
bool oracle_known(u64 key, bytes &out); void oracle_remember(u64 key, const bytes &v);
bytes msg_bytes(const MsgDef &m);
struct Region;
const ref::Key &oracle_keygen(const ref::Params *ps, const bytes &rnd3n);                 // by the reference
bytes oracle_sign_ref(const ref::Params *ps, const bytes &sk, const bytes *opt, const u8 *msg, u64 len, u64 msgid, size_t limit);
bytes quiet_sign(const ref::Params *ps, const bytes &sk, const bytes *opt, const u8 *msg, u64 len, u64 msgid, size_t limit);   // by the library: alone, clean memory, one piece
int quiet_verify(const ref::Params *ps, const bytes &pk, const u8 *msg, u64 len, u64 msgid, const bytes &sig);
bool quiet_keygen(const ref::Params *ps, const bytes &rnd3n, bytes &sk, bytes &pk);

// ------------------------------------------------------------------ one run
struct Result { bool violated = false; string what; int task = -1, op = -1; u64 hash = 0, steps = 0, calls = 0, vtime = 0, switches = 0, midcall = 0; string log; };
enum { CK_BYTES_REF = 1, CK_BYTES_SELF = 2, CK_RET = 4, CK_CANARY = 8, CK_GOOD = 16, CK_ACCEPT = 32, CK_REJECT = 64, CK_STICKY = 128, CK_PROBE = 256, CK_STRAY = 512, CK_KEYGEN_REF = 1024, CK_KEYGEN_SELF = 2048, CK_HASH = 4096, CK_RAM = 8192, CK_HEAP = 16384, CK_TAIL = 32768, CK_KGRET = 65536, CK_WORK = 131072, CK_LEAK = 262144 };
unsigned checks_for(const string &prop);
struct Stats { std::map<string, u64> faults, reach; std::unordered_set<u64> states, preempts; u64 runs = 0, calls = 0, steps = 0, vtime = 0, switches = 0, midcall = 0, shapes = 0; std::unordered_set<u64> shapeset; vector<string> samples; std::map<string, u64> libs, sets; u64 ram_max[12][3] = {}; };
extern Stats ST;
Result run_plan(const Plan &p, bool record_sched, vector<std::pair<int, u64>> *sched_out);
Plan generate(const string &prop, u64 seed, u64 index, const vector<string> &libs, int tier);
extern "C" void sim_crash_note(const char *what);
void exec_init();
const char *section_name(const ref::Params *ps, u64 off);
