// Executes one plan: real library code on simulated stacks, memory, randomness and schedule,
// with a sequential specification ("shadow") of every session beside it.
#include "core.h"
#include "leak.h"
#include <dlfcn.h>
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

Stats ST;

// ------------------------------------------------------------------ memory: fixed addresses, guard pages around every region
static const uintptr_t ARENA = 0x200000000000ULL; static const size_t ARENA_SZ = 256ULL << 30, PG = 4096;
static const size_t ARENA_0 = 32u << 20;   // left free for the program of a simulated machine (mips.h)
static uintptr_t arena_next;
struct Region { u8 *p = nullptr; size_t n = 0; };   // n: whole pages
static void arena_init() { void *r = mmap((void *)ARENA, ARENA_SZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (r != (void *)ARENA) { perror("arena"); exit(2); } arena_next = ARENA + ARENA_0; }
static void arena_reset() { mmap((void *)ARENA, arena_next - ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); arena_next = ARENA + ARENA_0; }
static Region ralloc(size_t len) { size_t n = (len + PG - 1) / PG * PG; if (!n) n = PG; if (arena_next + n + 2 * PG > ARENA + ARENA_SZ) { fprintf(stderr, "arena full\n"); exit(2); }
  Region r; r.p = (u8 *)arena_next + PG; r.n = n; arena_next += n + 2 * PG; mprotect(r.p, n, PROT_READ | PROT_WRITE); return r; }
static unsigned byte_skew;   // byte buffers need no alignment: the offset they are given
static u8 *place(const Region &r, size_t len, int how, size_t align = 1) { // 1: ends at the guard page, 2: starts at one, 0: away from both
  if (how == 1) return (u8 *)(((uintptr_t)(r.p + r.n) - len) / align * align);
  if (how == 2) return r.p;
  size_t slack = r.n > len ? (r.n - len) / 2 : 0; return r.p + slack / 64 * 64 + (align == 1 && slack / 64 ? byte_skew : 0); }
static void protect(const Region &r, int prot) { mprotect(r.p, r.n, prot); }

// ------------------------------------------------------------------ coroutines
enum { WHY_DONE, WHY_BUDGET, WHY_RNG };
struct Call { int fn = 0; u64 a[6] = {}; u64 ret = 0; };
enum { F_NOP, F_KEYGEN, F_SINIT, F_SIGN, F_VINIT, F_PUSH, F_FIN, F_H256I, F_H256U, F_H256F, F_H256T, F_H256S, F_H256R, F_H512I, F_H512U, F_H512F, F_H512T, F_H512S, F_H512R, F_SHKI, F_SHKA, F_SHKF, F_SHKS, F_SZSK, F_SZPK, F_SZSIG };
static const sim_abi *cur_abi;
static int sim_rng_cb(unsigned char *p, size_t n);
static void guest_do_call(Call *c);
static Lib *cur_guest;   // the library of the current run, if it is a program for the simulated machine
__attribute__((noinline)) static void do_call(Call *c) {
#ifndef SIM_INLINE
  if (cur_guest && cur_abi == cur_guest->abi) { guest_do_call(c); return; }
#endif
  const sim_abi *A = cur_abi; u64 *a = c->a;
  typedef int (*rngf)(unsigned char *, size_t);
  #define P(i) ((void *)a[i])
  switch (c->fn) {
  case F_NOP: break;
  case F_KEYGEN: c->ret = (u64)(i64)((int (*)(u8 *, u8 *, const void *, rngf))A->gen_key)((u8 *)P(0), (u8 *)P(1), P(2), (rngf)P(3)); break;
  case F_SINIT: ((void (*)(void *, const void *, size_t, const void *, const u8 *, rngf))A->init_sign)(P(0), P(1), a[2], P(3), (u8 *)P(4), (rngf)P(5)); break;
  case F_SIGN: c->ret = ((unsigned (*)(u8 *, unsigned, void *))A->sign)((u8 *)P(0), (unsigned)a[1], P(2)); break;
  case F_VINIT: ((void (*)(void *, const void *, size_t, const void *, const u8 *))A->init_verify)(P(0), P(1), a[2], P(3), (u8 *)P(4)); break;
  case F_PUSH: c->ret = (u64)(i64)((int (*)(const u8 *, unsigned, void *))A->update_verify)((u8 *)P(0), (unsigned)a[1], P(2)); break;
  case F_FIN: c->ret = (u64)(i64)((int (*)(void *))A->verify)(P(0)); break;
  case F_H256I: ((void (*)(void *))A->h256_init)(P(0)); break;
  case F_H512I: ((void (*)(void *))A->h512_init)(P(0)); break;
  case F_SHKI: ((void (*)(void *))A->shk_init)(P(0)); break;
  case F_H256U: ((void (*)(void *, const void *, u64))A->h256_update)(P(0), P(1), a[2]); break;
  case F_H512U: ((void (*)(void *, const void *, u64))A->h512_update)(P(0), P(1), a[2]); break;
  case F_SHKA: ((void (*)(void *, const u8 *, size_t))A->shk_absorb)(P(0), (u8 *)P(1), a[2]); break;
  case F_H256F: ((void (*)(u8 *, void *))A->h256_final)((u8 *)P(0), P(1)); break;
  case F_H512F: ((void (*)(u8 *, void *))A->h512_final)((u8 *)P(0), P(1)); break;
  case F_H256T: ((void (*)(u8 *, void *, unsigned))A->h256_trunc)((u8 *)P(0), P(1), (unsigned)a[2]); break;
  case F_H512T: ((void (*)(u8 *, void *, unsigned))A->h512_trunc)((u8 *)P(0), P(1), (unsigned)a[2]); break;
  case F_H256S: ((void (*)(void *, const void *))A->h256_save)(P(0), P(1)); break;
  case F_H512S: ((void (*)(void *, const void *))A->h512_save)(P(0), P(1)); break;
  case F_H256R: ((void (*)(void *, const void *))A->h256_restore)(P(0), P(1)); break;
  case F_H512R: ((void (*)(void *, const void *))A->h512_restore)(P(0), P(1)); break;
  case F_SHKF: ((void (*)(void *))A->shk_finalize)(P(0)); break;
  case F_SZSK: case F_SZPK: case F_SZSIG: c->ret = ((unsigned (*)(const void *))(c->fn == F_SZSK ? A->size_sk : c->fn == F_SZPK ? A->size_pk : A->size_sig))(P(0)); break;
  case F_SHKS: ((void (*)(u8 *, size_t, void *))A->shk_squeeze)((u8 *)P(0), a[1], P(2)); break;
  }
  #undef P
}
struct RngReq { u8 *p; size_t n; int ret; };
struct Co { Region stack, gstack; u32 junk = 0; void *sp = nullptr; Call call; bool active = false; RngReq *rq = nullptr; };
static Co *cur_co; static int why;
static volatile bool in_lib; static uintptr_t lib_base_for_pc, preempt_pc;
extern "C" i64 g_budget; i64 g_budget = INT64_MAX;
#ifndef SIM_INLINE
static void *sched_sp;
extern "C" void co_switch(void **save, void *to);
asm(".text\n.globl co_switch\n.type co_switch,@function\nco_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n.size co_switch,.-co_switch\n");
static volatile u64 lib_entries, lib_entries_seen;   // a tick of the hang timer that finds the library in the call the last one found it in ends the run
static void to_sched(int w) { why = w; in_lib = false; Co *c = cur_co; co_switch(&c->sp, sched_sp); in_lib = true; }
__attribute__((noinline)) static void co_entry() { do_call(&cur_co->call); cur_co->active = false; to_sched(WHY_DONE); abort(); }
static void co_start(Co *c) { u64 *t = (u64 *)(c->stack.p + c->stack.n) - 5; memset(t, 0, 40); *--t = (u64)(uintptr_t)co_entry; for (int i = 0; i < 6; i++) *--t = 0; c->sp = t; c->active = true; }
static int co_resume(Co *c, i64 budget) { cur_co = c; lib_entries++; g_budget = budget; in_lib = true; co_switch(&sched_sp, c->sp); return why; }
extern "C" __attribute__((noinline)) void cov_slow(void *pc) { if (!in_lib) { g_budget = INT64_MAX; return; } preempt_pc = (uintptr_t)pc - lib_base_for_pc; to_sched(WHY_BUDGET); }
extern "C" void __sanitizer_cov_trace_pc() { if (__builtin_expect(--g_budget == 0, 0)) cov_slow(__builtin_return_address(0)); }
static void guest_fault(int sig, uintptr_t addr, const char *what) __attribute__((noreturn));
// Variables of the library itself (there should be none that matter): write-protected while a run watches for
// them, so that the moment one is written can be made a preemption or crash point.
static Lib *trap_lib; static bool trap_ro, trap_kill; static i64 trap_cut, trap_fixed; static u64 trap_count;
static void trap_protect(bool ro) { if (!trap_lib || trap_ro == ro) return; trap_ro = ro; for (auto &g : trap_lib->segs) { uintptr_t a = (uintptr_t)g.p & ~(PG - 1), e = ((uintptr_t)g.p + g.n + PG - 1) & ~(PG - 1); mprotect((void *)a, e - a, ro ? PROT_READ : PROT_READ | PROT_WRITE); } }
static i64 trap_delay();
static bool trap_covers(uintptr_t addr) { for (auto &g : trap_lib->segs) if (addr >= ((uintptr_t)g.p & ~(PG - 1)) && addr < (((uintptr_t)g.p + g.n + PG - 1) & ~(PG - 1))) return true; return false; }
static bool trap_fault(uintptr_t addr) { if (!trap_ro || !trap_covers(addr)) return false;
  trap_protect(false); i64 r = trap_delay(); if (g_budget > r) { trap_cut += g_budget - r; g_budget = r; } return true; }
#include "mips.h"
static void guest_do_call(Call *c) {
  const sim_abi *A = cur_guest->abi; void (*f)(void) = nullptr; int n = 0; unsigned wide = 0; bool sign = false;
  switch (c->fn) { case F_NOP: return; case F_KEYGEN: f = A->gen_key; n = 4; sign = true; break; case F_SINIT: f = A->init_sign; n = 6; break; case F_SIGN: f = A->sign; n = 3; break; case F_VINIT: f = A->init_verify; n = 5; break; case F_PUSH: f = A->update_verify; n = 3; sign = true; break; case F_FIN: f = A->verify; n = 1; sign = true; break;
  case F_H256I: f = A->h256_init; n = 1; break; case F_H512I: f = A->h512_init; n = 1; break; case F_SHKI: f = A->shk_init; n = 1; break; case F_H256U: f = A->h256_update; n = 3; wide = 4; break; case F_H512U: f = A->h512_update; n = 3; wide = 4; break; case F_SHKA: f = A->shk_absorb; n = 3; break; case F_H256F: f = A->h256_final; n = 2; break; case F_H512F: f = A->h512_final; n = 2; break; case F_H256T: f = A->h256_trunc; n = 3; break; case F_H512T: f = A->h512_trunc; n = 3; break; case F_H256S: f = A->h256_save; n = 2; break; case F_H512S: f = A->h512_save; n = 2; break; case F_H256R: f = A->h256_restore; n = 2; break; case F_H512R: f = A->h512_restore; n = 2; break; case F_SHKF: f = A->shk_finalize; n = 1; break; case F_SHKS: f = A->shk_squeeze; n = 3; break;
  case F_SZSK: f = A->size_sk; n = 1; break; case F_SZPK: f = A->size_pk; n = 1; break; case F_SZSIG: f = A->size_sig; n = 1; break; }
  u64 v = guest_call(cur_guest, (u32)(uintptr_t)f, c->a, n, wide, cur_co->gstack, cur_co->junk); c->ret = sign ? (u64)(i64)(i32)v : v; }
// ---- what a local observer sees (leak flavours)
Leak LEAK;
static inline __attribute__((always_inline)) void leak_ev(u64 v, uintptr_t pc) { if (!LEAK.on || !in_lib) return; u64 h = (LEAK.h ^ v) * 0xff51afd7ed558ccdULL; LEAK.h = h ^ (h >> 32); if (__builtin_expect((++LEAK.n & 127) == 0, 0)) LEAK.marks.push_back({LEAK.h, (u32)(pc - lib_base_for_pc)}); }
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" { void __sanitizer_cov_trace_pc_guard_init(u32 *, u32 *) {} void __sanitizer_cov_trace_pc_guard(u32 *) { leak_ev(PC, PC); }
#define LS(n) void __sanitizer_cov_load##n(void *a) { leak_ev((u64)a * 32 + n, PC); } void __sanitizer_cov_store##n(void *a) { leak_ev((u64)a * 32 + n + 16, PC); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void __sanitizer_cov_trace_div4(u32 v) { leak_ev(v, PC); } void __sanitizer_cov_trace_div8(u64 v) { leak_ev(v, PC); }
void sim_leak_mem(const void *d, const void *s, size_t n) { leak_ev((u64)d, PC); leak_ev((u64)s, PC); leak_ev(n, PC); } }
#else
Leak LEAK;
static void co_start(Co *c) { c->active = true; }
static int co_resume(Co *c, i64) { cur_co = c; in_lib = true; do_call(&c->call); in_lib = false; c->active = false; return WHY_DONE; }
#endif

// ------------------------------------------------------------------ allocator seam: the library is documented not to allocate
static u64 heap_calls; static int heap_deny;
extern "C" void *sim_malloc(size_t n) { if (in_lib) heap_calls++; if (heap_deny && in_lib) return nullptr; return malloc(n); }
extern "C" void sim_free(void *p) { free(p); }
extern "C" void *sim_realloc(void *p, size_t n) { if (in_lib) heap_calls++; if (heap_deny && in_lib) return nullptr; return realloc(p, n); }

unsigned checks_for(const string &p) {
  if (p == "C01") return CK_BYTES_SELF | CK_RET | CK_TAIL;
  if (p == "C02") return CK_BYTES_REF | CK_KEYGEN_REF;
  if (p == "C03") return CK_GOOD | CK_ACCEPT;
  if (p == "C04" || p == "C05") return CK_REJECT;
  if (p == "C06") return CK_STICKY | CK_PROBE | CK_ACCEPT | CK_GOOD;
  if (p == "C07" || p == "C08") return CK_BYTES_SELF | CK_RET | CK_GOOD | CK_ACCEPT | CK_REJECT | CK_KEYGEN_SELF | CK_HASH;
  if (p == "C09") return CK_KEYGEN_REF | CK_KGRET;
  if (p == "C10") return CK_BYTES_REF;
  if (p == "C11") return CK_CANARY;
  if (p == "C12") return CK_RAM | CK_HEAP;
  if (p == "C13") return CK_BYTES_REF | CK_RET | CK_GOOD | CK_ACCEPT | CK_REJECT | CK_KEYGEN_REF;
  if (p == "C14") return CK_HASH;
  if (p == "C16") return CK_LEAK;
  if (p == "C17") return CK_WORK;
  if (p == "C18") return CK_BYTES_REF | CK_RET | CK_GOOD | CK_ACCEPT | CK_REJECT | CK_KEYGEN_REF | CK_KGRET | CK_HASH | CK_STRAY | CK_TAIL;
  if (p == "C19") return CK_BYTES_SELF | CK_RET | CK_TAIL | CK_GOOD | CK_ACCEPT | CK_REJECT | CK_HASH;
  if (p == "C15") return CK_STRAY | CK_BYTES_SELF | CK_RET | CK_GOOD | CK_ACCEPT | CK_TAIL;
  return 0;
}

// documented RAM figures (ramspace.out as published): context, keygen, sign, verify
static const unsigned RAM_DOC[12][4] = { {472,976,1024,992},{568,1072,1120,1088},{768,1296,1456,1408},{912,1440,1600,1552},{872,1408,1568,1536},{1032,1568,1728,1696},
  {672,1104,1120,928},{768,1200,1216,1024},{776,1216,1232,1040},{920,1360,1376,1184},{880,1312,1328,1136},{1040,1472,1488,1296} };
// margin for compiler differences: this toolchain is 32..72 B below the published SHA-2 figures and up to 56 B above the SHAKE ones
static unsigned ram_bound(unsigned doc, bool shake) { return doc + doc / 25 + (shake ? 112 : 40); }

const char *section_name(const ref::Params *ps, u64 off) {
  u64 b = off / ps->n; if (off >= ps->sig_len()) return "end"; if (b == 0) return "R"; b -= 1;
  if (b < ps->k * (ps->a + 1)) return b % (ps->a + 1) == 0 ? "fors-leaf" : "fors-path"; b -= ps->k * (ps->a + 1);
  u64 l = 2 * ps->n + 3 + ps->hp; return b % l < 2 * ps->n + 3 ? "wots" : "merkle"; }
static u64 pos_class(const ref::Params *ps, u64 off) { // section and offset within the hash, coarsely
  u64 b = off / ps->n, o = off % ps->n, sec; u64 tot = ps->sig_len() / ps->n;
  if (b >= tot) sec = 1000 + (b > tot); else if (b == 0) sec = 0; else { b--; u64 f = ps->k * (ps->a + 1); if (b < f) sec = 1 + (b / (ps->a + 1) == 0 ? 0 : b / (ps->a + 1) == ps->k - 1 ? 2 : 1) * 100 + b % (ps->a + 1); else { b -= f; u64 l = 2 * ps->n + 3 + ps->hp; u64 lay = b / l, r = b % l; sec = 400 + (lay == 0 ? 0 : lay == ps->d - 1 ? 2 : 1) * 150 + (r < 2 * ps->n + 3 ? (r == 0 ? 0 : r < 2 * ps->n ? 1 : 2) : 3 + r - (2 * ps->n + 3)); } }
  return sec * 4 + (o == 0 ? 0 : o == 1 ? 1 : o == ps->n - 1 ? 3 : 2); }

// ------------------------------------------------------------------ run-time objects
enum Mode { M_NONE, M_ZERO, M_SIGN, M_VER, M_TORN };
struct KeyRt { const ref::Params *ps; bytes rnd, sk, pk; bool consistent = false; Region rsk, rpk; u8 *psk = nullptr, *ppk = nullptr; };
struct MsgRt { u64 len = 0; bytes b; bool sparse = false; u64 id = 0; Region r; u8 *p = nullptr; };
struct SigRt { bytes b; bool genuine = false; bytes opt; bool has_opt = false; };
struct CtxRt { Region r; u8 *p = nullptr; bool gone = false; int mode = M_NONE; int key = -1, msg = -1; const ref::Params *ps = nullptr; u64 pos = 0, got = 0; bool failed = false, strict = true; bytes exp, opt; bool has_opt = false; vector<int> cand; u64 fins = 0; u64 total = 0, planned = 0, work = 0, ncalls = 0; bytes snap; vector<bytes> snaplib; u64 snappos = 0; int snapmode = M_NONE; };
struct HashRt { Region r; u8 *p = nullptr; int alg = -1; bool gone = false; bool live = false, fin = false, big = false; bytes data; u64 total = 0, sq = 0, srcoff = 0; Region rsave; bool saved = false; bytes saved_data; int saved_alg = -1; };
struct TaskRt { Co co; size_t op = 0; i64 sub = 0; bool inop = false; u64 wake = 0; u64 opsteps = 0, callsteps = 0; i64 rng_calls = 0; u64 rng_off = 0; Region dest, src, kbuf, pbuf; u8 *d = nullptr; u64 dn = 0; u8 *spiece = nullptr; bytes piece; u8 *ksk = nullptr, *kpk = nullptr; Region msgcopy; bool havecopy = false; u64 opoff = 0; Op cur; bool rng_failed = false; u64 rng_supplied = 0; bytes rng_stream; };

struct LeakRec { u64 h, n; vector<Leak::Mark> marks; string who; };
struct Run {
  const Plan &P; Lib *L; unsigned ck; Result R; Rng rnd; vector<KeyRt> K; vector<MsgRt> M; vector<SigRt> S; vector<CtxRt> C; vector<HashRt> H; vector<TaskRt> T; std::map<string, LeakRec> leaks; std::map<string, vector<int>> digits; u64 vnow = 0; int paint = 0; unsigned nop_used = 0;
  vector<std::pair<int, u64>> *rec; int trapped = -1; u64 checks_done = 0;
  Run(const Plan &p, vector<std::pair<int, u64>> *r) : P(p), L(lib_get(p.lib)), ck(checks_for(p.prop)), rnd(p.seed), rec(r) {}
  void viol(int t, const string &w) { if (R.violated) return; R.violated = true; R.what = w; R.task = t; R.op = t >= 0 ? (int)T[t].op : -1; }
  void setup(); void stats_setup(); bool begin(int t); void finish_call(int t); void slice(int t, u64 budget); void loop(); Result go();
  void end_op(TaskRt &t) { t.inop = false; t.sub = 0; t.opoff = 0; t.op++; t.opsteps = 0; }
  void paint_stack(TaskRt &t); unsigned stack_used(TaskRt &t); void rng_serve(int t); void load_exp(CtxRt &c, u64 upto); void check_work(int ti); void check_leak(int ti); void integrity(); void swap_memory(int ti, const Op &o); void aftermove(TaskRt &t, u8 *p, size_t n, const Region &r, bool &gone);
  void state(u64 a, u64 b, u64 c, u64 d) { ST.states.insert(mix(mix(mix(mix(a, b), c), d), 7)); }
};
static Run *cur_run; static int cur_task = -1;
#ifndef SIM_INLINE
static i64 trap_delay() { if (trap_fixed) { trap_kill = true; return trap_fixed; } return 1 + (i64)cur_run->rnd.below(2 * cur_run->P.sched.trap); }
#endif

static const char *fault_of(const Op &o) { return o.tag.empty() ? nullptr : o.tag.c_str(); }

void Run::setup() {
#ifndef SIM_INLINE
  cur_guest = L->guest ? L : nullptr; if (L->guest) guest_map(L);
#endif
  cur_abi = L->abi; L->restore(); lib_base_for_pc = L->base;
  byte_skew = (unsigned)P.skew;
  heap_deny = P.prop == "C12"; heap_calls = 0;
  for (auto &kd : P.keys) { KeyRt k; k.ps = ref::find(kd.ps); if (!k.ps || !L->ps.count(kd.ps)) { fprintf(stderr, "lib %s does not support %s\n", L->id.c_str(), kd.ps.c_str()); exit(2); }
    unsigned n = k.ps->n; k.rnd = stream(kd.label, 3 * n); const ref::Key &rk = oracle_keygen(k.ps, k.rnd); k.sk = rk.sk(); k.consistent = true;
    for (auto &f : kd.flips) if (f.pos < 4 * n && (f.mask & 255)) { k.sk[f.pos] ^= (u8)f.mask; if (f.pos < n || f.pos >= 2 * n) k.consistent = false; }
    k.pk.assign(k.sk.begin() + 2 * n, k.sk.end());
    k.rsk = ralloc(4 * n); k.psk = place(k.rsk, 4 * n, P.place); memcpy(k.psk, k.sk.data(), 4 * n); k.rpk = ralloc(2 * n); k.ppk = place(k.rpk, 2 * n, P.place); memcpy(k.ppk, k.pk.data(), 2 * n);
    if (P.place) { protect(k.rsk, PROT_READ); protect(k.rpk, PROT_READ); }
    ST.sets[kd.ps]++; K.push_back(std::move(k)); }
  for (auto &md : P.msgs) { MsgRt m; m.len = md.len; m.sparse = md.len > (64u << 20);
    m.id = hash_str(md.label + fmt("/%llu", (unsigned long long)md.len)); for (auto &f : md.flips) m.id = mix(m.id, f.pos * 256 + f.mask);
    m.r = ralloc(md.len); m.p = place(m.r, md.len, P.place); if (!md.len && hash_str(md.label) % 3 == 0) { m.p = nullptr; ST.faults["null_empty_message"]++; }
    if (!m.sparse) { m.b = msg_bytes(md); if (md.len) memcpy(m.p, m.b.data(), md.len); m.id = mix(hash_bytes(m.b.data(), m.b.size()), md.len); }
    if (P.place || m.sparse) protect(m.r, PROT_READ);
    M.push_back(std::move(m)); }
  for (auto &sd : P.sigs) { SigRt s; KeyRt &k = K[sd.key]; MsgRt &m = M[sd.msg]; s.has_opt = sd.opt != "-"; if (s.has_opt) s.opt = sd.opt == "@pub" ? bytes(k.pk.begin(), k.pk.begin() + k.ps->n) : stream(sd.opt, k.ps->n);
    if (sd.by == 0) s.b = oracle_sign_ref(k.ps, k.sk, s.has_opt ? &s.opt : nullptr, m.p, m.len, m.id, k.ps->sig_len());
    else s.b = quiet_sign(k.ps, k.sk, s.has_opt ? &s.opt : nullptr, m.p, m.len, m.id, k.ps->sig_len());
    s.genuine = k.consistent; S.push_back(std::move(s)); }
  cur_abi = L->abi; lib_base_for_pc = L->base; L->restore();
  size_t csz = L->abi->ctx_size;
  for (auto &cd : P.ctxs) { CtxRt c; c.r = ralloc(csz + 512); if (cd.place) { c.r = ralloc(csz); } c.p = place(c.r, csz, cd.place, L->abi->ctx_align);
    stream_at("ctxpage" + cd.init, 0, c.r.p, c.r.n); if (cd.init == "zero") { memset(c.p, 0, csz); c.mode = M_ZERO; } else { stream_at(cd.init, 0, c.p, csz); c.mode = M_NONE; ST.faults["dirty_context"]++; }
    C.push_back(std::move(c)); }
  size_t hsz = std::max(L->abi->sha256_size, std::max(L->abi->sha512_size, L->abi->shake_size));
  for (auto &hd : P.hashes) { HashRt h; h.r = ralloc(hsz); h.p = place(h.r, hsz, P.place, 16); stream_at(hd.init, 0, h.p, hsz); h.rsave = ralloc(64); H.push_back(std::move(h)); }
  T.resize(P.tasks.size());
  for (size_t t = 0; t < T.size(); t++) { T[t].co.stack = ralloc(256 << 10); if (L->guest) { T[t].co.gstack = ralloc(64 << 10); T[t].co.junk = (u32)rnd.next() | 1; } u64 maxd = 4096, maxs = 4096;
    for (auto &o : P.tasks[t]) { if (o.kind == K_PULL || o.kind == K_SSIGN || o.kind == K_HSQ) maxd = std::max<u64>(maxd, o.n); if (!o.z && (o.kind == K_PUSH || o.kind == K_SPUSH || o.kind == K_HUPD)) maxs = std::max<u64>(maxs, o.len); }
    T[t].dest = ralloc(maxd + 1024); T[t].src = ralloc(maxs + 1024); T[t].kbuf = ralloc(512); T[t].pbuf = ralloc(512);
    // keygen buffers: private key and public key each in their own region
    T[t].ksk = nullptr; T[t].kpk = nullptr; T[t].wake = (t + 1) * 1000; }
  paint = (int)rnd.below(5);
}

static const size_t PAINT = 16384;
void Run::paint_stack(TaskRt &t) {
#ifndef SIM_INLINE
  const Region &stk = L->guest ? t.co.gstack : t.co.stack; u8 *top = stk.p + stk.n; size_t n = PAINT;
  if (ck & CK_RAM) { u64 *p = (u64 *)(top - n); for (size_t i = 0; i < n / 8; i++) p[i] = 0xa7c35e19d24b860fULL ^ i * 0x0101010101010101ULL; return; }
  n = 6144;
  switch (paint) { case 0: memset(top - n, 0, n); break; case 1: memset(top - n, 0xff, n); break; case 2: memset(top - n, 0xa5, n); break;
    case 3: { u64 *p = (u64 *)(top - n); u64 v = rnd.next(); for (size_t i = 0; i < n / 8; i++) p[i] = v += 0x9e3779b97f4a7c15ULL; break; } case 5: { Rng g(rnd.next()); u8 *p = top - n; unsigned top_v = 1u << g.range(1, 6), w = 1u << g.below(4); memset(p, 0, n); for (size_t i = 0; i < n; i += w) p[i] = (u8)g.below(top_v); break; } default: return; }
  ST.faults["dirty_stack"]++;
#else
  (void)t;
#endif
}
unsigned Run::stack_used(TaskRt &t) { u8 *top = t.co.stack.p + t.co.stack.n; u64 *p = (u64 *)(top - PAINT); for (size_t i = 0; i < PAINT / 8; i++) if (p[i] != (0xa7c35e19d24b860fULL ^ i * 0x0101010101010101ULL)) return (unsigned)(PAINT - i * 8); return 0; }

// ------------------------------------------------------------------ randomness seam
static int sim_rng_cb(unsigned char *p, size_t n) {
  RngReq rq = {p, n, 0}; Co *me = cur_co; me->rq = &rq;   // lives on the suspended stack: several parties may be inside their callbacks at once
#ifndef SIM_INLINE
  to_sched(WHY_RNG);
#else
  in_lib = false; cur_run->rng_serve(cur_task); in_lib = true;
#endif
  return rq.ret;
}
void Run::rng_serve(int ti) {
  TaskRt &t = T[ti]; const Op &o = t.cur; i64 call = t.rng_calls++; RngReq &rngreq = *t.co.rq;
  auto give = [&](const string &label, size_t n) { if (label == "@pub") { for (size_t i = 0; i < n; i++) rngreq.p[i] = K[o.k].pk[(t.rng_off + i) % K[o.k].ps->n]; t.rng_off += n; return; } stream_at(label, t.rng_off, rngreq.p, n); t.rng_off += n; };
  switch (o.rng) {
  case RNG_OK: give(o.rl, rngreq.n); rngreq.ret = 1; ST.reach["rng_ok"]++; break;
  case RNG_FAIL: rngreq.ret = 0; t.rng_failed = true; ST.faults["rng_fail"]++; break;
  case RNG_PART: { size_t k = std::min<size_t>((size_t)o.rk, rngreq.n); give(o.rl, k); rngreq.ret = 0; t.rng_failed = true; ST.faults["rng_partial_then_fail"]++; break; }
  case RNG_FAILAT: if (call == o.rk) { rngreq.ret = 0; t.rng_failed = true; ST.faults["rng_fail_at_call"]++; } else { give(o.rl, rngreq.n); rngreq.ret = 1; } break;
  default: rngreq.ret = 0; t.rng_failed = true; break; }
}

void Run::load_exp(CtxRt &c, u64 upto) {
  if (upto > c.total) upto = c.total;
  if (c.exp.size() >= upto) return;
  upto = std::min(c.total, std::max(upto, c.planned));
  KeyRt &k = K[c.key]; MsgRt &m = M[c.msg]; const bytes *opt = c.has_opt ? &c.opt : nullptr;
  if (ck & CK_BYTES_REF) c.exp = oracle_sign_ref(c.ps, k.sk, opt, m.p, m.len, m.id, upto);
  else { const sim_abi *sv = cur_abi; c.exp = quiet_sign(c.ps, k.sk, opt, m.p, m.len, m.id, upto); cur_abi = sv; }
}

void Run::aftermove(TaskRt &t, u8 *p, size_t n, const Region &r, bool &gone) { const Op &o = t.cur;
  if (o.f == 1) { if (o.n) memset(p, o.n == 1 ? 0 : 0xff, n); else stream_at("moved" + std::to_string(t.op), 0, p, n); } else if (o.f == 2) { protect(r, PROT_NONE); gone = true; }
  if (o.nullarg) { bool busy = false; for (auto &q : T) busy |= q.co.active; if (!busy) { L->restore(); ST.faults["restart_from_saved_session"]++; } } }
// Prepares the next call of task ti.  Returns false if the op needed no library call.
// Two keys (or two messages) trade places in memory, as when an application loads other ones into the buffers it has.
// Only while no session needs what they hold.
void Run::swap_memory(int ti, const Op &o) {
  bool keys = o.f == 0; i64 a = keys ? o.k : o.m, b = o.a;
  if (a == b || b < 0 || b >= (i64)(keys ? K.size() : M.size())) return;
  for (size_t i = 0; i < T.size(); i++) if ((int)i != ti && T[i].co.active) return;
  if (o.c >= 0 && o.c < (i64)C.size()) { C[o.c].mode = M_NONE; C[o.c].snap.clear(); }   // about to be started again
  for (auto &c : C) { int id = keys ? c.key : c.msg; if ((id != a && id != b) || !c.ps || c.gone) continue; if ((c.mode == M_SIGN && c.pos < c.total) || (c.mode == M_VER && c.got < c.total && !c.failed)) return; if (!c.snap.empty()) return; }
  auto trade = [&](Region &ra, u8 *&pa, const u8 *da, size_t la, Region &rb, u8 *&pb, const u8 *db, size_t lb) {
    if (P.place) { protect(ra, PROT_READ | PROT_WRITE); protect(rb, PROT_READ | PROT_WRITE); }
    std::swap(ra, rb); if (la == lb) std::swap(pa, pb); else { pa = place(ra, la, P.place); pb = place(rb, lb, P.place); }
    if (la) memcpy(pa, da, la); if (lb) memcpy(pb, db, lb);
    if (P.place) { protect(ra, PROT_READ); protect(rb, PROT_READ); } };
  if (keys) { KeyRt &x = K[a], &y = K[b]; if (x.rsk.n < y.sk.size() || y.rsk.n < x.sk.size() || x.rpk.n < y.pk.size() || y.rpk.n < x.pk.size()) return;
    trade(x.rsk, x.psk, x.sk.data(), x.sk.size(), y.rsk, y.psk, y.sk.data(), y.sk.size()); trade(x.rpk, x.ppk, x.pk.data(), x.pk.size(), y.rpk, y.ppk, y.pk.data(), y.pk.size()); ST.faults["key_memory_reused"]++; }
  else { MsgRt &x = M[a], &y = M[b]; if (!x.p || !y.p || x.sparse || y.sparse || x.r.n < y.len || y.r.n < x.len) return; trade(x.r, x.p, x.b.data(), x.len, y.r, y.p, y.b.data(), y.len); ST.faults["message_memory_reused"]++; }
  state(K_SWAP, (u64)keys, (u64)(keys ? ref::index_of(K[a].ps->name) * 16 + ref::index_of(K[b].ps->name) : 0), 0);
}
bool Run::begin(int ti) {
  TaskRt &t = T[ti]; const Op &o = t.cur = P.tasks[ti][t.op]; Call &cl = t.co.call; cl = Call(); CtxRt *c = o.c >= 0 && o.c < (i64)C.size() ? &C[o.c] : nullptr;
  t.rng_calls = 0; t.rng_off = 0; t.rng_failed = false;
  if (!t.inop) { t.inop = true; t.sub = 0; t.opoff = 0; t.opsteps = 0; if (const char *f = fault_of(o)) ST.faults[f]++; }
  if (c && c->gone && (o.kind == K_SINIT || o.kind == K_VINIT || o.kind == K_DIRTY)) { protect(c->r, PROT_READ | PROT_WRITE); c->gone = false; }
  if (o.kind == K_HINIT && H[o.h].gone) { protect(H[o.h].r, PROT_READ | PROT_WRITE); H[o.h].gone = false; }
  auto destbuf = [&](u64 n, u64 keep) { // dest of n bytes; `keep` bytes from its start are painted so that stray writes show
    int how = P.place == 1 ? 1 : P.place == 2 ? 2 : 0; t.dn = n; u8 *lo = t.dest.p, *hi = t.dest.p + t.dest.n;
    t.d = how == 1 ? hi - n : how == 2 ? lo : lo + 256 + byte_skew; (void)keep;
    u8 *a = std::max(lo, t.d - 64), *b = std::min(hi, t.d + std::min<u64>(n, keep) + 64); memset(a, 0x5a, (size_t)(b - a)); };
  auto srcbuf = [&](const bytes &b) { int how = P.place; t.spiece = how == 1 ? t.src.p + t.src.n - b.size() : how == 2 ? t.src.p : t.src.p + 128 + byte_skew; if (!b.empty()) memcpy(t.spiece, b.data(), b.size()); };
  switch (o.kind) {
  case K_KEYGEN: { KeyRt &k = K[o.k]; unsigned n = k.ps->n; if (ck & CK_LEAK) L->restore(); if (!t.ksk || t.sub == 0) { t.ksk = place(t.kbuf, 4 * n, P.place); t.kpk = place(t.pbuf, 2 * n, P.place); }
    stream_at("kb" + std::to_string(o.f), 0, t.kbuf.p, t.kbuf.n); stream_at("pb" + std::to_string(o.f), 0, t.pbuf.p, t.pbuf.n);
    cl.fn = F_KEYGEN; cl.a[0] = o.nullarg == 1 ? 0 : (u64)t.ksk; cl.a[1] = o.pk ? (u64)t.kpk : 0; cl.a[2] = o.nullarg == 2 ? 0 : (u64)L->ps[k.ps->name]; cl.a[3] = o.rng == RNG_NULL ? 0 : (u64)(void *)sim_rng_cb;
    if (o.rng == RNG_NULL) ST.faults["rng_absent"]++; if (o.nullarg) ST.faults["missing_argument"]++; break; }
  case K_SINIT: { KeyRt &k = K[o.k]; MsgRt &m = M[o.m]; u8 *mp = m.p; t.havecopy = false; if (P.revoke && !m.sparse && m.p) { t.msgcopy = ralloc(m.len); mp = place(t.msgcopy, m.len, P.place); if (m.len) memcpy(mp, m.b.data(), m.len); t.havecopy = true; }
    cl.fn = F_SINIT; cl.a[0] = (u64)c->p; cl.a[1] = (u64)mp; cl.a[2] = m.len; cl.a[3] = (u64)L->ps[k.ps->name]; cl.a[4] = (u64)k.psk; if (ck & CK_LEAK) { u8 *q = place(t.kbuf, 4 * k.ps->n, P.place); memcpy(q, k.sk.data(), k.sk.size()); cl.a[4] = (u64)q; L->restore(); } cl.a[5] = o.rng == RNG_NULL ? 0 : (u64)(void *)sim_rng_cb; if (o.rng == RNG_NULL) ST.faults["rng_absent"]++; c->mode = M_TORN; break; }
  case K_PULL: { if (c->mode != M_SIGN) { end_op(t); return false; } u64 rem = c->total - c->pos; destbuf((u64)o.n, rem + 64); cl.fn = F_SIGN; cl.a[0] = (u64)t.d; cl.a[1] = (u64)o.n; cl.a[2] = (u64)c->p;
    state(K_PULL, (u64)ref::index_of(c->ps->name), pos_class(c->ps, c->pos), pos_class(c->ps, std::min(c->pos + (u64)o.n, c->total + 1))); break; }
  case K_VINIT: { KeyRt &k = K[o.k]; MsgRt &m = M[o.m]; cl.fn = F_VINIT; cl.a[0] = (u64)c->p; cl.a[1] = (u64)m.p; cl.a[2] = m.len; cl.a[3] = (u64)L->ps[k.ps->name]; cl.a[4] = (u64)k.ppk; c->mode = M_TORN; break; }
  case K_PUSH: { if (c->mode != M_VER) { end_op(t); return false; } u64 st = o.step > 0 ? (u64)o.step : (u64)o.len, n = std::min(st, (u64)o.len - t.opoff); t.piece.resize(o.z ? 0 : n);
    if (o.z) { Region z = ralloc(n); t.spiece = z.p; if (o.z == 2 && o.s >= 0 && (u64)o.off < S[o.s].b.size()) memcpy(z.p, &S[o.s].b[0] + o.off, std::min<u64>(n, S[o.s].b.size() - (u64)o.off)); protect(z, PROT_READ); } else if (o.s >= 0) { const bytes &sb = S[o.s].b; for (u64 i = 0; i < n; i++) { u64 q = (u64)o.off + t.opoff + i; t.piece[i] = sb.empty() ? 0 : sb[q % sb.size()]; } } else stream_at(o.rl, (u64)o.off + t.opoff, t.piece.data(), n);
    if (!o.z && o.xp >= 0 && (u64)o.xp >= t.opoff && (u64)o.xp < t.opoff + n) t.piece[(u64)o.xp - t.opoff] ^= (u8)o.xm;
    if (!o.z) srcbuf(t.piece);
    cl.fn = F_PUSH; cl.a[0] = (u64)t.spiece; cl.a[1] = n; cl.a[2] = (u64)c->p;
    state(K_PUSH, (u64)ref::index_of(c->ps->name) * 4 + c->failed, pos_class(c->ps, c->got), pos_class(c->ps, std::min(c->got + n, c->total + 2 * c->ps->n))); break; }
  case K_FIN: if (c->mode != M_VER) { end_op(t); return false; } cl.fn = F_FIN; cl.a[0] = (u64)c->p; break;
  case K_SSIGN: if (!(c->mode == M_VER || c->mode == M_ZERO || (c->mode == M_SIGN && c->pos == c->total))) { end_op(t); return false; }
    destbuf((u64)o.n, std::min<u64>((u64)o.n, 1 << 20) + 64); cl.fn = F_SIGN; cl.a[0] = (u64)t.d; cl.a[1] = (u64)o.n; cl.a[2] = (u64)c->p; ST.faults["stray_sign"]++; state(K_SSIGN, (u64)c->mode, c->ps ? pos_class(c->ps, c->got) : 0, o.n > 0); break;
  case K_SPUSH: { if (!(c->mode == M_SIGN || c->mode == M_ZERO)) { end_op(t); return false; } if (o.z) { t.piece.clear(); Region z = ralloc((size_t)o.len); t.spiece = z.p; protect(z, PROT_READ); } else { t.piece.resize((u64)o.len); if (o.s >= 0) for (u64 i = 0; i < (u64)o.len; i++) t.piece[i] = S[o.s].b[((u64)o.off + i) % S[o.s].b.size()]; else stream_at("spush", 0, t.piece.data(), t.piece.size()); srcbuf(t.piece); }
    cl.fn = F_PUSH; cl.a[0] = (u64)t.spiece; cl.a[1] = (u64)o.len; cl.a[2] = (u64)c->p; ST.faults["stray_deliver"]++; state(K_SPUSH, (u64)c->mode, c->ps ? pos_class(c->ps, c->pos) : 0, o.len > 0); break; }
  case K_SFIN: if (!(c->mode == M_SIGN || c->mode == M_ZERO)) { end_op(t); return false; } cl.fn = F_FIN; cl.a[0] = (u64)c->p; ST.faults["stray_verdict"]++; state(K_SFIN, (u64)c->mode, c->ps ? pos_class(c->ps, c->pos) : 0, 0); break;
  case K_DIRTY: if (o.n > 0) { Rng g((u64)o.n); size_t w = 1u << g.below(6), z = L->abi->ctx_size; unsigned keep = 1 + (unsigned)g.below(7), of = g.below(2) ? 8 : 8u << g.below(7); if (of > 8) keep = of - keep; for (size_t i = 0; i < z; i += w) if (g.below(of) >= keep) for (size_t j = i; j < std::min(i + w, z); j++) c->p[j] = (u8)g.next(); c->mode = M_NONE; ST.faults["torn_context"]++; }   // what the last session left, overwritten in places
    else if (o.f == 0) { memset(c->p, 0, L->abi->ctx_size); c->mode = M_ZERO; ST.faults["wipe_context"]++; } else { stream_at((o.f % 3 == 2 ? "sml" : "dirty") + std::to_string(o.f), 0, c->p, L->abi->ctx_size); c->mode = M_NONE; ST.faults["dirty_context"]++; } end_op(t); return false;
  // rewind: the whole state of a single-party run (context and library variables) is put back, to try another continuation
  case K_SNAP: c->snap.assign(c->p, c->p + L->abi->ctx_size); c->snaplib.clear(); for (auto &g : L->segs) c->snaplib.push_back(bytes(g.p, g.p + g.n)); c->snappos = c->pos; c->snapmode = c->mode; end_op(t); return false;
  case K_BACK: if (!c->snap.empty()) { memcpy(c->p, c->snap.data(), c->snap.size()); for (size_t i = 0; i < L->segs.size(); i++) memcpy(L->segs[i].p, c->snaplib[i].data(), L->segs[i].n); c->pos = c->snappos; c->mode = c->snapmode; ST.reach["rewinds"]++; } end_op(t); return false;
  // a context or hash state is copied to other memory: the original lives on (f=0), is overwritten (f=1) or its memory goes away (f=2); with nullarg the
  // library's own variables start afresh, as after a power loss from which only the saved state came back
  case K_MOVE: { CtxRt &d = C[o.a]; if (c->gone || (i64)o.a == o.c) { end_op(t); return false; } if (d.gone) { protect(d.r, PROT_READ | PROT_WRITE); d.gone = false; } memcpy(d.p, c->p, L->abi->ctx_size); { CtxRt s = *c; s.r = d.r; s.p = d.p; s.snap.clear(); d = s; }
    bool live = c->mode == M_SIGN || c->mode == M_VER; state(K_MOVE, (u64)c->mode * 4 + (u64)o.f, c->ps ? (u64)ref::index_of(c->ps->name) : 99, live ? pos_class(c->ps, c->mode == M_SIGN ? c->pos : c->got) : 0); aftermove(t, c->p, L->abi->ctx_size, c->r, c->gone); if (o.f) c->mode = M_NONE; if (live) ST.faults[o.f == 0 ? "session_copied" : o.f == 1 ? "session_moved" : "session_moved_memory_gone"]++; end_op(t); return false; }
  case K_HMOVE: { HashRt &h = H[o.h], &d = H[o.a]; if (h.gone || (i64)o.a == o.h || !h.live) { end_op(t); return false; } size_t z = h.alg == 0 ? L->abi->sha256_size : h.alg == 1 ? L->abi->sha512_size : L->abi->shake_size; if (d.gone) { protect(d.r, PROT_READ | PROT_WRITE); d.gone = false; } memcpy(d.p, h.p, z); d.alg = h.alg; d.live = h.live; d.fin = h.fin; d.big = h.big; d.data = h.data; d.total = h.total; d.sq = h.sq; d.srcoff = h.srcoff;
    state(K_HMOVE, (u64)h.alg * 4 + (u64)o.f, h.fin ? 200 + h.sq % 136 : h.total % (h.alg == 0 ? 64 : h.alg == 1 ? 128 : 136), 0); aftermove(t, h.p, z, h.r, h.gone); if (o.f) h.live = false; ST.faults[o.f == 0 ? "hash_copied" : o.f == 1 ? "hash_moved" : "hash_moved_memory_gone"]++; end_op(t); return false; }
  case K_SWAP: swap_memory(ti, o); end_op(t); return false;
  case K_PAINT: paint = (int)(o.f % 6); end_op(t); return false;
  case K_SIZE: cl.fn = F_SZSK + (int)(o.f % 3); cl.a[0] = (u64)L->ps[K[o.k].ps->name]; break;
  case K_HINIT: { HashRt &h = H[o.h]; h.alg = (int)o.a; h.live = false; cl.fn = o.a == 0 ? F_H256I : o.a == 1 ? F_H512I : F_SHKI; cl.a[0] = (u64)h.p; break; }
  case K_HUPD: { HashRt &h = H[o.h]; if (!h.live || h.fin) { end_op(t); return false; }
    if (o.z) { Region z = ralloc((size_t)o.len); protect(z, PROT_READ); t.spiece = z.p; h.big = true; } else { t.piece.resize((u64)o.len); stream_at(P.hashes[o.h].label, h.srcoff, t.piece.data(), t.piece.size()); srcbuf(t.piece); }
    cl.fn = h.alg == 0 ? F_H256U : h.alg == 1 ? F_H512U : F_SHKA; cl.a[0] = (u64)h.p; cl.a[1] = (u64)t.spiece; cl.a[2] = (u64)o.len;
    u64 B = h.alg == 0 ? 64 : h.alg == 1 ? 128 : 136; state(K_HUPD, (u64)h.alg, h.total % B, std::min<u64>((u64)o.len, 300)); break; }
  case K_HFIN: { HashRt &h = H[o.h]; if (!h.live || h.alg == 2) { end_op(t); return false; } unsigned full = h.alg == 0 ? 32 : 64; u64 n = o.n ? (u64)o.n : full; destbuf(n, n + 64); bool tr = o.n != 0; cl.fn = h.alg == 0 ? (tr ? F_H256T : F_H256F) : (tr ? F_H512T : F_H512F); cl.a[0] = (u64)t.d; cl.a[1] = (u64)h.p; cl.a[2] = n;
    state(K_HFIN, (u64)h.alg, h.total % (h.alg == 0 ? 64 : 128), n); break; }
  case K_HSAVE: { HashRt &h = H[o.h]; if (!h.live || h.alg == 2 || h.big || h.total != (h.alg == 0 ? 64u : 128u)) { end_op(t); return false; } cl.fn = h.alg == 0 ? F_H256S : F_H512S; cl.a[0] = (u64)h.rsave.p; cl.a[1] = (u64)h.p; break; }
  case K_HREST: { HashRt &h = H[o.h], &s = H[o.a]; if (!s.saved) { end_op(t); return false; } h.live = false; cl.fn = s.saved_alg == 0 ? F_H256R : F_H512R; cl.a[0] = (u64)h.p; cl.a[1] = (u64)s.rsave.p; break; }
  case K_HSQ: { HashRt &h = H[o.h]; if (!h.live || h.alg != 2) { end_op(t); return false; } if (!h.fin) { cl.fn = F_SHKF; cl.a[0] = (u64)h.p; break; } destbuf((u64)o.n, (u64)o.n + 64); cl.fn = F_SHKS; cl.a[0] = (u64)t.d; cl.a[1] = (u64)o.n; cl.a[2] = (u64)h.p; state(K_HSQ, h.sq % 136, std::min<u64>((u64)o.n, 300), 0); break; }
  }
  // an interface the tree does not have is not exercised
  { const sim_abi *A = L->abi; void (*need)(void) = A->sign; switch (cl.fn) { case F_H256I: need = A->h256_init; break; case F_H256U: need = A->h256_update; break; case F_H256F: need = A->h256_final; break; case F_H256T: need = A->h256_trunc; break; case F_H256S: need = A->h256_save; break; case F_H256R: need = A->h256_restore; break; case F_H512I: need = A->h512_init; break; case F_H512U: need = A->h512_update; break; case F_H512F: need = A->h512_final; break; case F_H512T: need = A->h512_trunc; break; case F_H512S: need = A->h512_save; break; case F_H512R: need = A->h512_restore; break; case F_SHKI: need = A->shk_init; break; case F_SHKA: need = A->shk_absorb; break; case F_SHKF: need = A->shk_finalize; break; case F_SHKS: need = A->shk_squeeze; break; }
    if (!need) { ST.reach["skipped_missing_interface"]++; if (o.h >= 0) H[o.h].live = false; end_op(t); return false; } }
  return true;
}

// Digest of `zeros` zero bytes followed by `data`; slow ones are memoised (see oracle_big)
static bytes hash_oracle(int alg, u64 zeros, const bytes &data, size_t outlen) {
  bytes e(std::max<size_t>(outlen, 64)); u64 key = mix(mix((u64)alg + 0x4841, zeros), mix(hash_bytes(data.data(), data.size()), outlen));
  if (zeros && oracle_known(key, e)) return e;
  vector<ref::Frag> fr; if (zeros) { Region z = ralloc(zeros); protect(z, PROT_READ); fr.push_back({z.p, zeros}); } fr.push_back({data.data(), data.size()});
  if (alg == 0) ref::sha256(fr, e.data()); else if (alg == 1) ref::sha512(fr, e.data()); else ref::shake256(fr, e.data(), outlen);
  if (zeros > (64u << 20)) oracle_remember(key, e); return e; }
static const ref::Params *last_ps;

// ------------------------------------------------------------------ work: basic blocks executed, against what the same library needs in one undisturbed piece
static const u64 CALL_COST = 2500;    // what one call may cost by itself
static const u64 CALL_SLOPE = 250;    // and what each of many calls of one session may add to its total
#ifndef SIM_INLINE
struct Work { u64 sinit0 = 0, perbyte1024 = 0, perhash1024 = 0, pervbyte1024 = 0, vinit = 0, keygen = 0, verify = 0; vector<u64> sign; string unfair; int judged = 0; };   // sign[i]: steps until i hashes of the signature were out
static u64 quiet_call(Lib *l, int fn, std::initializer_list<u64> a);
static u64 quiet_steps(Lib *l, int fn, std::initializer_list<u64> a);
static int work_rng(unsigned char *p, size_t n) { stream_at("work", 0, p, n); return 1; }
// what the specification says about costs: every FORS tree costs the same, every hypertree layer costs the same (but for its chains'
// lengths), a key costs one layer, a verification the hashes of its paths and chains
static string uneven(const ref::Params *ps, const Work &w) {
  u64 n = ps->n, len = 2 * n + 3, lo = ~0ULL, hi = 0, at = 1, u; auto part = [&](unsigned count, u64 blocks) { lo = ~0ULL; hi = 0; for (unsigned i = 0; i < count; i++, at += blocks) { u64 c = w.sign[at + blocks] - w.sign[at]; lo = std::min(lo, c); hi = std::max(hi, c); } };
  part(ps->k, ps->a + 1); if (hi > lo + lo / 8 + 12000) return fmt("one FORS tree costs %llu steps, another %llu", (unsigned long long)hi, (unsigned long long)lo);
  part(ps->d, len + ps->hp); if (hi > lo + lo / 8 + 12000) return fmt("one hypertree layer costs %llu steps, another %llu", (unsigned long long)hi, (unsigned long long)lo);
  if (w.keygen > hi + hi / 8 + 12000) return fmt("key generation costs %llu steps, a layer of a signature, which computes as much, %llu", (unsigned long long)w.keygen, (unsigned long long)hi);
  u = lo / ((u64)len * 16 << ps->hp); u64 v = ps->k * (ps->a + 2) + ps->d * (len * 15 / 2 + ps->hp + len * n / 64);
  if (w.verify > u * v * 5 / 4) return fmt("a verification costs %llu steps, its %llu hashes should take about %llu", (unsigned long long)w.verify, (unsigned long long)v, (unsigned long long)(u * v));
  if (w.sinit0 > 40 * u || w.vinit > 15 * u) return fmt("starting a session costs %llu steps to sign and %llu to verify, one hash takes %llu", (unsigned long long)w.sinit0, (unsigned long long)w.vinit, (unsigned long long)u);
  if (w.perbyte1024 > w.perhash1024 * 26 / 10 || w.pervbyte1024 > w.perhash1024 * 13 / 10) return fmt("a message byte costs %.2f times its hashing when signing starts (it is hashed twice) and %.2f times when it is verified (once)", (double)w.perbyte1024 / (double)w.perhash1024, (double)w.pervbyte1024 / (double)w.perhash1024);
  u64 f = (w.sign[1 + ps->a + 1] - w.sign[1]) * 100 / u / (3ULL << ps->a); if (f < 75 || f > 150) return fmt("a FORS tree of %llu hashes costs %llu steps, a hypertree layer of %llu hashes %llu", 3ULL << ps->a, (unsigned long long)(w.sign[1 + ps->a + 1] - w.sign[1]), (unsigned long long)len * 16 << ps->hp, (unsigned long long)lo);
  return ""; }
static Work &work_of(Lib *l, const ref::Params *ps, bool need_sign, bool need_keygen) {
  static std::map<std::pair<Lib *, const ref::Params *>, Work> memo; Work &w = memo[{l, ps}]; u64 P = (u64)l->ps[ps->name]; vector<u64> ctx(l->abi->ctx_size / 8 + 8, 0); const ref::Key &k = oracle_keygen(ps, stream("pool0", 3 * ps->n)); bytes sk = k.sk(), pk = k.pk(), m(65536, 7);
  if (!w.vinit) { l->restore(); w.sinit0 = quiet_steps(l, F_SINIT, {(u64)ctx.data(), (u64)m.data(), 0, P, (u64)sk.data(), 0}); u64 s1 = quiet_steps(l, F_SINIT, {(u64)ctx.data(), (u64)m.data(), m.size(), P, (u64)sk.data(), 0}); w.perbyte1024 = s1 > w.sinit0 ? (s1 - w.sinit0) * 1024 / m.size() : 0; w.vinit = 1 + quiet_steps(l, F_VINIT, {(u64)ctx.data(), (u64)m.data(), 0, P, (u64)pk.data()});
    { bool s2 = ps->name[3] == '2'; int fi = !s2 ? F_SHKI : ps->n == 16 ? F_H256I : F_H512I, fu = !s2 ? F_SHKA : ps->n == 16 ? F_H256U : F_H512U; quiet_steps(l, fi, {(u64)ctx.data()}); w.perhash1024 = quiet_steps(l, fu, {(u64)ctx.data(), (u64)m.data(), m.size()}) * 1024 / m.size();
      u64 v[2]; for (int i = 0; i < 2; i++) { quiet_steps(l, F_VINIT, {(u64)ctx.data(), (u64)m.data(), i ? m.size() : 0, P, (u64)pk.data()}); v[i] = quiet_steps(l, F_PUSH, {(u64)m.data(), ps->n, (u64)ctx.data()}); } w.pervbyte1024 = v[1] > v[0] ? (v[1] - v[0]) * 1024 / m.size() : 0;
      quiet_steps(l, F_VINIT, {(u64)ctx.data(), (u64)m.data(), 0, P, (u64)pk.data()}); }
    bytes sig = oracle_sign_ref(ps, sk, nullptr, m.data(), 0, mix(hash_bytes(m.data(), 0), 0), ps->sig_len()); w.verify = w.vinit + quiet_steps(l, F_PUSH, {(u64)sig.data(), sig.size(), (u64)ctx.data()}); l->restore(); }
  if (need_keygen && !w.keygen) { l->restore(); bytes a(4 * ps->n), b(2 * ps->n); w.keygen = quiet_steps(l, F_KEYGEN, {(u64)a.data(), (u64)b.data(), P, (u64)(void *)work_rng}); l->restore(); }
  if (need_sign && w.sign.empty()) { // one call for the whole signature, interrupted every 4000 blocks to see how far its output has got
    l->restore(); Co co, *sv = cur_co; co.stack.n = 256 << 10; vector<u8> stk(co.stack.n + 64, 0); co.stack.p = stk.data() + 64 - ((uintptr_t)stk.data() & 63); bytes exp = oracle_sign_ref(ps, sk, nullptr, m.data(), 0, mix(hash_bytes(m.data(), 0), 0), ps->sig_len()), out(exp.size(), 0x5a); for (size_t i = 0; i < out.size(); i++) out[i] = (u8)~exp[i];
    const sim_abi *sa = cur_abi; cur_abi = l->abi; u64 tot = quiet_steps(l, F_SINIT, {(u64)ctx.data(), (u64)m.data(), 0, P, (u64)sk.data(), 0}); cur_abi = l->abi; co.call.fn = F_SIGN; co.call.a[0] = (u64)out.data(); co.call.a[1] = out.size(); co.call.a[2] = (u64)ctx.data(); co_start(&co); w.sign.push_back(tot); u64 at = 0; int r;
    do { r = co_resume(&co, 4000); g_budget = INT64_MAX; tot += 4000; while (at < out.size() && out[at] == exp[at]) at++; while (w.sign.size() <= at / ps->n) w.sign.push_back(tot); } while (r == WHY_BUDGET);
    while (w.sign.size() < out.size() / ps->n + 3) w.sign.push_back(tot); cur_abi = sa; cur_co = sv; l->restore(); }
  if (int have = w.sign.empty() ? 0 : w.keygen ? 2 : 1; have > w.judged) { w.judged = have; w.unfair = uneven(ps, w); }
  cur_abi = cur_run->L->abi; lib_base_for_pc = l->base; return w; }
#endif
void Run::check_work(int ti) {
#ifndef SIM_INLINE
  TaskRt &t = T[ti]; const Op &o = t.cur; CtxRt *c = o.c >= 0 && o.c < (i64)C.size() ? &C[o.c] : nullptr; u64 s = t.callsteps, len = o.m >= 0 ? M[o.m].len : 0;
  auto over = [&](u64 got, u64 lim, const ref::Params *ps, const char *what) { checks_done++; if (got > lim) viol(ti, fmt("%s: %s took %llu steps, at most %llu expected: %s (task %d, op %zu, call %lld)", ps ? ps->name : "no session", what, (unsigned long long)got, (unsigned long long)lim, KIND_NAME[o.kind], ti, t.op, (long long)t.sub)); };
  auto even = [&](const Work &w, const ref::Params *ps) { checks_done++; if (!w.unfair.empty()) viol(ti, fmt("%s: %s: %s (task %d, op %zu)", ps->name, w.unfair.c_str(), KIND_NAME[o.kind], ti, t.op)); };
  auto msgcost = [&](const Work &w, u64 l) { return l * w.perbyte1024 / 1024 * 5 / 4 + 2000; };
  switch (o.kind) {
  case K_KEYGEN: { const ref::Params *ps = K[o.k].ps; bool ok = o.rng != RNG_NULL && !o.nullarg && !t.rng_failed; if (!ok) over(s, CALL_COST, ps, "failing key generation"); else { Work &w = work_of(L, ps, ps->sha2 && ps->hp < 8, true); even(w, ps); over(s, w.keygen + w.keygen / 50 + CALL_COST, ps, "key generation"); } break; }
  case K_SINIT: { Work &w = work_of(L, c->ps, false, false); c->work = s; c->ncalls = 1; over(s, w.sinit0 * 2 + msgcost(w, len) + CALL_COST, c->ps, "starting a signature"); break; }
  case K_PULL: { Work &w = work_of(L, c->ps, true, false); even(w, c->ps); c->work += s; c->ncalls++; u64 i = (c->pos + c->ps->n - 1) / c->ps->n; if (i >= w.sign.size()) i = w.sign.size() - 1; u64 b = w.sign[i]; over(c->work, b + b / 25 + w.sinit0 + msgcost(w, M[c->msg].len) + CALL_COST + CALL_SLOPE * c->ncalls, c->ps, fmt("signing %llu bytes in %llu pieces", (unsigned long long)c->pos, (unsigned long long)c->ncalls - 1).c_str()); if (c->pos == c->total) ST.reach["work_of_whole_signature"]++; break; }
  case K_VINIT: { Work &w = work_of(L, c->ps, false, false); c->work = s; c->ncalls = 1; over(s, w.vinit * 2 + CALL_COST, c->ps, "starting a verification"); c->fins = 0; break; }
  case K_PUSH: { Work &w = work_of(L, c->ps, false, false); c->work += s; c->ncalls++; u64 g = std::min(c->got, c->total), n = c->ps->n, blocks = c->total / n; u64 msg = msgcost(w, M[c->msg].len);
    if (c->snapmode == 77) over(s, CALL_COST, c->ps, "a delivery after failure"); 
    over(c->work, w.verify * 8 / 5 * (g / n + 8) / blocks + msg + w.sinit0 + CALL_COST + CALL_SLOPE * c->ncalls, c->ps, fmt("verifying %llu bytes in %llu pieces", (unsigned long long)c->got, (unsigned long long)c->ncalls - 1).c_str()); c->snapmode = c->failed ? 77 : M_NONE; break; }
  case K_FIN: case K_SSIGN: case K_SPUSH: case K_SFIN: over(s, CALL_COST, c->ps, "a call that has nothing to do"); break;
  }
#else
  (void)ti;
#endif
}
// ------------------------------------------------------------------ what the trace of a call may depend on: everything but the private key
void Run::check_leak(int ti) {
#ifndef SIM_INLINE
  TaskRt &t = T[ti]; const Op &o = t.cur; CtxRt *c = o.c >= 0 && o.c < (i64)C.size() ? &C[o.c] : nullptr; string key, who; double part = 1.0; const ref::Params *ps;
  auto keyname = [&](int k) { string s = P.keys[k].label; if (!P.keys[k].flips.empty()) s += fmt("^%zu.%016llx", P.keys[k].flips.size(), (unsigned long long)hash_bytes(K[k].sk.data(), K[k].sk.size())); return s; };
  auto pubpart = [&](int k, bool prf) { const bytes &s = K[k].sk; unsigned n = K[k].ps->n; return fmt("%llx", (unsigned long long)hash_bytes(s.data() + (prf ? n : 2 * n), s.size() - (prf ? n : 2 * n))); };
  auto compare = [&](const string &kk, double frac) { auto it = leaks.find(kk); if (it == leaks.end()) { leaks[kk] = {LEAK.h, LEAK.n, LEAK.marks, who}; return; } LeakRec &r = it->second; checks_done++; ST.reach["traces_compared"]++; size_t lim = (size_t)((double)std::min(r.marks.size(), LEAK.marks.size()) * frac), i = 0; while (i < lim && r.marks[i].h == LEAK.marks[i].h) i++;
    bool bad = frac == 1.0 ? (r.h != LEAK.h || r.n != LEAK.n) : i < lim; if (!bad) return; u32 pc = i < LEAK.marks.size() ? LEAK.marks[i].pc : 0; string fn = "?"; Dl_info di; if (pc && dladdr((void *)(L->base + pc), &di) && di.dli_sname) fn = di.dli_sname;
    viol(ti, fmt("%s: the execution of %s depends on the private key: keys '%s' and '%s' give different traces (%llu and %llu events, apart before event %zu, near %s): %s (task %d, op %zu, call %lld)", ps->name, KIND_NAME[o.kind], r.who.c_str(), who.c_str(), (unsigned long long)r.n, (unsigned long long)LEAK.n, (i + 1) * 128, fn.c_str(), KIND_NAME[o.kind], ti, t.op, (long long)t.sub)); };
  ST.reach["trace_events"] += LEAK.n;
  switch (o.kind) {
  case K_KEYGEN: ps = K[o.k].ps; who = o.rl; compare(string("keygen ") + ps->name + fmt(" %d", (int)o.pk), 1.0); break;
  case K_SINIT: ps = c->ps; who = keyname((int)o.k); key = fmt("sinit %s m%lld %d %s ", ps->name, (long long)o.m, o.rng, o.rl.c_str()); compare(key + pubpart((int)o.k, true), 1.0); compare(fmt("sinit-secret %s m%lld %d %s ", ps->name, (long long)o.m, o.rng, pubpart((int)o.k, false).c_str()), 0.4); break;
  case K_PULL: { ps = c->ps; unsigned n = ps->n; who = keyname(c->key); u64 done = t.co.call.ret, from = c->pos - std::min<u64>(done, c->pos); if (o.n != n || done != n || from % n) break; u64 blk = from / n, fors = 1 + ps->k * (ps->a + 1), per = 2 * n + 3 + ps->hp;
    int dg = -1; if (blk >= fors) { u64 r = (blk - fors) % per; if (r == 0 || r == per - 1) break; string dk = keyname(c->key) + fmt("/%d/", c->msg) + (c->has_opt ? hash_str(string(c->opt.begin(), c->opt.end())) ? fmt("%llx", (unsigned long long)hash_bytes(c->opt.data(), c->opt.size())) : "" : "-");
      vector<int> &d = digits[dk]; if (d.size() <= blk) { d.clear(); u64 layers = (blk - fors) / per + 1; ref::Key rk = ref::raw_key(ps, K[c->key].sk.data()); bytes sg = ref::sign(rk, c->has_opt ? c->opt.data() : nullptr, M[c->msg].p, M[c->msg].len, (fors + layers * per) * n, &d); d.resize(fors + layers * per, -1); (void)sg; } dg = d[blk]; } else if (blk == fors - 1) break;
    compare(fmt("pull %s m%d %s %llu %d %d", ps->name, c->msg, pubpart(c->key, true).c_str(), (unsigned long long)blk, dg, (int)(c->has_opt ? hash_bytes(c->opt.data(), c->opt.size()) : 1)), 1.0); state(K_PULL, (u64)ref::index_of(ps->name), blk, (u64)dg); break; }
  }
#else
  (void)ti;
#endif
}
void Run::finish_call(int ti) {
  TaskRt &t = T[ti]; const Op &o = t.cur; Call &cl = t.co.call; CtxRt *c = o.c >= 0 && o.c < (i64)C.size() ? &C[o.c] : nullptr; R.calls++;
  u64 ev = mix(mix((u64)ti, t.op), mix((u64)t.sub, cl.fn == F_KEYGEN || cl.fn == F_SIGN || cl.fn == F_PUSH || cl.fn == F_FIN ? cl.ret : 0));
  auto where = [&]() { return fmt("%s (task %d, op %zu, call %lld)", KIND_NAME[o.kind], ti, t.op, (long long)t.sub); };
  auto canary = [&](u64 written) { if (!(ck & (CK_CANARY | CK_TAIL))) return; u8 *lo = t.dest.p, *hi = t.dest.p + t.dest.n; u64 keep = std::min<u64>(t.dn, c ? c->total + 64 : t.dn); (void)keep;
    if (ck & CK_CANARY) for (u8 *q = std::max(lo, t.d - 64); q < t.d; q++) if (*q != 0x5a) { viol(ti, "bytes before the output buffer overwritten: " + where()); return; }
    u64 lim = o.kind == K_PULL ? std::min<u64>(t.dn, c->total - c->pos + 64) + 64 : o.kind == K_SSIGN ? std::min<u64>(t.dn, 1 << 20) + 64 : t.dn + 64; u8 *e = std::min(hi, t.d + lim); for (u8 *q = t.d + written; q < e; q++) if (*q != 0x5a) { if (q < t.d + t.dn || (ck & CK_CANARY)) { viol(ti, fmt("output buffer modified %lld bytes beyond the %llu reported: ", (long long)(q - t.d - (i64)written), (unsigned long long)written) + where()); return; } } };
  auto ctx_canary = [&]() { if (!(ck & CK_CANARY) || !c) return; size_t csz = L->abi->ctx_size; bytes g(c->r.n); stream_at("ctxpage" + P.ctxs[o.c].init, 0, g.data(), g.size()); size_t off = (size_t)(c->p - c->r.p); for (size_t i = off > 96 ? off - 96 : 0; i < std::min(c->r.n, off + csz + 96); i++) if ((i < off || i >= off + csz) && c->r.p[i] != g[i]) { viol(ti, "memory outside the context modified: " + where()); return; } };
  auto src_check = [&]() { if ((ck & CK_CANARY) && !t.piece.empty() && memcmp(t.spiece, t.piece.data(), t.piece.size())) viol(ti, "input buffer modified: " + where()); if (!t.piece.empty()) memset(t.spiece, 0xc3, t.piece.size()); };
  if ((ck & CK_HEAP) && heap_calls) viol(ti, "heap allocation attempted: " + where());
  bool opdone = true;
  unsigned ramkind = 9;
  switch (o.kind) {
  case K_KEYGEN: { KeyRt &k = K[o.k]; unsigned n = k.ps->n; last_ps = k.ps; ramkind = 0; bool want = o.rng != RNG_NULL && !o.nullarg && !t.rng_failed; bytes sk(t.ksk, t.ksk + 4 * n), pk(t.kpk, t.kpk + 2 * n); ev = mix(ev, hash_bytes(sk.data(), sk.size())); ev = mix(ev, hash_bytes(pk.data(), pk.size())); checks_done++;
    bytes pristine(t.pbuf.n), kp(t.kbuf.n); stream_at("pb" + std::to_string(o.f), 0, pristine.data(), pristine.size()); stream_at("kb" + std::to_string(o.f), 0, kp.data(), kp.size());
    bool touched = memcmp(pristine.data() + (t.kpk - t.pbuf.p), t.kpk, 2 * n) != 0;
    state(K_KEYGEN, (u64)ref::index_of(k.ps->name), (u64)o.rng * 4 + (u64)o.pk, (u64)o.nullarg * 128 + (u64)std::min<i64>(o.rk, 100));
    if (ck & CK_KGRET) { if (want && cl.ret != 1) viol(ti, "key generation failed although the randomness source succeeded: " + where()); if (!want && cl.ret != 0) viol(ti, fmt("key generation returned %lld although %s: ", (long long)(i64)cl.ret, o.nullarg ? "a required argument was missing" : "the randomness source did not succeed") + where()); if (!want && touched) viol(ti, "failed key generation modified the public key buffer: " + where()); }
    if (o.pk == 0 && touched && (ck & (CK_KGRET | CK_CANARY))) viol(ti, "public key buffer modified although not passed: " + where());
    if (want && (ck & (CK_KEYGEN_REF | CK_KEYGEN_SELF))) { bytes rnd = stream(o.rl, 3 * n), esk, epk; bool eok = true; if (ck & CK_KEYGEN_REF) { const ref::Key &e = oracle_keygen(k.ps, rnd); esk = e.sk(); epk = e.pk(); } else { const sim_abi *sv = cur_abi; eok = quiet_keygen(k.ps, rnd, esk, epk); cur_abi = sv; }
      if ((cl.ret == 1) != eok) viol(ti, "key generation result differs from the undisturbed one: " + where());
      else if (eok) { if (sk != esk) viol(ti, fmt("private key for %s differs from the expected one (randomness '%s'): ", k.ps->name, o.rl.c_str()) + where()); else if (o.pk && pk != epk) viol(ti, "public key differs from the expected one: " + where()); } }
    if (ck & CK_CANARY) { size_t so = (size_t)(t.ksk - t.kbuf.p), po = (size_t)(t.kpk - t.pbuf.p); for (size_t i = 0; i < t.kbuf.n; i++) if ((i < so || i >= so + 4 * n) && t.kbuf.p[i] != kp[i]) { viol(ti, "memory around the private key buffer modified: " + where()); break; } for (size_t i = 0; i < t.pbuf.n; i++) if ((i < po || i >= po + 2 * n) && t.pbuf.p[i] != pristine[i]) { viol(ti, "memory around the public key buffer modified: " + where()); break; } }
    opdone = ++t.sub >= o.rep; break; }
  case K_SINIT: { KeyRt &k = K[o.k]; last_ps = k.ps; ramkind = 1; c->mode = M_SIGN; c->key = (int)o.k; c->msg = (int)o.m; c->ps = k.ps; c->pos = 0; c->exp.clear(); c->total = k.ps->sig_len(); c->planned = 0; c->snap.clear();
    if (P.prop == "C19") { std::map<i64, u64> at; at[o.c] = 0; for (size_t q = t.op + 1; q < P.tasks[ti].size() && !at.empty(); q++) { const Op &f = P.tasks[ti][q]; auto it = at.find(f.c); bool on = it != at.end(); if (f.kind == K_MOVE) { if (on) { at[f.a] = it->second; if (f.f) at.erase(f.c); } else at.erase(f.a); } else if (!on) continue; else if (f.kind == K_SINIT || f.kind == K_VINIT || f.kind == K_DIRTY) at.erase(it); else if (f.kind == K_PULL && !f.kill) { it->second = std::min(c->total, it->second + (u64)f.n * (u64)std::max<i64>(f.rep, 1)); c->planned = std::max(c->planned, it->second); } } }
    else { u64 at = 0, mark = 0; for (size_t q = t.op + 1; q < P.tasks[ti].size(); q++) { const Op &f = P.tasks[ti][q]; if (f.c != o.c) continue; if (f.kind == K_SINIT || f.kind == K_VINIT || f.kind == K_DIRTY) break; if (f.kind == K_SNAP) mark = at; if (f.kind == K_BACK) at = mark; if (f.kind == K_PULL && !f.kill) { at = std::min(c->total, at + (u64)f.n * (u64)std::max<i64>(f.rep, 1)); c->planned = std::max(c->planned, at); } } }
    c->has_opt = o.rng != RNG_NULL && !t.rng_failed && t.rng_calls > 0; if (o.rng == RNG_OK && t.rng_calls == 0) { c->has_opt = true; } if (c->has_opt) c->opt = o.rl == "@pub" ? bytes(k.pk.begin(), k.pk.begin() + k.ps->n) : stream(o.rl, k.ps->n);
    state(K_SINIT, (u64)ref::index_of(k.ps->name), (u64)o.rng * 64 + (u64)std::min<i64>(o.rk, 40), std::min<u64>(M[o.m].len, 600));
    if (t.havecopy) { if (P.revoke == 1) protect(t.msgcopy, PROT_NONE); else memset(t.msgcopy.p, 0xee, t.msgcopy.n); ST.faults["message_revoked"]++; }
    ctx_canary(); opdone = ++t.sub >= o.rep; break; }
  case K_PULL: { u64 rem = c->total - c->pos, want = std::min<u64>((u64)o.n, rem); last_ps = c->ps; ramkind = 1; checks_done++;
    if (ck & CK_RET && cl.ret != want) viol(ti, fmt("%s: request for %lld bytes with %llu due returned %lld: ", c->ps->name, (long long)o.n, (unsigned long long)rem, (long long)cl.ret) + where());
    u64 got = std::min<u64>(cl.ret, want); ev = mix(ev, hash_bytes(t.d, got));
    if (ck & (CK_BYTES_REF | CK_BYTES_SELF)) { if (cl.ret > want || cl.ret > (u64)o.n) viol(ti, fmt("%s: more signature bytes reported (%lld) than due (%llu): ", c->ps->name, (long long)cl.ret, (unsigned long long)want) + where()); else { load_exp(c[0], c->pos + got); u64 have = c->exp.size() > c->pos ? std::min<u64>(got, c->exp.size() - c->pos) : 0; u64 i = 0; while (i < have && t.d[i] == c->exp[c->pos + i]) i++; if (i < got) viol(ti, fmt("%s: signature byte %llu (%s) differs from the expected signature: ", c->ps->name, (unsigned long long)(c->pos + i), section_name(c->ps, c->pos + i)) + where()); } 
      if ((ck & CK_BYTES_REF) && cl.ret < want) viol(ti, fmt("%s: signature ends after %llu bytes: ", c->ps->name, (unsigned long long)(c->pos + cl.ret)) + where()); }
    canary(std::min<u64>(cl.ret, (u64)o.n)); ctx_canary(); c->pos += got; if (c->pos == c->total) ST.reach["signature_complete"]++; if (rem == 0) ST.reach["request_after_end"]++; opdone = ++t.sub >= o.rep; break; }
  case K_VINIT: { KeyRt &k = K[o.k]; last_ps = k.ps; ramkind = 2; c->mode = M_VER; c->key = (int)o.k; c->msg = (int)o.m; c->ps = k.ps; c->got = 0; c->failed = false; c->snapmode = M_NONE; c->fins = 0; c->total = k.ps->sig_len(); c->cand.clear();
    for (size_t i = 0; i < S.size(); i++) { const KeyRt &sk = K[P.sigs[i].key]; const MsgRt &sm = M[P.sigs[i].msg], &vm = M[o.m]; if (S[i].genuine && sk.ps == k.ps && sk.pk == k.pk && sm.id == vm.id && sm.len == vm.len) c->cand.push_back((int)i); }
    c->strict = true; if (P.prop != "C03" && P.prop != "C13" && P.prop != "C18" && (ck & (CK_GOOD | CK_ACCEPT))) { const sim_abi *sv = cur_abi; for (int i : c->cand) if (quiet_verify(k.ps, k.pk, M[o.m].p, M[o.m].len, M[o.m].id, S[i].b) != 1) { c->strict = false; ST.reach["skipped_solo_broken"]++; } cur_abi = sv; }
    ctx_canary(); opdone = ++t.sub >= o.rep; break; }
  case K_PUSH: { u64 n = cl.a[1]; last_ps = c->ps; ramkind = 2; src_check(); ctx_canary(); vector<int> keep; checks_done++;
    for (int i : c->cand) { const bytes &g = S[i].b; if (n && c->got + n <= g.size() && !memcmp(&g[0] + c->got, o.z ? t.spiece : t.piece.data(), n)) keep.push_back(i); else if (n == 0 && c->got <= g.size()) keep.push_back(i); }
    c->cand = keep; c->got += n; bool good = !keep.empty(); bool ok = cl.ret != 0;
    if (good && !ok && c->strict && (ck & CK_GOOD)) viol(ti, fmt("%s: genuine signature bytes rejected after %llu bytes (%s): ", c->ps->name, (unsigned long long)c->got, section_name(c->ps, c->got ? c->got - 1 : 0)) + where());
    if (c->failed && ok && (ck & CK_STICKY)) viol(ti, fmt("%s: delivery reported good after the session had failed (%llu bytes in): ", c->ps->name, (unsigned long long)c->got) + where());
    if (!ok) { if (!c->failed) ST.reach["update_reported_failure"]++; c->failed = true; }
    if (c->failed) ST.reach["deliver_after_failure"]++;
    t.opoff += n; t.sub++; opdone = t.opoff >= (u64)o.len && (o.len || t.sub >= o.rep); break; }
  case K_FIN: { last_ps = c->ps; ramkind = 2; checks_done++; bool complete = false; for (int i : c->cand) if (c->got == S[i].b.size()) complete = true; bool acc = cl.ret != 0; ctx_canary();
    state(K_FIN, (u64)ref::index_of(c->ps->name), (u64)complete * 4 + acc * 2 + c->failed, pos_class(c->ps, std::min(c->got, c->total + 2 * c->ps->n)));
    if (acc && !complete && (ck & CK_REJECT)) viol(ti, fmt("%s: accepted although the %llu delivered bytes are not a genuine signature (%u expected) for this message and key: ", c->ps->name, (unsigned long long)c->got, (unsigned)c->total) + where());
    if (acc && c->failed && (ck & CK_STICKY)) viol(ti, fmt("%s: accepted after the session had reported failure: ", c->ps->name) + where());
    if (acc && !complete && (ck & CK_STICKY)) viol(ti, fmt("%s: verdict query reports acceptance for an incomplete or wrong stream: ", c->ps->name) + where());
    if (!acc && complete && c->strict && (ck & CK_ACCEPT)) viol(ti, fmt("%s: genuine signature not accepted: ", c->ps->name) + where());
    ST.reach[complete ? (acc ? "genuine_accepted" : "genuine_not_accepted") : (c->got < c->total ? "rejected_incomplete" : c->got == c->total ? "rejected_full_length" : "rejected_surplus")]++; c->fins++; opdone = ++t.sub >= o.rep; break; }
  case K_SSIGN: checks_done++; if ((ck & CK_STRAY) && cl.ret != 0) viol(ti, fmt("request for signature bytes on a context that is not signing returned %lld: ", (long long)cl.ret) + where()); if (ck & CK_STRAY) canary(0); if (ck & CK_CANARY) canary(0); break;
  case K_SPUSH: checks_done++; src_check(); if ((ck & CK_STRAY) && cl.ret != 0) viol(ti, fmt("delivery to a context that is not verifying returned %lld: ", (long long)(i64)cl.ret) + where()); break;
  case K_SFIN: checks_done++; if ((ck & CK_STRAY) && cl.ret != 0) viol(ti, fmt("verdict of a context that is not verifying is %lld: ", (long long)(i64)cl.ret) + where()); break;
  case K_SIZE: { checks_done++; const ref::Params *ps = K[o.k].ps; u64 want = o.f % 3 == 0 ? 4 * ps->n : o.f % 3 == 1 ? 2 * ps->n : ps->sig_len(); ev = mix(ev, cl.ret); if (cl.ret != want) viol(ti, fmt("%s: the size of a %s is reported as %llu, it is %llu: ", ps->name, o.f % 3 == 0 ? "private key" : o.f % 3 == 1 ? "public key" : "signature", (unsigned long long)cl.ret, (unsigned long long)want) + where()); break; }
  case K_HINIT: { HashRt &h = H[o.h]; h.live = true; h.fin = false; h.big = false; h.data.clear(); h.total = 0; h.sq = 0; h.srcoff = (u64)o.off; break; }
  case K_HUPD: { HashRt &h = H[o.h]; if (!o.z) { if ((ck & CK_HASH) && !t.piece.empty() && memcmp(t.spiece, t.piece.data(), t.piece.size())) viol(ti, "hash input modified: " + where()); h.data.insert(h.data.end(), t.piece.begin(), t.piece.end()); h.srcoff += (u64)o.len; if (!t.piece.empty()) memset(t.spiece, 0x3c, t.piece.size()); } h.total += (u64)o.len; opdone = ++t.sub >= o.rep; break; }
  case K_HFIN: { HashRt &h = H[o.h]; unsigned full = h.alg == 0 ? 32 : 64; u64 n = cl.fn == F_H256T || cl.fn == F_H512T ? cl.a[2] : full; ev = mix(ev, hash_bytes(t.d, n)); checks_done++;
    if (ck & CK_HASH) { bytes e = hash_oracle(h.alg, h.total - h.data.size(), h.data, full); if (memcmp(e.data(), t.d, n)) viol(ti, fmt("SHA-%s digest of %llu bytes is wrong: ", h.alg == 0 ? "256" : "512", (unsigned long long)h.total) + where()); u8 *hi = t.dest.p + t.dest.n; for (u8 *q = t.d + n; q < std::min(hi, t.d + n + 64); q++) if (*q != 0x5a) { viol(ti, "hash output written past the requested length: " + where()); break; } }
    h.live = false; break; }
  case K_HSAVE: { HashRt &h = H[o.h]; h.saved = true; h.saved_alg = h.alg; h.saved_data = h.data; ST.reach["state_saved"]++; break; }
  case K_HREST: { HashRt &h = H[o.h], &s = H[o.a]; bytes d = s.saved_data; h.alg = s.saved_alg; h.live = true; h.fin = false; h.big = false; h.data = d; h.total = d.size(); h.sq = 0; h.srcoff = (u64)o.off; ST.reach["state_restored"]++; break; }
  case K_HSQ: { HashRt &h = H[o.h]; if (cl.fn == F_SHKF) { h.fin = true; opdone = false; break; } u64 n = (u64)o.n; ev = mix(ev, hash_bytes(t.d, n)); checks_done++; if (ck & CK_HASH) { bytes e = hash_oracle(2, h.total - h.data.size(), h.data, h.sq + n); if (n && memcmp(e.data() + h.sq, t.d, n)) viol(ti, fmt("SHAKE-256 output bytes %llu..%llu of a %llu byte input are wrong: ", (unsigned long long)h.sq, (unsigned long long)(h.sq + n), (unsigned long long)h.total) + where()); u8 *hi = t.dest.p + t.dest.n; for (u8 *q = t.d + n; q < std::min(hi, t.d + n + 64); q++) if (*q != 0x5a) { viol(ti, "squeeze output written past the requested length: " + where()); break; } }
    h.sq += n; opdone = ++t.sub >= o.rep; break; }
  }
#ifndef SIM_INLINE
  if ((ck & CK_RAM) && ramkind < 3) { unsigned used = stack_used(t); used = used > nop_used ? used - nop_used : 0; unsigned i = (unsigned)ref::index_of(last_ps->name); unsigned ctxs = (unsigned)L->abi->ctx_size; unsigned tot = used + (ramkind == 0 ? 0 : ctxs); checks_done++; u64 &mx = ST.ram_max[i][ramkind]; if (tot > mx) mx = tot; 
    if (ctxs > RAM_DOC[i][0] + 24) viol(ti, fmt("%s: context is %u bytes, documented %u: ", last_ps->name, ctxs, RAM_DOC[i][0]) + where());
    if (tot > ram_bound(RAM_DOC[i][1 + ramkind], i >= 6)) viol(ti, fmt("%s: %s uses %u bytes of RAM (context + stack), documented %u: ", last_ps->name, ramkind == 0 ? "key generation" : ramkind == 1 ? "signing" : "verification", tot, RAM_DOC[i][1 + ramkind]) + where()); }
#else
  (void)ramkind;
#endif
  if ((ck & CK_WORK) && L->cov) check_work(ti);
  if (ck & CK_LEAK) check_leak(ti);
  R.hash = mix(R.hash, ev); if (L->cov) R.hash = mix(R.hash, t.opsteps);
  if (opdone) end_op(t);
}

// Runs task ti for one slice: until its current call ends, its budget is used up, or it asks for randomness.
void Run::slice(int ti, u64 budget) {
  TaskRt &t = T[ti]; cur_task = ti; cur_abi = L->abi; ST.switches++; R.switches++; if (rec) rec->push_back({ti, budget});
  if (!t.co.active) { if (!begin(ti)) return; t.callsteps = 0; if (ck & CK_LEAK) { paint = 0; LEAK.start(); LEAK.on = t.cur.kind != K_PULL || (u64)t.cur.n == C[t.cur.c].ps->n; } paint_stack(t); co_start(&t.co); }
  i64 b = budget ? (i64)budget : INT64_MAX / 2; bool killing = false;
#ifndef SIM_INLINE
  trap_cut = 0; trap_kill = false; trap_fixed = t.cur.kill < 0 ? -t.cur.kill : 0; trap_protect(L->cov && (trap_fixed || (P.sched.mode == 1 && P.sched.trap && trap_count < 500)));
#endif
  if (t.cur.kill > 0 && L->cov) { i64 left = t.cur.kill - (i64)t.opsteps; if (left < 1) left = 1; if (left <= b) { b = left; killing = true; } }
  int w = co_resume(&t.co, b);
#ifndef SIM_INLINE
  if (trap_cut) { b -= trap_cut; killing = trap_kill; trap_count++; if (w == WHY_BUDGET && !killing) { trapped = ti; ST.reach["preempted_after_static_write"]++; if (rec) rec->back().second = (u64)b; } }
#endif
  u64 used = (u64)(b - (g_budget > b ? b : g_budget)); g_budget = INT64_MAX; if (!L->cov) used = 50; t.opsteps += used; t.callsteps += used; R.steps += used; vnow += used * 5;
#ifndef SIM_INLINE
  if (w == WHY_RNG && trap_ro && trap_covers((uintptr_t)t.co.rq->p)) { trap_protect(false); trap_count++; trapped = ti; ST.reach["preempted_after_static_write"]++; }   // randomness asked for into a variable of the library
#endif
  if (w == WHY_RNG) { rng_serve(ti); if (L->cov) ST.reach["rng_callback_yield"]++; return; }
  if (w == WHY_BUDGET) { if (killing) { t.co.active = false; ST.faults["kill_mid_call"]++; state(900, (u64)t.cur.kind, preempt_pc, 0); if (t.cur.c >= 0 && t.cur.c < (i64)C.size() && (t.cur.kind == K_SINIT || t.cur.kind == K_PULL || t.cur.kind == K_VINIT || t.cur.kind == K_PUSH || t.cur.kind == K_FIN)) C[t.cur.c].mode = M_TORN; if (t.cur.kind >= K_HINIT && t.cur.h >= 0) H[t.cur.h].live = false; R.hash = mix(R.hash, 0xdead ^ t.opsteps); end_op(t); return; }
    R.midcall++; if (ST.preempts.size() < 2000000) ST.preempts.insert(mix(preempt_pc, (u64)t.cur.kind)); return; }
  LEAK.on = false; finish_call(ti);
}

void Run::loop() {
  auto done = [&](int t) { return T[t].op >= P.tasks[t].size(); };
  size_t li = 0; int rr = 0;
  for (;;) {
    if (R.violated) return;
    vector<int> live; for (size_t t = 0; t < T.size(); t++) if (!done((int)t)) live.push_back((int)t);
    if (live.empty()) return;
    int pick = -1; u64 budget = 0;
    if (P.sched.mode == 2 && li < P.sched.list.size()) { pick = P.sched.list[li].first; budget = P.sched.list[li].second; li++; if (pick >= (int)T.size() || done(pick)) continue; }
    else if (P.sched.mode == 1 && trapped >= 0 && live.size() > 1) { vector<int> o; for (int t : live) if (t != trapped) o.push_back(t); pick = o[rnd.below(o.size())]; budget = rnd.chance(1, 4) ? 0 : 1 + rnd.below(1ULL << rnd.range(4, 24)); trapped = -1; }
    else if (P.sched.mode == 1) { u64 s = R.steps; trapped = -1; if (s >= P.sched.w0 && s < P.sched.w1) { pick = live[rnd.below(live.size())]; budget = 1 + rnd.below(2 * P.sched.mean); if (rnd.chance(1, 64)) budget *= 50; } else { pick = live[0]; for (int t : live) if (T[t].co.active) { pick = t; break; } if (s < P.sched.w0) budget = P.sched.w0 - s; } }
    else if (P.sched.mode == 0) { for (int t : live) if (T[t].co.active) pick = t; if (pick < 0) { pick = live[0]; for (int t : live) if (T[t].wake < T[pick].wake) pick = t; if (T[pick].wake > vnow) vnow = T[pick].wake; } }
    else { pick = live[0]; for (int t : live) if (T[t].co.active) { pick = t; break; } }
    (void)rr; size_t before = T[pick].op; 
    slice(pick, budget);
    if (P.sched.mode == 0 && !T[pick].co.active) { u64 d = 1000 + rnd.below(2000000); if (T[pick].op != before && !done(pick)) d += (u64)P.tasks[pick][T[pick].op].delay; if (rnd.chance(1, 200)) { d += 3000000000ULL; ST.faults["stalled_party"]++; } T[pick].wake = vnow + d; }
  }
}
void Run::integrity() {
  for (size_t i = 0; i < K.size(); i++) { if (memcmp(K[i].psk, K[i].sk.data(), K[i].sk.size()) || memcmp(K[i].ppk, K[i].pk.data(), K[i].pk.size())) { if (ck & CK_CANARY) viol(-1, "a stored key was modified"); } }
  for (auto &m : M) if (!m.sparse && m.len && memcmp(m.p, m.b.data(), m.len)) { if (ck & CK_CANARY) viol(-1, "a message was modified"); }
}

// ------------------------------------------------------------------ crashes and hangs inside the library
static sigjmp_buf crash_jmp; static volatile bool crash_armed; static volatile int crash_sig; static volatile uintptr_t crash_addr; static const char *crash_what;
static void guest_fault(int sig, uintptr_t addr, const char *what) { crash_sig = sig; crash_addr = addr; crash_what = what; if (!crash_armed) _exit(70); in_lib = false; siglongjmp(crash_jmp, 1); }
static void on_crash(int sig, siginfo_t *si, void *) {
#ifndef SIM_INLINE
  if (sig == SIGVTALRM && (!crash_armed || !in_lib || lib_entries != lib_entries_seen)) { lib_entries_seen = lib_entries; return; }
#endif
#ifndef SIM_INLINE
  if (sig == SIGSEGV && in_lib && trap_fault((uintptr_t)si->si_addr)) return;
#endif
  crash_sig = sig; crash_addr = (uintptr_t)si->si_addr;
  if (!crash_armed || !in_lib) { const char m[] = "FATAL: simulator crashed outside the library\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(70); }
  in_lib = false; siglongjmp(crash_jmp, 1);
}
void exec_init() {
  arena_init();
#ifndef SIM_INLINE
  static u8 alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
#else
  (void)on_crash;
#endif
}
static unsigned hang_sec;
static void hang_timer(unsigned sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = it.it_interval.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

Result Run::go() {
  cur_run = this; cur_task = -1; crash_what = nullptr; R.hash = mix(P.seed, hash_str(P.prop)); arena_reset();
#ifndef SIM_INLINE
  if (sigsetjmp(crash_jmp, 1) == 0) { crash_armed = true; bool huge = false; for (auto &m : P.msgs) huge |= m.len > (64u << 20); for (auto &t : P.tasks) for (auto &o : t) huge |= o.z && o.len > (64 << 20); { const string &l = P.lib; bool guest = l.compare(2, 2, "32") == 0; hang_sec = huge ? 150 : guest ? 60 : l[0] == 'o' || l.compare(0, 4, "leak") == 0 ? 60 : 30; } lib_entries_seen = 0; hang_timer(hang_sec); setup(); trap_lib = L; trap_count = 0;
  if (ck & CK_RAM) { TaskRt &t = T[0]; t.co.call = Call(); t.co.call.fn = F_NOP; paint_stack(t); co_start(&t.co); co_resume(&t.co, INT64_MAX / 2); nop_used = stack_used(t); }
  loop(); if (!R.violated) integrity(); }
  else { int ti = cur_task; if (ti >= (int)T.size()) ti = -1; string k = ti >= 0 && T[ti].op < P.tasks[ti].size() ? KIND_NAME[P.tasks[ti][T[ti].op].kind] : "?"; string w;
    if (crash_sig == SIGVTALRM) w = fmt("no progress: a call did not return within %u s of processor time", hang_sec); else { w = crash_what ? fmt("%s on the simulated machine", crash_what) : fmt("%s at %s inside the library", crash_sig == SIGSEGV ? "invalid memory access" : crash_sig == SIGBUS ? "bus error" : crash_sig == SIGFPE ? "arithmetic fault" : crash_sig == SIGILL ? "illegal instruction" : "abort", crash_addr < 65536 || crash_addr - ARENA < 65536 ? "a null address" : crash_addr >= ARENA && crash_addr < ARENA + ARENA_SZ ? "a guarded or write-protected address" : "a wild address"); }
    viol(ti, w + fmt(": %s (task %d, op %zu)", k.c_str(), ti, ti >= 0 ? T[ti].op : 0)); R.hash = mix(R.hash, (u64)crash_sig); }
  trap_protect(false); crash_armed = false; hang_timer(0); in_lib = false; g_budget = INT64_MAX;
#else
  setup(); loop(); if (!R.violated) integrity();
#endif
  R.vtime = vnow; R.hash = mix(R.hash, vnow); if (R.violated) R.hash = mix(R.hash, hash_str(R.what));
  ST.runs++; ST.calls += R.calls; ST.steps += R.steps; ST.vtime += vnow; ST.midcall += R.midcall; ST.libs[P.lib]++; if (R.midcall) ST.faults["preempted_mid_call"] += R.midcall;
  if (checks_done) ST.shapeset.insert(R.hash);
  cur_run = nullptr; return R;
}
Result run_plan(const Plan &p, bool record, vector<std::pair<int, u64>> *out) { Run r(p, record ? out : nullptr); return r.go(); }

// ------------------------------------------------------------------ quiet runs of the library under test: alone, clean memory, one piece
// (an instrumented library is compared with the plain build of the same configuration)
static Lib *quiet_lib(const ref::Params *ps) {
#ifndef SIM_INLINE
  trap_protect(false);
#endif
  const string &id = cur_run->L->id; if (id.compare(0, 5, "fast-") == 0) return cur_run->L; static std::map<string, Lib *> m; Lib *&r = m[id]; if (!r) { string want = "fast" + id.substr(id.find('-')); for (auto &x : lib_ids()) if (x == want) r = lib_get(x); if (!r) r = cur_run->L; } (void)ps; return r; }
static u64 quiet_salt(const ref::Params *ps) { return hash_str(quiet_lib(ps)->id); }
static const bytes *quiet_opt;
static int quiet_rng(unsigned char *p, size_t n) { size_t k = std::min(n, quiet_opt->size()); memcpy(p, quiet_opt->data(), k); if (n > k) memset(p + k, 0, n - k); return 1; }
static u64 quiet_call(Lib *l, int fn, std::initializer_list<u64> a) { const sim_abi *sv = cur_abi; cur_abi = l->abi; Call c; c.fn = fn; int i = 0; for (u64 x : a) c.a[i++] = x;
#ifndef SIM_INLINE
  // on the ordinary stack; a crash here is still attributed to the library
  bool wi = in_lib; i64 sb = g_budget; g_budget = INT64_MAX; in_lib = crash_armed; do_call(&c); in_lib = wi; g_budget = sb;
#else
  do_call(&c);
#endif
  cur_abi = sv; return c.ret; }
#ifndef SIM_INLINE
static u64 quiet_steps(Lib *l, int fn, std::initializer_list<u64> a) { const sim_abi *sv = cur_abi; cur_abi = l->abi; Call c; c.fn = fn; int i = 0; for (u64 x : a) c.a[i++] = x; bool wi = in_lib; const i64 B = INT64_MAX / 2; in_lib = crash_armed; g_budget = B; do_call(&c); u64 used = (u64)(B - g_budget); g_budget = INT64_MAX; in_lib = wi; cur_abi = sv; return used; }
#endif
bytes quiet_sign(const ref::Params *ps, const bytes &sk, const bytes *opt, const u8 *msg, u64 len, u64 msgid, size_t limit) {
  static std::unordered_map<u64, bytes> memo; u64 key = mix(mix(hash_bytes(sk.data(), sk.size()), msgid), mix(opt ? hash_bytes(opt->data(), opt->size()) : 77, mix(hash_str(ps->name), quiet_salt(ps)))); if (limit > ps->sig_len()) limit = ps->sig_len();
  auto it = memo.find(key); if (it != memo.end() && it->second.size() >= limit) return it->second; if (memo.size() > 3000) memo.clear();
  Lib *l = quiet_lib(ps); l->restore(); vector<u64> ctx(l->abi->ctx_size / 8 + 8, 0); bytes o, k = sk; if (opt) o = *opt; quiet_opt = &o; bytes out(limit + 64);
  quiet_call(l, F_SINIT, {(u64)ctx.data(), (u64)msg, len, (u64)l->ps[ps->name], (u64)k.data(), opt ? (u64)(void *)quiet_rng : 0}); u64 r = quiet_call(l, F_SIGN, {(u64)out.data(), limit, (u64)ctx.data()}); (void)r; out.resize(limit); l->restore(); return memo[key] = out;
}
int quiet_verify(const ref::Params *ps, const bytes &pk, const u8 *msg, u64 len, u64 msgid, const bytes &sig) {
  static std::unordered_map<u64, int> memo; u64 key = mix(mix(hash_bytes(pk.data(), pk.size()), msgid), mix(hash_bytes(sig.data(), sig.size()), mix(hash_str(ps->name), quiet_salt(ps)))); auto it = memo.find(key); if (it != memo.end()) return it->second;
  Lib *l = quiet_lib(ps); l->restore(); vector<u64> ctx(l->abi->ctx_size / 8 + 8, 0); quiet_call(l, F_VINIT, {(u64)ctx.data(), (u64)msg, len, (u64)l->ps[ps->name], (u64)pk.data()}); int u = (int)quiet_call(l, F_PUSH, {(u64)sig.data(), sig.size(), (u64)ctx.data()}); int v = (int)quiet_call(l, F_FIN, {(u64)ctx.data()}); l->restore(); return memo[key] = (u != 0) && (v != 0);
}
bool quiet_keygen(const ref::Params *ps, const bytes &rnd, bytes &sk, bytes &pk) {
  static std::unordered_map<u64, std::pair<bytes, bytes>> memo; u64 key = mix(hash_bytes(rnd.data(), rnd.size()), mix(hash_str(ps->name), quiet_salt(ps))); auto it = memo.find(key); if (it != memo.end()) { sk = it->second.first; pk = it->second.second; return !sk.empty(); }
  Lib *l = quiet_lib(ps); l->restore(); sk.assign(4 * ps->n, 0); pk.assign(2 * ps->n, 0); quiet_opt = &rnd; bool ok = quiet_call(l, F_KEYGEN, {(u64)sk.data(), (u64)pk.data(), (u64)l->ps[ps->name], (u64)(void *)quiet_rng}) == 1; l->restore(); if (!ok) { sk.clear(); pk.clear(); } memo[key] = {sk, pk}; return ok;
}
