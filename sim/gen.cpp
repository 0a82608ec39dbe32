// Seeded plan generators: one profile per property.  Every choice below is drawn from one PRNG
// seeded with (property, seed, index); the plan is the complete record of the run.
#include "core.h"
#include <algorithm>

static const char *FSETS[6] = {"sha2_128f", "sha2_192f", "sha2_256f", "shake_128f", "shake_192f", "shake_256f"};
static const char *SSETS[6] = {"sha2_128s", "sha2_192s", "sha2_256s", "shake_128s", "shake_192s", "shake_256s"};
static const vector<u64> EDGE_LENS = {0, 1, 2, 15, 16, 17, 23, 24, 31, 32, 33, 39, 40, 47, 48, 55, 56, 63, 64, 65, 71, 72, 79, 80, 95, 96, 103, 104, 111, 112, 119, 120, 127, 128, 129, 135, 136, 137, 200, 255, 256, 257, 271, 272, 273, 1000};

struct G {
  Plan p; Rng g; vector<string> libs; u64 index; int tier;
  G(const string &prop, u64 seed, u64 idx, const vector<string> &l, int t) : g(mix(mix(hash_str(prop), seed), idx)), libs(l), index(idx), tier(t) { p.prop = prop; p.seed = g.next() >> 1; for (int i = 0; i < 3; i++) g.next(); }
  static bool has(const string &lib, const string &ps) { return lib_get(lib)->ps.count(ps) > 0; }
  vector<string> of(const string &prefix) { vector<string> v; for (auto &l : libs) if (l.compare(0, prefix.size(), prefix) == 0) v.push_back(l); return v; }
  string lib(const string &prefix, const string &ps = "") { vector<string> v; for (auto &l : libs) if (l.compare(0, prefix.size(), prefix) == 0 && (ps.empty() || has(l, ps))) v.push_back(l); return v.empty() ? "" : g.pick(v); }
  int key(const string &ps, const string &label, vector<Flip> fl = {}) { for (size_t i = 0; i < p.keys.size(); i++) if (p.keys[i].ps == ps && p.keys[i].label == label && fl.empty() && p.keys[i].flips.empty()) return (int)i; p.keys.push_back({ps, label, fl}); return (int)p.keys.size() - 1; }
  int msg(u64 len, const string &label, vector<Flip> fl = {}) { p.msgs.push_back({len, label, fl}); return (int)p.msgs.size() - 1; }
  int sig(int k, int m, int by, const string &opt) { for (size_t i = 0; i < p.sigs.size(); i++) if (p.sigs[i].key == k && p.sigs[i].msg == m && p.sigs[i].by == by && p.sigs[i].opt == opt) return (int)i; SigDef s; s.key = k; s.msg = m; s.by = by; s.opt = opt; p.sigs.push_back(s); return (int)p.sigs.size() - 1; }
  int ctx(int place = -1) { CtxDef c; c.place = place >= 0 ? place : p.place; c.init = g.chance(1, 2) ? "zero" : g.chance(1, 3) ? "ff" : fmt(g.chance(1, 3) ? "sml%llu" : "garb%llu", (unsigned long long)g.below(1000)); p.ctxs.push_back(c); return (int)p.ctxs.size() - 1; }
  Op &add(int t, int kind) { if ((int)p.tasks.size() <= t) p.tasks.resize(t + 1); Op o; o.kind = kind; o.task = t; p.tasks[t].push_back(o); return p.tasks[t].back(); }
  string fresh(const char *w) { return fmt("%s%llx", w, (unsigned long long)(g.next() >> 20)); }
  // ---- vocabulary
  string fset() { return FSETS[index % 6]; }
  string sset() { return SSETS[index % 8 % 6]; }
  const ref::Params *P(const string &ps) { return ref::find(ps); }
  string keylabel(unsigned pool, unsigned fresh_pct) { if (g.chance(fresh_pct, 100)) { if (g.chance(1, 8)) return g.chance(1, 2) ? "zero" : "ff"; return fresh("k"); } return fmt("pool%llu", (unsigned long long)g.below(pool)); }
  u64 mlen() { unsigned r = (unsigned)g.below(10); if (r == 9 && p.lib.compare(2, 2, "32") != 0 && g.chance(1, 6)) { unsigned q = (unsigned)g.below(24); if (q < 4 && (p.lib.find("k2") != string::npos || p.lib.compare(0, 3, "o0-") == 0 || p.lib.compare(0, 4, "asan") == 0 || p.lib.compare(0, 4, "club") == 0 || p.lib.compare(0, 4, "leak") == 0)) q = 12; if (p.lib.compare(0, 4, "leak") == 0) return g.below(60000); return q == 0 ? (1 << 20) + g.below(1 << 24) : q < 4 ? (1 << 20) - 64 + g.below(128) : q < 12 ? 65536 - 40 + g.below(80) : 20000 + g.below(180000); } return r < 6 ? g.pick(EDGE_LENS) : r < 9 ? g.below(600) : g.below(20000); }
  u64 straylen(u64 L) { switch (g.below(6)) { case 0: return L; case 1: return L - 1 + g.below(3); case 2: return 1 + g.below(L); case 3: return 1ULL << g.below(32); case 4: return 0xffffffffULL - g.below(2) * 0x80000000ULL; default: return g.below(150000); } }
  u64 longlen(unsigned top) { u64 b = 1ULL << (16 + g.below(top - 15)); return g.chance(1, 4) ? b - 40 + g.below(80) : b + g.below(b); }   // every magnitude from 64 KiB up
  void rng_ok(Op &o, const string &l) { o.rng = RNG_OK; o.rl = l; }
  void sinit(int t, int c, int k, int m, const string &opt) { Op &o = add(t, K_SINIT); o.c = c; o.k = k; o.m = m; if (opt == "-") o.rng = RNG_NULL; else rng_ok(o, opt); }
  void vinit(int t, int c, int k, int m) { Op &o = add(t, K_VINIT); o.c = c; o.k = k; o.m = m; }
  void pull(int t, int c, u64 n, u64 rep = 1, const char *tag = "") { Op &o = add(t, K_PULL); o.c = c; o.n = (i64)n; o.rep = (i64)rep; o.tag = tag; }
  Op &push(int t, int c, int s, u64 off, u64 len, u64 step = 0) { Op &o = add(t, K_PUSH); o.c = c; o.s = s; o.off = (i64)off; o.len = (i64)len; o.step = (i64)step; return o; }
  u64 many() { switch (g.below(6)) { case 0: case 1: return 2 + g.below(30); case 2: case 3: return 120 + g.below(160); case 4: return 250 + g.below(20); default: return g.chance(1, 4) ? 65500 + g.below(100) : 500 + g.below(3000); } }
  void fin(int t, int c, u64 rep = 1) { Op &o = add(t, K_FIN); o.c = c; o.rep = (i64)rep; }
  // ---- segmentations: list of (length, step) covering `total` bytes
  u64 piece(const ref::Params *ps) { u64 n = ps->n; switch (g.below(14)) { case 0: return 1; case 1: return 2; case 2: return n - 1; case 3: return n; case 4: return n + 1; case 5: return 2 * n; case 6: return 2 * n - 1; case 7: return 2 * n + 1; case 8: return 1 + g.below(4 * n); case 9: return 42; case 10: { static const u64 v[] = {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4095, 4096, 4097}; return g.chance(1, 3) ? std::max<u64>(1, (1ULL << g.below(17)) + g.below(3) - 1) : v[g.below(18)]; } case 11: return n * (1 + g.below(40)); case 12: return n * (1 + g.below(40)) + g.below(3) - 1; default: return 1 + g.below(9000); } }
  vector<std::pair<u64, u64>> cut(const ref::Params *ps, u64 total, const char **tag) {
    vector<std::pair<u64, u64>> v; u64 n = ps->n, at = 0; unsigned style = (unsigned)g.below(9);
    auto put = [&](u64 len, u64 step) { if (len > total - at) len = total - at; v.push_back({len, step}); at += len; };
    switch (style) {
    case 0: put(total, 0); *tag = "one_piece"; break;
    case 1: put(total, piece(ps)); *tag = "constant_pieces"; break;
    case 2: { *tag = "mixed_pieces"; while (at < total) { u64 s = piece(ps), c = 1 + g.below(g.chance(1, 5) ? 60 : 4); put(s * c, s); if (g.chance(1, 4)) v.push_back({0, 0}); } break; }
    case 3: { *tag = "boundary_pieces"; while (at < total) { u64 e = (at / n + 1 + g.below(g.chance(1, 3) ? 200 : 12)) * n; i64 d = g.range(-1, 1); put((u64)std::max<i64>((i64)(e - at) + d, 1), 0); if (g.chance(1, 6)) v.push_back({0, 0}); } break; }
    case 4: { *tag = "byte_by_byte"; u64 a = g.below(total + 1); put(a, 0); put(std::min<u64>(total - at, 1 + g.below(6 * n * 40)), 1); put(total - at, 0); break; }
    case 5: { *tag = "split_in_two"; u64 a; switch (g.below(6)) { case 0: a = g.below(total + 1); break; case 5: { u64 q = (1ULL << (7 + g.below(9))) + g.below(3) - 1; a = q < total ? g.chance(1, 2) ? q : total - q : 1; break; } case 1: a = total - 1; break; case 2: a = 1; break; case 3: a = std::min(total, n * g.below(total / n + 1)); break; default: a = total - std::min<u64>(total, g.below(2 * n + 2)); break; } put(a, 0); if (g.chance(1, 2)) v.push_back({0, 0}); if (at < total) put(total - at, 0); break; }
    case 6: { *tag = "growing_pieces"; u64 s = 1; while (at < total) { put(s, 0); s += 1 + g.below(3); } break; }
    case 7: { *tag = "empty_pieces"; while (at < total) { for (u64 z = g.below(4); z; z--) v.push_back({0, 0}); put(n * (1 + g.below(50)) + (g.chance(1, 2) ? 0 : g.below(n)), 0); } v.push_back({0, 0}); break; }
    default: { *tag = "random_pieces"; u64 mx = g.chance(1, 3) ? 3 * n : g.chance(1, 2) ? 40 * n : total / 3 + 1; while (at < total) put(1 + g.below(mx), 0); break; } }
    return v; }
  // pulls `total` bytes of the signature, then (if it is all of it) asks past the end
  void pulls(int t, int c, const ref::Params *ps, u64 total, bool overshoot) { const char *tag = ""; auto v = cut(ps, total, &tag); bool first = true; u64 at = 0;
    bool whole = total == ps->sig_len(); if (whole && v.size() == 1 && v[0].second == 0 && g.chance(2, 3)) { static const u64 big[] = {0, 1, 2, 0xffffffffULL, 0x80000000ULL, 0x7fffffffULL, 0x10000, 0xffff0000ULL}; u64 b = big[g.below(8)]; pull(t, c, b < 3 ? total + b : std::max<u64>(b, total), 1, "huge_request"); }
    else for (auto &x : v) { if (x.second && x.first) { u64 rep = whole && at + x.first == total ? (x.first + x.second - 1) / x.second : x.first / x.second; if (rep) pull(t, c, x.second, rep, first ? tag : ""); u64 left = x.first > rep * x.second ? x.first - rep * x.second : 0; if (left) pull(t, c, left); } else pull(t, c, x.first, 1, first ? tag : x.first ? "" : "empty_request"); at += x.first; first = false; }
    if (g.chance(1, 12)) pull(t, c, 0, many(), "empty_request");
    if (overshoot) { if (g.chance(1, 12)) pull(t, c, g.below(3) * 20, many(), "request_after_end"); u64 k = 1 + g.below(4); for (u64 i = 0; i < k; i++) { static const u64 z[] = {1, 0, 16, 32, 42, 255, 65536, 0xffffffffULL}; pull(t, c, z[g.below(8)], 1 + g.below(2), "request_after_end"); } } }
  // delivers stream bytes [off, off+total) of signature s, optionally with one byte damaged
  void pushes(int t, int c, const ref::Params *ps, int s, u64 off, u64 total, i64 xp = -1, int xm = 0, bool probes = false) { const char *tag = ""; auto v = cut(ps, total, &tag); u64 at = 0; bool first = true;
    for (auto &x : v) { Op &o = push(t, c, s, off + at, x.first, x.second); if (first) o.tag = tag; else if (!x.first) o.tag = "empty_delivery"; first = false; if (xp >= (i64)at && xp < (i64)(at + x.first)) { o.xp = xp - (i64)at; o.xm = xm; } at += x.first; if (probes && v.size() < 400 && g.chance(1, 3)) fin(t, c, 1 + g.below(3)); } }
  // a message whose digest selects a rare position; label found by search with the reference
  string ground(const ref::Params *ps, const string &keylab, const string &opt, u64 len, unsigned goal) {
    bytes r = stream(keylab, 3 * ps->n); ref::Key k = oracle_keygen(ps, r); bytes o = opt == "-" ? bytes() : stream(opt, ps->n); bytes m(len); unsigned leafmax = (1u << ps->hp) - 1; u64 tb = ps->h - ps->hp; u64 tmask = tb >= 64 ? ~0ULL : (1ULL << tb) - 1;
    string base = fresh("g"), best = base; int bestv = -1;
    for (int i = 0; i < 400; i++) { string lab = base + "_" + std::to_string(i); stream_at(lab, 0, m.data(), len); bytes R = ref::prf_msg(k, opt == "-" ? nullptr : o.data(), m.data(), len); ref::Pos q = ref::position(k, R.data(), m.data(), len); int v = 0;
      switch (goal) { case 0: v = q.leaf == 0; break; case 1: v = q.leaf == leafmax; break; case 2: v = __builtin_ctzll(~q.tree | (1ULL << 63)); break; case 3: v = q.tree ? __builtin_ctzll(q.tree) : 64; break;
        case 4: v = __builtin_clzll(q.tree << (64 - tb) | 1); break; case 5: v = __builtin_clzll(~(q.tree << (64 - tb)) | 1); break; case 6: v = (q.fors[0] == 0) + (q.fors.back() == 0); break; case 7: v = (q.fors[0] == (1u << ps->a) - 1) + (q.fors.back() == (1u << ps->a) - 1); break;
        case 8: { u64 x = (q.tree & tmask) ^ 0x80000000ULL; v = -__builtin_popcountll(x & 0xffffffffULL) + 32; break; } default: for (auto f : q.fors) v += f == 0 || f == (1u << ps->a) - 1; break; }
      if (v > bestv) { bestv = v; best = lab; } }
    static const char *nm[] = {"leaf_first", "leaf_last", "tree_low_ones", "tree_low_zeros", "tree_top_zeros", "tree_top_ones", "fors_index_zero", "fors_index_max", "tree_low_word_sparse", "fors_extremes"};
    ST.reach[string("ground_") + nm[goal < 9 ? goal : 9]]++; return best; }
};

// the cheap part of a signature that still touches FORS, WOTS and Merkle code: everything up to the end of layer `layers`
static u64 part(const ref::Params *ps, unsigned layers) { return std::min<u64>(ps->sig_len(), (u64)ps->n * (1 + ps->k * (ps->a + 1) + layers * (2 * ps->n + 3 + ps->hp))); }
static bool is_s(const string &s) { return s.back() == 's'; }
static string other_family(const string &s) { return s[2] == 'a' && s[1] == 'h' && s[3] == '2' ? "shake" + s.substr(4) : "sha2" + s.substr(5); }

// ------------------------------------------------------------------ C01 pull schedules
static void gen_c01(G &b) { G &x = b; bool s = x.index % 8 < 6 && x.g.chance(1, 7); string ps = s ? x.sset() : x.fset(); const ref::Params *P = ref::find(ps); x.p.lib = x.lib(x.g.chance(3, 4) ? "fast-tune" : "fast", ps);
  int k = x.key(ps, x.keylabel(2, s ? 0 : 15)); int m = x.g.chance(4, 5) ? x.msg(33 * x.g.below(3), "pm") : x.msg(x.mlen(), x.fresh("m")); string opt = x.g.chance(1, 2) ? "-" : "po"; int c = x.ctx();
  int sess = s ? 1 : 1 + (int)x.g.below(2); { Op &o = x.add(0, K_SIZE); o.k = k; o.f = 2; }
  if (x.g.chance(1, 2)) { // advance to a point, then try many continuations from it
    x.sinit(0, c, k, m, opt); u64 L = P->sig_len(), n = P->n, at = 0; int pts = s ? 2 : 1 + (int)x.g.below(3);
    for (int j = 0; j < pts; j++) { u64 q; switch (x.g.below(5)) { case 0: q = part(P, 0); break; case 1: q = part(P, (unsigned)x.g.below(s && x.g.chance(2, 3) ? 2 : P->d + 1)); break; case 2: q = s && x.g.chance(2, 3) ? x.g.below(part(P, 1)) : x.g.below(L); break; case 3: q = n * (1 + x.g.below(P->k) * (P->a + 1) + (x.g.chance(1, 2) ? 0 : 1)); break; default: q = part(P, (unsigned)x.g.below(s && x.g.chance(2, 3) ? 1 : P->d)) + n * (2 * n + 3); break; }
      i64 d = x.g.range(-(i64)(2 * n), (i64)n); if (d < 0 && q < (u64)-d) d = 0; q = std::min(L, (u64)((i64)q + d)); if (q < at) q = at; if (q > at) x.pull(0, c, q - at); at = q; x.add(0, K_SNAP).c = c; int tries = 6 + (int)x.g.below(20);
      for (int a = 0; a < tries; a++) { if (a) x.add(0, K_BACK).c = c; u64 left = std::min(L - at, 1 + x.g.below(6 * n)); bool first = true; unsigned calls = 1 + (unsigned)x.g.below(8); while (calls-- && left) { u64 z = x.g.chance(1, 5) ? 0 : x.g.chance(1, 3) ? left : x.g.chance(1, 2) ? 1 + x.g.below(left) : std::min(left, x.piece(P)); x.pull(0, c, z, 1, first ? "continuation" : ""); left -= z; first = false; } }
      x.add(0, K_BACK).c = c; }
    if (!s || x.g.chance(1, 3)) { x.pull(0, c, L - at); x.pull(0, c, 3, 2, "request_after_end"); }
    return; }
  for (int i = 0; i < sess; i++) { x.sinit(0, c, k, m, opt); bool whole = !s || x.g.chance(1, 3); u64 tot = whole ? P->sig_len() : x.g.chance(1, 2) ? part(P, 0) + x.g.below(4 * P->n) : part(P, 1) + x.g.below(P->n * 4); x.pulls(0, c, P, tot, whole); } }

// ------------------------------------------------------------------ C02 refinement of the specification
static void gen_c02(G &x) { unsigned kind = (unsigned)(x.index / 12 % 16); x.p.lib = "fast-tune";
  string all[12]; for (int i = 0; i < 6; i++) { all[i] = FSETS[i]; all[6 + i] = SSETS[i]; } string ps = all[x.index % 12]; bool s = is_s(ps);
  if (x.g.chance(1, 4)) { string l = x.lib("fast", ps); if (!l.empty()) x.p.lib = l; }
  if (x.g.chance(1, 20)) { // one process, very many sessions: the last must be as good as the first
    const ref::Params *P = ref::find(ps); int k = x.key(ps, "pool0"), c = x.ctx(), m = x.msg(x.g.below(80), "pm"); unsigned rounds = 2 + (unsigned)x.g.below(4); for (unsigned r = 0; r < rounds; r++) { if (x.g.chance(1, 2)) { x.sinit(0, c, k, m, x.g.chance(1, 2) ? "-" : "po"); Op &o = x.p.tasks[0].back(); o.rep = (i64)x.many(); o.tag = "long_history"; } else { unsigned q = 60 + (unsigned)x.g.below(300); for (unsigned i = 0; i < q; i++) { x.sinit(0, c, k, m, x.g.chance(1, 2) ? "-" : "po"); x.pull(0, c, 1 + x.g.below(P->n)); } } x.pull(0, c, s ? 2 * P->n : part(P, 0)); } return; }
  if (kind < 7) { const ref::Params *P = ref::find(ps); int k = x.key(ps, s ? "pool0" : x.keylabel(4, 30)), c = x.ctx(); u64 base = (x.index / 192 * 7 + kind) * 16 % 704; // consecutive lengths, 16 per run
    for (u64 i = 0; i < 16; i++) { int m = x.msg(base + i, x.g.chance(1, 10) ? "zero" : x.fresh("m")); x.sinit(0, c, k, m, x.g.chance(1, 2) ? "-" : x.fresh("o")); x.pull(0, c, P->n * 2); } return; }
  if (kind == 7) { const ref::Params *P = ref::find(ps); int k = x.key(ps, "pool0"), c = x.ctx(); for (int i = 0; i < 3; i++) { u64 e = 1ULL << x.g.range(10, 20); int m = x.msg(e + x.g.below(300) - 150, x.fresh("m")); x.sinit(0, c, k, m, x.g.chance(1, 2) ? "-" : x.fresh("o")); x.pull(0, c, P->n * 2); } return; }
  if (kind == 8 || kind == 9) { if (s && kind == 9) ps = x.fset(), s = false; int n = s ? 1 : 3; for (int i = 0; i < n; i++) { string lab = x.g.chance(1, 6) ? (x.g.chance(1, 2) ? "ff" : "zero") : x.fresh("kg"); int k = x.key(ps, "pool0"); Op &o = x.add(0, K_KEYGEN); o.k = k; x.rng_ok(o, lab); o.f = i; o.pk = !x.g.chance(1, 5); } return; }
  if (s && kind != 10) { // partial small-parameter signatures; a full one now and then
    if (x.index % 8 >= 6 || !x.g.chance(1, 2)) { ps = x.fset(); s = false; } else ps = x.sset(); }
  const ref::Params *P = ref::find(ps); string kl = s ? "pool0" : x.keylabel(4, 30); int k = x.key(ps, kl), c = x.ctx(); int sess = s ? 1 : 1 + (int)x.g.below(2);
  for (int i = 0; i < sess; i++) { string opt = x.g.chance(1, 2) ? "-" : x.fresh("o"); u64 len = x.mlen(); string ml = x.g.chance(1, 2) ? x.ground(P, kl, opt, len = std::max<u64>(8, x.g.below(80)), (unsigned)x.g.below(10)) : x.fresh("m"); int m = x.msg(len, ml);
    if (i == 0 && x.g.chance(1, 2)) { int m0 = x.msg(x.mlen(), x.fresh("m")); x.sinit(0, c, k, m0, "-"); x.pull(0, c, 1 + x.g.below(part(P, 0))); } // an abandoned session before it
    x.sinit(0, c, k, m, opt); u64 tot = s ? (x.g.chance(1, 6) ? P->sig_len() : part(P, x.g.chance(1, 2) ? 0 : 1) ) : P->sig_len(); x.pull(0, c, tot); } }

// a genuine signature to deliver: by the reference or by the library, fresh or from the pool
static int a_sig(G &x, const string &ps, unsigned fresh_pct, bool groundit, int *km = nullptr, int *mm = nullptr) { bool s = is_s(ps); const ref::Params *P = ref::find(ps); bool fr = !s && x.g.chance(fresh_pct, 100); string kl = fr ? x.keylabel(3, 40) : fmt("pool%d", s ? 0 : (int)x.g.below(2)); int k = x.key(ps, kl); string opt = fr ? (x.g.chance(1, 2) ? "-" : x.fresh("o")) : (x.g.chance(1, 2) || s ? "-" : "po"); u64 len = fr ? x.mlen() : s ? 33 : 33 * x.g.below(2); string ml = "pm";
  if (fr) { if (groundit && x.g.chance(1, 2)) { len = 8 + x.g.below(60); ml = x.ground(P, kl, opt, len, (unsigned)x.g.below(10)); } else ml = x.fresh("m"); }
  int m = x.msg(len, ml); if (km) *km = k; if (mm) *mm = m; return x.sig(k, m, fr ? (x.g.chance(1, 2) ? 0 : 1) : 0, opt); }

// ------------------------------------------------------------------ C03 segmentation of genuine streams
static void gen_c03(G &x) { bool s = x.g.chance(3, 10); string ps = s ? SSETS[x.index / 3 % 6] : x.fset(); const ref::Params *P = ref::find(ps); x.p.lib = x.lib(x.g.chance(3, 4) ? "fast-tune" : "fast", ps); int k, m; int sg = a_sig(x, ps, 12, true, &k, &m); int c = x.ctx(); int sess = 2 + (int)x.g.below(6);
  if (!s && x.g.chance(1, 40)) { unsigned q = 100 + (unsigned)x.g.below(300); for (unsigned i = 0; i < q; i++) { x.vinit(0, c, k, m); x.push(0, c, sg, 0, P->sig_len()); x.fin(0, c); } x.p.tasks[0].back().tag = "long_history"; return; }
  for (int i = 0; i < sess; i++) { if (x.g.chance(1, 4)) c = x.ctx(); x.vinit(0, c, k, m); if (x.g.chance(1, 10)) { Op &o = x.p.tasks[0].back(); o.rep = (i64)x.many(); o.tag = "long_history"; } if (x.g.chance(1, 10)) { u64 h = x.g.below(P->sig_len()); x.push(0, c, sg, 0, h); Op &o = x.push(0, c, sg, h, 0); o.rep = (i64)x.many(); o.tag = "empty_delivery"; x.pushes(0, c, P, sg, h, P->sig_len() - h); x.fin(0, c, x.many()); continue; } x.pushes(0, c, P, sg, 0, P->sig_len(), -1, 0, x.g.chance(1, 4)); x.fin(0, c, 1 + x.g.below(2)); if (x.g.chance(1, 5)) { x.push(0, c, sg, 0, 0).tag = "empty_delivery"; x.fin(0, c); } } }

// ------------------------------------------------------------------ C04 damage
static void gen_c04(G &x) { bool s = x.g.chance(3, 10); string ps = s ? SSETS[x.index / 3 % 6] : x.fset(); const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(), NB = L / n; x.p.lib = x.lib(x.g.chance(3, 4) ? "fast-tune" : "fast", ps);
  unsigned kind = (unsigned)x.g.below(24); int c = x.ctx();
  if (kind == 0 && !(s && x.index % 8 >= 6)) { // key pair whose stored root (or seeds) were corrupted before signing
    vector<Flip> fl; unsigned w = (unsigned)x.g.below(4); u64 a = x.g.below(n); if (w == 0 && x.g.chance(1, 2)) a = x.g.chance(2, 3) ? n - 1 : 0; unsigned mk = 1u << x.g.below(8); if (w == 0) fl = {{3 * n + a, mk}}; else if (w == 1) { u64 d = (a + 1 + x.g.below(n - 1)) % n; fl = {{3 * n + a, mk}, {3 * n + d, mk}}; } else if (w == 2) fl = {{3 * n + (x.g.chance(1, 2) ? 0 : n - 1), 1 + (unsigned)x.g.below(255)}}; else if (x.g.chance(1, 2)) fl = {{x.g.below(n), mk}}; else { u64 d = (a + 1 + x.g.below(n - 1)) % n; fl = {{3 * n + a, 0x80}, {3 * n + d, 0x80}}; }
    string kl = "pool0"; if (!s && x.g.chance(1, 3)) for (int i = 0; i < 200; i++) { // a root with a zero (or full) byte in it, changed behind (or before) that byte; or with two bytes exchanged
      kl = x.fresh("kz"); bytes rt = oracle_keygen(P, stream(kl, 3 * n)).root; size_t z = 0; u8 v = x.g.chance(3, 4) ? 0 : 0xff; while (z < n && rt[z] != v) z++; if (x.g.chance(1, 64)) { u64 d = (a + 1) % n; if (rt[a] == rt[d]) continue; fl = {{3 * n + a, (unsigned)(rt[a] ^ rt[d])}, {3 * n + d, (unsigned)(rt[a] ^ rt[d])}}; break; }
      if (z >= n - 1) continue; bool before = z && x.g.chance(1, 4); u64 q = before ? x.g.below(z) : z + 1 + x.g.below(n - 1 - z); fl = {{3 * n + q, mk}}; if (x.g.chance(1, 2)) for (u64 j = before ? 0 : z + 1; j < (before ? z : n); j++) if (j != q && x.g.chance(1, 2)) fl.push_back({3 * n + j, 1u << x.g.below(8)}); break; }
    int k = x.key(ps, kl, fl), m = x.msg(33, "pm"); int sg = x.sig(k, m, 1, "-"); x.vinit(0, c, k, m); x.pushes(0, c, P, sg, 0, L); x.p.tasks[0].back().tag = "corrupted_stored_key"; x.fin(0, c); return; }
  if (!s && x.g.chance(1, 14)) { // long messages, damaged anywhere in them or cut or extended by any amount
    static const u64 lens[] = {65536, 65536, 1 << 18, 1 << 20, 1 << 20, 1 << 22, 1 << 23, 1 << 24}; u64 len = lens[x.g.below(x.g.chance(1, 4) ? 8 : 5)] + 7 * (1 + x.g.below(40)); MsgDef M; M.len = len; M.label = "long"; int k = x.key(ps, "pool0"); x.p.msgs.push_back(M); int m = 0, sg = x.sig(k, m, 1, "-"); int sess = 3 + (int)x.g.below(len > 3000000 ? 2 : 6);
    for (int i = 0; i < sess; i++) { MsgDef d = M; u64 pw = 1ULL << x.g.below(64 - __builtin_clzll(len)); const char *t = "message_bit_flip"; switch (x.g.below(8)) { case 0: case 1: d.flips = {{len - 1 - x.g.below(std::min<u64>(len, 300)), 1u << x.g.below(8)}}; break; case 2: case 3: d.flips = {{x.g.below(len), 1u << x.g.below(8)}}; break; case 4: d.flips = {{pw - x.g.below(2), 1u << x.g.below(8)}}; break; case 5: d.len -= x.g.chance(1, 2) ? 1 : pw; t = "message_truncated"; break; case 6: d.len += x.g.chance(1, 2) ? 1 : pw; t = "message_extended"; break; default: d.len &= ~(pw - 1); if (d.len == len) d.len--; t = "message_truncated"; break; }
      x.p.msgs.push_back(d); x.vinit(0, c, k, (int)x.p.msgs.size() - 1); x.p.tasks[0].back().tag = t; x.push(0, c, sg, 0, L); x.fin(0, c); }
    x.vinit(0, c, k, m); x.push(0, c, sg, 0, L); x.fin(0, c); return; }
  int k, m; int sg = a_sig(x, ps, 2, false, &k, &m); const MsgDef M = x.p.msgs[m]; const KeyDef KD = x.p.keys[k];
  if (x.g.chance(1, 6)) { x.vinit(0, c, k, m); x.push(0, c, sg, 0, L); x.fin(0, c); }   // a genuine session first
  int sess = 2 + (int)x.g.below(7);
  for (int i = 0; i < sess; i++) { unsigned w = kind; if (x.g.chance(1, 3)) w = (unsigned)x.g.below(24);
    auto dlv = [&](int kk, int mm) { x.vinit(0, c, kk, mm); }; auto tag = [&](const char *t) { x.add(0, K_PAINT).tag = t; x.p.tasks[0].back().f = (i64)x.g.below(5); };
    if (w <= 10) { tag("bit_flip"); dlv(k, m); u64 blk = (x.index * 0x9e3779b1ULL + (u64)i * 7919) % NB; u64 pos = x.g.chance(1, 6) ? (x.g.chance(1, 2) ? x.g.below(2 * n) : L - 1 - x.g.below(2 * n)) : blk * n + x.g.below(n); int mk = x.g.chance(3, 4) ? 1 << x.g.below(8) : 1 + (int)x.g.below(255); if (x.g.chance(1, 2)) { Op &o = x.push(0, c, sg, 0, L); o.xp = (i64)pos; o.xm = mk; } else x.pushes(0, c, P, sg, 0, L, (i64)pos, mk); }
    else if (w == 11) { tag("lost_bytes"); dlv(k, m); u64 a = x.g.below(NB) * n + (x.g.chance(1, 2) ? 0 : x.g.below(n)), l = x.g.chance(1, 2) ? n * (1 + x.g.below(3)) : 1 + x.g.below(3 * n); if (a + l > L) l = L - a; x.push(0, c, sg, 0, a); x.push(0, c, sg, a + l, L - a - l); if (x.g.chance(1, 2)) { x.fin(0, c); if (x.g.chance(1, 2)) x.push(0, c, sg, a, l); else { Op &o = x.push(0, c, -1, 0, l); o.rl = x.g.chance(1, 2) ? "zero" : x.fresh("j"); } } }
    else if (w == 12) { tag("duplicated_bytes"); dlv(k, m); u64 a = x.g.below(NB) * n, l = n * (1 + x.g.below(3)); if (a + l > L) l = L - a; x.push(0, c, sg, 0, a + l); x.push(0, c, sg, a, l); if (L > a + 2 * l) x.push(0, c, sg, a + l, L - a - 2 * l); }
    else if (w == 13 || w == 14) { tag("reordered_blocks"); dlv(k, m); u64 a = x.g.below(NB - 1), d = x.g.chance(1, 2) ? a + 1 : a + 1 + x.g.below(NB - a - 1); x.push(0, c, sg, 0, a * n); x.push(0, c, sg, d * n, n); x.push(0, c, sg, (a + 1) * n, (d - a - 1) * n); x.push(0, c, sg, a * n, n); x.push(0, c, sg, (d + 1) * n, L - (d + 1) * n); }
    else if (w == 15 || w == 16) { tag("spliced_signatures"); int m2 = x.g.chance(1, 3) ? m : x.msg(33 * (M.len == 0), "pm"); bool okey = !s && x.g.chance(1, 4); int k2 = okey ? x.key(ps, KD.label == "pool0" ? "pool1" : "pool0") : k; int s2 = s ? sg : x.sig(k2, m2, 0, m2 == m && k2 == k ? (x.p.sigs[sg].opt == "-" ? "po" : "-") : "-"); if (!s || s2 == sg) { } dlv(k, x.g.chance(1, 2) ? m : m2); u64 a = x.g.below(NB + 1) * n; if (x.g.chance(1, 3)) { u64 l = n * (1 + x.g.below(8)); if (a + l > L) a = L - l; x.push(0, c, sg, 0, a); x.push(0, c, s2, a, l); x.push(0, c, sg, a + l, L - a - l); } else { x.push(0, c, sg, 0, a); x.push(0, c, s2, a, L - a); } }
    else if (w <= 19) { MsgDef d = M; unsigned q = (unsigned)x.g.below(6); const char *t = "wrong_message"; if (q == 0 || q == 5) { if (d.len) { d.flips = {{x.g.below(d.len), 1u << x.g.below(8)}}; t = "message_bit_flip"; } else d.len = 1; } else if (q == 1) { if (d.len) { d.len -= 1 + x.g.below(std::min<u64>(d.len, 3)); t = "message_truncated"; } else d.len = 3; } else if (q == 2) { d.len += 1 + x.g.below(3); t = "message_extended"; } else if (q == 3) d.label = x.fresh("m"), d.len = M.len ? M.len : 5; else d.len = d.len ? 0 : 64; tag(t); x.p.msgs.push_back(d); dlv(k, (int)x.p.msgs.size() - 1); x.pushes(0, c, P, sg, 0, L); }
    else if (w <= 21) { vector<Flip> fl = {{2 * n + x.g.below(2 * n), 1u << x.g.below(8)}}; if (x.g.chance(1, 2)) { const u64 e[] = {n - 1, n - 1, n - 1, 0, 0, 1, 7, 8, n / 2, n - 2, n - 4, n - 8}; fl = {{2 * n + (x.g.chance(3, 4) ? n : 0) + e[x.g.below(12)], x.g.chance(1, 2) ? 0x80u : 1u << x.g.below(8)}}; } tag("wrong_key"); if (x.g.chance(1, 5) && !s) dlv(x.key(ps, KD.label == "pool0" ? "pool1" : "pool0"), m); else dlv(x.key(ps, KD.label, fl), m); x.push(0, c, sg, 0, L); }
    else if (w == 22) { string o = other_family(ps); if (G::has(x.p.lib, o)) { tag("wrong_parameter_set"); dlv(x.key(o, KD.label), m); x.push(0, c, sg, 0, L); } }
    else { tag("garbage_stream"); dlv(k, m); Op &o = x.push(0, c, -1, 0, L, x.g.chance(1, 2) ? 0 : 97); o.rl = x.g.chance(1, 3) ? "zero" : x.g.chance(1, 2) ? "ff" : x.fresh("j"); }
    x.fin(0, c, 1 + x.g.below(2)); if (x.g.chance(1, 8)) { x.push(0, c, sg, 0, x.g.chance(1, 2) ? L : n); x.fin(0, c); }
    if (x.g.chance(1, 10)) { x.vinit(0, c, k, m); x.push(0, c, sg, 0, L); x.fin(0, c); } } }

// ------------------------------------------------------------------ C05 exact length
static void gen_c05(G &x) { bool s = x.g.chance(4, 10); string ps = s ? SSETS[x.index / 3 % 6] : x.fset(); const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(); x.p.lib = x.lib(x.g.chance(3, 4) ? "fast-tune" : "fast", ps); int k, m; int sg = a_sig(x, ps, 2, false, &k, &m); int c = x.ctx(); int sess = 2 + (int)x.g.below(4);
  for (int i = 0; i < sess; i++) { unsigned w = (unsigned)x.g.below(10); auto note = [&](const char *t) { x.add(0, K_PAINT).tag = t; x.p.tasks[0].back().f = (i64)x.g.below(5); }; 
    auto sur = [&](u64 len, u64 step, bool z) -> void { if (z) { Op &o = x.push(0, c, -1, 0, len, step); o.z = 1; o.rl = "zero"; return; } unsigned q = (unsigned)x.g.below(4); if (q < 2) { Op &o = x.push(0, c, -1, 0, len, step); o.rl = q ? "zero" : x.fresh("j"); } else x.push(0, c, sg, q == 2 ? 0 : L - std::min(L, len), len, step); };
    if (w < 3) { note("truncated"); x.vinit(0, c, k, m); x.fin(0, c, 1 + x.g.below(2)); u64 at = 0; unsigned pts = 3 + (unsigned)x.g.below(20); vector<u64> cuts; for (unsigned j = 0; j < pts; j++) { u64 q; switch (x.g.below(6)) { case 0: q = x.g.below(L); break; case 1: q = x.g.below(L / n) * n; break; case 2: q = L - 1 - x.g.below(3 * n); break; case 3: q = L - n * (1 + x.g.below(12)); break; case 4: q = part(P, (unsigned)x.g.below(P->d)); break; default: q = x.g.below(L / n) * n + (x.g.chance(1, 2) ? 1 : n - 1); break; } cuts.push_back(std::min(q, L - 1)); } if (x.g.chance(1, 3)) cuts.push_back(L - 1); std::sort(cuts.begin(), cuts.end());
      for (u64 q : cuts) { x.push(0, c, sg, at, q - at); at = q; x.fin(0, c); } if (x.g.chance(1, 2)) { x.push(0, c, sg, at, L - at); x.fin(0, c); if (x.g.chance(1, 2)) { sur(1 + x.g.below(3 * n), 0, false); x.fin(0, c); } } }
    else if (w < 6 && x.g.chance(1, 8)) { note("surplus_same_call_huge"); x.vinit(0, c, k, m); u64 h = x.g.chance(1, 2) ? 0 : L - x.g.below(2 * n + 2), left = L - h; static const u64 sp[] = {0x100000000ULL, 0x80000000ULL, 0x7fffffffULL, 0x1000000ULL, 0xffff0000ULL, 0x80000001ULL, 0x100000ULL}; u64 q = sp[x.g.below(7)]; if (x.g.chance(1, 2)) q += left; if (x.g.chance(1, 3)) q += n; q = std::min<u64>(q, 0xffffffffULL); if (h) x.push(0, c, sg, 0, h); Op &o = x.push(0, c, sg, h, std::max<u64>(q, left + 1)); o.z = 2; x.fin(0, c, 2); }
    else if (w < 6) { note("surplus_same_call"); x.vinit(0, c, k, m); u64 sp[] = {1 + x.g.below(3 * n), n, 2 * n, 256, 255, 257, 65536, 65535, L, n - 1, 128, 512, 65536 - L % 65536}; u64 q = sp[x.g.below(13)]; u64 h = x.g.chance(1, 2) ? 0 : L - x.g.below(2 * n + 2); if (h) x.push(0, c, sg, 0, h); if (x.g.chance(1, 4)) x.fin(0, c); x.push(0, c, sg, h, L - h + q); x.fin(0, c, 2); if (x.g.chance(1, 2)) { sur(x.g.chance(1, 2) ? q : 1 + x.g.below(600), 0, false); x.fin(0, c); } }
    else if (w < 8) { note("surplus_later_calls"); x.vinit(0, c, k, m); x.push(0, c, sg, 0, L); if (x.g.chance(1, 2)) x.fin(0, c); u64 total = 0, cap = x.g.chance(1, 2) ? 40 : 300; u64 st = x.g.chance(1, 3) ? 1 : x.g.chance(1, 2) ? n : 1 + x.g.below(3 * n); for (u64 j = 0; j < cap; j++) { sur(st, 0, false); total += st; x.fin(0, c); } }
    else if (w == 8) { note("surplus_wrap"); x.vinit(0, c, k, m); x.push(0, c, sg, 0, L); if (x.g.chance(1, 3)) x.fin(0, c); static const u64 tot[] = {256, 512, 65536, 131072, 0x100000000ULL, 0x100000000ULL, 0x80000000ULL, 0x1000000ULL}; u64 T = tot[x.g.below(8)]; u64 a = x.g.chance(1, 3) ? 1 + x.g.below(n) : x.g.chance(1, 2) ? n : T / 2; if (T > 1000000) { u64 f = std::min<u64>(a, 0xffffffffULL); sur(f, 0, true); x.fin(0, c); u64 r = T - f; while (r) { u64 q = std::min<u64>(r, 0xffffffffULL); sur(q, 0, true); r -= q; x.fin(0, c); } } else { sur(a, 0, false); x.fin(0, c); sur(T - a, 0, false); x.fin(0, c); } x.fin(0, c); }
    else { note("second_copy"); x.vinit(0, c, k, m); x.push(0, c, sg, 0, L); if (x.g.chance(1, 2)) x.fin(0, c); u64 off = x.g.chance(1, 2) ? 0 : x.g.below(L); if (off) { x.push(0, c, sg, 0, off); x.fin(0, c); } x.push(0, c, sg, off, L - off, x.g.chance(1, 2) ? 0 : n * 31); x.fin(0, c); x.push(0, c, sg, 0, L); x.fin(0, c); } } }

// ------------------------------------------------------------------ C06 after a failure
static void gen_c06(G &x) { bool s = x.g.chance(4, 10); string ps = s ? SSETS[x.index / 3 % 6] : x.fset(); const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(); x.p.lib = x.lib(x.g.chance(3, 4) ? "fast-tune" : "fast", ps); int k, m; int sg = a_sig(x, ps, 2, false, &k, &m); int c = x.ctx(); int sess = 2 + (int)x.g.below(4);
  for (int i = 0; i < sess; i++) { unsigned w = (unsigned)x.g.below(8); x.vinit(0, c, k, m); x.p.tasks[0].back().tag = "restart_session"; if (x.g.chance(1, 2)) x.fin(0, c, x.g.chance(1, 12) ? x.many() : 1 + x.g.below(3));
    auto mq = [&]() { if (x.g.chance(1, 6)) { x.fin(0, c, x.many()); x.p.tasks[0].back().tag = "many_queries"; } };
    if (w == 0) { if (x.g.chance(1, 6)) { u64 h = x.g.below(L); x.push(0, c, sg, 0, h); mq(); x.push(0, c, sg, h, L - h); } else x.pushes(0, c, P, sg, 0, L, -1, 0, true); x.fin(0, c, 1 + x.g.below(4)); mq(); if (x.g.chance(1, 4)) { Op &o = x.push(0, c, sg, 0, 0); o.rep = (i64)x.many(); o.tag = "empty_delivery"; x.fin(0, c); } continue; }         // probed genuine session
    if (w <= 4) { u64 pos = x.g.chance(1, 4) ? L - 1 - x.g.below(2 * n) : x.g.below(L); x.pushes(0, c, P, sg, 0, L, (i64)pos, 1 + (int)x.g.below(255), x.g.chance(1, 2)); x.p.tasks[0].back().tag = "damaged_stream"; }
    else if (w == 5) { x.push(0, c, sg, 0, L + 1 + x.g.below(3 * n)).tag = "surplus_same_call"; }
    else if (w == 6) { x.push(0, c, sg, 0, L); x.push(0, c, sg, 0, n + x.g.below(3 * n)).tag = "surplus_later_calls"; }
    else { x.push(0, c, sg, n, L - n); x.push(0, c, sg, 0, n).tag = "reordered_blocks"; }
    x.fin(0, c, 1 + x.g.below(4)); mq(); unsigned after = 1 + (unsigned)x.g.below(6); // the history goes on after the failure
    for (unsigned j = 0; j < after; j++) { switch (x.g.below(9)) { case 0: x.push(0, c, sg, 0, L).tag = "deliver_after_failure"; break; case 1: x.push(0, c, sg, 0, 0).tag = "empty_delivery"; break; case 2: x.push(0, c, sg, L - n, n); break; case 3: x.pushes(0, c, P, sg, 0, L); break; case 4: { u64 q = x.g.below(L); x.push(0, c, sg, q, L - q); break; } case 5: { Op &o = x.push(0, c, -1, 0, 1 + x.g.below(3 * n)); o.rl = x.fresh("j"); break; } case 6: x.push(0, c, sg, 0, 1 + x.g.below(700), 1); break; case 7: { u64 q = x.g.chance(1, 2) ? 256 : 65536; Op &o = x.push(0, c, -1, 0, q, x.g.chance(1, 2) ? 0 : 16); o.rl = "zero"; break; } default: { Op &o = x.push(0, c, -1, 0, 1ULL << x.g.range(16, 32)); o.len = std::min<i64>(o.len, 0xffffffffLL); o.rl = "zero"; o.z = 1; o.tag = "huge_delivery"; break; } } if (x.g.chance(1, 20)) { Op &o = x.push(0, c, sg, 0, 0); o.rep = (i64)x.many(); } if (x.g.chance(2, 3)) x.fin(0, c, 1 + x.g.below(3)); }
    x.fin(0, c); mq(); }
  x.vinit(0, c, k, m); x.pushes(0, c, P, sg, 0, L, -1, 0, true); x.fin(0, c); }

// ------------------------------------------------------------------ hashing sessions
static i64 trunc_len(G &x, int alg) { return alg == 0 ? 4 * (i64)(1 + x.g.below(8)) : 8 * (i64)(1 + x.g.below(8)); }   // whole words, as the interface requires
static void hash_session(G &x, int t, int h, int alg, bool small) { u64 B = alg == 0 ? 64 : alg == 1 ? 128 : 136; { Op &o = x.add(t, K_HINIT); o.h = h; o.a = alg; o.off = (i64)x.g.below(100000); }
  u64 n = small ? 1 + x.g.below(5) : 1 + x.g.below(14); for (u64 i = 0; i < n; i++) { Op &o = x.add(t, K_HUPD); o.h = h; u64 l; switch (x.g.below(9)) { case 0: l = 0; break; case 1: l = 1; break; case 2: l = B; break; case 3: l = B - 1; break; case 4: l = B + 1; break; case 5: l = B * (1 + x.g.below(4)); break; case 6: l = x.g.below(B); break; case 7: l = x.g.below(small ? 300 : 2000); break; default: l = alg == 0 ? 55 + x.g.below(3) : alg == 1 ? 111 + x.g.below(3) : 135 + x.g.below(3); break; } o.len = (i64)l; if (x.g.chance(1, 12)) o.rep = 2 + (i64)x.g.below(20); }
  if (alg == 2) { u64 q = 1 + x.g.below(6); for (u64 i = 0; i < q; i++) { Op &o = x.add(t, K_HSQ); o.h = h; static const u64 v[] = {0, 1, 16, 24, 32, 49, 135, 136, 137, 272, 273}; o.n = (i64)(x.g.chance(1, 2) ? v[x.g.below(11)] : x.g.below(500)); if (x.g.chance(1, 10)) o.rep = 1 + (i64)x.g.below(150); } if (!small && x.g.chance(1, 40)) { Op &o = x.add(t, K_HSQ); o.h = h; o.n = (i64)(65536 - 300 + x.g.below(600) + (x.g.chance(1, 4) ? x.g.below(300000) : 0)); o.tag = "long_output"; Op &o2 = x.add(t, K_HSQ); o2.h = h; o2.n = (i64)x.g.below(300); } }
  else { Op &o = x.add(t, K_HFIN); o.h = h; o.n = x.g.chance(1, 2) ? 0 : trunc_len(x, alg); } }

// ------------------------------------------------------------------ C07 interleaving
static void gen_c07(G &x) { vector<string> ls = x.of("cov"); x.p.lib = x.g.chance(2, 3) ? "cov-tune" : x.g.pick(ls); int nt = 2 + (int)x.g.below(x.g.chance(1, 3) ? 4 : 2); unsigned fam = (unsigned)x.g.below(4); bool same = x.g.chance(1, 4); string sameset = FSETS[x.g.below(6)]; bool slow = x.p.lib.find("k2") != string::npos;
  for (int t = 0; t < nt; t++) { unsigned nop = 1 + (unsigned)x.g.below(3); x.p.tasks.resize(t + 1); int c = x.ctx();
    for (unsigned i = 0; i < nop; i++) { string ps = same ? sameset : fam == 0 ? FSETS[x.g.below(3)] : fam == 1 ? FSETS[3 + x.g.below(3)] : x.g.chance(1, 6) ? SSETS[x.g.below(6)] : FSETS[x.g.below(6)]; if (slow && ps[3] == 'k' && x.g.chance(3, 4)) ps = FSETS[x.g.below(3)]; bool s = is_s(ps); const ref::Params *P = ref::find(ps); u64 n = P->n; unsigned w = (unsigned)x.g.below(10);
      if (w < 2 && !s) { int k = x.key(ps, "pool0"); Op &o = x.add(t, K_KEYGEN); o.k = k; o.f = (i64)x.g.below(4); o.pk = !x.g.chance(1, 4); unsigned r = (unsigned)x.g.below(8); if (r == 0) o.rng = RNG_FAIL; else if (r == 1) { o.rng = RNG_PART; o.rk = (i64)x.g.below(3 * n); o.rl = x.fresh("kg"); } else x.rng_ok(o, fmt("kg%llu", (unsigned long long)x.g.below(6))); }
      else if (w < 6) { int k = x.key(ps, fmt("pool%llu", (unsigned long long)x.g.below(s ? 1 : 2))), m = x.msg(x.mlen() % 1500, fmt("pm%llu", (unsigned long long)x.g.below(4))); x.sinit(t, c, k, m, x.g.chance(1, 2) ? "-" : fmt("po%llu", (unsigned long long)x.g.below(3))); if (x.g.chance(1, 8)) { Op &o = x.p.tasks[t].back(); o.rng = RNG_PART; o.rk = (i64)x.g.below(n + 1); o.rl = x.fresh("o"); }
        u64 tot = s ? 2 * n + x.g.below(n * (P->a)) : x.g.chance(1, 12) ? P->sig_len() : x.g.chance(1, 3) ? part(P, 1) : n * (2 + x.g.below(3 * P->a)); u64 pcs = 1 + x.g.below(6), at = 0; for (u64 j = 0; j < pcs && at < tot; j++) { u64 q = j + 1 == pcs ? tot - at : 1 + x.g.below(tot - at); x.pull(t, c, q); at += q; } }
      else if (w < 9) { int k, m; int sg = a_sig(x, ps, 0, false, &k, &m); u64 L = P->sig_len(); x.vinit(t, c, k, m); unsigned q = (unsigned)x.g.below(3); u64 len = q == 0 ? L : 1 + x.g.below(L); i64 xp = x.g.chance(1, 4) ? (i64)x.g.below(len) : -1; u64 at = 0, pcs = 1 + x.g.below(6); for (u64 j = 0; j < pcs && at < len; j++) { u64 z = j + 1 == pcs ? len - at : 1 + x.g.below(len - at); Op &o = x.push(t, c, sg, at, z); if (xp >= (i64)at && xp < (i64)(at + z)) { o.xp = xp - (i64)at; o.xm = 1 << x.g.below(8); } at += z; } x.fin(t, c); }
      else { x.p.hashes.push_back({x.fresh("h"), "zero"}); hash_session(x, t, (int)x.p.hashes.size() - 1, (int)x.g.below(3), true); } } }
  static const u64 means[] = {3, 20, 150, 1000, 10000, 100000}; Sched &sc = x.p.sched; if (x.g.chance(1, 6)) sc.mode = 0; else { sc.mode = 1; sc.mean = means[x.g.below(6)]; if (sc.mean < 1000 || x.g.chance(1, 2)) { sc.w0 = x.g.chance(1, 3) ? 0 : 1ULL << x.g.below(25); sc.w0 += x.g.below(sc.w0 + 1); sc.w1 = sc.w0 + sc.mean * (200 + x.g.below(100000)); } if (x.g.chance(1, 2)) { static const u64 d[] = {1, 4, 30, 400}; sc.trap = d[x.g.below(4)]; } } }

// ------------------------------------------------------------------ C08 crashes, dirty memory, restarts
static void gen_c08(G &x) { bool s = x.g.chance(1, 8); string ps = s ? SSETS[x.index / 3 % 6] : x.fset(); const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(); bool nokill = x.g.chance(1, 2); const char *fl = nokill ? "fast" : "cov"; x.p.lib = x.g.chance(2, 3) ? string(fl) + "-tune" : x.lib(fl, ps); if (nokill && !s && x.g.chance(1, 6)) { string o = x.lib("o0", ps); if (!o.empty()) x.p.lib = o; } bool slow = x.p.lib.find("k2") != string::npos; int c = x.ctx(); int rounds = 2 + (int)x.g.below(4);   // kills need the instrumented build
  auto kill = [&](u64 mx) -> i64 { if (x.g.chance(1, 8)) return -(i64)(1 + x.g.below(1ULL << x.g.below(10)));   // that long after the library first writes a variable of its own, if it does
    return (i64)(1 + x.g.below(1ULL << x.g.range(1, 63 - __builtin_clzll(mx)))); };
  int k = x.key(ps, "pool0"), m = x.msg(33 * x.g.below(2), "pm"); int sg = -1; if (!s || x.g.chance(1, 2)) { sg = x.sig(k, x.msg(33, "pm"), 0, "-"); } int vm = sg >= 0 ? x.p.sigs[sg].msg : -1; string ps2 = ps; int k2 = k; if (x.g.chance(1, 2)) { ps2 = FSETS[x.g.below(6)]; k2 = x.key(ps2, "pool0"); } const ref::Params *P2 = ref::find(ps2);
  if (x.p.lib.compare(0, 2, "o0") == 0) slow = true;
  for (int i = 0; i < rounds; i++) { if (x.g.chance(1, 3)) { Op &o = x.add(0, K_DIRTY); o.c = c; o.f = (i64)x.g.below(50); if (x.g.chance(2, 3)) o.n = (i64)(1 + x.g.below(1 << 20)); } x.add(0, K_PAINT).f = (i64)x.g.below(6);
    // something that leaves the memory torn or used
    switch (nokill ? 4 + x.g.below(3) : x.g.below(8)) {
    case 0: x.sinit(0, c, k2, m, x.g.chance(1, 2) ? "-" : "po"); x.p.tasks[0].back().kill = kill(60000); break;
    case 1: x.sinit(0, c, k2, m, "po"); x.pull(0, c, 1 + x.g.below(part(P2, 0))); { Op &o = x.add(0, K_PULL); o.c = c; o.n = (i64)P2->sig_len(); o.kill = kill(slow ? 4000000 : 16000000); } break;
    case 2: if (sg >= 0) { x.vinit(0, c, k, vm); if (x.g.chance(1, 2)) x.p.tasks[0].back().kill = kill(30000); else { Op &o = x.push(0, c, sg, 0, L); o.kill = kill(4000000); } } break;
    case 3: if (!is_s(ps2)) { Op &o = x.add(0, K_KEYGEN); o.k = k2; x.rng_ok(o, "kg1"); o.kill = kill(4000000); } break;
    case 4: x.sinit(0, c, k2, m, "po"); x.pull(0, c, 1 + x.g.below(part(P2, 1) / (is_s(ps2) ? 4 : 1))); x.p.tasks[0].back().tag = "abandoned_session"; break;
    case 5: if (sg >= 0) { x.vinit(0, c, k, vm); Op &o = x.push(0, c, sg, x.g.below(2), 1 + x.g.below(L)); o.tag = "abandoned_session"; } break;
    case 6: if (sg >= 0) { x.vinit(0, c, k, vm); Op &o = x.push(0, c, sg, 1, L + x.g.below(40)); o.tag = "failed_session"; } break;
    default: { x.p.hashes.push_back({x.fresh("h"), "ff"}); int h = (int)x.p.hashes.size() - 1; Op &o = x.add(0, K_HINIT); o.h = h; o.a = (i64)x.g.below(3); Op &u = x.add(0, K_HUPD); u.h = h; u.len = (i64)x.g.below(600); u.kill = kill(20000); hash_session(x, 0, h, (int)x.g.below(3), true); break; } }
    if (x.g.chance(1, 3)) { Op &o = x.add(0, K_DIRTY); o.c = c; o.n = (i64)(1 + x.g.below(1 << 20)); }
    // and a session that must not notice
    unsigned w = (unsigned)x.g.below(8);
    if (w < 4) { string opt = x.g.chance(1, 2) ? "-" : "po"; x.sinit(0, c, k, m, opt); if (x.g.chance(1, 3)) x.sinit(0, c, k, m, opt); u64 tot = s ? (x.g.chance(1, 4) ? part(P, 0) : 2 * n + x.g.below(3 * n * P->a)) : slow ? part(P, 0) : x.g.chance(1, 6) ? L : x.g.chance(1, 2) ? part(P, 1) : 2 * n; if (x.g.chance(1, 2)) x.pull(0, c, tot); else { u64 a = x.g.below(tot); x.pull(0, c, a); x.pull(0, c, tot - a); } if (tot == L) x.pull(0, c, 7, 2); }
    else if (w < 7 && sg >= 0) { x.vinit(0, c, k, vm); bool bad = x.g.chance(1, 4); x.pushes(0, c, P, sg, 0, L, bad ? (i64)x.g.below(L) : -1, 4); x.fin(0, c, 2); }
    else if (!s) { Op &o = x.add(0, K_KEYGEN); o.k = k; x.rng_ok(o, fmt("kg%llu", (unsigned long long)x.g.below(4))); } } }

// ------------------------------------------------------------------ C09 / C10 randomness faults
static void rng_fault(G &x, Op &o, u64 n, const char *lab) { switch (x.g.below(8)) { case 0: case 1: case 2: x.rng_ok(o, x.fresh(lab)); break; case 3: o.rng = RNG_FAIL; break; case 4: case 5: o.rng = RNG_PART; o.rl = x.g.chance(1, 4) ? "ff" : x.fresh(lab); o.rk = x.g.chance(1, 2) ? (i64)x.g.below(n + 1) : x.g.chance(1, 2) ? (i64)n : (i64)n - 1; break; case 6: o.rng = RNG_FAILAT; o.rl = x.fresh(lab); o.rk = (i64)x.g.below(3); break; default: o.rng = RNG_NULL; break; } }
static void gen_c09(G &x) { bool s = x.g.chance(1, 6); string ps = s ? SSETS[x.index / 3 % 6] : x.fset(); const ref::Params *P = ref::find(ps); x.p.lib = x.lib(x.g.chance(3, 4) ? "fast-tune" : "fast", ps); x.p.place = (int)x.g.below(3); int k = x.key(ps, "pool0"); int n = s ? 2 + (int)x.g.below(4) : 3 + (int)x.g.below(8); bool oks = !s || x.g.chance(1, 3);
  for (int i = 0; i < n; i++) { Op &o = x.add(0, K_KEYGEN); o.k = k; o.f = (i64)x.g.below(5); o.pk = !x.g.chance(1, 4); rng_fault(x, o, 3 * P->n, "kg"); if (o.rng == RNG_FAILAT && s) o.rk = 0; if (s && o.rng == RNG_OK) { if (!oks) o.rng = RNG_FAIL; else o.rl = fmt("kg%llu", (unsigned long long)x.g.below(3)); } if (o.rng == RNG_OK && x.g.chance(1, 10)) o.rl = x.g.chance(1, 2) ? "zero" : "ff"; if (x.g.chance(1, 12)) o.nullarg = 1 + (i64)x.g.below(2); if (x.g.chance(1, 6)) x.add(0, K_PAINT).f = (i64)x.g.below(6); }
  if (x.g.chance(1, 15)) { Op &o = x.add(0, K_KEYGEN); o.k = k; o.rng = x.g.chance(1, 2) && !s ? RNG_OK : RNG_FAIL; o.rl = "kg0"; o.rep = o.rng == RNG_OK ? 50 + (i64)x.g.below(250) : (i64)x.many(); o.tag = "long_history"; }
  { Op &o = x.add(0, K_KEYGEN); o.k = k; x.rng_ok(o, s ? "kg0" : x.fresh("kg")); } }
static void gen_c10(G &x) { bool s = x.g.chance(3, 10); string ps = s ? SSETS[x.index / 3 % 6] : x.fset(); const ref::Params *P = ref::find(ps); u64 n = P->n; x.p.lib = x.lib(x.g.chance(3, 4) ? "fast-tune" : "fast", ps); x.p.place = (int)x.g.below(3); int k = x.key(ps, s ? "pool0" : x.keylabel(3, 20)); int c = x.ctx(); int sess = 4 + (int)x.g.below(12); int full = !s && x.g.chance(1, 10) ? (int)x.g.below(sess) : -1; string lastopt; vector<int> ms; for (int i = 0; i < 3; i++) ms.push_back(x.msg(x.mlen(), x.fresh("m")));
  for (int i = 0; i < sess; i++) { if (x.g.chance(1, 6)) c = x.ctx(); if (x.g.chance(1, 4)) x.add(0, K_PAINT).f = (i64)x.g.below(6); Op &o = x.add(0, K_SINIT); o.c = c; o.k = k; o.m = x.g.pick(ms); rng_fault(x, o, n, "o"); if (x.g.chance(1, 60)) { o.rep = (i64)x.many(); o.tag = "long_history"; } if (o.rng == RNG_OK && x.g.chance(1, 8)) o.rl = x.g.chance(1, 3) ? "@pub" : x.g.chance(1, 2) ? "zero" : "ff";
    if (i == full) x.pull(0, c, P->sig_len()); else { u64 t = x.g.chance(1, 6) && !s ? n * (2 + P->a) : 2 * n; if (x.g.chance(1, 3)) { x.pull(0, c, 1 + x.g.below(t - 1)); } x.pull(0, c, t); } } }

// ------------------------------------------------------------------ C11 memory discipline
static void gen_c11(G &x) { bool s = x.g.chance(1, 6); string ps = s ? SSETS[x.index / 3 % 6] : x.fset(); x.p.lib = x.lib(x.g.chance(2, 3) ? "fast-tune" : "fast", ps); auto as = x.of("asan"); if (!as.empty()) { vector<string> ok; for (auto &l : as) if (G::has(l, ps)) ok.push_back(l); if (ok.empty()) { x.p.lib = as[0]; for (auto q : FSETS) if (G::has(as[0], q)) ps = q; } else x.p.lib = x.g.pick(ok); } s = is_s(ps); const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(); bool slow = x.p.lib.find("k2") != string::npos || !as.empty();
  x.p.place = x.g.chance(1, 8) ? 0 : 1 + (int)x.g.below(2); x.p.revoke = x.g.chance(2, 3) ? 1 : 0; int ops = 1 + (int)x.g.below(4); int c = x.ctx(x.g.chance(1, 6) ? 0 : 1 + (int)x.g.below(2)); int k = x.key(ps, "pool0");
  for (int i = 0; i < ops; i++) { unsigned w = (unsigned)x.g.below(10); if (x.g.chance(1, 3)) c = x.ctx(x.g.chance(1, 6) ? 0 : 1 + (int)x.g.below(2)); x.add(0, K_PAINT).f = (i64)x.g.below(6);
    if (w < 2) { if (s && (slow || x.g.chance(1, 2))) continue; Op &o = x.add(0, K_KEYGEN); o.k = k; o.f = (i64)x.g.below(5); o.pk = !x.g.chance(1, 3); if (x.g.chance(1, 4)) rng_fault(x, o, 3 * n, "kg"); else x.rng_ok(o, x.fresh("kg")); }
    else if (w < 6) { int m = x.msg(x.g.chance(1, 5) ? 0 : x.mlen(), x.fresh("m")); x.sinit(0, c, k, m, x.g.chance(1, 2) ? "-" : x.fresh("o")); if (x.g.chance(1, 4)) rng_fault(x, x.p.tasks[0].back(), n, "o"); x.p.tasks[0].back().tag = x.p.place ? "guarded_buffers" : ""; bool whole = !s && x.g.chance(1, slow ? 12 : 3); u64 tot = whole ? L : s ? 2 * n + x.g.below(slow ? 3 * n * P->a : part(P, 0)) : x.g.chance(1, 2) ? part(P, 1) : x.g.below(part(P, 0)); x.pulls(0, c, P, tot, whole); }
    else { int m = x.msg(x.g.chance(1, 5) ? 0 : x.mlen(), x.fresh("m")); int sg = -1, kk = k, mm = m; if (x.g.chance(1, 2)) sg = a_sig(x, ps, 0, false, &kk, &mm); x.vinit(0, c, kk, mm); x.p.tasks[0].back().tag = x.p.place ? "guarded_buffers" : ""; u64 len = x.g.chance(1, 3) ? L : x.g.chance(1, 2) ? L + x.g.below(5 * n) : x.g.below(L + 1); const char *tag = ""; auto v = x.cut(P, len, &tag); u64 at = 0; string rl = x.g.chance(1, 4) ? (x.g.chance(1, 2) ? "ff" : "zero") : x.fresh("j"); for (auto &q : v) { Op &o = x.push(0, c, sg, at, q.first, q.second); if (sg < 0) { o.rl = rl; o.tag = "garbage_stream"; } at += q.first; } x.fin(0, c); if (x.g.chance(1, 3)) { Op &o = x.push(0, c, -1, 0, x.g.below(3 * n)); o.rl = rl; x.fin(0, c); } } } }

// ------------------------------------------------------------------ C12 RAM
static void gen_c12(G &x) { auto ls = x.of("os"); x.p.lib = ls[x.index % ls.size()]; vector<string> sets; Lib *l = lib_get(x.p.lib); string ps = x.p.lib.substr(x.p.lib.rfind('@') + 1); (void)l; bool s = is_s(ps), slow = ps[3] == 'k'; const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(); int k = x.key(ps, "pool0"), c = x.ctx(0); int rounds = s ? 1 : 2 + (int)x.g.below(3);
  u64 round = x.index / ls.size();
  if (s) { unsigned w = (unsigned)(round % 4); if (w == 0) { Op &o = x.add(0, K_KEYGEN); o.k = k; x.rng_ok(o, "kg1"); } else if (w == 1) { int m = x.msg(x.g.chance(1, 5) ? x.longlen(slow ? 20 : 25) : x.mlen(), x.fresh("m")); x.sinit(0, c, k, m, x.g.chance(1, 2) ? "-" : "po"); u64 tot = x.g.chance(1, slow ? 3 : 2) || round < 4 ? part(P, 1) + x.g.below(2 * n) : part(P, 0); x.pulls(0, c, P, tot, false); } else { int kk, mm; int sg = a_sig(x, ps, 0, false, &kk, &mm); x.vinit(0, c, kk, mm); x.pushes(0, c, P, sg, 0, L, x.g.chance(1, 3) ? (i64)x.g.below(L) : -1, 1); x.fin(0, c); int m2 = x.msg(x.g.chance(1, 5) ? x.longlen(slow ? 20 : 25) : x.mlen(), x.fresh("m")); x.sinit(0, c, kk, m2, "po"); x.pull(0, c, 2 * n); x.vinit(0, c, kk, m2); x.push(0, c, sg, 0, L, 1 + x.g.below(500)); x.fin(0, c); } return; }
  for (int i = 0; i < rounds; i++) { unsigned w = (unsigned)((round + (u64)i) % 4); if (round == 0) w = (unsigned)i; 
    if (w == 0) { Op &o = x.add(0, K_KEYGEN); o.k = k; if (x.g.chance(1, 6)) rng_fault(x, o, 3 * n, "kg"); else x.rng_ok(o, x.fresh("kg")); o.pk = !x.g.chance(1, 4); }
    else if (w == 1 || w == 3) { u64 ml = x.g.chance(1, 5) ? x.longlen(slow ? 20 : 25) : x.mlen(); int m = x.msg(ml, x.fresh("m")); x.sinit(0, c, k, m, x.g.chance(1, 2) ? "-" : "po"); if (x.g.chance(1, 5)) rng_fault(x, x.p.tasks[0].back(), n, "o"); u64 tot = x.g.chance(1, slow ? 12 : 4) ? L : x.g.chance(2, 3) ? part(P, 1 + (unsigned)x.g.below(2)) : part(P, 0); x.pulls(0, c, P, tot, tot == L); }
    else { int kk, mm; int sg = a_sig(x, ps, 0, false, &kk, &mm); u64 ml = x.g.chance(1, 5) ? x.longlen(slow ? 20 : 25) : x.mlen(); if (x.g.chance(1, 2)) mm = x.msg(ml, x.fresh("m")); x.vinit(0, c, kk, mm); x.pushes(0, c, P, sg, 0, L, x.g.chance(1, 3) ? (i64)x.g.below(L) : -1, 1); x.fin(0, c); if (x.g.chance(1, 3)) { x.push(0, c, sg, 0, x.g.below(3 * n)); x.fin(0, c); } } } }

// ------------------------------------------------------------------ C13 configurations
static void gen_c13(G &x) { auto as = x.of("asan"); vector<string> ls; for (auto &l : x.libs) if (l.compare(0, 4, "cfg-") == 0 || l.compare(0, 4, "asan") == 0) ls.push_back(l); (void)as; x.p.lib = ls[x.index % ls.size()]; u64 round = x.index / ls.size(); Lib *l = lib_get(x.p.lib); bool slow = x.p.lib.find("k2") != string::npos || x.p.lib.compare(0, 4, "asan") == 0; vector<string> sets; for (auto &q : l->ps) sets.push_back(q.first); std::sort(sets.begin(), sets.end()); vector<string> fs, ss; for (auto &q : sets) (is_s(q) ? ss : fs).push_back(q);
  x.p.place = x.g.chance(1, 2) ? 0 : 1 + (int)x.g.below(2); int c = x.ctx(1); 
  // round 0: every supported set verifies and emits the head of a signature; later rounds: one set in depth
  vector<string> todo; if (round == 0) todo = sets; else todo = {!ss.empty() && x.g.chance(1, 3) ? ss[x.g.below(ss.size())] : fs[(round + x.index) % fs.size()]};
  for (auto &ps : todo) { bool s = is_s(ps); const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(); int k, m; int sg = a_sig(x, ps, 0, false, &k, &m);
    if (round == 0) { for (int f = 0; f < 3; f++) { Op &o = x.add(0, K_SIZE); o.k = k; o.f = f; } x.vinit(0, c, k, m); x.push(0, c, sg, 0, L); x.fin(0, c); x.sinit(0, c, k, m, "-"); x.pull(0, c, s ? 2 * n : n * (2 + 3 * (P->a + 1))); if (!s && !slow) { Op &o = x.add(0, K_KEYGEN); o.k = k; x.rng_ok(o, "kg0"); } continue; }
    unsigned w = (unsigned)x.g.below(10); if (s && w >= 8) w = 5; const SigDef sd = x.p.sigs[sg];
    if (w < 4) { for (int i = 0; i < 3; i++) { x.vinit(0, c, k, m); bool bad = x.g.chance(1, 3); x.pushes(0, c, P, sg, 0, L, bad ? (i64)x.g.below(L) : -1, 1 << x.g.below(8)); x.fin(0, c); } }
    else if (w < 8 || (slow && s)) { bool deep = !(slow && !s) || x.g.chance(1, 4); x.sinit(0, c, k, m, sd.opt); u64 tot = s ? (slow ? 2 * n + x.g.below(2 * n * P->a) : part(P, x.g.chance(1, 3) ? 1 : 0)) : deep ? L : part(P, 1); x.pulls(0, c, P, tot, tot == L); }
    else { Op &o = x.add(0, K_KEYGEN); o.k = k; x.rng_ok(o, s ? "kg0" : x.fresh("kg")); int mm = x.msg(x.mlen(), x.fresh("m")); for (int i = 0; i < 4; i++) { x.sinit(0, c, k, mm, x.g.chance(1, 2) ? "-" : x.fresh("o")); x.pull(0, c, 2 * n); } } } }

// ------------------------------------------------------------------ C14 hashes
static void hash_runs(G &x) { int nt = 1 + (int)x.g.below(3); for (int i = 0; i < nt * 2; i++) x.p.hashes.push_back({x.g.chance(1, 8) ? (x.g.chance(1, 2) ? "zero" : "ff") : x.fresh("h"), x.g.chance(1, 2) ? "zero" : x.fresh("d")});
  for (int t = 0; t < nt; t++) { x.p.tasks.resize(t + 1); int sess = 1 + (int)x.g.below(6); for (int i = 0; i < sess; i++) { int h = t * 2 + (int)x.g.below(2); int alg = (int)x.g.below(3);
      if (alg < 2 && x.g.chance(2, 5)) { u64 B = alg == 0 ? 64 : 128; Op &o = x.add(t, K_HINIT); o.h = h; o.a = alg; o.off = (i64)x.g.below(1000); u64 left = B; while (left) { u64 q = x.g.chance(1, 2) ? left : 1 + x.g.below(left); x.add(t, K_HUPD).h = h; x.p.tasks[t].back().len = (i64)q; left -= q; } x.add(t, K_HSAVE).h = h; if (x.g.chance(1, 3)) { Op &f = x.add(t, K_HFIN); f.h = h; } int reps = 1 + (int)x.g.below(4); for (int r = 0; r < reps; r++) { int d = t * 2 + (int)x.g.below(2); if (x.g.chance(1, 2)) { Op &z = x.add(t, K_HINIT); z.h = d; z.a = alg; z.off = 0; x.add(t, K_HUPD).h = d; x.p.tasks[t].back().len = (i64)x.g.below(3 * B); } Op &rs = x.add(t, K_HREST); rs.h = d; rs.a = h; rs.off = (i64)x.g.below(5000); u64 q = x.g.below(5); for (u64 j = 0; j < q; j++) { x.add(t, K_HUPD).h = d; x.p.tasks[t].back().len = (i64)(x.g.chance(1, 3) ? B * x.g.below(3) : x.g.below(2 * B)); } Op &f = x.add(t, K_HFIN); f.h = d; f.n = x.g.chance(1, 2) ? 0 : trunc_len(x, alg); } }
      else if (x.g.chance(1, 4)) { // systematic: every total length, two pieces
        u64 len = (x.index * 7 + (u64)i * 13) % 420, a = x.g.below(len + 1); Op &o = x.add(t, K_HINIT); o.h = h; o.a = alg; o.off = (i64)x.g.below(9999); x.add(t, K_HUPD).h = h; x.p.tasks[t].back().len = (i64)a; x.add(t, K_HUPD).h = h; x.p.tasks[t].back().len = (i64)(len - a); if (alg == 2) { Op &q = x.add(t, K_HSQ); q.h = h; q.n = (i64)x.g.below(300); Op &q2 = x.add(t, K_HSQ); q2.h = h; q2.n = (i64)x.g.below(300); } else { Op &f = x.add(t, K_HFIN); f.h = h; f.n = x.g.chance(2, 3) ? 0 : trunc_len(x, alg); } }
      else hash_session(x, t, h, alg, false); } }
  x.p.sched.mode = (int)x.g.below(2); x.p.sched.mean = 1 + x.g.below(3000); }

static void gen_c14(G &x) { auto ls = x.of("cov"); auto fs = x.of("fast"); x.p.lib = x.g.chance(1, 3) && !ls.empty() ? x.g.pick(ls) : x.g.pick(fs); x.p.place = (int)x.g.below(3); hash_runs(x); }

// ------------------------------------------------------------------ C15 stray calls
static void gen_c15(G &x) { bool s = x.g.chance(1, 8); string ps = s ? SSETS[x.index / 3 % 6] : x.fset(); const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(); x.p.lib = x.lib(x.g.chance(3, 4) ? "fast-tune" : "fast", ps); x.p.place = (int)x.g.below(3); int k, m; int sg = a_sig(x, ps, 0, false, &k, &m); int c = x.ctx(1); int sess = 1 + (int)x.g.below(3);
  auto stray = [&](bool signing, bool ended) { unsigned q = 1 + (unsigned)x.g.below(3); for (unsigned i = 0; i < q; i++) { bool sg_ok = !signing || ended; unsigned w = (unsigned)x.g.below(3); static const u64 sz[] = {0, 1, 15, 16, 32, 42, 1000, 65536}; u64 rare = x.straylen(L); if (!signing) w = 0; else if (!sg_ok && w == 0) w = 1; if (w == 0) { Op &o = x.add(0, K_SSIGN); o.c = c; o.n = (i64)(x.g.chance(1, 4) ? rare : sz[x.g.below(8)]); } else if (w == 1) { Op &o = x.add(0, K_SPUSH); o.c = c; o.s = x.g.chance(1, 2) ? sg : -1; o.off = (i64)x.g.below(L); o.len = (i64)(x.g.chance(1, 4) ? rare : sz[x.g.below(7)]); o.z = o.len > 150000; } else { Op &o = x.add(0, K_SFIN); o.c = c; } } };
  if (x.g.chance(1, 3)) { Op &d = x.add(0, K_DIRTY); d.c = c; d.f = 0; for (int i = 0; i < 4; i++) { switch (x.g.below(3)) { case 0: { Op &o = x.add(0, K_SSIGN); o.c = c; o.n = (i64)(x.g.below(3) * 50); break; } case 1: { Op &o = x.add(0, K_SPUSH); o.c = c; o.s = sg; o.len = (i64)(x.g.below(4) * 16); break; } default: x.add(0, K_SFIN).c = c; } } }
  for (int i = 0; i < sess; i++) { if (x.g.chance(1, 2)) { // verifying, with requests for signature bytes at every phase
      x.vinit(0, c, k, m); const char *tag = ""; auto v = x.cut(P, L, &tag); unsigned want = 2 + (unsigned)x.g.below(12); u64 den = std::max<u64>(1, v.size() / want), at = 0; if (v.size() > 3000) { v = {{L, 0}}; } i64 xp = x.g.chance(1, 5) ? (i64)x.g.below(L) : -1; for (auto &q : v) { if (x.g.below(den) == 0) stray(false, false); if (q.second && q.first > q.second) { u64 h = q.first / 2; Op &o = x.push(0, c, sg, at, h, q.second); if (xp >= (i64)at && xp < (i64)(at + h)) { o.xp = xp - (i64)at; o.xm = 2; } stray(false, false); x.push(0, c, sg, at + h, q.first - h, q.second); } else { Op &o = x.push(0, c, sg, at, q.first, q.second); if (xp >= (i64)at && xp < (i64)(at + q.first)) { o.xp = xp - (i64)at; o.xm = 2; } } at += q.first; } stray(false, false); x.fin(0, c); stray(false, false); if (x.g.chance(1, 3)) { x.push(0, c, sg, 0, 1 + x.g.below(2 * n)); stray(false, false); x.fin(0, c); stray(false, false); } }
    else { bool whole = !s && x.g.chance(2, 5); x.sinit(0, c, k, m, x.g.chance(1, 2) ? "-" : "po"); stray(true, false); u64 tot = whole ? L : s ? 2 * n + x.g.below(n * P->a * 2) : x.g.chance(1, 2) ? part(P, 1) : part(P, 0); const char *tag = ""; auto v = x.cut(P, tot, &tag); if (v.size() > 3000) v = {{tot / 2, 0}, {tot - tot / 2, 0}}; unsigned want = 2 + (unsigned)x.g.below(12); u64 den = std::max<u64>(1, v.size() / want); for (auto &q : v) { if (q.second && q.first) { u64 r = q.first / q.second; if (r) x.pull(0, c, q.second, r); if (q.first % q.second) x.pull(0, c, q.first % q.second); } else x.pull(0, c, q.first); if (x.g.below(den) == 0) stray(true, false); } if (whole) { stray(true, true); x.pull(0, c, 5); stray(true, true); } } } }

// ------------------------------------------------------------------ C17 work
static void gen_c17(G &x) { bool s = x.g.chance(1, 8); string ps = s ? SSETS[x.index / 3 % 6] : x.fset(); const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(); x.p.lib = x.g.chance(2, 3) ? "cov-tune" : x.lib("cov", ps); bool slow = x.p.lib.find("k2") != string::npos; int ops = 1 + (int)x.g.below(3); int c = x.ctx();
  auto stray = [&](bool signer) { unsigned q = (unsigned)x.g.below(3); while (q--) { if (!signer) { Op &o = x.add(0, K_SSIGN); o.c = c; o.n = (i64)(x.g.chance(1, 2) ? 42 : x.straylen(L)); } else if (x.g.chance(1, 2)) { Op &o = x.add(0, K_SPUSH); o.c = c; o.len = (i64)(x.g.chance(1, 2) ? x.g.below(100) : x.straylen(L)); o.z = o.len > 150000; } else x.add(0, K_SFIN).c = c; } };
  for (int i = 0; i < ops; i++) { unsigned w = (unsigned)x.g.below(8); if (s && w < 5) w = 5;
    if (w == 0) { int k = x.key(ps, "pool0"); for (int j = 0; j < 2; j++) { Op &o = x.add(0, K_KEYGEN); o.k = k; o.pk = !x.g.chance(1, 3); rng_fault(x, o, 3 * n, "kg"); if (x.g.chance(1, 8)) o.nullarg = 1 + (i64)x.g.below(2); } }
    else if (w < 5) { int k = x.key(ps, x.g.chance(1, 2) ? "pool0" : x.fresh("k")); u64 ml = x.g.chance(1, 4) ? x.g.below(400000) : x.mlen(); int m = x.msg(ml, x.fresh("m")); x.sinit(0, c, k, m, x.g.chance(1, 2) ? "-" : x.fresh("o")); stray(true); bool whole = x.g.chance(1, slow ? 8 : 3); if (x.g.chance(1, 4)) { unsigned lay = x.g.chance(2, 3) ? 0 : (unsigned)x.g.below(slow ? 2 : P->d); u64 at = part(P, lay), b = x.g.below(2 * n + 3 + P->hp + 1); if (x.g.chance(1, 3)) { at = 0; b = 1 + x.g.below(P->k * (P->a + 1)); } x.pull(0, c, at + n * b); continue; } u64 tot = whole ? L : x.g.chance(1, 2) ? part(P, 1) : x.g.below(part(P, 2)); x.pulls(0, c, P, tot, whole); stray(true); if (whole) { Op &o = x.add(0, K_SSIGN); o.c = c; o.n = 1000; } }
    else { int k, m; int sg = a_sig(x, ps, 0, false, &k, &m); if (x.g.chance(1, 4)) m = x.msg(x.g.below(400000), x.fresh("m")); x.vinit(0, c, k, m); stray(false); u64 len = x.g.chance(1, 2) ? L : x.g.chance(1, 2) ? L + x.g.below(40 * n) : 3 * L; bool junk = x.g.chance(1, 3); const char *tag = ""; auto v = x.cut(P, len, &tag); string rl = x.g.chance(1, 3) ? (x.g.chance(1, 2) ? "ff" : "zero") : x.fresh("j"); u64 at = 0; bool first = true; i64 xp = x.g.chance(1, 3) ? (i64)x.g.below(len) : -1; u64 den = std::max<u64>(1, v.size() / (1 + x.g.below(30))); for (auto &q : v) { Op &o = x.push(0, c, junk ? -1 : sg, at, q.first, q.second); if (junk) o.rl = rl; if (first) o.tag = junk ? "garbage_stream" : tag; first = false; if (xp >= (i64)at && xp < (i64)(at + q.first)) { o.xp = xp - (i64)at; o.xm = 1 << x.g.below(8); } at += q.first; if (x.g.below(den) == 0) { if (x.g.chance(1, 4)) stray(false); x.fin(0, c, 1 + x.g.below(2)); if (x.g.chance(1, 4)) x.push(0, c, sg, at, 0, 0); } } stray(false); x.fin(0, c, 1 + x.g.below(3)); if (x.g.chance(1, 4)) { Op &o = x.push(0, c, -1, 0, x.g.chance(1, 2) ? 0x7fffffff : 1 + x.g.below(1 << 20)); o.z = 1; o.tag = "huge_surplus"; x.fin(0, c); } } } }

// secrets in disguise: the same request for keys that differ only in their secret parts
static void gen_c16(G &x) { bool s = x.index % 16 == 15; string ps = s ? SSETS[x.index / 16 % 6] : x.fset(); const ref::Params *P = ref::find(ps); u64 n = P->n; auto ls = x.of("leak"); vector<string> ok; for (auto &l : ls) if (G::has(l, ps)) ok.push_back(l); x.p.lib = x.g.pick(ok); x.p.place = x.g.chance(1, 2) ? 0 : 1; bool slow = (ps[3] == 'k' && (x.p.lib.find("k2") != string::npos || x.p.lib.find("tune") != string::npos || x.p.lib.compare(0, 5, "leak0") == 0)) || (x.p.lib.compare(0, 5, "leak0") == 0 && ps.find("128") == string::npos); { CtxDef c; c.place = x.p.place; c.init = "zero"; x.p.ctxs.push_back(c); }
  // a base key and variants: random, constant, sparse, one bit away, one byte zeroed
  auto secret = [&](u64 lo, u64 len, const bytes &base, int how) { vector<Flip> f; bytes w; switch (how) { case 0: w = stream(x.fresh("v"), len); break; case 1: w = bytes(len, 0); break; case 2: w = bytes(len, 0xff); break; case 3: w = stream(x.fresh("sml"), len); break; case 4: w = bytes(base.begin() + lo, base.begin() + lo + len); w[x.g.below(len)] ^= (u8)(1 << x.g.below(8)); break; case 5: w = bytes(base.begin() + lo, base.begin() + lo + len); w[x.g.below(len)] = (u8)(x.g.chance(1, 2) ? 0 : 0x80 | x.g.below(128)); break; default: { w = stream(x.fresh("v"), len); u64 a = x.g.below(len), b = a + x.g.below(len - a + 1); u8 v = x.g.chance(1, 2) ? 0 : 0xff; for (u64 i = a; i < b; i++) w[i] = v; } } for (u64 i = 0; i < len; i++) if (w[i] != base[lo + i]) f.push_back({lo + i, (unsigned)(w[i] ^ base[lo + i])}); return f; };
  unsigned mode = (unsigned)(s ? 2 : x.index / 6 % 4);
  if (mode == 0) { int k = x.key(ps, "pool0"); unsigned v = slow ? 2 : 3 + (unsigned)x.g.below(4); i64 pk = x.g.chance(2, 3); static const char *lab[] = {"zero", "ff", "sml", "kg"}; for (unsigned i = 0; i < v; i++) { Op &o = x.add(0, K_KEYGEN); o.k = k; o.pk = pk; o.f = 1; unsigned q = (unsigned)x.g.below(5); x.rng_ok(o, q < 2 ? lab[q] : q == 2 ? x.fresh("sml") : x.fresh("kg")); o.tag = "secret_variant"; } return; }
  string kl = x.g.chance(1, 4) ? "pool0" : x.fresh("k"); bytes base = oracle_keygen(P, stream(kl, 3 * n)).sk(); int k0 = x.key(ps, kl); string opt = x.g.chance(1, 2) ? "-" : x.fresh("o");
  if (mode == 1 && x.g.chance(1, 3)) { // very many keys, each asked for little: conditions that single values of secret bytes meet
    u64 len = x.g.below(70); int m = x.msg(len, x.fresh("m")); bool who = x.g.chance(1, 2); unsigned v = (ps[3] == 'k' ? slow ? 30 : 150 : 300); auto go = [&](int k, bool first) { x.sinit(0, 0, k, m, opt); if (!first) x.p.tasks[0].back().tag = who ? "signing_seed_variant" : "randomiser_secret_variant"; if (who) x.pull(0, 0, n, 2); }; go(k0, true);
    for (unsigned i = 0; i < v; i++) { auto f = secret(who ? 0 : n, n, base, x.g.chance(1, 10) ? (int)x.g.below(7) : 0); if (f.empty()) continue; x.p.keys.push_back({ps, kl, f}); go((int)x.p.keys.size() - 1, false); } return; }
  if (mode == 1) { for (int r = 0; r < 3; r++) { u64 len = r == 0 ? slow ? 3000 + x.g.below(3000) : 20000 + x.g.below(20000) : x.mlen(); if (slow && len > 6000) len = 600; int m = x.msg(len, x.fresh("m")); unsigned v = 4 + (unsigned)x.g.below(6); x.sinit(0, 0, k0, m, opt); for (unsigned i = 0; i < v; i++) { unsigned w = (unsigned)x.g.below(3); vector<Flip> f; if (w != 1) f = secret(0, n, base, (int)x.g.below(7)); if (w >= 1) { auto g2 = secret(n, n, base, (int)x.g.below(7)); f.insert(f.end(), g2.begin(), g2.end()); } if (f.empty()) continue; int k = x.key(ps, kl, f); x.sinit(0, 0, k, m, opt); x.p.tasks[0].back().tag = w == 0 ? "signing_seed_variant" : "randomiser_secret_variant"; } } return; }
  // the signature, block by block; WOTS chain lengths are public, so blocks are compared by chain length
  { int m = x.msg(x.mlen(), x.fresh("m")); unsigned v = s ? 2 : slow ? 2 : 5 + (unsigned)x.g.below(8); u64 F = 1 + P->k * (P->a + 1); u64 blocks = s ? 2 + x.g.below(P->a - (slow ? 4 : 2)) : slow && x.g.chance(5, 6) ? 2 + x.g.below(3 * P->a) : mode == 2 ? F + x.g.below(2 * n + 3 + P->hp) : F + (2 * n + 3 + P->hp) * (x.g.chance(1, 3) ? 2 : 1); if (!s && !slow && mode == 3 && ps[ps.size() - 2] == '8' && x.p.lib.compare(0, 5, "leak0") != 0 && x.g.chance(1, 3)) blocks = P->sig_len() / n, v = 1; u64 skip = !s && blocks > F && x.g.chance(2, 3) ? F : !s && blocks > 8 && x.g.chance(1, 2) ? x.g.below(blocks - 4) : 0;
    for (unsigned i = 0; i <= v; i++) { int k = k0; if (i) { auto f = secret(0, n, base, (int)x.g.below(7)); if (f.empty()) continue; k = x.key(ps, kl, f); } Op &d = x.add(0, K_DIRTY); d.c = 0; x.sinit(0, 0, k, m, opt); if (i) x.p.tasks[0].back().tag = "signing_seed_variant"; if (skip) { x.pull(0, 0, n * skip); x.pull(0, 0, n, blocks - skip); } else x.pull(0, 0, n, blocks); } } }
// ------------------------------------------------------------------ C18 platforms
static void gen_c18(G &x) { x.p.lib = x.libs[x.index % x.libs.size()]; const string &l = x.p.lib; u64 round = x.index / x.libs.size(); bool guest = l.compare(2, 2, "32") == 0, z = l.compare(0, 3, "o0-") == 0 || l.compare(0, 5, "be32z") == 0; u64 cost = (guest ? 30 : 1) * (z ? 5 : 1) * (l.find("k2") != string::npos ? 8 : 1);
  x.p.place = x.g.chance(1, 2) ? 0 : 1 + (int)x.g.below(2); x.p.skew = x.p.place == 0 ? (int)x.g.below(8) : 0;
  if (round % 4 == 3) { hash_runs(x); return; }
  vector<string> fs, ss; for (auto &q : lib_get(l)->ps) (is_s(q.first) ? ss : fs).push_back(q.first); std::sort(fs.begin(), fs.end()); std::sort(ss.begin(), ss.end()); auto size = [&](int k) { for (int f = 0; f < 3; f++) { Op &o = x.add(0, K_SIZE); o.k = k; o.f = f; } };
  auto work = [&](const string &ps) { return cost * (ps[3] == 'k' ? 4 : guest ? 3 : 1) * (ps.find("128") != string::npos ? 1 : ps[3] == 'k' ? 2 : 4); };   // of one verification of an f set, in milliseconds or so
  u64 left = 700; int c = x.ctx(1); for (int it = 0; it < 6 && left > 0; it++) { bool s = !ss.empty() && x.g.chance(1, 4); string ps = s ? ss[x.g.below(ss.size())] : fs[(round + x.index + (u64)it) % fs.size()]; const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(), w = work(ps); int k, m; int sg = a_sig(x, ps, 0, false, &k, &m); if (it == 0) size(k); u64 use;
    switch (x.g.below(round == 0 && it < 2 ? 3 : 5)) {
    case 0: { use = w; x.vinit(0, c, k, m); bool bad = x.g.chance(1, 3); x.pushes(0, c, P, sg, 0, L, bad ? (i64)x.g.below(L) : -1, 1 << x.g.below(8)); x.fin(0, c); if (x.g.chance(1, 3)) { x.push(0, c, sg, 0, 1 + x.g.below(2 * n)); x.fin(0, c); } if (x.g.chance(1, 3)) { Op &o = x.add(0, K_SSIGN); o.c = c; o.n = (i64)(1 + x.g.below(100)); } break; }
    case 1: { if (s) { use = 0; break; } use = w * 3; Op &o = x.add(0, K_KEYGEN); o.k = k; o.pk = x.g.chance(3, 4); if (x.g.chance(1, 5)) { o.rng = (int)(x.g.chance(1, 2) ? RNG_FAIL : RNG_PART); o.rl = x.fresh("f"); o.rk = (i64)x.g.below(3 * n); use = 1; } else x.rng_ok(o, x.fresh("kg")); break; }
    case 2: { int mm = x.msg(x.mlen(), x.fresh("m")); use = 1; for (int i = 0; i < 3; i++) { x.sinit(0, c, k, mm, x.g.chance(1, 2) ? "-" : x.fresh("o")); u64 tot = s ? 2 * n : n * (1 + x.g.below(3 * (P->a + 1))); use += s ? w : w * 2; x.pulls(0, c, P, tot, false); } break; }
    default: { const SigDef sd = x.p.sigs[sg]; x.sinit(0, c, k, m, sd.opt); u64 full = w * 50; if (!s && (full < 2000 || x.g.chance(1, full / 2000 + 1))) { x.pulls(0, c, P, L, true); use = full; } else { u64 tot = s ? 2 * n + x.g.below(2 * n * (guest || z ? 2 : P->a)) : part(P, full / 3 < 2000 && x.g.chance(1, 2) ? 1 : 0); if (guest && !s && full > 8000) tot = n * (1 + x.g.below(4 * P->a)); x.pulls(0, c, P, tot, false); use = s ? full : full / 2; } break; } }
    left -= std::min(left, use); } }
// ------------------------------------------------------------------ C19 sessions that are copied, moved, checkpointed and resumed
static void gen_c19(G &x) { bool cov = x.g.chance(1, 3); const char *fl = cov ? "cov" : "fast"; x.p.lib = x.g.chance(3, 4) ? string(fl) + "-tune" : x.lib(fl); bool slow = x.p.lib.find("k2") != string::npos; int nt = 1 + (int)x.g.below(3), hs = 0; unsigned fam = (unsigned)x.g.below(3); string same = x.fset(); bool allsame = x.g.chance(1, 3);
  struct Ses { int type = -1, k = 0, m = 0, sg = -1, alg = 0; string ps, opt; u64 at = 0, tot = 0; bool whole = false; i64 xp = -1; };   // type: 0 signs, 1 verifies, 2 hashes, -1 free memory
  for (int t = 0; t < nt; t++) { x.p.tasks.resize(t + 1); int areas = 3 + (int)x.g.below(3); vector<Ses> A(areas), B(2); vector<int> ci(areas), hi(2); for (auto &c : ci) c = x.ctx((int)x.g.below(3)); for (auto &h : hi) { x.p.hashes.push_back({fmt("c19h%d_%llu", hs++, (unsigned long long)x.g.below(1000)), x.g.chance(1, 2) ? "zero" : "ff"}); h = (int)x.p.hashes.size() - 1; }
    int starts = 2 + (int)x.g.below(4), steps = 12 + (int)x.g.below(30); bool late = x.g.chance(1, 4);
    auto startat = [&](int a) { Ses s; string ps = allsame ? same : x.g.chance(1, 8) ? SSETS[x.g.below(6)] : fam == 0 ? FSETS[x.g.below(3)] : fam == 1 ? FSETS[3 + x.g.below(3)] : FSETS[x.g.below(6)]; if (slow && ps[3] == 'k' && x.g.chance(3, 4)) ps = FSETS[x.g.below(3)]; const ref::Params *P = ref::find(ps); bool sm = is_s(ps); u64 n = P->n, L = P->sig_len(); s.ps = ps;
      if (x.g.chance(1, 2)) { s.type = 0; s.opt = x.g.chance(1, 2) ? "-" : "po"; s.k = x.key(ps, "pool0"); s.m = x.msg(33 * x.g.below(2), "pm"); s.tot = sm ? 2 * n + x.g.below(n * P->a) : slow ? part(P, 0) : x.g.chance(1, 6) ? L : x.g.chance(1, 2) ? part(P, 1) + x.g.below(part(P, 2) - part(P, 1)) : n * (2 + x.g.below(4 * P->a)); s.whole = s.tot == L; x.sinit(t, ci[a], s.k, s.m, s.opt); }
      else { s.type = 1; s.sg = a_sig(x, ps, 0, false, &s.k, &s.m); s.tot = L; s.xp = x.g.chance(1, 4) ? (i64)x.g.below(L) : -1; x.vinit(t, ci[a], s.k, s.m); }
      if (late || x.g.chance(1, 3)) { u64 q = x.g.below(s.tot); if (s.type == 0) x.pull(t, ci[a], q); else { Op &o = x.push(t, ci[a], s.sg, 0, q); if (s.xp >= 0 && s.xp < (i64)q) { o.xp = s.xp; o.xm = 1; } } s.at = q; }
      A[a] = s; };
    auto advance = [&](int a) { Ses &s = A[a]; const ref::Params *P = ref::find(s.ps); u64 left = s.tot - s.at, q = x.g.chance(1, 12) ? 0 : x.g.chance(1, 8) ? left : x.g.chance(1, 4) ? x.g.below(left + 1) : std::min(left, x.piece(P)); if (!left) q = 0;
      if (s.type == 0) { if (!left && s.whole) x.pull(t, ci[a], x.g.below(50), 1, "request_after_end"); else x.pull(t, ci[a], q); s.at += q; if (!left) s.type = -1; }
      else { if (left) { Op &o = x.push(t, ci[a], s.sg, s.at, q); if (s.xp >= (i64)s.at && s.xp < (i64)(s.at + q)) { o.xp = s.xp - (i64)s.at; o.xm = 1 << x.g.below(8); } s.at += q; } if (!left || x.g.chance(1, 30)) x.fin(t, ci[a]); if (!left) { if (x.g.chance(1, 2)) s.type = -1; else if (x.g.chance(1, 2)) x.push(t, ci[a], s.sg, 0, 1 + x.g.below(40)); } } };
    auto move = [&](int from, int to, int f) { Op &o = x.add(t, K_MOVE); o.c = ci[from]; o.a = ci[to]; o.f = f; o.n = (i64)x.g.below(3); o.nullarg = x.g.chance(1, 4); A[to] = A[from]; if (f) A[from].type = -1; };
    auto pickfree = [&](bool free) { vector<int> v; for (int i = 0; i < areas; i++) if ((A[i].type < 0) == free) v.push_back(i); return v.empty() ? -1 : x.g.pick(v); };
    for (int i = 0; i < steps; i++) { int a = pickfree(false), fr = pickfree(true); if (fr >= 0 && (a < 0 || (starts > 0 && x.g.chance(1, 4)))) { if (starts-- <= 0) break; startat(fr); a = fr; fr = pickfree(true); }
      if (a >= 0) { unsigned w = (unsigned)x.g.below(20);
        if (w < 9) advance(a);
        else if (w < 13 && fr >= 0) { move(a, fr, 1 + (int)x.g.below(2)); if (x.g.chance(1, 2)) advance(fr); }                    // the old memory is overwritten or taken away
        else if (w < 15 && fr >= 0) { move(a, fr, 0); if (x.g.chance(1, 2)) { advance(x.g.chance(1, 2) ? a : fr); } }                 // two sessions from here on
        else if (w == 15 && fr >= 0 && starts > 0) { starts--; move(a, fr, 0); startat(a); advance(a); }                           // its memory is used by another session
        else if (w == 16 && fr >= 0 && A[a].at < A[a].tot) { // work past a checkpoint is lost and done again
          Ses keep = A[a]; move(a, fr, 0); if (cov && x.g.chance(2, 3)) { if (keep.type == 0) { Op &o = x.add(t, K_PULL); o.c = ci[a]; o.n = (i64)(keep.tot - keep.at); o.kill = (i64)(1 + x.g.below(1ULL << x.g.below(22))); } else { Op &o = x.push(t, ci[a], keep.sg, keep.at, keep.tot - keep.at); o.kill = (i64)(1 + x.g.below(1ULL << x.g.below(20))); } } else { int q = 1 + (int)x.g.below(3); while (q-- && A[a].type >= 0) advance(a); } A[a].type = -1; move(fr, a, (int)x.g.below(3)); if (A[fr].type >= 0 && x.g.chance(1, 2)) A[fr].type = -1; advance(a); }
        else if (w == 17) { int b = pickfree(false); if (b != a && fr >= 0) { Ses sa = A[a], sb = A[b]; move(a, fr, 0); move(b, a, 0); move(fr, b, 1); advance(a); } else advance(a); } // two sessions trade places
        else { int h = (int)x.g.below(2); Ses &s = B[h];
          if (s.type < 0) { s.type = 2; s.alg = (int)x.g.below(3); s.at = 0; Op &o = x.add(t, K_HINIT); o.h = hi[h]; o.a = s.alg; Op &u = x.add(t, K_HUPD); u.h = hi[h]; u.len = (i64)x.g.below(300); }
          else { if (x.g.chance(2, 3)) { int f = (int)x.g.below(3); Op &o = x.add(t, K_HMOVE); o.h = hi[h]; o.a = hi[1 - h]; o.f = f; o.n = (i64)x.g.below(3); o.nullarg = x.g.chance(1, 4); B[1 - h] = s; if (f) s.type = -1; h = 1 - h; }
            Ses &q = B[h]; if (q.at == 0 && x.g.chance(1, 2)) { Op &u = x.add(t, K_HUPD); u.h = hi[h]; u.len = (i64)x.g.below(300); } else if (q.alg == 2) { Op &o = x.add(t, K_HSQ); o.h = hi[h]; o.n = (i64)x.g.below(200); q.at = 1; } else { Op &o = x.add(t, K_HFIN); o.h = hi[h]; o.n = x.g.chance(1, 2) ? 0 : trunc_len(x, q.alg); q.type = -1; } } } } }
    for (int a = 0; a < areas; a++) if (A[a].type == 1 && x.g.chance(2, 3)) { Ses &s = A[a]; if (s.at < s.tot) { Op &o = x.push(t, ci[a], s.sg, s.at, s.tot - s.at); if (s.xp >= (i64)s.at) { o.xp = s.xp - (i64)s.at; o.xm = 2; } } x.fin(t, ci[a]); } else if (A[a].type == 0 && A[a].at < A[a].tot) x.pull(t, ci[a], A[a].tot - A[a].at); }
  if (cov && nt > 1 && x.g.chance(1, 3)) { x.p.sched.mode = 1; static const u64 means[] = {150, 1000, 10000, 100000}; x.p.sched.mean = means[x.g.below(4)]; x.p.sched.w0 = 1ULL << x.g.below(22); x.p.sched.w1 = x.p.sched.w0 + x.p.sched.mean * (200 + x.g.below(20000)); } }
// six early runs sign once with every small-parameter set from the first to the last byte: code that only their last layers
// reach is reached in every search, however short
static bool gen_wholes(G &x) { if (x.index < 9 || x.index > 14 || !(x.p.prop == "C02" || x.p.prop == "C07" || x.p.prop == "C08" || x.p.prop == "C10" || x.p.prop == "C11" || x.p.prop == "C15" || x.p.prop == "C17")) return false;
  string ps = SSETS[x.index - 9]; const string &pr = x.p.prop; string lib = pr == "C17" || pr == "C07" ? "cov-tune" : "fast-tune"; if (std::find(x.libs.begin(), x.libs.end(), lib) == x.libs.end() || !G::has(lib, ps)) return false;
  const ref::Params *P = ref::find(ps); u64 n = P->n, L = P->sig_len(); x.p.lib = lib; x.p.place = pr == "C11" ? 1 + (int)x.g.below(2) : (int)x.g.below(3); if (pr == "C11") x.p.revoke = x.g.chance(1, 2) ? 1 : 0; int k, m; a_sig(x, ps, 0, false, &k, &m); int c = x.ctx(pr == "C11" ? 1 + (int)x.g.below(2) : 0);
  if (pr == "C02") { m = x.msg(x.mlen(), x.fresh("m")); x.sinit(0, c, k, m, x.g.chance(1, 2) ? "-" : x.fresh("o")); x.pull(0, c, L); return true; }
  u64 last = L - n * (1 + x.g.below(P->hp));
  if (pr == "C07") { // two or three at once, in step through all layers
    int nt = 2; x.p.tasks.resize(nt); for (int t = 0; t < nt; t++) { int ct = t ? x.ctx() : c; x.sinit(t, ct, k, m, "-"); x.pull(t, ct, last - (u64)t * n * x.g.below(3)); x.pull(t, ct, L, 1, "request_after_end"); } x.p.sched.mode = 1; x.p.sched.mean = 20000 << x.g.below(5); x.p.sched.w0 = 0; x.p.sched.w1 = ~0ULL; return true; }
  if (pr == "C08") { // sessions abandoned in their last layer, then another in the same memory
    int s0 = a_sig(x, ps, 0, false, &k, &m); x.vinit(0, c, k, m); x.push(0, c, s0, 0, last); x.sinit(0, c, k, m, "-"); x.pull(0, c, part(P, 1)); x.vinit(0, c, k, m); x.push(0, c, s0, 0, L); x.sinit(0, c, k, m, "-"); x.pull(0, c, last); x.sinit(0, c, k, m, "-"); x.pull(0, c, part(P, 1)); x.vinit(0, c, k, m); x.push(0, c, s0, 0, L); x.fin(0, c); return true; }
  x.sinit(0, c, k, m, "-"); if (pr == "C10") x.p.tasks[0].back().rng = RNG_FAIL;
  if (pr != "C15") { x.pulls(0, c, P, L, true); if (pr == "C17") { Op &o = x.add(0, K_SSIGN); o.c = c; o.n = 1000; } return true; }
  u64 at = 0; while (at < L) { u64 q = std::min<u64>(L - at, at >= L - n * (P->hp + 2) ? 1 + x.g.below(n) : at < L - n * (P->hp + 2) && x.g.chance(1, 8) ? L - n * (P->hp + 2) - at : 1 + x.g.below(x.g.chance(1, 2) ? L / 3 : 3 * n)); x.pull(0, c, q); at += q; Op &o = x.add(0, x.g.chance(1, 2) ? K_SPUSH : K_SFIN); o.c = c; if (o.kind == K_SPUSH) o.len = (i64)x.g.below(200); }
  x.add(0, K_SFIN).c = c; { Op &o = x.add(0, K_SSIGN); o.c = c; o.n = (i64)x.g.below(100); } x.pull(0, c, 5); return true; }

// What the library says about sizes is what applications allocate and send: asked for in between, it must be right and change nothing.
static void size_queries(G &x) {
  Rng g(mix(x.p.seed, 0x517e)); if (x.p.keys.empty() || g.chance(2, 3)) return;
  for (auto &t : x.p.tasks) { if (t.size() > 5000) continue; vector<Op> o2; for (auto &o : t) { if (g.chance(1, 12)) { Op q; q.task = o.task; q.kind = K_SIZE; q.f = (i64)g.below(3); q.k = (i64)g.below(x.p.keys.size()); o2.push_back(q); } o2.push_back(o); } t = o2; }
}
// Applications keep a few buffers and load one key or message after the other into them: now and then, before a session
// starts, its key or message trades places in memory with another one (a no-op while a session needs either), at times one
// that a short-lived session has just been using.
static void memory_reuse(G &x, const string &prop) {
  Rng g(mix(x.p.seed, 0x5a9)); if (g.chance(1, 3)) return;
  bool decoys = g.chance(1, 2); i64 left = 12; size_t nk = x.p.keys.size(), nm = x.p.msgs.size(); std::map<i64, i64> dk, dm;
  for (auto &t : x.p.tasks) { vector<Op> o2; for (size_t q = 0; q < t.size(); q++) { const Op &o = t[q];
    if ((o.kind == K_SINIT || o.kind == K_VINIT) && o.k >= 0 && o.m >= 0 && o.rep <= 1 && !o.nullarg && g.chance(1, 2)) {
      bool keys = g.chance(1, 2), decoy = decoys && left > 0 && x.p.keys[(size_t)o.k].ps.back() == 'f' && g.chance(1, 2); i64 other = -1; u64 ml = x.p.msgs[(size_t)o.m].len;
      if (decoy && keys) { if (!dk.count(o.k)) { KeyDef d = x.p.keys[(size_t)o.k]; d.label = "reuse"; d.flips.clear(); x.p.keys.push_back(d); dk[o.k] = (i64)x.p.keys.size() - 1; } other = dk[o.k]; }
      else if (decoy && ml > 0 && ml < 65536) { if (!dm.count(o.m)) { auto d = x.p.msgs[(size_t)o.m]; d.label = "reuse"; d.flips.clear(); x.p.msgs.push_back(d); dm[o.m] = (i64)x.p.msgs.size() - 1; } other = dm[o.m]; }
      if (other >= 0) { left--;
        Op s = o; s.k = keys ? other : o.k; s.m = keys ? o.m : other; s.kill = 0; s.tag.clear(); s.delay = 0; if (prop != "C04" || g.chance(1, 2)) { s.kind = K_SINIT; s.rng = RNG_NULL; s.rl.clear(); s.rk = 0; } o2.push_back(s);
        if (s.kind == K_VINIT) { for (size_t z = q + 1; z < t.size(); z++) if (t[z].kind == K_PUSH && t[z].c == o.c) { if (t[z].s >= 0 && t[z].xp < 0 && !t[z].z) { Op u = t[z]; u.off = 0; u.len = 32; u.rep = 1; u.kill = 0; u.tag.clear(); o2.push_back(u); } break; } }
        else if (g.chance(1, 2)) { Op u; u.task = o.task; u.kind = K_PULL; u.c = o.c; u.n = 1 + (i64)g.below(100); o2.push_back(u); }
      }
      else { vector<i64> c; if (keys) { for (size_t i = 0; i < nk; i++) if ((i64)i != o.k && (x.p.keys[i].ps == x.p.keys[(size_t)o.k].ps || g.chance(1, 4))) c.push_back((i64)i); }
        else for (size_t i = 0; i < nm; i++) if ((i64)i != o.m && (x.p.msgs[i].len == ml || g.chance(1, 4))) c.push_back((i64)i);
        if (!c.empty()) other = c[g.below(c.size())]; }
      if (other >= 0) { Op s; s.task = o.task; s.kind = K_SWAP; s.c = o.c; s.f = !keys; s.k = keys ? o.k : -1; s.m = keys ? -1 : o.m; s.a = other; o2.push_back(s); } }
    o2.push_back(o); } t = o2; }
}
Plan generate(const string &prop, u64 seed, u64 index, const vector<string> &libs, int tier) {
  G x(prop, seed, index, libs, tier); x.p.tasks.resize(1);
  if (gen_wholes(x)) ; else if (prop == "C01") gen_c01(x); else if (prop == "C02") gen_c02(x); else if (prop == "C03") gen_c03(x); else if (prop == "C04") gen_c04(x); else if (prop == "C05") gen_c05(x); else if (prop == "C06") gen_c06(x); else if (prop == "C07") gen_c07(x); else if (prop == "C08") gen_c08(x); else if (prop == "C09") gen_c09(x); else if (prop == "C10") gen_c10(x); else if (prop == "C11") gen_c11(x); else if (prop == "C12") gen_c12(x); else if (prop == "C13") gen_c13(x); else if (prop == "C14") gen_c14(x); else if (prop == "C15") gen_c15(x); else if (prop == "C16") gen_c16(x); else if (prop == "C17") gen_c17(x); else if (prop == "C18") gen_c18(x); else if (prop == "C19") gen_c19(x); else { fprintf(stderr, "no generator for %s\n", prop.c_str()); exit(2); }
  if (prop != "C01" && prop != "C05" && prop != "C09" && prop != "C11" && prop != "C12" && prop != "C14" && prop != "C16" && prop != "C17" && prop != "C19") memory_reuse(x, prop);
  if (prop == "C05" || prop == "C09" || prop == "C11" || prop == "C03" || prop == "C06" || prop == "C10" || prop == "C15") size_queries(x);
  // half of a 32-bit machine's memory is the largest buffer it can have
  if (x.p.lib.compare(2, 2, "32") == 0) for (auto &t : x.p.tasks) for (auto &o : t) { o.n = std::min<i64>(o.n, 0x7fffffff); o.len = std::min<i64>(o.len, 0x7fffffff); }
  // a configuration that lost a parameter set simply is not asked for it
  for (auto &k : x.p.keys) if (!G::has(x.p.lib, k.ps)) { x.p.tasks.assign(1, {}); x.p.keys.clear(); x.p.sigs.clear(); ST.reach["skipped_unsupported_set"]++; break; }
  return x.p;
}
