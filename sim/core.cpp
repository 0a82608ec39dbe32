#include "core.h"
#include <cstdarg>
#include <sstream>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <sys/stat.h>
#include <functional>

u64 hash_bytes(const void *vp, size_t n, u64 seed) { const u8 *p = (const u8 *)vp; u64 h = seed ^ (n * 0x9e3779b97f4a7c15ULL); while (n >= 8) { u64 v; memcpy(&v, p, 8); h = (h ^ v) * 0xff51afd7ed558ccdULL; h ^= h >> 32; p += 8; n -= 8; } u64 v = 0; if (n) memcpy(&v, p, n); return mix(h, v); }
u64 hash_str(const string &s) { return hash_bytes(s.data(), s.size()); }
string fmt(const char *f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
void stream_at(const string &label, u64 off, u8 *out, size_t n) {
  if (label == "zero") { memset(out, 0, n); return; }
  if (label == "ff") { memset(out, 0xff, n); return; }
  u64 base = hash_str(label);
  if (label.compare(0, 3, "sml") == 0) { u64 w = 1ULL << (base & 3); for (size_t i = 0; i < n; i++, off++) { Rng g(base + (off / w) * 0x632be59bd9b4e019ULL); u64 v = g.next(); out[i] = off % w == 0 && (v & 3) ? (u8)((v >> 8) % ((v >> 40 & 1) ? 4 : 16)) : 0; } return; }   // small integers of 1, 2, 4 or 8 bytes
  while (n) { u64 i = off / 8; unsigned r = off % 8; Rng g(base + i * 0x632be59bd9b4e019ULL); u64 v = g.next(); u8 b[8]; memcpy(b, &v, 8); size_t c = 8 - r < n ? 8 - r : n; memcpy(out, b + r, c); out += c; off += c; n -= c; }
}
bytes stream(const string &label, size_t n) { bytes b(n); stream_at(label, 0, b.data(), n); return b; }

const char *KIND_NAME[K_N] = {"keygen","sinit","pull","vinit","push","fin","ssign","spush","sfin","dirty","paint","hinit","hupd","hfin","hsave","hrest","hsq","snap","back","size","move","hmove","swap"};
const char *RNG_NAME[RNG_N] = {"null","ok","fail","part","failat"};
struct FieldDef { const char *name; i64 Op::*p; i64 def; };
static const FieldDef FIELDS[] = {{"c",&Op::c,0},{"k",&Op::k,-1},{"m",&Op::m,-1},{"s",&Op::s,-1},{"off",&Op::off,0},{"len",&Op::len,0},{"n",&Op::n,0},{"rep",&Op::rep,1},{"step",&Op::step,0},{"xp",&Op::xp,-1},{"xm",&Op::xm,0},{"rk",&Op::rk,0},{"pk",&Op::pk,1},{"nullarg",&Op::nullarg,0},{"f",&Op::f,0},{"h",&Op::h,-1},{"a",&Op::a,0},{"kill",&Op::kill,0},{"delay",&Op::delay,0},{"z",&Op::z,0}};
static string flips_text(const vector<Flip> &f) { string s; for (auto &x : f) s += fmt(" flip=%llu:%u", (unsigned long long)x.pos, x.mask); return s; }
string Plan::text() const {
  string o = fmt("plan 1\nprop %s\nseed %llu\nlib %s\nplace %d\nrevoke %d\n", prop.c_str(), (unsigned long long)seed, lib.c_str(), place, revoke);
  if (skew) o += fmt("skew %d\n", skew);
  for (auto &n : notes) o += "# " + n + "\n";
  for (auto &k : keys) o += fmt("key ps=%s label=%s", k.ps.c_str(), k.label.c_str()) + flips_text(k.flips) + "\n";
  for (auto &m : msgs) o += fmt("msg len=%llu label=%s", (unsigned long long)m.len, m.label.c_str()) + flips_text(m.flips) + "\n";
  for (auto &s : sigs) o += fmt("sig key=%d msg=%d by=%d opt=%s\n", s.key, s.msg, s.by, s.opt.c_str());
  for (auto &c : ctxs) o += fmt("ctx place=%d init=%s\n", c.place, c.init.c_str());
  for (auto &h : hashes) o += fmt("hash label=%s init=%s\n", h.label.c_str(), h.init.c_str());
  for (size_t t = 0; t < tasks.size(); t++) { o += fmt("task %zu\n", t);
    for (auto &p : tasks[t]) { o += fmt("op %zu %s", t, KIND_NAME[p.kind]); for (auto &f : FIELDS) if (p.*f.p != f.def) o += fmt(" %s=%lld", f.name, (long long)(p.*f.p));
      if (p.rng != RNG_NULL) o += fmt(" rng=%s", RNG_NAME[p.rng]); if (!p.rl.empty()) o += " rl=" + p.rl; if (!p.tag.empty()) o += " tag=" + p.tag; o += "\n"; } }
  o += fmt("sched mode=%d mean=%llu w0=%llu w1=%llu", sched.mode, (unsigned long long)sched.mean, (unsigned long long)sched.w0, (unsigned long long)sched.w1) + (sched.trap ? fmt(" trap=%llu", (unsigned long long)sched.trap) : "") + "\n";
  for (auto &x : sched.list) o += fmt("sw %d %llu\n", x.first, (unsigned long long)x.second);
  return o + "end\n";
}
Plan Plan::parse(const string &txt) {
  Plan p; std::istringstream is(txt); string line;
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line); string w; ls >> w;
    auto kv = [&](std::function<void(const string &, const string &)> f) { string t; while (ls >> t) { auto e = t.find('='); if (e != string::npos) f(t.substr(0, e), t.substr(e + 1)); } };
    auto flip = [](vector<Flip> &v, const string &x) { v.push_back({strtoull(x.c_str(), 0, 10), (unsigned)strtoul(x.c_str() + x.find(':') + 1, 0, 10)}); };
    if (w == "prop") ls >> p.prop; else if (w == "seed") ls >> p.seed; else if (w == "lib") ls >> p.lib; else if (w == "place") ls >> p.place; else if (w == "revoke") ls >> p.revoke; else if (w == "skew") ls >> p.skew;
    else if (w == "key") { KeyDef k; kv([&](const string &a, const string &b) { if (a == "ps") k.ps = b; else if (a == "label") k.label = b; else if (a == "flip") flip(k.flips, b); }); p.keys.push_back(k); }
    else if (w == "msg") { MsgDef m; kv([&](const string &a, const string &b) { if (a == "len") m.len = strtoull(b.c_str(), 0, 10); else if (a == "label") m.label = b; else if (a == "flip") flip(m.flips, b); }); p.msgs.push_back(m); }
    else if (w == "sig") { SigDef s; kv([&](const string &a, const string &b) { if (a == "key") s.key = atoi(b.c_str()); else if (a == "msg") s.msg = atoi(b.c_str()); else if (a == "by") s.by = atoi(b.c_str()); else if (a == "opt") s.opt = b; }); p.sigs.push_back(s); }
    else if (w == "ctx") { CtxDef c; kv([&](const string &a, const string &b) { if (a == "place") c.place = atoi(b.c_str()); else if (a == "init") c.init = b; }); p.ctxs.push_back(c); }
    else if (w == "hash") { HashDef c; kv([&](const string &a, const string &b) { if (a == "label") c.label = b; else if (a == "init") c.init = b; }); p.hashes.push_back(c); }
    else if (w == "task") { size_t t; ls >> t; if (p.tasks.size() <= t) p.tasks.resize(t + 1); }
    else if (w == "op") { Op o; string k; ls >> o.task >> k; o.kind = -1; for (int i = 0; i < K_N; i++) if (k == KIND_NAME[i]) o.kind = i; if (o.kind < 0) { fprintf(stderr, "bad op %s\n", k.c_str()); exit(2); }
      kv([&](const string &a, const string &b) { if (a == "rng") { for (int i = 0; i < RNG_N; i++) if (b == RNG_NAME[i]) o.rng = i; } else if (a == "rl") o.rl = b; else if (a == "tag") o.tag = b; else for (auto &f : FIELDS) if (a == f.name) o.*f.p = strtoll(b.c_str(), 0, 10); });
      if ((int)p.tasks.size() <= o.task) p.tasks.resize(o.task + 1); p.tasks[o.task].push_back(o); }
    else if (w == "sched") kv([&](const string &a, const string &b) { if (a == "mode") p.sched.mode = atoi(b.c_str()); else if (a == "mean") p.sched.mean = strtoull(b.c_str(), 0, 10); else if (a == "w0") p.sched.w0 = strtoull(b.c_str(), 0, 10); else if (a == "trap") p.sched.trap = strtoull(b.c_str(), 0, 10); else if (a == "w1") p.sched.w1 = strtoull(b.c_str(), 0, 10); });
    else if (w == "sw") { int t; u64 n; ls >> t >> n; p.sched.list.push_back({t, n}); }
  }
  return p;
}

// ------------------------------------------------------------------ libraries
// the sanitizer's red zones between variables are copied along
__attribute__((no_sanitize("address"), noinline)) static void raw_copy(u8 *d, const u8 *s, size_t n) { for (size_t i = 0; i < n; i++) { *(volatile u8 *)(d + i) = s[i]; } }
static std::map<string, std::unique_ptr<Lib>> LIBS;
void lib_register(const string &id, const string &path) { auto l = std::make_unique<Lib>(); l->id = id; l->path = path; LIBS[id] = std::move(l); }
vector<string> lib_ids() { vector<string> v; for (auto &x : LIBS) v.push_back(x.first); return v; }
Lib *lib_get(const string &id) {
  auto it = LIBS.find(id); if (it == LIBS.end()) { fprintf(stderr, "unknown lib %s\n", id.c_str()); exit(2); }
  Lib *l = it->second.get();
  if (!l->h) {
#ifndef SIM_INLINE
    if (l->path.size() > 4 && l->path.substr(l->path.size() - 4) == ".elf") { guest_load(l); return l; }
#endif
    l->h = dlopen(l->path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!l->h) { fprintf(stderr, "dlopen %s: %s\n", l->path.c_str(), dlerror()); exit(2); }
    l->abi = (const sim_abi *)dlsym(l->h, "sim_abi"); if (!l->abi) { fprintf(stderr, "no sim_abi in %s\n", l->path.c_str()); exit(2); }
    for (const sim_set *s = l->abi->sets; s->name; s++) l->ps[s->name] = s->ps;
    l->cov = id.compare(0, 3, "cov") == 0;
    struct link_map *lm; dlinfo(l->h, RTLD_DI_LINKMAP, &lm); l->base = lm->l_addr;
    struct Arg { Lib *l; } a{l};
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *v) -> int { Lib *l = ((Arg *)v)->l; if (i->dlpi_addr != l->base || !i->dlpi_addr) return 0;
      uintptr_t ro0 = 0, ro1 = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { ro0 = l->base + i->dlpi_phdr[k].p_vaddr; ro1 = (ro0 + i->dlpi_phdr[k].p_memsz) & ~4095UL; ro0 &= ~4095UL; }
      for (int k = 0; k < i->dlpi_phnum; k++) { auto &ph = i->dlpi_phdr[k]; if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue; uintptr_t s = l->base + ph.p_vaddr, e = s + ph.p_memsz; if (s < ro1 && s >= ro0) s = ro1; if (s < e) { bytes b(e - s); raw_copy(b.data(), (u8 *)s, e - s); l->segs.push_back({(u8 *)s, e - s, b}); } }
      return 1; }, &a);
  }
  return l;
}
void Lib::restore() {
#ifndef SIM_INLINE
  for (auto &s : segs) if (memcmp(s.p, s.snap.data(), s.n)) memcpy(s.p, s.snap.data(), s.n);
#else
  for (auto &s : segs) raw_copy(s.p, s.snap.data(), s.n);
#endif
}

// ------------------------------------------------------------------ oracles
string cache_dir, known_dir;   // known_dir: committed answers of the reference for inputs of gigabytes
bytes msg_bytes(const MsgDef &m) { bytes b(m.len); stream_at(m.label, 0, b.data(), b.size()); for (auto &f : m.flips) if (f.pos < b.size()) b[f.pos] ^= (u8)f.mask; return b; }
static bool file_get(const string &dir, u64 key, bytes &out) { if (dir.empty()) return false; FILE *f = fopen(fmt("%s/%016llx", dir.c_str(), (unsigned long long)key).c_str(), "rb"); if (!f) return false; u8 buf[65536]; out.clear(); size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) out.insert(out.end(), buf, buf + n); fclose(f); return true; }
static bool disk_get(u64 key, bytes &out) { return file_get(known_dir, key, out) || file_get(cache_dir, key, out); }
static void disk_put(u64 key, const bytes &v) { if (cache_dir.empty()) return; string p = fmt("%s/%016llx", cache_dir.c_str(), (unsigned long long)key), t = p + fmt(".%d", (int)getpid()); FILE *f = fopen(t.c_str(), "wb"); if (!f) return; bool ok = fwrite(v.data(), 1, v.size(), f) == v.size(); ok = fclose(f) == 0 && ok; if (!ok || rename(t.c_str(), p.c_str())) unlink(t.c_str()); }
bool oracle_known(u64 key, bytes &out) { return disk_get(key, out); }
void oracle_remember(u64 key, const bytes &v) { disk_put(key, v); }
const ref::Key &oracle_keygen(const ref::Params *ps, const bytes &r) {
  static std::unordered_map<u64, std::unique_ptr<ref::Key>> memo; u64 key = mix(mix(hash_bytes(r.data(), 3 * ps->n), hash_str(ps->name)), 0x4b47);
  auto &e = memo[key]; if (e) return *e; if (memo.size() > 20000) { memo.clear(); return oracle_keygen(ps, r); }
  bytes root; bool slow = ps->name[strlen(ps->name) - 1] == 's';
  if (slow && disk_get(key, root) && root.size() == ps->n) { bytes sk(r.begin(), r.begin() + 3 * ps->n); sk.insert(sk.end(), root.begin(), root.end()); memo[key].reset(new ref::Key(ref::raw_key(ps, sk.data()))); return *memo[key]; }
  memo[key].reset(new ref::Key(ref::keygen(ps, r.data()))); if (slow) disk_put(key, memo[key]->root); return *memo[key];
}
bytes oracle_sign_ref(const ref::Params *ps, const bytes &sk, const bytes *opt, const u8 *msg, u64 len, u64 msgid, size_t limit) {
  static std::unordered_map<u64, bytes> memo; u64 key = mix(mix(hash_bytes(sk.data(), sk.size()), msgid), mix(opt ? hash_bytes(opt->data(), opt->size()) : 77, hash_str(ps->name)));
  if (limit > ps->sig_len()) limit = ps->sig_len();
  auto it = memo.find(key); if (it != memo.end() && it->second.size() >= limit) return it->second;
  bytes v; bool full = limit > ps->sig_len() / 8 || len > (64u << 20);
  if (full && disk_get(key, v) && v.size() >= limit) { memo[key] = v; return v; }
  if (memo.size() > 3000) memo.clear();
  v = ref::sign(ref::raw_key(ps, sk.data()), opt ? opt->data() : nullptr, msg, len, limit); if (full) disk_put(key, v); memo[key] = v; return v;
}
