// Command line of the simulator.
//   sim run    prop= seed= start= stride= count= time= out= libs=id:path,...  [cache= known= tier=]
//   sim replay plan= libs=...           executes a plan file; prints HASH and, if violated, VIOLATED
//   sim gen    prop= seed= index=       prints the plan of one run
//   sim warm   sets=a,b cache=          computes the pool's reference signatures
#include "core.h"
#include <algorithm>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/personality.h>
#include <unistd.h>

static std::map<string, string> A;
static string arg(const char *k, const char *d = "") { auto it = A.find(k); return it == A.end() ? d : it->second; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static string jstr(const string &s) { string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += fmt("\\u%04x", c); else o += c; } return o + "\""; }
static string jmap(const std::map<string, u64> &m) { string o = "{"; for (auto &x : m) o += (o.size() > 1 ? "," : "") + jstr(x.first) + fmt(":%llu", (unsigned long long)x.second); return o + "}"; }
static void dump(const string &path, const string &s) { string t = path + ".tmp"; FILE *f = fopen(t.c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f) || rename(t.c_str(), path.c_str())) { perror(path.c_str()); exit(2); } }
static void dump_set(const string &path, const std::unordered_set<u64> &s) { string b; for (u64 v : s) b.append((const char *)&v, 8); dump(path, b); }

static Plan explicit_sched(const Plan &p, const vector<std::pair<int, u64>> &rec) { Plan q = p; q.sched.mode = 2; q.sched.list = rec; return q; }

static void save(const string &out, u64 start_idx, u64 idx, double secs, bool violated, const string &what, u64 vidx, u64 digest) {
  string o = "{" + fmt("\"start\":%llu,\"next\":%llu,\"secs\":%.2f,\"runs\":%llu,\"calls\":%llu,\"steps\":%llu,\"vtime\":%llu,\"switches\":%llu,\"midcall\":%llu,\"digest\":\"%016llx\",", (unsigned long long)start_idx, (unsigned long long)idx, secs, (unsigned long long)ST.runs, (unsigned long long)ST.calls, (unsigned long long)ST.steps, (unsigned long long)ST.vtime, (unsigned long long)ST.switches, (unsigned long long)ST.midcall, (unsigned long long)digest);
  o += "\"faults\":" + jmap(ST.faults) + ",\"reach\":" + jmap(ST.reach) + ",\"libs\":" + jmap(ST.libs) + ",\"sets\":" + jmap(ST.sets) + ",\"samples\":[";
  for (size_t i = 0; i < ST.samples.size(); i++) o += (i ? "," : "") + jstr(ST.samples[i]);
  o += "],\"ram\":["; for (int i = 0; i < 12; i++) o += fmt("%s[%llu,%llu,%llu]", i ? "," : "", (unsigned long long)ST.ram_max[i][0], (unsigned long long)ST.ram_max[i][1], (unsigned long long)ST.ram_max[i][2]);
  o += fmt("],\"violated\":%s,\"what\":", violated ? "true" : "false") + jstr(what) + fmt(",\"vindex\":%llu}", (unsigned long long)vidx);
  dump_set(out + ".states", ST.states); dump_set(out + ".shapes", ST.shapeset); dump_set(out + ".preempts", ST.preempts); dump(out + ".json", o);
}

static int cmd_run() {
  string prop = arg("prop"), out = arg("out"); u64 seed = strtoull(arg("seed", "1").c_str(), 0, 10), start = strtoull(arg("start", "0").c_str(), 0, 10), stride = strtoull(arg("stride", "1").c_str(), 0, 10), count = strtoull(arg("count", "1000000000").c_str(), 0, 10); double limit = atof(arg("time", "60").c_str()); int tier = atoi(arg("tier", "0").c_str());
  vector<string> libs = lib_ids(); double t0 = now(), next_save = 5; u64 digest = 0; string pf = out + ".progress"; int fd = open(pf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); bool trace = !arg("trace").empty();
  u64 i = start, n = 0; bool bad = false; string what; u64 vi = 0;
  for (; n < count; n++, i += stride) {
    double el = now() - t0; if (el > limit) break;
    char b[32]; int l = snprintf(b, sizeof b, "%020llu\n", (unsigned long long)i); if (pwrite(fd, b, (size_t)l, 0) != l) { perror("progress"); return 2; }
    Plan p = generate(prop, seed, i, libs, tier); Result r = run_plan(p, false, nullptr); digest = mix(digest, r.hash);
    if (trace) printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)r.hash);
    if (n < 1 || (n == 20 && start < 3)) { string s = p.text(); if (s.size() > 3000) s = s.substr(0, 3000) + "...\n"; ST.samples.push_back(s); }
    if (r.violated) { bad = true; what = r.what; vi = i; i += stride; break; }
    if (el > next_save) { save(out, start, i + stride, el, false, "", 0, digest); next_save = el + 10; }
  }
  save(out, start, i, now() - t0, bad, what, vi, digest);
  return bad ? 1 : 0;
}
static Plan load(const string &path) { std::ifstream f(path); if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(2); } std::stringstream ss; ss << f.rdbuf(); return Plan::parse(ss.str()); }
static int cmd_replay() {
  Plan p = load(arg("plan")); vector<std::pair<int, u64>> rec; bool record = !arg("record").empty(); Result r = run_plan(p, record, &rec);
  if (record) dump(arg("record"), explicit_sched(p, rec).text());
  printf("HASH %016llx steps %llu calls %llu\n", (unsigned long long)r.hash, (unsigned long long)r.steps, (unsigned long long)r.calls);
  if (!arg("out").empty()) save(arg("out"), 0, 1, 0, r.violated, r.what, 0, r.hash);
  if (r.violated) { printf("VIOLATED task %d op %d: %s\n", r.task, r.op, r.what.c_str()); return 1; }
  return 0;
}
static int cmd_gen() { Plan p = generate(arg("prop"), strtoull(arg("seed", "1").c_str(), 0, 10), strtoull(arg("index", "0").c_str(), 0, 10), lib_ids(), atoi(arg("tier", "0").c_str())); fputs(p.text().c_str(), stdout); return 0; }
static int cmd_warm() { string s = arg("sets"); std::stringstream ss(s); string x; 
  while (std::getline(ss, x, ',')) { const ref::Params *ps = ref::find(x); if (!ps) return 2; bool sm = x.back() == 's'; for (int k = 0; k < (sm ? 1 : 2); k++) { const ref::Key &key = oracle_keygen(ps, stream("pool" + std::to_string(k), 3 * ps->n)); bytes sk = key.sk(); for (int m = 0; m < 2; m++) for (int o = 0; o < 2; o++) { if (sm && (m == 0 || o)) continue; MsgDef md; md.len = 33 * m; md.label = "pm"; bytes b = msg_bytes(md), op = stream("po", ps->n); oracle_sign_ref(ps, sk, o ? &op : nullptr, b.data(), b.size(), mix(hash_bytes(b.data(), b.size()), md.len), ps->sig_len()); } } }
  return 0; }

int main(int argc, char **argv) {
#ifndef SIM_INLINE
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) { char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n > 0) { self[n] = 0; execv(self, argv); } } }
#endif
  if (argc < 2) return 2;
  for (int i = 2; i < argc; i++) { string a = argv[i]; auto e = a.find('='); if (e == string::npos) { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; } A[a.substr(0, e)] = a.substr(e + 1); }
  { std::stringstream ss(arg("libs")); string x; while (std::getline(ss, x, ',')) { auto e = x.find(':'); lib_register(x.substr(0, e), x.substr(e + 1)); } }
  cache_dir = arg("cache"); known_dir = arg("known"); exec_init();
  string c = argv[1]; if (c == "run") return cmd_run(); if (c == "replay") return cmd_replay(); if (c == "gen") return cmd_gen(); if (c == "warm") return cmd_warm();
  return 2;
}
