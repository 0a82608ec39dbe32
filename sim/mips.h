// A simulated 32-bit machine (MIPS32 release 2, user level, o32, either byte order, strict alignment), so that the
// library can be run in one process as it would on another platform.  Guest address a is host address ARENA + a.
// Included by exec.cpp only.
struct GInsn { u16 op; u8 rs, rt, rd; i32 imm; };
enum : u16 { G_BAD, G_SLL, G_SRL, G_ROTR, G_SRA, G_SLLV, G_SRLV, G_ROTRV, G_SRAV, G_JR, G_JALR, G_MOVZ, G_MOVN, G_BREAK, G_SYNC, G_MFHI, G_MTHI, G_MFLO, G_MTLO, G_MULT, G_MULTU, G_DIV, G_DIVU, G_ADD, G_ADDU, G_SUB, G_SUBU, G_AND, G_OR, G_XOR, G_NOR, G_SLT, G_SLTU, G_TEQ, G_TNE, G_TGE, G_TGEU, G_TLT, G_TLTU,
  G_BLTZ, G_BGEZ, G_BLTZL, G_BGEZL, G_BLTZAL, G_BGEZAL, G_J, G_JAL, G_BEQ, G_BNE, G_BLEZ, G_BGTZ, G_BEQL, G_BNEL, G_BLEZL, G_BGTZL, G_ADDI, G_ADDIU, G_SLTI, G_SLTIU, G_ANDI, G_ORI, G_XORI, G_LUI, G_MADD, G_MADDU, G_MUL, G_MSUB, G_MSUBU, G_CLZ, G_CLO, G_EXT, G_INS, G_WSBH, G_SEB, G_SEH,
  G_LB, G_LH, G_LWL, G_LW, G_LBU, G_LHU, G_LWR, G_SB, G_SH, G_SWL, G_SW, G_SWR, G_PREF };
struct Guest { bool be = false; bytes file; struct Seg { u32 va, off, fsz, msz; bool w, x; }; vector<Seg> segs; u32 tlo = 0, tsz = 0, hi = 0; vector<GInsn> code; };
static const u32 GUEST_RET = 0xfffffff0u, GUEST_RNG = 0xffffffe0u, GUEST_IMAGE = 32u << 20;   // the first 32 MiB of guest addresses hold the program
static GInsn gdecode(u32 w) {
  GInsn I = {G_BAD, (u8)(w >> 21 & 31), (u8)(w >> 16 & 31), (u8)(w >> 11 & 31), (i32)(int16_t)w}; u32 sa = w >> 6 & 31, fn = w & 63, op = w >> 26; auto S = [&](u16 k) { I.op = k; };
  switch (op) {
  case 0: I.imm = (i32)sa; switch (fn) { case 0: S(G_SLL); break; case 2: S(I.rs & 1 ? G_ROTR : G_SRL); break; case 3: S(G_SRA); break; case 4: S(G_SLLV); break; case 6: S(sa & 1 ? G_ROTRV : G_SRLV); break; case 7: S(G_SRAV); break; case 8: S(G_JR); break; case 9: S(G_JALR); break; case 10: S(G_MOVZ); break; case 11: S(G_MOVN); break; case 13: S(G_BREAK); break; case 15: S(G_SYNC); break; case 16: S(G_MFHI); break; case 17: S(G_MTHI); break; case 18: S(G_MFLO); break; case 19: S(G_MTLO); break; case 24: S(G_MULT); break; case 25: S(G_MULTU); break; case 26: S(G_DIV); break; case 27: S(G_DIVU); break; case 32: S(G_ADD); break; case 33: S(G_ADDU); break; case 34: S(G_SUB); break; case 35: S(G_SUBU); break; case 36: S(G_AND); break; case 37: S(G_OR); break; case 38: S(G_XOR); break; case 39: S(G_NOR); break; case 42: S(G_SLT); break; case 43: S(G_SLTU); break; case 48: S(G_TGE); break; case 49: S(G_TGEU); break; case 50: S(G_TLT); break; case 51: S(G_TLTU); break; case 52: S(G_TEQ); break; case 54: S(G_TNE); break; } break;
  case 1: switch (I.rt) { case 0: S(G_BLTZ); break; case 1: S(G_BGEZ); break; case 2: S(G_BLTZL); break; case 3: S(G_BGEZL); break; case 16: S(G_BLTZAL); break; case 17: S(G_BGEZAL); break; } break;
  case 2: S(G_J); I.imm = (i32)((w & 0x3ffffff) << 2); break; case 3: S(G_JAL); I.imm = (i32)((w & 0x3ffffff) << 2); break; case 4: S(G_BEQ); break; case 5: S(G_BNE); break; case 6: S(G_BLEZ); break; case 7: S(G_BGTZ); break; case 8: S(G_ADDI); break; case 9: S(G_ADDIU); break; case 10: S(G_SLTI); break; case 11: S(G_SLTIU); break; case 12: S(G_ANDI); I.imm = (i32)(w & 0xffff); break; case 13: S(G_ORI); I.imm = (i32)(w & 0xffff); break; case 14: S(G_XORI); I.imm = (i32)(w & 0xffff); break; case 15: S(G_LUI); I.imm = (i32)(w << 16); break;
  case 20: S(G_BEQL); break; case 21: S(G_BNEL); break; case 22: S(G_BLEZL); break; case 23: S(G_BGTZL); break;
  case 28: switch (fn) { case 0: S(G_MADD); break; case 1: S(G_MADDU); break; case 2: S(G_MUL); break; case 4: S(G_MSUB); break; case 5: S(G_MSUBU); break; case 32: S(G_CLZ); break; case 33: S(G_CLO); break; } break;
  case 31: switch (fn) { case 0: S(G_EXT); I.imm = (i32)sa; break; case 4: S(G_INS); I.imm = (i32)sa; break; case 32: if (sa == 2) S(G_WSBH); else if (sa == 16) S(G_SEB); else if (sa == 24) S(G_SEH); break; } break;
  case 32: S(G_LB); break; case 33: S(G_LH); break; case 34: S(G_LWL); break; case 35: S(G_LW); break; case 36: S(G_LBU); break; case 37: S(G_LHU); break; case 38: S(G_LWR); break; case 40: S(G_SB); break; case 41: S(G_SH); break; case 42: S(G_SWL); break; case 43: S(G_SW); break; case 46: S(G_SWR); break; case 51: S(G_PREF); break;
  } return I; }
static u32 gw(const Guest &g, const u8 *p) { u32 v; memcpy(&v, p, 4); return g.be ? __builtin_bswap32(v) : v; }
static u32 gh(const Guest &g, const u8 *p) { uint16_t v; memcpy(&v, p, 2); return g.be ? __builtin_bswap16(v) : v; }
void guest_load(Lib *l) {
  auto *g = new Guest; FILE *f = fopen(l->path.c_str(), "rb"); if (!f) { perror(l->path.c_str()); exit(2); } u8 buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) g->file.insert(g->file.end(), buf, buf + n); fclose(f);
  auto bad = [&](const char *w) { fprintf(stderr, "%s: %s\n", l->path.c_str(), w); exit(2); }; const u8 *e = g->file.data(); if (g->file.size() < 52 || memcmp(e, "\177ELF\1", 5)) bad("not a 32-bit program"); g->be = e[5] == 2; if (gh(*g, e + 18) != 8) bad("not a MIPS program");
  u32 ph = gw(*g, e + 28), np = gh(*g, e + 44), entry = gw(*g, e + 24); for (u32 i = 0; i < np; i++) { const u8 *p = e + ph + 32 * i; if (gw(*g, p) != 1) continue; Guest::Seg s = {gw(*g, p + 8), gw(*g, p + 4), gw(*g, p + 16), gw(*g, p + 20), (gw(*g, p + 24) & 2) != 0, (gw(*g, p + 24) & 1) != 0}; if (s.va < 65536 || s.va + s.msz > GUEST_IMAGE) bad("does not fit"); g->segs.push_back(s); g->hi = std::max(g->hi, s.va + s.msz); if (s.x) { g->tlo = s.va; g->tsz = s.fsz & ~3u; for (u32 o = 0; o < g->tsz; o += 4) g->code.push_back(gdecode(gw(*g, e + s.off + o))); } }
  auto at = [&](u32 a, u32 len) -> const u8 * { for (auto &s : g->segs) if (a >= s.va && a + len <= s.va + s.fsz) return e + s.off + (a - s.va); bad("address outside the program"); return nullptr; };
  auto *abi = new sim_abi; memset(abi, 0, sizeof *abi); u32 a = entry; auto next = [&]() { u32 v = gw(*g, at(a, 4)); a += 4; return v; }; size_t *sz[] = {&abi->ctx_size, &abi->ctx_align, &abi->sha256_size, &abi->sha512_size, &abi->shake_size}; for (auto *s : sz) *s = next(); u32 sets = next();
  void (**fp)(void) = &abi->gen_key; for (int i = 0; i < 25; i++) fp[i] = (void (*)(void))(uintptr_t)next();
  for (;; sets += 8) { u32 nm = gw(*g, at(sets, 4)), ps = gw(*g, at(sets + 4, 4)); if (!nm) break; l->ps[(const char *)at(nm, 1)] = (const void *)(ARENA + ps); }
  l->abi = abi; l->guest = g; l->cov = true; l->h = g; l->base = 0; }
// puts the program into the (fresh) arena
static void guest_map(Lib *l) { Guest &g = *l->guest; size_t len = (g.hi + PG - 1) / PG * PG - 65536; u8 *b = (u8 *)ARENA; mprotect(b + 65536, len, PROT_READ | PROT_WRITE); memset(b + 65536, 0, len); l->segs.clear();
  for (auto &s : g.segs) { memcpy(b + s.va, g.file.data() + s.off, s.fsz); if (s.w) l->segs.push_back({b + s.va, s.msz, bytes(b + s.va, b + s.va + s.msz)}); }
  for (auto &s : g.segs) if (!s.w) { u8 *q = b + s.va / PG * PG; size_t n = (s.va % PG + s.fsz + PG - 1) / PG * PG; bool shared = false; for (auto &t : g.segs) if (t.w && t.va < s.va / PG * PG + n && t.va + t.msz > s.va / PG * PG) shared = true; if (!shared) mprotect(q, n, PROT_READ); } }
__attribute__((noinline)) static u64 guest_call(Lib *l, u32 fn, const u64 *args, int nargs, unsigned wide, const Region &stk, u32 junk) {
  Guest &g = *l->guest; u8 *const mem = (u8 *)ARENA; const bool be = g.be; const GInsn *code = g.code.data(); const u32 tlo = g.tlo, tsz = g.tsz; u32 r[32], hi = junk, lo = ~junk; for (int i = 0; i < 32; i++) r[i] = junk ? junk * 2654435761u * (u32)(i + 1) : 0; r[0] = 0; r[28] = 0; u32 sp = (u32)((uintptr_t)(stk.p + stk.n) - ARENA) - 64; r[29] = sp; r[31] = GUEST_RET;
  auto w32 = [&](u32 a, u32 v) { if (be) v = __builtin_bswap32(v); memcpy(mem + a, &v, 4); };
  { u32 slot = 0; auto put = [&](u32 v) { if (slot < 4) r[4 + slot] = v; else w32(sp + 4 * slot, v); slot++; }; for (int i = 0; i < nargs; i++) { u64 v = args[i]; if (wide >> i & 1) { slot = (slot + 1) & ~1u; put(be ? (u32)(v >> 32) : (u32)v); put(be ? (u32)v : (u32)(v >> 32)); continue; } if (v == (u64)(void *)sim_rng_cb) v = GUEST_RNG; else if (v >= ARENA) { v -= ARENA; if (v >> 32) { fprintf(stderr, "argument %d of a simulated call (%llx) is outside the simulated address space\n", i, (unsigned long long)args[i]); exit(2); } } put((u32)v); } }
  u32 pc = fn, npc = fn + 4; i64 left = g_budget;
  #define RS r[I.rs]
  #define RT r[I.rt]
  #define RD r[I.rd]
  #define BR(c) if (c) npc = pc + ((u32)I.imm << 2)
  #define BRL(c) if (c) npc = pc + ((u32)I.imm << 2); else { pc = npc; npc += 4; }
  for (;;) {
    u32 off = pc - tlo;
    if (__builtin_expect(off >= tsz || (off & 3), 0)) {
      if (pc == GUEST_RET) break;
      if (pc == GUEST_RNG) { g_budget = left; int ok = sim_rng_cb(mem + r[4], r[5]); left = g_budget; r[2] = (u32)ok; for (int i = 3; i < 16; i++) r[i] = junk + (u32)i; r[24] = r[25] = junk; pc = r[31]; npc = pc + 4; continue; }
      guest_fault(SIGILL, ARENA + pc, "jump to a wild address"); }
    if (__builtin_expect(--left <= 0, 0)) { g_budget = 0; preempt_pc = pc; to_sched(WHY_BUDGET); left = g_budget; }
    const GInsn I = code[off >> 2]; u32 at = pc; pc = npc; npc += 4;
    switch (I.op) {
    case G_SLL: RD = RT << I.imm; break; case G_SRL: RD = RT >> I.imm; break; case G_SRA: RD = (u32)((i32)RT >> I.imm); break; case G_ROTR: RD = I.imm ? RT >> I.imm | RT << (32 - I.imm) : RT; break;
    case G_SLLV: RD = RT << (RS & 31); break; case G_SRLV: RD = RT >> (RS & 31); break; case G_SRAV: RD = (u32)((i32)RT >> (RS & 31)); break; case G_ROTRV: { u32 s = RS & 31; RD = s ? RT >> s | RT << (32 - s) : RT; break; }
    case G_JR: npc = RS; break; case G_JALR: { u32 t = RS; RD = pc + 4; npc = t; break; } case G_J: npc = (pc & 0xf0000000u) | (u32)I.imm; break; case G_JAL: r[31] = pc + 4; npc = (pc & 0xf0000000u) | (u32)I.imm; break;
    case G_MOVZ: if (!RT) RD = RS; break; case G_MOVN: if (RT) RD = RS; break; case G_BREAK: guest_fault(SIGABRT, 0, "trap instruction"); break; case G_SYNC: case G_PREF: break;
    case G_MFHI: RD = hi; break; case G_MTHI: hi = RS; break; case G_MFLO: RD = lo; break; case G_MTLO: lo = RS; break;
    case G_MULT: { i64 v = (i64)(i32)RS * (i32)RT; lo = (u32)v; hi = (u32)((u64)v >> 32); break; } case G_MULTU: { u64 v = (u64)RS * RT; lo = (u32)v; hi = (u32)(v >> 32); break; }
    case G_MADD: case G_MADDU: case G_MSUB: case G_MSUBU: { u64 p = I.op == G_MADD || I.op == G_MSUB ? (u64)((i64)(i32)RS * (i32)RT) : (u64)RS * RT, v = (u64)hi << 32 | lo; v = I.op == G_MADD || I.op == G_MADDU ? v + p : v - p; lo = (u32)v; hi = (u32)(v >> 32); break; }
    case G_DIV: { i32 a = (i32)RS, b = (i32)RT; if (!b || (a == INT32_MIN && b == -1)) { lo = b ? (u32)a : junk; hi = b ? 0 : junk; } else { lo = (u32)(a / b); hi = (u32)(a % b); } break; } case G_DIVU: { u32 a = RS, b = RT; if (!b) lo = hi = junk; else { lo = a / b; hi = a % b; } break; }
    case G_MUL: RD = RS * RT; break; case G_ADD: case G_ADDU: RD = RS + RT; break; case G_SUB: case G_SUBU: RD = RS - RT; break; case G_AND: RD = RS & RT; break; case G_OR: RD = RS | RT; break; case G_XOR: RD = RS ^ RT; break; case G_NOR: RD = ~(RS | RT); break; case G_SLT: RD = (i32)RS < (i32)RT; break; case G_SLTU: RD = RS < RT; break;
    case G_TEQ: if (RS == RT) guest_fault(SIGFPE, 0, "division by zero"); break; case G_TNE: if (RS != RT) guest_fault(SIGFPE, 0, "trap"); break; case G_TGE: if ((i32)RS >= (i32)RT) guest_fault(SIGFPE, 0, "trap"); break; case G_TGEU: if (RS >= RT) guest_fault(SIGFPE, 0, "trap"); break; case G_TLT: if ((i32)RS < (i32)RT) guest_fault(SIGFPE, 0, "trap"); break; case G_TLTU: if (RS < RT) guest_fault(SIGFPE, 0, "trap"); break;
    case G_BLTZ: BR((i32)RS < 0); break; case G_BGEZ: BR((i32)RS >= 0); break; case G_BLTZL: BRL((i32)RS < 0); break; case G_BGEZL: BRL((i32)RS >= 0); break; case G_BLTZAL: { bool c = (i32)RS < 0; r[31] = pc + 4; BR(c); break; } case G_BGEZAL: { bool c = (i32)RS >= 0; r[31] = pc + 4; BR(c); break; }
    case G_BEQ: BR(RS == RT); break; case G_BNE: BR(RS != RT); break; case G_BLEZ: BR((i32)RS <= 0); break; case G_BGTZ: BR((i32)RS > 0); break; case G_BEQL: BRL(RS == RT); break; case G_BNEL: BRL(RS != RT); break; case G_BLEZL: BRL((i32)RS <= 0); break; case G_BGTZL: BRL((i32)RS > 0); break;
    case G_ADDI: case G_ADDIU: RT = RS + (u32)I.imm; break; case G_SLTI: RT = (i32)RS < I.imm; break; case G_SLTIU: RT = RS < (u32)I.imm; break; case G_ANDI: RT = RS & (u32)I.imm; break; case G_ORI: RT = RS | (u32)I.imm; break; case G_XORI: RT = RS ^ (u32)I.imm; break; case G_LUI: RT = (u32)I.imm; break;
    case G_CLZ: RD = RS ? (u32)__builtin_clz(RS) : 32; break; case G_CLO: RD = ~RS ? (u32)__builtin_clz(~RS) : 32; break; case G_SEB: RD = (u32)(i32)(int8_t)RT; break; case G_SEH: RD = (u32)(i32)(int16_t)RT; break; case G_WSBH: RD = (RT & 0xff00ff) << 8 | (RT >> 8 & 0xff00ff); break;
    case G_EXT: { u32 n = I.rd + 1u; RT = RS >> I.imm & (n >= 32 ? ~0u : (1u << n) - 1); break; } case G_INS: { u32 n = I.rd - (u32)I.imm + 1u, m = (n >= 32 ? ~0u : (1u << n) - 1) << I.imm; RT = (RT & ~m) | ((RS << I.imm) & m); break; }
    case G_LB: RT = (u32)(i32)(int8_t)mem[RS + (u32)I.imm]; break; case G_LBU: RT = mem[RS + (u32)I.imm]; break; case G_SB: mem[RS + (u32)I.imm] = (u8)RT; break;
    case G_LH: case G_LHU: { u32 a = RS + (u32)I.imm; if (a & 1) guest_fault(SIGBUS, ARENA + a, "unaligned memory access"); uint16_t v; memcpy(&v, mem + a, 2); if (be) v = __builtin_bswap16(v); RT = I.op == G_LH ? (u32)(i32)(int16_t)v : v; break; }
    case G_SH: { u32 a = RS + (u32)I.imm; if (a & 1) guest_fault(SIGBUS, ARENA + a, "unaligned memory access"); uint16_t v = (uint16_t)RT; if (be) v = __builtin_bswap16(v); memcpy(mem + a, &v, 2); break; }
    case G_LW: { u32 a = RS + (u32)I.imm; if (a & 3) guest_fault(SIGBUS, ARENA + a, "unaligned memory access"); u32 v; memcpy(&v, mem + a, 4); RT = be ? __builtin_bswap32(v) : v; break; }
    case G_SW: { u32 a = RS + (u32)I.imm; if (a & 3) guest_fault(SIGBUS, ARENA + a, "unaligned memory access"); w32(a, RT); break; }
    case G_LWL: case G_LWR: { u32 a = RS + (u32)I.imm, k = be ? a & 3 : 3 - (a & 3), v, t = RT; memcpy(&v, mem + (a & ~3u), 4); if (be) v = __builtin_bswap32(v); if (I.op == G_LWL) RT = k ? v << 8 * k | (t & ((1u << 8 * k) - 1)) : v; else { u32 s = 3 - k; RT = s ? v >> 8 * s | (t & ~(0xffffffffu >> 8 * s)) : v; } break; }
    case G_SWL: case G_SWR: { u32 a = RS + (u32)I.imm, k = be ? a & 3 : 3 - (a & 3), v, t = RT; memcpy(&v, mem + (a & ~3u), 4); if (be) v = __builtin_bswap32(v); if (I.op == G_SWL) v = k ? t >> 8 * k | (v & ~(0xffffffffu >> 8 * k)) : t; else { u32 s = 3 - k; v = s ? t << 8 * s | (v & ((1u << 8 * s) - 1)) : t; } w32(a & ~3u, v); break; }
    default: fprintf(stderr, "%s: instruction at %08x is not simulated\n", l->id.c_str(), at); _exit(2);
    }
    r[0] = 0; }
  #undef RS
  #undef RT
  #undef RD
  #undef BR
  #undef BRL
  g_budget = left; return r[2]; }
