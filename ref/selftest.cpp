// Validates the reference model: hashes against vectors given on stdin lines by selftest.py, and
// SPHINCS+ against the published NIST-consistent vectors (vectors.txt).
#include "ref.h"
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
using namespace ref;
static bytes unhex(const std::string &s) { bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)std::stoi(s.substr(i, 2), nullptr, 16)); return b; }
static std::string hex(const uint8_t *p, size_t n) { std::string s; char t[3]; for (size_t i = 0; i < n; i++) { snprintf(t, 3, "%02x", p[i]); s += t; } return s; }
int main() {
  std::string line; int bad = 0, n = 0;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line); std::string kind, a, b, c, d; is >> kind >> a >> b >> c >> d; n++;
    bool ok = true;
    if (kind == "h") { // h alg len-hexmsg digest   ("-" for empty)
      bytes m = b == "-" ? bytes() : unhex(b); bytes o(c.size() / 2);
      std::vector<Frag> f = {{m.data(), m.size() / 3}, {m.data() + m.size() / 3, m.size() - m.size() / 3}};
      if (a == "sha256") sha256(f, o.data()); else if (a == "sha512") sha512(f, o.data()); else shake256(f, o.data(), o.size());
      ok = hex(o.data(), o.size()) == c;
    } else if (kind == "v") { // v ps pk opt hashsig
      const Params *ps = find(a); bytes rnd(3 * ps->n); for (size_t i = 0; i < rnd.size(); i++) rnd[i] = (uint8_t)i;
      Key k = keygen(ps, rnd.data()); ok = hex(k.pk().data(), 2 * ps->n) == b;
      bytes opt = unhex(c); bytes s = sign(k, opt.data(), (const uint8_t *)"abc", 3); uint8_t o[32]; sha256({{s.data(), s.size()}}, o);
      ok = ok && s.size() == ps->sig_len() && hex(o, 32) == d && verify(ps, k.pk().data(), (const uint8_t *)"abc", 3, s.data(), s.size());
      s[s.size() / 2] ^= 4; ok = ok && !verify(ps, k.pk().data(), (const uint8_t *)"abc", 3, s.data(), s.size());
    }
    if (!ok) { bad++; printf("BAD %s\n", line.substr(0, 60).c_str()); }
  }
  printf("%d vectors, %d bad\n", n, bad); return bad != 0;
}
