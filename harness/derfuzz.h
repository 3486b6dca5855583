// Structure-aware mutation of DER.
#pragma once
#include "x509gen.h"
namespace vf {
// Positions of all elements (tag offset, header length, content length) of a DER string, to some depth.
struct El { size_t at, hdr, len; };
inline void elements(const bytes& d, size_t from, size_t to, std::vector<El>& out, int depth = 0) {
  while (from + 2 <= to && out.size() < 400) {
    size_t p = from + 1, n = d[p++]; if (n & 0x80) { size_t k = n & 0x7f; n = 0; if (k > 4 || p + k > to) return; while (k--) n = n << 8 | d[p++]; }
    if (n > to - p) return;
    out.push_back({from, p - from, n});
    if (((d[from] & 0x20) || d[from] == 3 || d[from] == 4) && depth < 12) elements(d, p + (d[from] == 3 ? 1 : 0), p + n, out, depth + 1);
    from = p + n;
  }
}
inline bytes length_bytes(Rng& r) {
  switch (r.below(9)) {
    case 0: return {0x80}; case 1: return {0xff}; case 2: return {0x84, 0xff, 0xff, 0xff, 0xff}; case 3: return {0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, (uint8_t)r.u32()};
    case 4: { bytes b{(uint8_t)(0x80 | r.range(1, 12))}; app(b, r.raw(b[0] & 0x7f)); return b; } case 5: return {0}; case 6: return {0x81, (uint8_t)r.u32()}; case 7: { bytes b{0x88}; b.resize(8, 0); b.push_back((uint8_t)r.below(140)); return b; }
    default: return {(uint8_t)r.below(128)};
  }
}
// A date of digits only in which any field may be out of its range, or which is too short or too long.
inline bytes near_date(Rng& r) {
  bool gen = r.chance(1, 2); std::string s;
  if (gen) s += r.pick(std::vector<std::string>{"19", "20", "00", "99", "16", "22"});
  s += r.pick(std::vector<std::string>{"00", "49", "50", "70", "69", "99", "24"});
  s += r.pick(std::vector<std::string>{"00", "00", "01", "02", "03", "12", "13", "19", "20", "99"});
  s += r.pick(std::vector<std::string>{"00", "01", "28", "29", "31", "32", "99"});
  for (int i = 0; i < 3; i++) s += r.pick(std::vector<std::string>{"00", "23", "24", "59", "60", "99"});
  if (r.chance(1, 4)) s.resize(r.below(s.size() + 1)); else if (r.chance(1, 6)) s.append(r.below(r.chance(1, 4) ? 300 : 20), (char)('0' + r.below(10)));
  if (r.chance(1, 12) && s.size()) s[r.below(s.size())] = (char)r.u32();
  if (!r.chance(1, 12)) s += 'Z';
  return der_wrap(r.chance(1, 8) ? (uint8_t)(gen ? 23 : 24) : (uint8_t)(gen ? 24 : 23), bytes(s.begin(), s.end()));
}
inline std::string mutate(Rng& r, bytes& d) {
  std::vector<El> e; elements(d, 0, d.size(), e);
  auto any = [&]() -> El { return e.empty() ? El{0, std::min<size_t>(2, d.size()), 0} : e[r.below(e.size())]; };
  if (d.empty()) { d = r.raw(r.below(10)); return "random"; }
  switch (r.below(16)) {
    case 0: d[r.below(d.size())] ^= 1 << r.below(8); return "bit";
    case 1: d[r.below(d.size())] = (uint8_t)r.u32(); return "byte";
    case 2: d.resize(r.below(d.size())); return "truncate";
    case 3: { El x = any(); d[x.at] = std::vector<uint8_t>{1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 48, 49, 160, 161, 162, 163, 0, 0xff, 0x1f, (uint8_t)r.u32()}[r.below(21)]; return "tag"; }
    case 4: { El x = any(); bytes l = length_bytes(r); d.erase(d.begin() + x.at + 1, d.begin() + x.at + x.hdr); d.insert(d.begin() + x.at + 1, l.begin(), l.end()); return "length"; }
    case 5: { El x = any(); if (x.at + 1 < d.size()) d[x.at + 1] += (int)r.below(9) - 4; return "length off by a few"; }
    case 6: { El x = any(); d.erase(d.begin() + x.at, d.begin() + std::min(d.size(), x.at + x.hdr + x.len)); return "element removed"; }
    case 7: { El x = any(), y = any(); bytes c(d.begin() + x.at, d.begin() + std::min(d.size(), x.at + x.hdr + x.len)); d.insert(d.begin() + y.at, c.begin(), c.end()); return "element copied"; }
    case 8: { El x = any(); bytes c = r.data(r.chance(1, 8) ? r.below(3000) : r.below(40)), n = der_wrap(d[x.at], c); d.erase(d.begin() + x.at, d.begin() + std::min(d.size(), x.at + x.hdr + x.len)); d.insert(d.begin() + x.at, n.begin(), n.end()); return "element replaced"; }
    case 9: { El x = any(); d.resize(std::min(d.size(), x.at + r.below(x.hdr + 1))); return "cut in a header"; }
    case 10: { El x = any(); d.resize(std::min(d.size(), x.at + x.hdr + (x.len ? r.below(x.len) : 0))); return "cut in a body"; }
    case 11: { El x = any(); for (size_t i = 0; i < x.len && x.at + x.hdr + i < d.size(); i++) d[x.at + x.hdr + i] = (uint8_t)r.u32(); return "body scrambled"; }
    case 13: case 14: {   // another date of the same length in place of one, so that the lengths around it stay right
      std::vector<El> t; for (auto& x : e) if ((d[x.at] == 23 || d[x.at] == 24) && x.at + x.hdr + x.len <= d.size()) t.push_back(x);
      if (t.empty()) { d[r.below(d.size())] = (uint8_t)r.u32(); return "byte"; }
      El x = r.pick(t); bytes n; for (int k = 0; k < 12; k++) { n = near_date(r); if (n.size() == x.hdr + x.len) break; }
      d.erase(d.begin() + x.at, d.begin() + x.at + x.hdr + x.len); d.insert(d.begin() + x.at, n.begin(), n.end()); return "date";
    }
    case 12: { bytes g = r.data(r.below(30)); d.insert(d.end(), g.begin(), g.end()); return "trailing bytes"; }
    default: { El x = any(); d.erase(d.begin() + x.at + x.hdr, d.begin() + std::min(d.size(), x.at + x.hdr + x.len)); if (x.at + 1 < d.size()) d[x.at + 1] = 0; return "element emptied"; }
  }
}
}
