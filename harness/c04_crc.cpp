// C04: CRC-32 against a bitwise model (and zlib-style table independent of the code's).
#include "hashes.h"
using namespace vf;

static uint32_t step(uint32_t c, uint8_t b) { c ^= b; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xedb88320u & (0u - (c & 1))); return c; }
static uint32_t table(uint32_t c, cspan d) {
  static uint32_t t[256];
  static bool init = [] { for (int i = 0; i < 256; i++) t[i] = step(0, (uint8_t)i); return true; }();
  (void)init;
  for (uint8_t b : d) c = (c >> 8) ^ t[(c ^ b) & 255];
  return c;
}
static bytes be(uint32_t c) { c = ~c; return {uint8_t(c >> 24), uint8_t(c >> 16), uint8_t(c >> 8), uint8_t(c)}; }

static void random_data(Rng& r, uint64_t) {
  for (int k = 0; k < 300; k++) {
    bytes m = r.data(r.chance(1, 10) ? r.below(60000) : r.below(600));
    size_t align = r.below(9);
    bytes buf(align); buf.insert(buf.end(), m.begin(), m.end());
    cspan d = cspan(buf).subspan(align);
    Caligo::CRC32 h;
    uint32_t c = 0xffffffff;
    size_t o = 0;
    auto parts = pieces(r, m.size(), 64);
    for (size_t n : parts) {
      if (r.chance(1, 5)) h.add(std::string_view((const char*)d.data() + o, n)); else h.add(d.subspan(o, n));
      c = table(c, d.subspan(o, n));
      o += n;
      if (r.chance(1, 4)) require_same(h.data(), be(c), "crc-prefix", [&] { return "prefix " + std::to_string(o) + " of " + hex(m); });
    }
    require_same(h.data(), be(c), "crc", [&] { return "data " + hex(m); });
    if (m.size() < 2000) { uint32_t b = 0xffffffff; for (uint8_t x : m) b = step(b, x); if (b != c) _exit(98); }
    Caligo::CRC32 g{d};
    require_same(g.data(), be(c), "crc-constructed", [&] { return "data " + hex(m); });
    observed("crc/" + std::to_string(m.size() % 64) + "/" + std::to_string(align) + "/" + std::to_string(std::min<size_t>(parts.size(), 5)));
    sample([&] { return "crc32 of " + std::to_string(m.size()) + " bytes = " + hex(be(c)); });
  }
}
// Every byte value in every one of the table's contexts: all two-byte messages, then every byte after random states.
static void bytewise(Rng& r, uint64_t i) {
  for (unsigned a = (unsigned)i * 32; a < (i + 1) * 32; a++)
    for (unsigned b = 0; b < 256; b++) {
      bytes m = {uint8_t(a), uint8_t(b)};
      Caligo::CRC32 h; h.add(m);
      require_same(h.data(), be(table(0xffffffff, m)), "crc", [&] { return "data " + hex(m); });
      bytes p = r.raw(r.below(12)); p.push_back(uint8_t(b));
      Caligo::CRC32 g; g.add(p);
      require_same(g.data(), be(table(0xffffffff, p)), "crc", [&] { return "data " + hex(p); });
      observed("two/" + hex(m), 2);
    }
}
static void big(Rng& r, uint64_t i) {
  size_t n = i % 2 ? (size_t)1 << 30 : 300u << 20;
  bytes unit = r.raw(1u << 20);
  Caligo::CRC32 h; uint32_t c = 0xffffffff;
  for (size_t o = 0; o < n; o += unit.size()) { h.add(unit); c = table(c, unit); }
  require_same(h.data(), be(c), "crc-long", [&] { return std::to_string(n) + " bytes"; });
  observed("big"); count("bytes in long messages", n);
}
// Sizes of every order at every alignment, at once or in few pieces.
static void sizes(Rng& r, uint64_t) {
  for (int k = 0; k < 20; k++) {
    bytes buf = r.raw(biglen(r, k == 0 ? 24 : 20));
    size_t skip = r.below(65);
    cspan m = cspan(buf).subspan(skip);
    Caligo::CRC32 h; uint32_t c = 0xffffffff; size_t o = 0;
    std::string text;
    for (size_t n : bigpieces(r, m.size())) {
      if (r.chance(1, 5)) h.add(std::string_view((const char*)m.data() + o, n)); else h.add(m.subspan(o, n));
      c = table(c, m.subspan(o, n));
      o += n;
      if (text.size() < 300) text += std::to_string(n) + ",";
      require_same(h.data(), be(c), "crc", [&] { return "random bytes at offset " + std::to_string(skip) + ", pieces " + text; });
    }
    observed("size/" + std::to_string(64 - __builtin_clzll(m.size())) + "/" + std::to_string(m.size() % 64) + "/" + std::to_string(skip));
    count("messages of 2 KiB to 16 MiB");
  }
}
// The checksum's 32 bits of state forced to every kind of special value (0, all ones, single bits, the bytes 0 and 255,
// small numbers, the values seen before) by four chosen bytes, and then pieces of all sizes from there, zeros among them.
static uint32_t before(uint32_t t) { // the state that four zero bytes turn into t
  for (int k = 0; k < 4; k++) {
    uint32_t i = 0;
    while ((step(i, 0) >> 24) != (t >> 24)) i++;
    t = ((t ^ step(i, 0)) << 8) | i;
  }
  return t;
}
static void states(Rng& r, uint64_t i) {
  std::vector<uint32_t> seen;
  for (int k = 0; k < 60; k++) {
    Caligo::CRC32 h; uint32_t c = 0xffffffff;
    std::string text;
    for (size_t rounds = r.range(1, 4); rounds--;) {
      if (r.chance(2, 3)) { bytes m = r.data(r.chance(1, 2) ? r.below(40) : r.below(700)); h.add(m); c = table(c, m); text += "+" + std::to_string(m.size()); }
      uint32_t t;
      switch (r.below(8)) {
      case 0: t = 0; break;
      case 1: t = 0xffffffff; break;
      case 2: t = 1u << r.below(32); break;
      case 3: t = ~(1u << r.below(32)); break;
      case 4: t = (uint32_t)r.below(256) << (8 * r.below(4)); break;
      case 5: t = 0x01010101u * (uint32_t)r.below(256); break;
      case 6: t = seen.empty() ? 0xedb88320u : seen[r.below(seen.size())]; break;
      default: t = (uint32_t)r.u64() & (uint32_t)((1ull << r.range(1, 32)) - 1); break;
      }
      uint32_t d = c ^ before(t);
      bytes m = {uint8_t(d), uint8_t(d >> 8), uint8_t(d >> 16), uint8_t(d >> 24)};
      if (r.chance(1, 4)) for (uint8_t b : m) h.add(cspan(&b, 1)); else h.add(m);
      c = table(c, m);
      if (c != t) _exit(98);
      seen.push_back(t);
      char buf[32]; snprintf(buf, sizeof buf, " state %08x", t); text += buf;
      require_same(h.data(), be(c), "crc-state", [&] { return text; });
      size_t n = r.chance(1, 10) ? biglen(r, 22) : r.chance(1, 4) ? r.below(5000) : r.below(80);
      size_t align = r.below(17);
      bytes q = r.chance(1, 5) ? bytes(n + align) : r.chance(1, 6) ? bytes(n + align, 0xff) : r.raw(n + align);
      if (n && r.chance(1, 3)) std::fill(q.begin() + align, q.begin() + align + r.range(1, std::min<size_t>(n, 40)), r.chance(1, 4) ? 0xff : 0);
      cspan p = cspan(q).subspan(align);
      h.add(p); c = table(c, p); text += " then " + std::to_string(n);
      require_same(h.data(), be(c), "crc-state", [&] { return text; });
      observed("state/" + std::to_string(t == 0 ? 32 : __builtin_clz(t)) + "/" + std::to_string(std::min<size_t>(n, 300)));
      count("states chosen");
    }
  }
  (void)i;
}
VF_MAIN({ {"states", 80, 600, states}, {"big", 1, 4, big}, {"sizes", 80, 600, sizes}, {"bytewise", 8, 8, bytewise}, {"random", 720, 6000, random_data} })
