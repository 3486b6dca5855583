// C21: base64 against a bit-level reference and OpenSSL.
#include "common.h"
#include <caligo/base64.h>
#include <openssl/evp.h>
using namespace vf;
static const char* const tail[3] = {"+/", "+,", "-_"};
static std::string alphabet(int cs) { return std::string("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") + tail[cs]; }
static std::string reference(const bytes& d, bool nl, bool omit, int cs) {
  std::string a = alphabet(cs), o; size_t bits = 8 * d.size(), line = 0;
  auto put = [&](char c) { o += c; if (++line == 76) { if (nl) o += '\n'; line = 0; } };
  for (size_t b = 0; b < bits; b += 6) {
    unsigned v = 0; for (size_t k = 0; k < 6; k++) { v <<= 1; if (b + k < bits) v |= (d[(b + k) / 8] >> (7 - (b + k) % 8)) & 1; }
    // the last quantum is not followed by a break of its own unless it is full
    put(a[v]);
  }
  // '=' belong to the last quantum
  size_t rem = d.size() % 3;
  if (rem && !omit) { if (nl && line == 0) o.pop_back(); for (size_t k = rem; k < 3; k++) o += '='; if (nl && line == 0) o += '\n'; }
  return o + (nl ? "\n" : "");
}
static bytes decode(std::string_view s) {
  bytes o; unsigned acc = 0, n = 0;
  for (unsigned char c : s) {
    int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' || c == '-' ? 62 : c == '/' || c == ',' || c == '_' ? 63 : -1;
    if (v < 0) continue;
    acc = (acc << 6 | v) & 0xffffff; n += 6;
    if (n >= 8) { n -= 8; o.push_back((uint8_t)(acc >> n)); }
    if (n == 0) acc = 0;
  }
  return o;
}
static void one(Rng& r, const bytes& d) {
  for (int cs = 0; cs < 3; cs++) for (int nl = 0; nl < 2; nl++) for (int om = 0; om < 2; om++) {
    Guarded g(d, r.chance(1, 2));
    std::string got = Caligo::base64(g.get(), nl, om, (Caligo::Base64CharSet)cs);
    auto ctx = [&] { return "alphabet " + std::string(tail[cs]) + " newlines=" + std::to_string(nl) + " omit=" + std::to_string(om) + " data(" + std::to_string(d.size()) + ")=" + hex(d); };
    // a full line's break and the final newline: the reference states the two requirements directly
    std::string flat, a = alphabet(cs); size_t run = 0;
    for (char c : got) { if (c == '\n') { require(nl, "base64-newline", ctx); run = 0; continue; } flat += c; require(!nl || ++run <= 76, "base64-line-length", ctx); }
    require(!nl || (!got.empty() && got.back() == '\n'), "base64-final-newline", ctx);
    std::string want = reference(d, false, om, cs);
    require_same(flat, want, "base64-text", ctx);
    if (nl) { size_t pos = 0, ch = 0; for (; pos < got.size() && ch < flat.size(); pos++) { if (got[pos] == '\n') require(ch % 76 == 0 && ch, "base64-break-position", ctx); else ch++; } 
      for (size_t k = 76; k < flat.size(); k += 76) require(got[k + k / 76 - 1] == '\n', "base64-break-position", ctx); }
    Guarded t(cspan((const uint8_t*)got.data(), got.size()), r.chance(1, 2));
    require_same(Caligo::base64d(std::string_view((const char*)t.p, t.n)), d, "base64-roundtrip", ctx);
    observed(std::to_string(cs) + std::to_string(nl) + std::to_string(om) + "/" + std::to_string(d.size()), 2); count("round trips");
  }
  require(Caligo::base64(d) == Caligo::base64(d, true, false, Caligo::PlusSlash), "base64-defaults", [&] { return hex(d); });
  std::string o(4 * (d.size() / 3) + 8, 0); int n = EVP_EncodeBlock((unsigned char*)o.data(), d.data() ? d.data() : (const uint8_t*)"", (int)d.size()); o.resize(n);
  require_same(Caligo::base64(d, false), o, "base64-openssl", [&] { return hex(d); });
}
static void lengths(Rng& r, uint64_t i) { for (size_t n = i * 25; n < (i + 1) * 25; n++) { one(r, r.raw(n)); one(r, r.data(n)); } sample([&] { return "lengths " + std::to_string(i * 25) + ".."; }); }
static void random_data(Rng& r, uint64_t) { for (int k = 0; k < 12; k++) { size_t n = r.chance(1, 6) ? r.below(20000) : 57 * r.below(12) + r.below(5); one(r, r.data(n)); } }
static void sizes(Rng& r, uint64_t) { for (int k = 0; k < 3; k++) { bytes d = r.raw(biglen(r, k ? 16 : 21)); one(r, d); observed("size/" + std::to_string(64 - __builtin_clzll(d.size())) + "/" + std::to_string(d.size() % 57)); count("texts of 2 KiB to 2 MiB"); } }
// Data past 2^24 bytes (thorough: past 2^31), against OpenSSL's encoder.
static void huge_of(Rng& r, size_t n) {
  bytes d = r.raw(n);
  std::string flat(4 * ((n + 2) / 3) + 1, 0);
  size_t w = 0;
  for (size_t o = 0; o < n; o += 3 << 24) w += EVP_EncodeBlock((unsigned char*)flat.data() + w, d.data() + o, (int)std::min<size_t>(n - o, 3 << 24));
  flat.resize(w);
  int cs = (int)r.below(3); bool nl = r.chance(3, 4), om = r.chance(1, 2);
  if (om) while (!flat.empty() && flat.back() == '=') flat.pop_back();
  if (cs) for (auto& c : flat) c = c == '+' ? tail[cs][0] : c == '/' ? tail[cs][1] : c;
  std::string got = Caligo::base64(d, nl, om, (Caligo::Base64CharSet)cs);
  auto ctx = [&](size_t at) { return "alphabet " + std::string(tail[cs]) + " newlines=" + std::to_string(nl) + " omit=" + std::to_string(om) + " " + std::to_string(n) + " random bytes, at character " + std::to_string(at); };
  size_t i = 0;
  for (size_t k = 0; k < flat.size();) {
    size_t line = nl ? std::min<size_t>(76, flat.size() - k) : flat.size();
    require(i + line <= got.size() && !memcmp(&got[i], &flat[k], line), "base64-text", [&] { return ctx(i); });
    i += line; k += line;
    if (nl) require(i < got.size() && got[i] == '\n', "base64-break-position", [&] { return ctx(i); });
    if (nl) i++;
  }
  require(i == got.size() || (nl && i + 1 == got.size() && got[i] == '\n' && flat.size() % 76 == 0), "base64-text", [&] { return "trailing characters: " + ctx(i); });
  flat.clear(); flat.shrink_to_fit();
  require(Caligo::base64d(got) == d, "base64-roundtrip", [&] { return ctx(0); });
  observed("huge/" + std::to_string(cs) + std::to_string(nl) + std::to_string(om) + "/" + std::to_string(64 - __builtin_clzll(n)) + "/" + std::to_string(n % 57), 2); count("texts past 2^24 bytes");
}
static void huge(Rng& r, uint64_t) { huge_of(r, r.chance(1, 2) ? ((size_t)1 << r.range(24, 26)) + r.below(5000) : r.range(1 << 24, 1 << 26)); }
static void enormous(Rng& r, uint64_t) { huge_of(r, ((size_t)1 << 31) + r.below(5000)); }
// Every byte triple prefix/suffix class: all two-byte strings and all values of each position.
static void exhaustive(Rng&, uint64_t i) {
  for (unsigned v = i * 4096; v < (i + 1) * 4096; v++) {
    bytes d{(uint8_t)(v >> 8), (uint8_t)v}; 
    std::string a = Caligo::base64(d, false); require_same(a, reference(d, false, false, 0), "base64-text", [&] { return hex(d); });
    require_same(Caligo::base64d(a), d, "base64-roundtrip", [&] { return hex(d); });
    bytes e{(uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v ^ (v >> 8))}; a = Caligo::base64(e, false, false, Caligo::UrlSafe); require_same(a, reference(e, false, false, 2), "base64-text", [&] { return hex(e); });
    require_same(Caligo::base64d(a), e, "base64-roundtrip", [&] { return hex(e); });
    observed(v % 64 ? "" : "two/" + std::to_string(v), 4);
  }
  count("exhaustive two-byte strings", 4096);
}
// Decoding arbitrary text: characters outside the alphabets are skipped, nothing fails.
static void arbitrary(Rng& r, uint64_t) {
  for (int k = 0; k < 300; k++) {
    std::string s;
    if (r.chance(1, 2)) { bytes b = r.data(r.below(400)); s.assign(b.begin(), b.end()); }
    else { bytes d = r.data(r.below(200)); s = reference(d, r.chance(1, 2), r.chance(1, 2), (int)r.below(3)); for (size_t n = r.below(60); n--;) s.insert(r.below(s.size() + 1), 1, r.chance(1, 2) ? " \t\r\n=.-:!@#$%^&*~\x7f\x80\xff"[r.below(19)] : (char)r.below(256)); if (r.chance(1, 3)) s.resize(r.below(s.size() + 1)); }
    Guarded t(cspan((const uint8_t*)s.data(), s.size()), r.chance(1, 2));
    bytes got, want = decode(s);
    try { got = Caligo::base64d(std::string_view((const char*)t.p, t.n)); } catch (const std::exception& e) { fail("base64-decode-throws", std::string(e.what()) + " on " + hex(cspan((const uint8_t*)s.data(), s.size()), 1000)); }
    require_same(got, want, "base64-decode", [&] { return "text=" + hex(cspan((const uint8_t*)s.data(), s.size()), 1000); });
    observed("text/" + std::to_string(s.size()) + "/" + std::to_string(want.size() % 3)); count("arbitrary texts");
  }
  for (int c = 0; c < 256; c++) for (int base = 0; base < 4; base++) { std::string s = std::string("QUJD").substr(0, base) + (char)c + "REVG"; require_same(Caligo::base64d(s), decode(s), "base64-decode", [&] { return "character " + std::to_string(c) + " after " + std::to_string(base); }); observed("char/" + std::to_string(c) + "/" + std::to_string(base)); }
}
VF_MAIN({ {"enormous", 0, 1, enormous, 240}, {"huge", 8, 60, huge}, {"sizes", 72, 600, sizes}, {"exhaustive", 16, 16, exhaustive}, {"lengths", 40, 80, lengths}, {"random", 480, 6000, random_data}, {"arbitrary", 720, 12000, arbitrary} })
