// C11: the ChaCha20 stream against OpenSSL's, in random pieces.
#include "refs.h"
#include "relocate.h"
#include <caligo/chacha20.h>
#include <openssl/evp.h>
using namespace vf;

struct Stream {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  Stream(cspan key, cspan nonce) {
    bytes iv = {1, 0, 0, 0}; iv.insert(iv.end(), nonce.begin(), nonce.end());
    EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, key.data(), iv.data());
  }
  ~Stream() { EVP_CIPHER_CTX_free(c); }
  bytes next(cspan d) { bytes o(d.size()); int n = 0; size_t step = 1u << 28; for (size_t p = 0; p < d.size(); p += step) EVP_EncryptUpdate(c, o.data() + p, &n, d.data() + p, (int)std::min(step, d.size() - p)); return o; }
};
static void streams(Rng& r, uint64_t) {
  for (int rep = 0; rep < 20; rep++) {
    bytes key = r.data(32), nonce = r.data(12);
    Guarded gk(key), gn(nonce);
    auto obj = std::make_unique<ChaCha20>(gk.get(), gn.get());
    Stream want(key, nonce);
    bool moving = r.chance(1, 2);
    size_t calls = r.range(1, 30), pos = 0;
    unsigned style = r.below(4);
    for (size_t k = 0; k < calls; k++) {
      size_t n = style == 0 ? r.below(200) : style == 1 ? 64 : style == 2 ? (r.chance(1, 2) ? 64 - pos % 64 : r.below(3)) : r.chance(1, 10) ? r.below(20000) : r.below(70);
      if (moving && r.chance(1, 3)) { bytes k2 = r.raw(32), n2 = r.raw(12), d2 = r.raw(r.below(200)); auto other = std::make_unique<ChaCha20>(cspan(k2), cspan(n2)); other->Encrypt(d2); relocate(obj, std::move(other), r.u32()); count("objects copied, moved or assigned"); }
      ChaCha20& c = *obj;
      bytes d = r.data(n), w = want.next(d);
      Guarded g(d);
      if (r.chance(1, 2)) { c.Encrypt(g.mut()); count("Encrypt calls"); } else { c.Decrypt(g.mut()); count("Decrypt calls"); }
      require_same(g.get(), w, "chacha20-stream", [&] { return "key=" + hex(key) + " nonce=" + hex(nonce) + " offset=" + std::to_string(pos) + " length=" + std::to_string(n); });
      observed("off/" + std::to_string(pos % 64) + "/" + std::to_string(n % 64) + "/" + std::to_string(std::min<size_t>(n / 64, 3)));
      pos += n;
    }
    // a second object restores what a first one made
    bytes msg = r.data(r.below(500)), t = msg;
    ChaCha20 a(key, nonce), b(key, nonce);
    a.Encrypt(t);
    size_t cut = r.below(t.size() + 1);
    b.Decrypt(std::span<uint8_t>(t).subspan(0, cut)); b.Decrypt(std::span<uint8_t>(t).subspan(cut));
    require_same(t, msg, "chacha20-roundtrip", [&] { return "key=" + hex(key); });
    ChaCha20& c = *obj;
    // a copied object continues independently
    ChaCha20 c2 = c;
    bytes x = r.raw(100), y = x, w = want.next(x);
    c.Encrypt(x); c2.Encrypt(y);
    require_same(x, w, "chacha20-copy", [&] { return "original after copying"; });
    require_same(y, w, "chacha20-copy", [&] { return "copy"; });
    sample([&] { return "key=" + hex(key, 8) + " nonce=" + hex(nonce) + " calls=" + std::to_string(calls) + " bytes=" + std::to_string(pos); });
  }
}
static void far(Rng& r, uint64_t i) {
  bytes key = r.raw(32), nonce = r.raw(12);
  ChaCha20 c(key, nonce); Stream want(key, nonce);
  size_t total = i % 8 == 0 ? (1ull << 30) + (1u << 20) : (5u << 20) + r.below(1u << 20), pos = 0;   // 2^24 blocks, 2^16 blocks
  while (pos < total) {
    size_t n = std::min<size_t>(total - pos, (4u << 20) + r.below(1000));
    bytes d(n, 0), w = want.next(d);
    c.Encrypt(d);
    require(d == w, "chacha20-stream", [&] { return "between offsets " + std::to_string(pos) + " and " + std::to_string(pos + n); });
    pos += n;
    observed("far/" + std::to_string(pos >> 22));
  }
  count("bytes of long streams", total);
}
static void sizes(Rng& r, uint64_t) {
  for (size_t k = 0; k <= 70; k++) for (size_t v = 0; v <= 34; v++) {
    if (k == 32 && v == 12) continue;
    if (k != 32 && v != 12 && !r.chance(1, 6)) continue;
    Guarded key(r.raw(k)), nonce(r.raw(v));
    bool threw = false;
    try { ChaCha20 c(key.get(), nonce.get()); } catch (const std::exception&) { threw = true; }
    require(threw, "chacha20-wrong-size-accepted", [&] { return "key of " + std::to_string(k) + " and nonce of " + std::to_string(v) + " bytes"; });
    observed("size/" + std::to_string(k) + "/" + std::to_string(v)); count("wrong sizes refused");
  }
}
// Pieces of every order of size at every position in a block.
static void big(Rng& r, uint64_t) {
  bytes key = r.raw(32), nonce = r.raw(12);
  ChaCha20 c(key, nonce); Stream want(key, nonce);
  size_t pos = 0;
  for (int k = 0; k < 12; k++) {
    size_t n = k && r.chance(1, 2) ? r.below(200) : biglen(r, k ? 20 : 23);
    bytes d = r.raw(n), w = want.next(d);
    Guarded g(d, r.chance(1, 2));
    if (r.chance(1, 2)) c.Encrypt(g.mut()); else c.Decrypt(g.mut());
    require_same(g.get(), w, "chacha20-stream", [&] { return "key=" + hex(key) + " nonce=" + hex(nonce) + " offset=" + std::to_string(pos) + " length=" + std::to_string(n); });
    observed("big/" + std::to_string(pos % 64) + "/" + std::to_string(n % 64) + "/" + std::to_string(64 - __builtin_clzll(n | 1)));
    pos += n; count("pieces up to 8 MiB");
  }
}
VF_MAIN({ {"big", 120, 1500, big}, {"far", 9, 64, far, 240}, {"sizes", 2, 10, sizes}, {"streams", 1200, 20000, streams} })
