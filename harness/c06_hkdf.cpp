// C06: HKDF and the TLS 1.3 key schedule against a reference written from RFC 5869 / RFC 8446 on OpenSSL's HMAC.
#include "hashes.h"
#include <caligo/hkdf.h>
#include <caligo/aes.h>
using namespace vf;

static bytes cat(std::initializer_list<bytes> l) { bytes r; for (auto& b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
static bytes txt(std::string_view s) { return bytes(s.begin(), s.end()); }
static bytes label_ref(const char* md, cspan secret, std::string_view label, cspan context, size_t len) {
  bytes l = cat({txt("tls13 "), txt(label)});
  bytes info = cat({{uint8_t(len >> 8), uint8_t(len)}, {uint8_t(l.size())}, l, {uint8_t(context.size())}, bytes(context.begin(), context.end())});
  return ref::hkdf_expand(md, secret, info, len);
}

template <typename H> static void primitives(Rng& r) {
  using I = HashInfo<H>;
  for (int k = 0; k < 60; k++) {
    bytes salt = r.data(length(r, I::block, 2000)), ikm = r.data(length(r, I::block, 2000)), info = r.data(length(r, I::block, 1500));
    auto prk = Caligo::HKDF_Extract<H>(salt, ikm);
    bytes want = ref::hkdf_extract(I::name, salt, ikm);
    require_same(prk, want, std::string("extract-") + I::name, [&] { return "salt=" + hex(salt) + " ikm=" + hex(ikm); });
    size_t len;
    switch (r.below(6)) {
      case 0: len = r.below(4 * I::out); break;
      case 1: len = I::out * r.range(1, 255); break;
      case 2: len = 255 * I::out; break;
      case 3: len = I::out * r.range(1, 254) + r.below(3); break;
      case 4: len = r.below(255 * I::out + 1); break;
      default: len = r.below(100);
    }
    bytes key = r.chance(1, 2) ? want : r.data(length(r, I::block, 600));
    bytes out = Caligo::HKDF_Expand<H>(key, info, len);
    require_same(out, ref::hkdf_expand(I::name, key, info, len), std::string("expand-") + I::name, [&] { return "prk=" + hex(key) + " info=" + hex(info) + " len=" + std::to_string(len); });
    if (len < 600) {   // arguments in the same memory
      require_same(Caligo::HKDF_Extract<H>(ikm, ikm), ref::hkdf_extract(I::name, ikm, ikm), std::string("extract-") + I::name, [&] { return "salt and ikm the same memory " + hex(ikm); });
      require_same(Caligo::HKDF_Expand<H>(key, key, len), ref::hkdf_expand(I::name, key, key, len), std::string("expand-") + I::name, [&] { return "prk and info the same memory " + hex(key) + " len=" + std::to_string(len); });
      count("arguments in the same memory", 2);
    }
    observed(std::string(I::name) + "/expand/" + std::to_string(len / I::out) + "/" + std::to_string(len % I::out));
    std::string label = r.chance(1, 3) ? std::string(r.below(250), 'x') : std::string("label") + std::to_string(r.below(100));
    for (auto& c : label) if (r.chance(1, 4)) c = (char)r.range(1, 255);
    bytes ctx = r.data(r.below(256));
    require_same(Caligo::HKDF_Expand_Label<H>(key, label, ctx, len), label_ref(I::name, key, label, ctx, len), std::string("label-") + I::name,
                 [&] { return "label=" + label + " context=" + hex(ctx) + " len=" + std::to_string(len); });
    observed(std::string(I::name) + "/label/" + std::to_string(label.size()) + "/" + std::to_string(ctx.size()) + "/" + std::to_string(len > 255));
    sample([&] { return std::string(I::name) + " expand len=" + std::to_string(len) + " label len=" + std::to_string(label.size()) + " context len=" + std::to_string(ctx.size()); });
  }
}

template <typename Cipher> struct Sizes;
template <> struct Sizes<Caligo::AES<128>> { static constexpr size_t key = 16; };
template <> struct Sizes<Caligo::AES<256>> { static constexpr size_t key = 32; };

// A whole TLS 1.3 key schedule, with several key updates.
template <typename H> static void schedule(Rng& r) {
  using I = HashInfo<H>;
  const char* md = I::name;
  size_t n = I::out;
  for (int k = 0; k < 20; k++) {
    std::string key = std::string("tls13-") + md + "-";
    bytes shared = r.data(r.chance(1, 2) ? 32 : r.below(140));
    bytes zero(n, 0), empty_hash = ref::digest(md, {});
    bytes early = ref::hkdf_extract(md, zero, zero);
    bytes hs = ref::hkdf_extract(md, label_ref(md, early, "derived", empty_hash, n), shared);
    bytes ms = ref::hkdf_extract(md, label_ref(md, hs, "derived", empty_hash, n), zero);
    auto ctx = [&] { return "shared=" + hex(shared); };
    auto h = Caligo::HKDF_HandshakeSecret<H>(shared);
    require_same(h.data, hs, key + "handshake", ctx);
    auto m = Caligo::HKDF_MasterSecret<H>(h);
    require_same(m.data, ms, key + "master", ctx);
    require_same(h.data, hs, key + "handshake-modified", ctx);
    // (a transcript hash has the hash's size; the functions take what fits a context)
    bytes th = r.data(r.chance(3, 4) ? n : r.chance(1, 2) ? r.below(256) : 256 - r.range(1, 3));
    auto roles = [&](auto& sec, const bytes& want, const char* which) {
      for (int client = 0; client < 2; client++)
        for (int handshake = 0; handshake < 2; handshake++) {
          std::string l = std::string(client ? "c " : "s ") + (handshake ? "hs" : "ap") + " traffic";
          bytes ts = label_ref(md, want, l, th, n);
          auto c2 = [&] { return std::string(which) + " " + l + " transcript=" + hex(th); };
          require_same(sec.get_traffic_secret(th, client, handshake), ts, key + "traffic", c2);
          auto ki = [&]<typename C>() {
            auto p = sec.template get_key_iv<C>(th, client, handshake);
            require_same(p.key, label_ref(md, ts, "key", {}, Sizes<C>::key), key + "key", c2);
            require_same(p.iv, label_ref(md, ts, "iv", {}, 12), key + "iv", c2);
            if (!handshake) {
              auto q = sec.template get_key_iv<C>(th, client);
              require_same(q.key, p.key, key + "key-default", c2);
              require_same(q.iv, p.iv, key + "iv-default", c2);
            }
          };
          ki.template operator()<Caligo::AES<128>>();
          ki.template operator()<Caligo::AES<256>>();
          if (handshake) require_same(sec.get_finished_key(th, client), label_ref(md, ts, "finished", {}, n), key + "finished", c2);
          observed(std::string(md) + "/" + which + "/" + l + "/" + std::to_string(shared.size()));
          count("role secrets");
        }
    };
    roles(h, hs, "handshake");
    roles(m, ms, "master");
    require_same(Caligo::exporter_master<H>(m, th), label_ref(md, ms, "exp master", th, n), key + "exporter", ctx);
    require_same(Caligo::resumption_master<H>(m, th), label_ref(md, ms, "res master", th, n), key + "resumption", ctx);
    // key updates start from a traffic secret
    Caligo::secret<H> u;
    bytes cur = label_ref(md, ms, "c ap traffic", th, n);
    std::copy(cur.begin(), cur.end(), u.data.begin());
    for (int g = 0; g < 4; g++) {
      u = Caligo::HKDF_UpdateSecret<H>(u);
      cur = label_ref(md, cur, "traffic upd", {}, n);
      require_same(u.data, cur, key + "update", [&] { return "generation " + std::to_string(g + 1); });
      count("key updates");
    }
    // secrets of every form, not only those that come out of a derivation
    bytes raw = r.data(n);
    if (r.chance(1, 4)) std::fill_n(raw.begin() + r.below(n), 1, uint8_t(0));
    if (r.chance(1, 4)) std::fill_n(raw.begin(), r.range(1, n), r.chance(1, 2) ? 0 : 0xff);
    if (r.chance(1, 4)) { size_t t = r.range(1, n); std::fill_n(raw.end() - t, t, r.chance(1, 2) ? 0 : 0xff); }
    Caligo::secret<H> v;
    std::copy(raw.begin(), raw.end(), v.data.begin());
    auto c3 = [&] { return "secret=" + hex(raw) + " transcript=" + hex(th); };
    roles(v, raw, "given");
    require_same(Caligo::HKDF_UpdateSecret<H>(v).data, label_ref(md, raw, "traffic upd", {}, n), key + "update", c3);
    require_same(Caligo::HKDF_MasterSecret<H>(v).data, ref::hkdf_extract(md, label_ref(md, raw, "derived", empty_hash, n), zero), key + "master", c3);
    require_same(Caligo::exporter_master<H>(v, th), label_ref(md, raw, "exp master", th, n), key + "exporter", c3);
    require_same(Caligo::resumption_master<H>(v, th), label_ref(md, raw, "res master", th, n), key + "resumption", c3);
    require_same(v.data, raw, key + "secret-modified", c3);
    count("secrets of every form");
  }
}
static void prim(Rng& r, uint64_t i) {
  switch (i % 4) {
    case 0: primitives<Caligo::SHA2<256>>(r); break;
    case 1: primitives<Caligo::SHA2<384>>(r); break;
    case 2: primitives<Caligo::SHA2<512>>(r); break;
    default: primitives<Caligo::SHA1>(r); break;
  }
}
// Long salts, keying material, secrets and infos (labels and contexts are limited to 255 bytes by their format).
static void big(Rng& r, uint64_t i) {
  auto run = [&]<typename H>() {
    using I = HashInfo<H>;
    for (int k = 0; k < 4; k++) {
      auto size = [&] { return r.chance(1, 2) ? biglen(r, 20) : length(r, I::block, 2000); };
      bytes salt = r.raw(size()), ikm = r.raw(size()), info = r.raw(r.chance(1, 3) ? biglen(r, 17) : r.below(300)), prk = r.raw(r.chance(1, 3) ? biglen(r, 17) : I::out);
      auto ctx = [&] { return "sizes of salt, ikm, secret, info: " + std::to_string(salt.size()) + " " + std::to_string(ikm.size()) + " " + std::to_string(prk.size()) + " " + std::to_string(info.size()); };
      require_same(Caligo::HKDF_Extract<H>(salt, ikm), ref::hkdf_extract(I::name, salt, ikm), std::string("extract-") + I::name, ctx);
      size_t len = r.below(6 * I::out);
      require_same(Caligo::HKDF_Expand<H>(prk, info, len), ref::hkdf_expand(I::name, prk, info, len), std::string("expand-") + I::name, ctx);
      observed(std::string("big/") + I::name + "/" + std::to_string(64 - __builtin_clzll(salt.size() | 1)) + "/" + std::to_string(64 - __builtin_clzll(ikm.size() | 1)), 2);
      count("inputs up to 1 MiB");
    }
  };
  switch (i % 4) {
    case 0: run.template operator()<Caligo::SHA2<256>>(); break;
    case 1: run.template operator()<Caligo::SHA2<384>>(); break;
    case 2: run.template operator()<Caligo::SHA2<512>>(); break;
    default: run.template operator()<Caligo::SHA1>(); break;
  }
}
static void sched(Rng& r, uint64_t i) {
  if (i % 3 == 0) schedule<Caligo::SHA2<384>>(r); else if (i % 3 == 1) schedule<Caligo::SHA2<256>>(r); else schedule<Caligo::SHA2<512>>(r);
}
VF_MAIN({ {"big", 192, 600, big}, {"primitives", 480, 3000, prim}, {"schedule", 576, 4000, sched} })
