// C01: digests against OpenSSL for generated messages, every chunking, and messages past 2^32 bytes.
#include "hashes.h"
using namespace vf;

// n bytes of address space showing the same 8 MiB of data over and over.
struct Repeated {
  static constexpr size_t unit = 8u << 20;
  uint8_t* p; size_t n;
  Repeated(Rng& r, size_t len) {
    n = (len + unit - 1) / unit * unit;
    int fd = memfd_create("vf", 0);
    bytes d = r.raw(unit);
    if (fd < 0 || write(fd, d.data(), unit) != (ssize_t)unit) _exit(98);
    p = (uint8_t*)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(98);
    for (size_t o = 0; o < n; o += unit)
      if (mmap(p + o, unit, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(98);
    close(fd);
  }
  ~Repeated() { munmap(p, n); }
};

// One long message: in uneven pieces, or mostly in one call between small ones.
static void longmsg(Rng& r, size_t hash, size_t len, bool uneven) {
  auto h = make_hash(hash);
  std::string key = std::string("digest-") + h->name;
  size_t huge = uneven ? 0 : len, before = uneven ? 0 : r.below(4), after = uneven ? 0 : r.range(1, 4), o = 0;
  if (!uneven) len += 2000;
  Repeated m(r, len);
  ref::Digest want(h->name);
  auto feed = [&](size_t k) {
    h->add(cspan(m.p + o, k));
    for (size_t at = 0; at < k; at += 1u << 30) want.add(cspan(m.p + o + at, std::min<size_t>(1u << 30, k - at)));
    o += k;
    require_same(h->data(), want.get(), key, [&] { return "prefix of a long message: bytes=" + std::to_string(o) + ", the last " + std::to_string(k) + " in one call"; });
  };
  if (uneven) while (o < len) feed(std::min<size_t>(len - o, r.chance(1, 8) ? r.range(1, 300) : r.range(1, 1u << 28)));
  else {
    while (before--) feed(r.range(1, 200));
    feed(huge);
    while (after--) feed(r.range(1, 200));
  }
  observed(std::string("long/") + h->name + "/" + std::to_string(uneven) + "/" + std::to_string(o >> 29));
  count(o >> 32 ? "messages longer than 2^32 bytes" : "messages longer than 2^29 bytes");
  sample([&] { return std::string(h->name) + " message of " + std::to_string(o) + " bytes, " + (uneven ? "in pieces" : "most of it in one call"); });
}
// One representative of each implementation past 2^32 bytes (slowest first) ...
static void past32(Rng& r, uint64_t i) {
  static const size_t order[] = {0, 3, 7, 1, 5, 2, 4, 6, 8, 9};
  longmsg(r, order[i % 10], (1ull << 32) + r.below(4096), i / 10 % 2);
}
// ... and the others past 2^29 (2^32 bits).
static void past29(Rng& r, uint64_t i) {
  static const size_t order[] = {2, 4, 6, 8, 9};
  longmsg(r, order[i % 5], (1ull << 29) + r.below(4096), i / 5 % 2);
}

static void one(Rng& r, size_t hash, size_t len) {
  auto h = make_hash(hash);
  bytes msg = r.data(len);
  auto parts = pieces(r, len, h->block);
  size_t align = r.below(16);
  bytes buf(len + align + 1);
  if (len) memcpy(buf.data() + align, msg.data(), len);
  size_t o = 0;
  for (size_t k : parts) {
    if (r.chance(1, 5)) h->add_text(std::string_view((const char*)buf.data() + align + o, k));
    else h->add(cspan(buf.data() + align + o, k));
    o += k;
  }
  bytes want = ref::digest(h->name, msg);
  require_same(h->data(), want, std::string("digest-") + h->name, [&] {
    std::string p; for (size_t k : parts) if (p.size() < 200) p += std::to_string(k) + ",";
    return "len=" + std::to_string(len) + " pieces=" + p + " msg=" + hex(msg);
  });
  observed(std::string(h->name) + "/" + std::to_string(len % h->block) + "/" + std::to_string(std::min<size_t>(len / h->block, 3)) + "/" +
           std::to_string(std::min<size_t>(parts.size(), 4)) + "/" + std::to_string(parts.empty() ? 0 : parts[0] % h->block));
  count(std::string("messages ") + h->name);
  sample([&] { return std::string(h->name) + " len=" + std::to_string(len) + " pieces=" + std::to_string(parts.size()) + " -> " + hex(want); });
}
// Every length up to a few blocks.
static void lengths(Rng& r, uint64_t i) {
  size_t max = 4 * make_hash(i % kHashes)->block + 9;
  for (size_t len = 0; len <= max; len++)
    for (int rep = 0; rep < 6; rep++) one(r, i % kHashes, len);
}
static void random_messages(Rng& r, uint64_t i) {
  size_t block = make_hash(i % kHashes)->block;
  for (int k = 0; k < 400; k++) one(r, i % kHashes, length(r, block));
}

// Messages of every order of size up to 16 MiB, added at once or in few pieces, with reads in between.
static void big(Rng& r, uint64_t i) {
  for (int k = 0; k < 12; k++) {
    auto h = make_hash(i % kHashes);
    bytes buf = r.raw(biglen(r, k == 0 ? 24 : 21));
    size_t skip = r.below(16), o = 0;
    cspan m = cspan(buf).subspan(skip);
    auto parts = bigpieces(r, m.size());
    std::string key = std::string("digest-") + h->name, text;
    ref::Digest want(h->name);
    for (size_t n : parts) {
      if (r.chance(1, 5)) h->add_text(std::string_view((const char*)m.data() + o, n)); else h->add(m.subspan(o, n));
      want.add(m.subspan(o, n));
      o += n;
      if (text.size() < 300) text += std::to_string(n) + ",";
      if (r.chance(1, 8) || o == m.size()) require_same(h->data(), want.get(), key, [&] { return "random bytes, pieces so far " + text + " total " + std::to_string(o); });
    }
    observed(std::string("big/") + h->name + "/" + std::to_string(64 - __builtin_clzll(m.size())) + "/" + std::to_string(m.size() % h->block) + "/" + std::to_string(parts.size()));
    count("messages of 2 KiB to 16 MiB");
  }
}

VF_MAIN({
  {"past32", 5, 40, past32, 200},
  {"past29", 5, 40, past29},
  {"big", 40, 800, big},
  {"lengths", 20, 200, lengths},
  {"random", 100, 6000, random_messages},
})
