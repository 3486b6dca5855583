// C25: random buffers are filled completely, stay inside their bounds, and no stream repeats, correlates or can be continued.
#include "common.h"
#include <caligo/bignum.h>
#include <caligo/random.h>
#include <caligo/random_prime.h>
#include <caligo/x25519.h>
#include <algorithm>
#include <cmath>
#include <thread>
#include <sys/personality.h>
#include <sys/wait.h>
using namespace vf;
using namespace Caligo;

// A world that looks the same to every process: clocks and process ids can be frozen, so that values derived from
// them instead of from a random source repeat between processes.
static bool frozen = false;
#include <dlfcn.h>
#include <sys/syscall.h>
extern "C" {
time_t time(time_t* t) noexcept { timespec ts{}; if (frozen) ts.tv_sec = 1700000000; else syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int clock_gettime(clockid_t c, timespec* ts) noexcept { if (frozen) { ts->tv_sec = 1700000000; ts->tv_nsec = 0; return 0; } return (int)syscall(SYS_clock_gettime, c, ts); }
int gettimeofday(timeval* tv, void*) noexcept { timespec ts{}; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
pid_t getpid() noexcept { return frozen ? 4711 : (pid_t)syscall(SYS_getpid); }
pid_t getppid() noexcept { return frozen ? 4710 : (pid_t)syscall(SYS_getppid); }
clock_t clock() noexcept { timespec ts{}; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
}

static bytes drain(int fd) {
  bytes r; uint8_t b[65536]; ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) r.insert(r.end(), b, b + n);
  close(fd);
  return r;
}
static void put(int fd, const bytes& b) { size_t o = 0; while (o < b.size()) { ssize_t n = write(fd, b.data() + o, b.size() - o); if (n <= 0) _exit(94); o += n; } }

// Everything a stream produces in n steps, through mixed entry points, as bytes.
static bytes emit_mixed(Rng& r, size_t n) {
  bytes out;
  auto add = [&](const void* p, size_t k) { out.insert(out.end(), (const uint8_t*)p, (const uint8_t*)p + k); };
  while (out.size() < n) {
    size_t k = r.range(1, 40);
    switch (r.below(6)) {
      case 0: { uint64_t v = generate_random_value(); add(&v, 8); break; }
      case 1: { std::vector<uint64_t> v(k); generate_random(std::span<uint64_t>(v)); add(v.data(), k * 8); break; }
      case 2: { std::vector<uint32_t> v(k); generate_random(std::span<uint32_t>(v)); add(v.data(), k * 4); break; }
      case 3: { std::vector<uint16_t> v(k); generate_random(std::span<uint16_t>(v)); add(v.data(), k * 2); break; }
      case 4: { std::vector<uint8_t> v(k); generate_random(std::span<uint8_t>(v)); add(v.data(), k); break; }
      case 5: { auto v = bignum<256>::random(); auto b = v.as_bytes(); add(b.data(), b.size()); break; }
    }
  }
  return out;
}
// No 8-byte window occurs twice in any of the streams.
static void all_distinct(const std::vector<bytes>& streams, const char* key, const std::string& what) {
  std::vector<uint64_t> w;
  for (auto& s : streams) for (size_t i = 0; i + 8 <= s.size(); i++) { uint64_t v; memcpy(&v, &s[i], 8); w.push_back(v); }
  std::sort(w.begin(), w.end());
  for (size_t i = 1; i < w.size(); i++) if (w[i] == w[i - 1]) {
    std::string where;
    for (size_t k = 0; k < streams.size(); k++) for (size_t j = 0; j + 8 <= streams[k].size(); j++) if (!memcmp(&streams[k][j], &w[i], 8)) where += " stream " + std::to_string(k) + " offset " + std::to_string(j);
    fail(key, what + ": the eight bytes " + hex(cspan((uint8_t*)&w[i], 8)) + " occur again:" + where);
  }
  count("windows compared", w.size());
  sample([&] { return what + ": " + std::to_string(w.size()) + " windows of " + std::to_string(streams.size()) + " streams, all different"; });
}

// Streams of the same requests, made from the same state, agree nowhere: at no place do all of them have the same bytes (of
// so many that this would happen by chance once in 2^48 places).
static void all_differ(const std::vector<const bytes*>& s, const char* key, const std::string& what) {
  if (s.size() < 2) return;
  size_t need = (48 + 8 * (s.size() - 1) - 1) / (8 * (s.size() - 1)), run = 0, n = ~size_t(0);
  for (auto* b : s) n = std::min(n, b->size());
  for (size_t i = 0; i < n; i++) {
    bool same = true;
    for (auto* b : s) same = same && (*b)[i] == (*s[0])[i];
    run = same ? run + 1 : 0;
    require(run < need, key, [&] { return what + ": all have the same " + std::to_string(need) + " bytes " + hex(cspan(s[0]->data() + i + 1 - need, need)) + " at offset " + std::to_string(i + 1 - need) + " after the same requests"; });
  }
  count("aligned positions compared", n);
}

template <typename T> static void fill_one(Rng& r, size_t n, const char* name) {
  std::vector<T> ones(n, 0), zeros(n, 0);
  const unsigned rounds = 72;
  Guarded end(bytes(n * sizeof(T), 0), true), start(bytes(n * sizeof(T), 0), false);
  // at_end of a page keeps natural alignment, since the size is a multiple of the element size
  for (unsigned k = 0; k < rounds; k++) {
    uint8_t fill = k % 3 == 0 ? 0 : k % 3 == 1 ? 0xff : (uint8_t)r.u64();
    bytes mid((n + 2 * 16) * sizeof(T) + 16, fill);
    T* p;
    switch (k % 3) {
      case 0: p = (T*)end.p; break;
      case 1: p = (T*)start.p; break;
      default: p = (T*)(((uintptr_t)mid.data() + 15) / 16 * 16) + 1 + r.below(15); break;
    }
    memset(p, fill, n * sizeof(T));
    generate_random(std::span<T>(p, n));
    for (size_t i = 0; i < n; i++) { ones[i] |= p[i]; zeros[i] |= (T)~p[i]; }
    if (k % 3 == 2)
      for (size_t i = 0; i < mid.size(); i++) if (&mid[i] < (uint8_t*)p || &mid[i] >= (uint8_t*)(p + n))
        require(mid[i] == fill, "outside-written", [&] { return std::string(name) + " buffer of " + std::to_string(n) + " elements: byte " + std::to_string((ssize_t)(&mid[i] - (uint8_t*)p)) + " changed from " + std::to_string(fill) + " to " + std::to_string(mid[i]); });
  }
  for (size_t i = 0; i < n; i++)
    require(ones[i] == (T)~(T)0 && zeros[i] == (T)~(T)0, "bits-stuck", [&] { return std::string(name) + " buffer of " + std::to_string(n) + " elements: element " + std::to_string(i) + " has bits that never changed in " + std::to_string(rounds) + " fills (ever set " + std::to_string((uint64_t)ones[i]) + ", ever clear " + std::to_string((uint64_t)zeros[i]) + ")"; });
  observed(std::string(name) + std::to_string(n), rounds);
}
static void fill(Rng& r, uint64_t j) {
  for (size_t n = j; n < 330; n += 30) { fill_one<uint8_t>(r, n, "uint8_t"); fill_one<uint16_t>(r, n, "uint16_t"); fill_one<uint32_t>(r, n, "uint32_t"); fill_one<uint64_t>(r, n, "uint64_t"); }
  size_t big = r.range(1000, 9000);
  fill_one<uint8_t>(r, big, "uint8_t"); fill_one<uint16_t>(r, big, "uint16_t"); fill_one<uint32_t>(r, big, "uint32_t");
}
// Large buffers: nothing is left as it was, and no part occurs again.
template <typename T> static void large_one(Rng& r, size_t n, const char* name) {
  std::vector<T> v(n);
  uint8_t* p = (uint8_t*)v.data(); size_t len = n * sizeof(T), tail = std::min<size_t>(len, 64);
  bytes ones(tail, 0), zeros(tail, 0);
  for (unsigned k = 0; k < 2; k++) {
    bytes old = r.raw(4096);
    for (size_t o = 0; o < len; o += 4096) memcpy(p + o, old.data(), std::min<size_t>(4096, len - o));
    generate_random(std::span<T>(v));
    size_t same = 0;
    for (size_t i = 0; i < len; i++) {
      same = p[i] == old[i % 4096] ? same + 1 : 0;
      require(same < 12, "not-filled", [&] { return std::string(name) + " buffer of " + std::to_string(n) + " elements: bytes up to " + std::to_string(i) + " were left as they were"; });
    }
    // stuck bytes at fixed positions: each of 64 residues modulo a block keeps changing
    std::array<size_t, 64> kept{};
    for (size_t i = 0; i < len; i++) kept[i % 64] += p[i] == old[i % 4096];
    double e = len / 64 / 256.0;
    for (size_t k = 0; k < 64; k++) require(kept[k] < e + 10 * std::sqrt(e) + 20, "not-filled", [&] { return std::string(name) + " buffer of " + std::to_string(n) + " elements: of the bytes at " + std::to_string(k) + " modulo 64, " + std::to_string(kept[k]) + " were left as they were"; });
    std::vector<uint64_t> w(len / 8);
    memcpy(w.data(), p, w.size() * 8);
    std::sort(w.begin(), w.end());
    for (size_t i = 1; i < w.size(); i++) require(w[i] != w[i - 1], "repeats", [&] { return std::string(name) + " buffer of " + std::to_string(n) + " elements: the eight bytes " + hex(cspan((uint8_t*)&w[i], 8)) + " occur twice at multiples of eight"; });
  }
  // the bits at the end, over several fills of the same size (small buffers are covered completely elsewhere)
  for (unsigned k = 0; k < (len > (1 << 19) ? 0 : 72); k++) {
    generate_random(std::span<T>(v));
    for (size_t i = 0; i < tail; i++) { ones[i] |= p[len - tail + i]; zeros[i] |= (uint8_t)~p[len - tail + i]; }
  }
  if (len <= (1 << 19)) for (size_t i = 0; i < tail; i++) require(ones[i] == 0xff && zeros[i] == 0xff, "bits-stuck", [&] { return std::string(name) + " buffer of " + std::to_string(n) + " elements: byte " + std::to_string(len - tail + i) + " ever set " + std::to_string(ones[i]) + " ever clear " + std::to_string(zeros[i]); });
  observed("large/" + std::string(name) + "/" + std::to_string(64 - __builtin_clzll(n)) + "/" + std::to_string(n % 16), 2);
  count("bytes of large buffers", 2 * len);
}
static void large(Rng& r, uint64_t j) {
  unsigned top = j < 4 ? 22 : 17;
  switch (j % 4) {
    case 0: large_one<uint8_t>(r, biglen(r, top), "uint8_t"); break;
    case 1: large_one<uint16_t>(r, biglen(r, top - 1), "uint16_t"); break;
    case 2: large_one<uint32_t>(r, biglen(r, top - 2), "uint32_t"); break;
    default: large_one<uint64_t>(r, biglen(r, top - 3), "uint64_t"); break;
  }
}
template <size_t N> static void big_one(Rng&) {
  bytes ones(N / 8, 0), zeros(N / 8, 0);
  std::vector<bytes> all;
  for (int k = 0; k < 72; k++) {
    bytes b = bignum<N>::random().as_bytes();
    require(b.size() == N / 8, "size", [&] { return "bignum<" + std::to_string(N) + ">"; });
    for (size_t i = 0; i < b.size(); i++) { ones[i] |= b[i]; zeros[i] |= (uint8_t)~b[i]; }
    all.push_back(b);
  }
  for (size_t i = 0; i < N / 8; i++) require(ones[i] == 0xff && zeros[i] == 0xff, "bits-stuck", [&] { return "bignum<" + std::to_string(N) + ">::random byte " + std::to_string(i) + " ever set " + std::to_string(ones[i]) + " ever clear " + std::to_string(zeros[i]); });
  all_distinct(all, "repeats", "bignum<" + std::to_string(N) + ">::random");
  observed("bignum" + std::to_string(N), 72);
}
static void bignums(Rng& r, uint64_t) {
  big_one<32>(r); big_one<64>(r); big_one<96>(r); big_one<128>(r); big_one<160>(r); big_one<256>(r); big_one<288>(r); big_one<512>(r); big_one<1024>(r); big_one<2048>(r); big_one<4096>(r);
  bytes ones(32, 0), zeros(32, 0);
  std::vector<bytes> keys;
  for (int k = 0; k < 100; k++) {
    bytes b = ec_value::random_private_key().as_bytes();
    require((b[0] & 7) == 0 && (b[31] & 0xc0) == 0x40, "key-form", [&] { return "private key " + hex(b) + " is not clamped"; });
    for (size_t i = 0; i < 32; i++) { ones[i] |= b[i]; zeros[i] |= (uint8_t)~b[i]; }
    keys.push_back(b);
  }
  for (size_t i = 0; i < 32; i++) {
    uint8_t free = i == 0 ? 0xf8 : i == 31 ? 0x3f : 0xff;
    require((ones[i] & free) == free && (zeros[i] & free) == free, "bits-stuck", [&] { return "private key byte " + std::to_string(i) + " ever set " + std::to_string(ones[i]) + " ever clear " + std::to_string(zeros[i]); });
  }
  all_distinct(keys, "repeats", "private keys");
  std::set<std::string> primes;
  for (int k = 0; k < 6; k++) { auto b = random_prime<128>().as_bytes(); require(primes.insert(hex(b)).second, "repeats", [&] { return "prime " + hex(b) + " generated twice"; }); }
  observed("keys", 106);
}
static void mixed(Rng& r, uint64_t j) {
  std::vector<bytes> s{emit_mixed(r, 1 << 17)};
  all_distinct(s, "repeats", "one stream");
  observed("mixed" + std::to_string(j));
}
static void threads(Rng& r, uint64_t j) {
  size_t n = r.range(2, 24);
  std::vector<bytes> s(n + 1);
  std::atomic<bool> go{false};
  if (r.chance(1, 2)) s[n] = emit_mixed(r, r.range(1, 2000));
  std::vector<std::thread> t;
  for (size_t k = 0; k < n; k++) t.emplace_back([&, k, seed = r.u64()] { Rng q(seed); while (!go) {} s[k] = emit_mixed(q, 2000); });
  go = true;
  for (auto& x : t) x.join();
  all_distinct(s, "repeats", std::to_string(n) + " threads");
  observed("threads" + std::to_string(n) + "/" + std::to_string(j), n);
}
// Processes that share all their memory up to a point: whatever a process knows does not determine what it produces next.
static void forks(Rng& r, uint64_t j) {
  std::vector<bytes> s;
  s.push_back(emit_mixed(r, r.chance(1, 4) ? 0 : r.range(1, r.chance(1, 3) ? 60000 : 200)));
  size_t n = r.range(2, 8);
  uint64_t seed = r.u64();
  std::vector<std::pair<pid_t, int>> kids;
  for (size_t k = 0; k < n; k++) {
    int fd[2];
    if (pipe(fd)) _exit(98);
    pid_t p = fork();
    if (p < 0) _exit(98);
    if (!p) {
      close(fd[0]);
      bytes b;
      if (k % 2) { std::thread t([&] { Rng q(seed); b = emit_mixed(q, 3000); }); t.join(); }
      else { Rng q(seed); b = emit_mixed(q, 3000); }
      put(fd[1], b);
      _exit(0);
    }
    close(fd[1]);
    kids.push_back({p, fd[0]});
  }
  { Rng q(seed); s.push_back(emit_mixed(q, 3000)); }
  for (auto& [p, fd] : kids) {
    s.push_back(drain(fd));
    int st = 0;
    if (waitpid(p, &st, 0) != p || st != 0) fail("child-failed", "a forked process generating random values ended with status " + std::to_string(st));
  }
  all_distinct(s, "continuation-known", std::to_string(n) + " processes forked from one (stream 0 before the fork, 1 the parent after it)");
  std::vector<const bytes*> all, same;
  for (size_t k = 1; k < s.size(); k++) { all.push_back(&s[k]); if (k == 1 || k % 2 == 0) same.push_back(&s[k]); }   // same: without those that started a thread
  all_differ(all, "continuation-known", "a process and the " + std::to_string(n) + " forked from it");
  all_differ(same, "continuation-known", "a process and " + std::to_string(same.size() - 1) + " forked from it");
  observed("fork" + std::to_string(n) + "/" + std::to_string(j), n + 1);
}
static void execs(Rng& r, uint64_t j) {
  size_t n = 12;
  std::vector<bytes> s;
  std::vector<std::pair<pid_t, int>> kids;
  bool freeze = j % 2;
  for (size_t k = 0; k < n; k++) {
    int fd[2];
    if (pipe(fd)) _exit(98);
    pid_t p = fork();
    if (p < 0) _exit(98);
    if (!p) {
      if (freeze) personality(ADDR_NO_RANDOMIZE);
      dup2(fd[1], 1);
      execl("/proc/self/exe", "c25", "--emit", freeze ? "frozen" : "plain", (char*)nullptr);
      _exit(94);
    }
    close(fd[1]);
    kids.push_back({p, fd[0]});
  }
  for (auto& [p, fd] : kids) {
    s.push_back(drain(fd));
    int st = 0;
    if (waitpid(p, &st, 0) != p) _exit(98);
    if (st != 0) fail("child-failed", "a process generating random values ended with status " + std::to_string(st));
  }
  all_distinct(s, "processes-agree", std::to_string(n) + (freeze ? " processes seeing the same time, process id and addresses" : " processes started together"));
  std::vector<const bytes*> all; for (auto& b : s) all.push_back(&b);
  all_differ(all, "processes-agree", std::to_string(n) + (freeze ? " processes seeing the same time, process id and addresses" : " processes started together"));
  observed((freeze ? "frozen" : "exec") + std::to_string(j), n);
  (void)r;
}
static std::vector<uint64_t> words(Rng& r, size_t n) {
  std::vector<uint64_t> v(n);
  if (r.chance(1, 2)) generate_random(std::span<uint64_t>(v)); else for (auto& x : v) x = generate_random_value();
  return v;
}
// Linear complexity of bit sequences: a sequence from a linear generator (shift registers, Mersenne twisters, ...) is
// predictable after twice that many bits; of a random one it is half the length, give or take a few.
static size_t linear_complexity(const std::vector<uint8_t>& s) {
  size_t n = s.size(), W = n / 64 + 2;
  std::vector<uint64_t> C(W, 0), B(W, 0), T(W), S(W, 0);   // S: bits of the sequence, most recent first
  C[0] = B[0] = 1;
  size_t L = 0, m = 1;
  for (size_t i = 0; i < n; i++) {
    size_t used = std::min(W, L / 64 + 2), top = std::min(W, i / 64 + 2);
    for (size_t k = top; k-- > 1;) S[k] = S[k] << 1 | S[k - 1] >> 63;
    S[0] = S[0] << 1 | s[i];
    uint64_t d = 0;
    for (size_t k = 0; k < used; k++) d ^= C[k] & S[k];
    if (!(__builtin_popcountll(d) & 1)) { m++; continue; }
    bool grow = 2 * L <= i;
    if (grow) T = C;
    size_t ws = m / 64, bs = m % 64;
    for (size_t k = W; k-- > ws;) C[k] ^= (B[k - ws] << bs) | (bs && k > ws ? B[k - ws - 1] >> (64 - bs) : 0);
    if (grow) { L = i + 1 - L; B.swap(T); m = 1; } else m++;
  }
  return L;
}
static void linear(Rng& r, uint64_t j) {
  const size_t n = 44000;
  auto w = words(r, n);
  std::vector<uint8_t> s(n);
  unsigned bit = (unsigned)(j < 2 ? j * 63 : r.below(64));
  for (size_t i = 0; i < n; i++) s[i] = w[i] >> bit & 1;
  size_t L = linear_complexity(s);
  require(L > n / 2 - 100, "predictable", [&] { return "bit " + std::to_string(bit) + " of successive values follows a linear recurrence of length " + std::to_string(L); });
  count("linear complexity bits", n);
  observed("bit" + std::to_string(bit), n);
}
// Linear relations: rows of random bits are independent over GF(2); a row that is the xor of others (or their complement) is
// predictable from them. With 64 columns more than rows a relation happens by chance once in 2^64 trials.
static bytes filled(unsigned kind, size_t bytes_wanted) {
  bytes b(bytes_wanted);
  switch (kind) {
    case 0: generate_random(std::span<uint8_t>(b)); break;
    case 1: { std::vector<uint16_t> v(bytes_wanted / 2); generate_random(std::span<uint16_t>(v)); memcpy(b.data(), v.data(), v.size() * 2); break; }
    case 2: { std::vector<uint32_t> v(bytes_wanted / 4); generate_random(std::span<uint32_t>(v)); memcpy(b.data(), v.data(), v.size() * 4); break; }
    case 3: { std::vector<uint64_t> v(bytes_wanted / 8); generate_random(std::span<uint64_t>(v)); memcpy(b.data(), v.data(), v.size() * 8); break; }
    case 4: for (size_t k = 0; k < bytes_wanted / 8; k++) { uint64_t v = generate_random_value(); memcpy(&b[8 * k], &v, 8); } break;
    case 5: for (size_t k = 0; k < bytes_wanted / 64; k++) { auto v = bignum<512>::random(); auto w = v.as_bytes(); memcpy(&b[64 * k], w.data(), 64); } break;
  }
  return b;
}
static void relations(Rng& r, uint64_t j) {
  static const char* const names[] = {"uint8_t buffers", "uint16_t buffers", "uint32_t buffers", "uint64_t buffers", "values", "bignums"};
  unsigned kind = j % 6; bool bits = j / 6 % 2;
  // rows: the 64-bit places of a buffer (columns: buffers and lanes), or every bit of a short one (columns: buffers)
  size_t places = bits ? 8 * r.range(1, 4) : 8 * r.range(4, j % 5 == 0 ? 256 : 100), rows = (bits ? places * 64 : places) + 1, cols = (rows + 64 + 63) / 64 * 64, W = cols / 64;
  std::vector<std::vector<uint64_t>> m(rows, std::vector<uint64_t>(W, 0));
  for (size_t c = 0; c < (bits ? cols : W); c++) {
    bytes b = filled(kind, places * 8);
    for (size_t k = 0; k < places; k++) {
      uint64_t v; memcpy(&v, &b[8 * k], 8);
      if (!bits) m[k][c] = v; else for (int t = 0; t < 64; t++) if (v >> t & 1) m[64 * k + t][c / 64] |= 1ull << c % 64;
    }
  }
  m.back().assign(W, ~0ull);
  std::vector<std::vector<uint64_t>> done; std::vector<size_t> lead;
  for (size_t i = 0; i < rows; i++) {
    auto& v = m[i];
    for (size_t k = 0; k < done.size(); k++) if (v[lead[k] / 64] >> lead[k] % 64 & 1) for (size_t w = 0; w < W; w++) v[w] ^= done[k][w];
    size_t w = 0; while (w < W && !v[w]) w++;
    require(w < W, "predictable", [&] { return std::string(names[kind]) + " of " + std::to_string(places * 8) + " bytes: " + (i + 1 == rows ? "a constant sum of " + std::string(bits ? "bits" : "64-bit places") : (bits ? "bit " : "64-bit place ") + std::to_string(i) + " is always a sum of earlier ones") + " (seen in " + std::to_string(cols) + " columns)"; });
    lead.push_back(w * 64 + __builtin_ctzll(v[w])); done.push_back(v);
  }
  count("independent rows", rows); observed("relations" + std::to_string(kind) + (bits ? "b" : "p") + std::to_string(places), rows);
  sample([&] { return std::to_string(rows) + " rows of " + names[kind] + " are independent over " + std::to_string(cols) + " columns"; });
}
// The usual generators that are not linear over GF(2) but whose next value follows from a few values just the same: counters
// (also behind the finalisers of splitmix64 and murmur), congruential generators (any modulus 2^k with all bits shown, drand48
// with the upper ones), scrambled shift registers (xoshiro**, xoroshiro**) and additive ones (random()). Each view of the
// output is taken back through the function and tested for the relation that the generator's states obey.
static uint64_t inverse(uint64_t a) { uint64_t x = a; for (int k = 0; k < 6; k++) x *= 2 - a * x; return x; }
static uint64_t unshift(uint64_t y, int k) { uint64_t x = y; for (int n = k; n < 64; n += k) x = y ^ x >> k; return x; }
static uint64_t unshift32(uint32_t y, int k) { uint32_t x = y; for (int n = k; n < 32; n += k) x = y ^ x >> k; return x; }
static void follows(const std::vector<uint64_t>& s, int bits, const char* view, const char* behind) {
  uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
  size_t counter = 0, congruent = 0;
  for (size_t i = 0; i + 3 < s.size(); i++) {
    uint64_t a = s[i + 1] - s[i], b = s[i + 2] - s[i + 1], c = s[i + 3] - s[i + 2];
    counter += ((a - b) & mask) == 0;
    congruent += ((b * b - a * c) & mask) == 0;
  }
  auto text = [&](const char* what, size_t n) { return std::string(view) + behind + ": in " + std::to_string(n) + " of " + std::to_string(s.size()) + " places the values follow from the earlier ones as in " + what; };
  require(counter < 4, "predictable", [&] { return text("a counter", counter); });
  require(congruent < 4, "predictable", [&] { return text("a congruential generator", congruent); });
}
static void generators(Rng& r, uint64_t j) {
  size_t n = 6000;
  auto w = words(r, n);
  if (j % 4 == 3) { bytes b = filled(j / 4 % 6, n * 8); memcpy(w.data(), b.data(), n * 8); }
  struct View { const char* name; std::vector<uint64_t> s; int bits; };
  std::vector<View> views(7);
  views[0] = {"values", w, 64};
  views[1] = {"values with exchanged halves", {}, 64}; views[2] = {"low halves", {}, 32}; views[3] = {"high halves", {}, 32};
  views[4] = {"halves, low first", {}, 32}; views[5] = {"halves, high first", {}, 32}; views[6] = {"bytes reversed", {}, 64};
  for (uint64_t x : w) {
    uint64_t lo = (uint32_t)x, hi = x >> 32;
    views[1].s.push_back(lo << 32 | hi); views[2].s.push_back(lo); views[3].s.push_back(hi); views[6].s.push_back(__builtin_bswap64(x));
    views[4].s.push_back(lo); views[4].s.push_back(hi); views[5].s.push_back(hi); views[5].s.push_back(lo);
  }
  for (auto& v : views) {
    auto through = [&](auto f) { std::vector<uint64_t> t; for (uint64_t x : v.s) t.push_back(f(x)); return t; };
    follows(v.s, v.bits, v.name, "");
    if (v.bits == 64) {
      follows(through([](uint64_t x) { x = unshift(x, 31) * inverse(0x94d049bb133111ebull); x = unshift(x, 27) * inverse(0xbf58476d1ce4e5b9ull); return unshift(x, 30); }), 64, v.name, " before splitmix64's finaliser");
      follows(through([](uint64_t x) { x = unshift(x, 33) * inverse(0xc4ceb9fe1a85ec53ull); x = unshift(x, 33) * inverse(0xff51afd7ed558ccdull); return unshift(x, 33); }), 64, v.name, " before murmur's finaliser");
    } else {
      follows(through([](uint64_t x) { x = (uint32_t)(unshift32((uint32_t)x, 16) * inverse(0xc2b2ae35u)); x = (uint32_t)(unshift32((uint32_t)x, 13) * inverse(0x85ebca6bu)); return unshift32((uint32_t)x, 16); }), 32, v.name, " before murmur's finaliser");
    }
    // drand48, lrand48, mrand48: the upper 32 or 31 of 48 bits, the others tried out
    if (v.bits == 32) for (int cut : {16, 17}) {
      size_t hits = 0;
      for (size_t i = 0; i < 6; i++) for (uint64_t low = 0; low < 1ull << cut; low++) {
        uint64_t x = (v.s[i] << cut | low) & 0xffffffffffffull, m = (1ull << (48 - cut)) - 1; bool ok = true;
        for (size_t k = 1; k < 4 && ok; k++) { x = x * 0x5deece66dull + 11 & 0xffffffffffffull; ok = x >> cut == (v.s[i + k] & m); }
        hits += ok;
      }
      require(hits < 2, "predictable", [&] { return std::string(v.name) + " are the output of a 48-bit congruential generator"; });
    }
    // random(): o[i] = o[i-31] + o[i-3] of 31 bits, give or take the bit that is not shown
    for (int shift : {0, 1, 32, 33}) {
      if (shift >= v.bits) continue;
      size_t hits = 0;
      for (size_t i = 31; i < v.s.size(); i++) hits += (((v.s[i] >> shift) - (v.s[i - 31] >> shift) - (v.s[i - 3] >> shift)) & 0x7fffffff) < 2;
      require(hits < 12, "predictable", [&] { return std::string(v.name) + " are mostly the sum of the ones 3 and 31 places before"; });
    }
  }
  for (int swapped = 0; swapped < 2; swapped++) {
    std::vector<uint8_t> bits;
    unsigned bit = (unsigned)r.below(64);
    const size_t m = 3000;
    for (size_t i = 0; i < m; i++) { uint64_t x = views[swapped].s[i] * inverse(9); x = (x >> 7 | x << 57) * inverse(5); bits.push_back(x >> bit & 1); }
    size_t L = linear_complexity(bits);
    require(L > m / 2 - 100, "predictable", [&] { return std::string(views[swapped].name) + " before xoshiro's scrambler follow a linear recurrence of length " + std::to_string(L); });
  }
  count("values tested for known generators", n);
  observed("generators" + std::to_string(j % 24), n);
}
// The first values of very many short-lived threads: when a thread's stream is determined by a seed of 32 bits or less, some
// of these repeat (2^18 threads: 8 expected), while 64-bit values of their own repeat once in 2^29 such runs.
static void seeds(Rng& r, uint64_t j) {
  const size_t lanes = 4, each = (1u << 18) / lanes;
  std::vector<uint64_t> first(lanes * each);
  bool value = j % 2;
  unsigned skip = (unsigned)r.below(3);
  std::vector<std::thread> lane;
  for (size_t l = 0; l < lanes; l++) lane.emplace_back([&, l] {
    for (size_t k = 0; k < each; k++) std::thread([&] {
      uint64_t v[3];
      for (auto& x : v) x = generate_random_value();
      if (value) first[l * each + k] = v[skip]; else generate_random(std::span<uint64_t>(&first[l * each + k], 1));
    }).join();
  });
  for (auto& t : lane) t.join();
  std::sort(first.begin(), first.end());
  size_t same = 0;
  for (size_t i = 1; i < first.size(); i++) same += first[i] == first[i - 1];
  require(same == 0, "streams-meet", [&] { return "among " + std::to_string(first.size()) + " threads " + std::to_string(same) + " got the 64-bit value of another thread at the same place"; });
  count("short-lived threads", first.size());
  observed("seeds" + std::to_string(value) + std::to_string(skip), first.size());
}
// As many values of one stream as time permits, all different: with fewer than 2n bits behind them some of 2^n values repeat.
static void longrun(Rng& r, uint64_t j) {
  const size_t n = (size_t)1 << (j < 1 ? 24 : 26);
  auto w = words(r, n);
  std::sort(w.begin(), w.end());
  size_t same = 0;
  for (size_t i = 1; i < n; i++) same += w[i] == w[i - 1];
  require(same == 0, "repeats", [&] { return std::to_string(same) + " of " + std::to_string(n) + " values of one stream came twice"; });
  count("values of long streams", n);
  observed("long" + std::to_string(j % 4), n);
}
static void birthday(Rng& r, uint64_t j) {
  const size_t n = 1 << 20;
  auto w = words(r, n);
  {
    auto v = w;
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < n; i++) require(v[i] != v[i - 1], "repeats", [&] { return "the value " + std::to_string(v[i]) + " came twice among " + std::to_string(n); });
  }
  auto test = [&](std::vector<uint32_t> v, const char* what) {
    std::sort(v.begin(), v.end());
    size_t c = 0;
    for (size_t i = 1; i < n; i++) c += v[i] == v[i - 1];
    require(c >= 28 && c <= 240, "birthdays", [&] { return std::string(what) + ": " + std::to_string(c) + " repetitions among " + std::to_string(n) + " 32-bit values, 128 expected"; });
    count("32-bit birthdays seen", c);
  };
  std::vector<uint32_t> v(n);
  for (size_t i = 0; i < n; i++) v[i] = (uint32_t)w[i];
  test(v, "low halves");
  for (size_t i = 0; i < n; i++) v[i] = (uint32_t)(w[i] >> 32);
  test(v, "high halves");
  for (size_t i = 0; i < n; i++) v[i] = (uint32_t)(w[i] - w[i ? i - 1 : n - 1]);
  test(v, "differences of low halves");
  for (size_t i = 0; i < n; i++) v[i] = (uint32_t)((w[i] - w[i ? i - 1 : n - 1]) >> 32);
  test(v, "differences of high halves");
  generate_random(std::span<uint32_t>(v));
  test(v, "32-bit buffer");
  observed("birthday" + std::to_string(j), n);
}
// Frequencies of bits, of equal pairs of bits (same value, next value) and of differences of elements at small distances.
static void frequency(Rng& r, uint64_t j) {
  const size_t n = 1 << 15;
  auto w = words(r, n + 1);
  std::vector<bytes> col(64, bytes(n + 1));
  double lim = 8 * std::sqrt((double)n) / 2;
  auto judge = [&](size_t c, const std::string& what) { require(std::fabs((double)c - n / 2.0) < lim, "biased", [&] { return what + " in " + std::to_string(c) + " of " + std::to_string(n) + " values"; }); };
  for (int a = 0; a < 64; a++) {
    size_t c = 0;
    for (size_t i = 0; i < n; i++) c += w[i] >> a & 1;
    judge(c, "bit " + std::to_string(a) + " set");
    for (int b = 0; b < 64; b++) {
      size_t c0 = 0, c1 = 0;
      for (size_t i = 0; i < n; i++) { c0 += (w[i] >> a ^ w[i] >> b) & 1; c1 += (w[i] >> a ^ w[i + 1] >> b) & 1; }
      if (a != b) judge(c0, "bits " + std::to_string(a) + " and " + std::to_string(b) + " differing");
      judge(c1, "bit " + std::to_string(a) + " and the next value's bit " + std::to_string(b) + " differing");
    }
  }
  bytes v(1 << 17);
  generate_random(std::span<uint8_t>(v));
  for (size_t lag = 0; lag <= 72; lag++) {
    std::array<size_t, 256> h{}, x{};
    for (size_t i = 0; i + 72 < v.size(); i++) { h[lag ? (uint8_t)(v[i + lag] - v[i]) : v[i]]++; if (lag) x[v[i + lag] ^ v[i]]++; else x[v[i]]++; }
    double e = (v.size() - 72) / 256.0;
    for (int k = 0; k < 256; k++) require(std::fabs(h[k] - e) < 9 * std::sqrt(e) && std::fabs(x[k] - e) < 9 * std::sqrt(e), "biased", [&] { return "bytes at distance " + std::to_string(lag) + " have difference/xor " + std::to_string(k) + " " + std::to_string(h[k]) + "/" + std::to_string(x[k]) + " times, " + std::to_string(e) + " expected"; });
  }
  observed("frequency" + std::to_string(j), n + v.size());
}

int main(int argc, char** argv) {
  if (argc == 3 && !strcmp(argv[1], "--emit")) {
    frozen = !strcmp(argv[2], "frozen");
    Rng r(1);
    put(1, emit_mixed(r, 2000));
    _exit(0);
  }
  return run_main(argc, argv, {
    {"longrun", 1, 6, longrun, 900}, {"seeds", 2, 12, seeds, 600}, {"large", 48, 600, large}, {"fill", 30, 30 * 8, fill}, {"bignums", 8, 60, bignums}, {"mixed", 24, 400, mixed}, {"threads", 40, 800, threads}, {"forks", 120, 3000, forks},
    {"execs", 16, 300, execs}, {"linear", 8, 64, linear}, {"relations", 60, 900, relations}, {"generators", 24, 240, generators}, {"birthday", 8, 60, birthday}, {"frequency", 8, 60, frequency},
  });
}
