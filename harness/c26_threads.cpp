// C26: threads with objects of their own, under ThreadSanitizer; every round starts in a fresh process, so that first
// uses (function-local statics, tables) happen concurrently too. Each result is compared with the same call alone.
#include "apiall.h"
#include <condition_variable>
#include <thread>
#include <sys/wait.h>
#include "hashes.h"
#include <caligo/aes.h>
#include <caligo/chacha20.h>
#include <caligo/ctr.h>
#include <caligo/gcm.h>
#include <caligo/mont.h>
#include <caligo/rsa.h>
#include <caligo/x25519.h>
using namespace vf;

struct Outcome { std::string key, detail; std::set<std::string> pairs; uint64_t calls = 0; };
static void rounds(Rng& r, uint64_t job, const std::function<Outcome(Rng&)>& body) {
  int fd[2];
  if (pipe(fd)) _exit(98);
  pid_t p = fork();
  if (p < 0) _exit(98);
  if (!p) {
    close(fd[0]);
    alarm(120);   // calls that block each other
    Outcome o;
    try { o = body(r); } catch (const std::exception& e) { o.key = "unexpected-exception"; o.detail = e.what(); }
    std::string s = o.key + "\n" + jsonstr(o.detail) + "\n" + std::to_string(o.calls) + "\n";
    for (auto& x : o.pairs) s += x + "\n";
    size_t at = 0;
    while (at < s.size()) { ssize_t n = write(fd[1], s.data() + at, s.size() - at); if (n <= 0) break; at += n; }
    _exit(0);
  }
  close(fd[1]);
  std::string s; char b[65536]; ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
  close(fd[0]);
  int st = 0;
  if (waitpid(p, &st, 0) != p) _exit(98);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 76) _exit(76);     // the report is on the shared standard error
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) fail("no-answer", "concurrent calls did not finish within 120 s");
  if (st != 0) fail("crash", WIFSIGNALED(st) ? "concurrent use ended with signal " + std::to_string(WTERMSIG(st)) : "concurrent use ended with status " + std::to_string(WEXITSTATUS(st)));
  std::vector<std::string> lines; size_t at = 0, e;
  while ((e = s.find('\n', at)) != std::string::npos) { lines.push_back(s.substr(at, e - at)); at = e + 1; }
  if (lines.size() < 3) _exit(98);
  if (!lines[0].empty()) fail(lines[0], lines[1]);
  observed("", strtoull(lines[2].c_str(), 0, 10));
  for (size_t i = 3; i < lines.size(); i++) observed(lines[i], 0);
  count("concurrent calls", strtoull(lines[2].c_str(), 0, 10));
  count("fresh processes");
  sample([&] { return lines[2] + " concurrent calls, among them " + (lines.size() > 3 ? lines[3] : "none"); });
  (void)job;
}
struct Plan { std::vector<std::vector<std::pair<const ApiOp*, uint64_t>>> per; };
static Outcome execute(Rng& r, const Plan& plan) {
  size_t T = plan.per.size();
  std::vector<std::vector<bytes>> got(T);
  std::vector<std::string> bad(T);
  std::vector<std::vector<unsigned>> pauses(T);
  for (size_t t = 0; t < T; t++) for (size_t i = 0; i < plan.per[t].size(); i++) pauses[t].push_back(r.chance(1, 6) ? (unsigned)r.below(3000) : 0);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  for (size_t t = 0; t < T; t++) th.emplace_back([&, t] {
    ready++;
    while (ready.load() < T) {}
    for (size_t i = 0; i < plan.per[t].size(); i++) {
      auto& [op, seed] = plan.per[t][i];
      for (volatile unsigned k = 0; k < pauses[t][i]; k = k + 1) {}
      try { got[t].push_back(call(*op, seed, Place{(unsigned)(seed % 16)})); } catch (const std::exception& e) { bad[t] = op->name + ": " + e.what(); return; }
    }
  });
  for (auto& x : th) x.join();
  Outcome o;
  for (size_t t = 0; t < T; t++) if (!bad[t].empty()) { o.key = "unexpected"; o.detail = bad[t]; return o; }
  for (size_t t = 0; t < T; t++) for (size_t i = 0; i < plan.per[t].size(); i++) {
    auto& [op, seed] = plan.per[t][i];
    o.calls++;
    if (op->kind == ApiOp::Random) continue;
    bytes alone = call(*op, seed, Place{(unsigned)(seed % 16)});
    if (alone != got[t][i]) { o.key = "result-differs"; o.detail = op->name + " in one of " + std::to_string(T) + " threads gave " + hex(got[t][i]) + ", alone " + hex(alone); return o; }
    auto& other = plan.per[(t + 1) % T];
    if (i < other.size()) o.pairs.insert(op->name + " with " + other[i].first->name);
  }
  return o;
}
// All threads begin with the same operation, on objects of their own: one job per operation.
static void same(Rng& r, uint64_t j) {
  const ApiOp& op = api_ops()[j % api_ops().size()];
  if (op.kind == ApiOp::Store) return;
  rounds(r, j, [&](Rng& r) {
    Plan p; p.per.resize(op.weight > 2 ? r.range(3, 6) : 2);
    bool large = (j / api_ops().size()) & 1;   // the second pass uses large inputs only
    if ((j / api_ops().size()) % 4 > 1) {   // the third and fourth pass: exactly the same calls in all threads
      for (int k = op.weight == 0 ? 2 : 5; k--;) { uint64_t s = large ? r.u64() | 7 : r.u64(); for (auto& t : p.per) t.push_back({&op, s}); }
      return execute(r, p);
    }
    for (auto& t : p.per) for (int k = op.weight == 0 ? 1 : 3; k--;) t.push_back({&op, large ? r.u64() | 7 : r.u64()});
    return execute(r, p);
  });
}
static void mixed(Rng& r, uint64_t j) {
  rounds(r, j, [&](Rng& r) {
    Plan p; p.per.resize(r.range(2, 8));
    std::vector<const ApiOp*> few; for (int k = 0; k < 4; k++) few.push_back(&pick_op(r, false));
    bool narrow = r.chance(1, 2);
    for (auto& t : p.per) for (int k = (int)r.range(4, 12); k--;) t.push_back({narrow ? r.pick(few) : &pick_op(r, false), r.u64()});
    return execute(r, p);
  });
}
// Copies of one object, each used by a thread of its own, continue independently.
template <typename T, typename Use> static Outcome copies_of(Rng& r, const char* name, T obj, Use use) {
  size_t n = r.range(2, 6);
  std::vector<T> copy; std::vector<uint64_t> seed;
  for (size_t k = 0; k < n; k++) { copy.push_back(obj); seed.push_back(r.u64()); }
  std::vector<bytes> got(n);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  for (size_t k = 0; k < n; k++) th.emplace_back([&, k] { ready++; while (ready.load() < n) {} Rng q(seed[k]); got[k] = use(q, copy[k]); });
  for (auto& x : th) x.join();
  Outcome o;
  for (size_t k = 0; k < n; k++) {
    T fresh = obj; Rng q(seed[k]);
    bytes alone = use(q, fresh);
    o.calls++;
    if (alone != got[k]) { o.key = "copy-differs"; o.detail = std::string(name) + ": the copy used by thread " + std::to_string(k) + " of " + std::to_string(n) + " gave " + hex(got[k]) + ", alone " + hex(alone); return o; }
  }
  o.pairs.insert(std::string("copies of ") + name + " x" + std::to_string(n));
  return o;
}
static void put(bytes& o, cspan d) { o.insert(o.end(), d.begin(), d.end()); }
template <size_t N> static Caligo::bignum<N> odd(Rng& r) { bytes b = r.raw(N / 8); b[0] |= 1; b[N / 8 - 1] |= 0x80; return Caligo::bignum<N>(cspan(b)); }
static Outcome copies_body(Rng& r, uint64_t j) {
  using namespace Caligo;
  uint64_t w = j % 16;
  if (w < kHashes) return with_hash(w, [&]<typename H>() {
    H h; bytes d = r.raw(r.below(300)); h.add(cspan(d)); if (r.chance(1, 2)) (void)h.data();
    return copies_of(r, HashInfo<H>::name, h, [](Rng& q, H& h) { bytes o; for (int k = 0; k < 6; k++) { bytes d = q.raw(q.below(200)); h.add(cspan(d)); put(o, h.data()); } return o; });
  });
  switch (w) {
    case 10: { bytes k = r.raw(32), iv = r.raw(r.chance(1, 2) ? 12 : 20); GCM<AES<256>> g(key_iv_pair<AES<256>>{cspan(k), cspan(iv)}); if (r.chance(1, 2)) (void)g.Encrypt({}, {});
      return copies_of(r, "GCM", g, [](Rng& q, GCM<AES<256>>& g) { bytes o; for (int k = 0; k < 4; k++) { bytes d = q.raw(q.below(100)), a = q.raw(q.below(40)); auto [c, t] = g.Encrypt(d, a); put(o, c); put(o, t); } return o; }); }
    case 11: { bytes k = r.raw(16), iv = r.raw(16); CTR<AES<128>> g(key_iv_pair<AES<128>>{cspan(k), cspan(iv)}); if (r.chance(1, 2)) (void)g.GenerateKeystream(5);
      return copies_of(r, "CTR", g, [](Rng& q, CTR<AES<128>>& g) { bytes o; for (int k = 0; k < 4; k++) { bytes d = q.raw(q.below(100)); g.Encrypt(d); put(o, d); } return o; }); }
    case 12: { bytes k = r.raw(32), iv = r.raw(12); ChaCha20 g{cspan(k), cspan(iv)}; bytes d = r.raw(r.below(100)); g.Encrypt(d);
      return copies_of(r, "ChaCha20", g, [](Rng& q, ChaCha20& g) { bytes o; for (int k = 0; k < 4; k++) { bytes d = q.raw(q.below(100)); g.Encrypt(d); put(o, d); } return o; }); }
    case 13: { rsa_public_key<256> g(odd<256>(r), bignum<256>(r.u32() | 1));
      return copies_of(r, "RSA public key", g, [](Rng& q, rsa_public_key<256>& g) { bytes m = q.raw(32); return g.rsaep(bignum<256>(cspan(m))).as_bytes(); }); }
    case 14: { MontgomeryState<256> g(odd<256>(r));
      return copies_of(r, "Montgomery state", g, [](Rng& q, MontgomeryState<256>& g) { bytes m = q.raw(32); MontgomeryValue<256> v(g, bignum<256>(cspan(m))); return bignum<256>(v.exp(q.u32()) + v).as_bytes(); }); }
    default: { bytes b = r.raw(32); ec_value g{bignum<256>(cspan(b))};
      return copies_of(r, "X25519 value", g, [](Rng& q, ec_value& g) { bytes m = q.raw(32); return X25519(ec_value(bignum<256>(cspan(m))), g).as_bytes(); }); }
  }
}
static void copies(Rng& r, uint64_t j) { rounds(r, j, [&](Rng& r) { return copies_body(r, j); }); }
int main(int argc, char** argv) {
  warm_inputs();
  uint64_t n = api_ops().size();
  return run_main(argc, argv, { {"copies", 64, 1600, copies}, {"same", 4 * n, n * 12, same}, {"mixed", 160, 6000, mixed} });
}
