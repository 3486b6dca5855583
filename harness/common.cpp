#include "common.h"
#include <sys/syscall.h>

namespace vf {

std::string hex(cspan b, size_t max) {
  static const char t[] = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < b.size() && i < max; i++) { s += t[b[i] >> 4]; s += t[b[i] & 15]; }
  if (b.size() > max) s += "..(" + std::to_string(b.size()) + " bytes)";
  return s;
}
std::string jsonstr(std::string_view s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

Monitor& mon() { static Monitor m; return m; }

// One observed execution. `cls` names its equivalence class for the distinct/non-trivial count; an empty
// class marks a trivial one.
void observed(std::string_view cls, uint64_t n) {
  Monitor& m = mon();
  m.evals += n;
  if (!cls.empty() && m.classes.size() < 400000) m.classes.insert(hashstr(cls));
}
void count(const std::string& name, uint64_t n) { mon().counters[name] += n; }
void sample(const std::function<std::string()>& f) {
  Monitor& m = mon();
  if (m.samples.size() < 4 && (m.samples.empty() || mix(m.evals) % 64 == 0)) m.samples.push_back(m.job + ": " + f());
}
[[noreturn]] void fail(const std::string& key, const std::string& detail) { throw Violation(key, detail); }
void require_same_bytes(cspan got, cspan want, std::string_view key, const std::function<std::string()>& ctx) {
  bool same = got.size() == want.size() && (got.empty() || memcmp(got.data(), want.data(), got.size()) == 0);
  if (!same) fail(std::string(key), ctx() + " got=" + hex(got) + " want=" + hex(want));
}

static int g_out = -1;
static char g_jobname[256];
static void emit(const std::string& line) {
  std::string l = line + "\n";
  if (write(g_out, l.data(), l.size()) < 0) _exit(98);
}
static uint64_t cpu_ms() { timespec t{}; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; }
static void on_cpu_limit(int) {
  char b[400];
  int n = snprintf(b, sizeof b, "{\"hang\":\"%s\"}\n", g_jobname);
  if (write(g_out, b, n) < 0) {}
  _exit(99);
}

int run_main(int argc, char** argv, const std::vector<Stage>& stages) {
  std::string out = "/dev/stderr", queue, tier = "quick", only;
  uint64_t seed = 1, worker = 0, limit_scale = 1;
  double scale = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--out") out = v; else if (a == "--queue") queue = v; else if (a == "--tier") tier = v;
    else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (a == "--worker") worker = strtoull(v.c_str(), 0, 10);
    else if (a == "--job") only = v; else if (a == "--limit-scale") limit_scale = strtoull(v.c_str(), 0, 10);
    else if (a == "--scale") scale = strtod(v.c_str(), 0);
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 97; }
  }
  g_out = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (g_out < 0) return 96;
  std::vector<std::pair<size_t, uint64_t>> jobs;
  for (size_t s = 0; s < stages.size(); s++) {
    uint64_t n = tier == "thorough" ? stages[s].thorough : stages[s].quick;
    if (scale != 1 && n > 1) { n = (uint64_t)(n * scale); if (!n) n = 1; }
    for (uint64_t i = 0; i < n; i++) jobs.push_back({s, i});
  }
  SharedQueue local{}, *q = &local;
  if (!queue.empty()) {
    int fd = open(queue.c_str(), O_RDWR);
    if (fd < 0) return 95;
    q = (SharedQueue*)mmap(nullptr, sizeof(SharedQueue), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (q == MAP_FAILED) return 95;
  }
  signal(SIGPROF, on_cpu_limit);
  Monitor& m = mon();
  m.replay = !only.empty();
  while (!q->stop) {
    uint64_t j = q->next++;
    if (j >= jobs.size()) break;
    const Stage& st = stages[jobs[j].first];
    std::string name = st.name + ":" + std::to_string(jobs[j].second);
    if (!only.empty() && only != name) continue;
    q->current[worker % 64] = j + 1;
    snprintf(g_jobname, sizeof g_jobname, "%s", name.c_str());
    emit("{\"start\":" + jsonstr(name) + "}");
    m.job = name;
    itimerval tv{};
    tv.it_value.tv_sec = (time_t)(st.cpu_limit * limit_scale);
    setitimer(ITIMER_PROF, &tv, nullptr);
    Rng rng(mix(seed) ^ mix(hashstr(st.name) + jobs[j].second * 0x9e3779b97f4a7c15ULL));
    std::string key, detail;
    uint64_t before = cpu_ms();
    try {
      st.run(rng, jobs[j].second);
    } catch (const Violation& v) { key = v.key; detail = v.what();
    } catch (const std::exception& e) { key = "unexpected-exception"; detail = e.what();
    } catch (...) { key = "unexpected-exception"; detail = "(not a std::exception)"; }
    tv.it_value.tv_sec = 0;
    setitimer(ITIMER_PROF, &tv, nullptr);
    if (!key.empty()) {
      emit("{\"fail\":" + jsonstr(key) + ",\"job\":" + jsonstr(name) + ",\"detail\":" + jsonstr(detail) + "}");
    }
    emit("{\"done\":" + jsonstr(name) + ",\"cpu_ms\":" + std::to_string(cpu_ms() - before) + "}");
  }
  std::string l = "{\"summary\":1,\"evals\":" + std::to_string(m.evals) + ",\"counters\":{";
  bool first = true;
  for (auto& [k, v] : m.counters) { if (!first) l += ","; first = false; l += jsonstr(k) + ":" + std::to_string(v); }
  l += "},\"samples\":[";
  first = true;
  for (auto& s : m.samples) { if (!first) l += ","; first = false; l += jsonstr(s); }
  l += "]}";
  std::string cf = out + ".classes";
  if (FILE* f = fopen(cf.c_str(), "ab")) {
    for (uint64_t c : m.classes) fwrite(&c, 8, 1, f);
    fclose(f);
  }
  emit(l);
  return 0;
}


} // namespace vf
