// C02: random histories over sets of hash objects, checked after every step against a model that keeps the bytes added.
#include "hashes.h"
using namespace vf;

static uint32_t crc_model(cspan d) {
  uint32_t c = 0xffffffff;
  for (uint8_t b : d) { c ^= b; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xedb88320u & (0u - (c & 1))); }
  return ~c;
}
static bytes model(const char* name, cspan d) {
  if (!strcmp(name, "CRC32")) { uint32_t c = crc_model(d); return {uint8_t(c >> 24), uint8_t(c >> 16), uint8_t(c >> 8), uint8_t(c)}; }
  return ref::digest(name, d);
}

static void history(Rng& r, uint64_t i) {
  for (int rep = 0; rep < 30; rep++) {
    size_t kind = (i + rep) % (kHashes + 1);
    std::vector<std::unique_ptr<AnyHash>> obj;
    std::vector<bytes> acc;
    obj.push_back(make_hash(kind));
    acc.push_back({});
    const char* name = obj[0]->name;
    size_t block = obj[0]->block;
    std::string log, shape;
    auto read = [&](size_t k) {
      const AnyHash& h = *obj[k];
      bytes want = model(name, acc[k]);
      auto ctx = [&] { return std::string(name) + " object " + std::to_string(k) + " holding " + std::to_string(acc[k].size()) + " bytes after" + log; };
      std::string key = std::string("read-") + name;
      for (unsigned n = r.range(1, 4); n--;) {
        switch (r.below(3)) {
          case 0: require_same(h.data(), want, key, ctx); count("array reads"); break;
          case 1: require_same(h.converted(), want, key, ctx); count("conversions"); break;
          default: require_same(h.text(), ref::hexlow(want), std::string("text-") + name, ctx); count("text reads"); break;
        }
      }
      require(h.hashsize() == h.out, std::string("size-") + name, [&] { return "hashsize " + std::to_string(h.hashsize()); });
      observed(std::string(name) + "/" + std::to_string(acc[k].size() % block) + "/" + shape);
    };
    size_t steps = r.range(3, 40);
    for (size_t s = 0; s < steps; s++) {
      size_t k = r.below(obj.size());
      unsigned op = r.below(10);
      if (op < 4) {
        bytes d = r.data(r.chance(1, 3) ? (block - acc[k].size() % block + r.below(3) + block - 1) % (2 * block) : r.chance(1, 250) ? biglen(r, 21) : length(r, block, 5000));
        if (r.chance(1, 4)) obj[k]->add_text(std::string_view((const char*)d.data(), d.size())); else obj[k]->add(d);
        acc[k].insert(acc[k].end(), d.begin(), d.end());
        log += " add" + std::to_string(k) + "(" + std::to_string(d.size()) + ")"; shape += 'a';
      } else if (op < 6) { log += " read" + std::to_string(k); shape += 'r'; read(k);
      } else if (op == 6 && obj.size() < 5) {
        obj.push_back(obj[k]->clone()); acc.push_back(acc[k]);
        log += " copy" + std::to_string(k); shape += 'c';
      } else if (op == 7) {
        size_t j = r.below(obj.size());
        obj[k]->assign(*obj[j]); bytes t = acc[j]; acc[k] = t;
        log += " assign" + std::to_string(k) + "=" + std::to_string(j); shape += k == j ? 's' : '=';
      } else if (op == 8) {
        std::vector<bytes> parts(r.below(5));
        acc[k].clear();
        for (auto& p : parts) { p = r.data(r.chance(1, 400) ? biglen(r, 21) : length(r, block, 3000)); acc[k].insert(acc[k].end(), p.begin(), p.end()); }
        obj[k]->restart_with(parts);
        log += " construct" + std::to_string(k) + "/" + std::to_string(parts.size()); shape += "n";
      } else if (op == 9 && obj.size() > 1) {
        obj.erase(obj.begin() + k); acc.erase(acc.begin() + k);
        log += " drop" + std::to_string(k); shape += 'd';
      }
      if (shape.size() > 6) shape.erase(0, shape.size() - 6);
      if (r.chance(1, 3)) read(r.below(obj.size()));
      if (log.size() > 600) log.erase(0, log.size() - 500);
    }
    for (size_t k = 0; k < obj.size(); k++) read(k);
    count("histories"); count("steps", steps);
    sample([&] { return std::string(name) + ":" + log; });
  }
}

VF_MAIN({ {"history", 3600, 12000, history} })
