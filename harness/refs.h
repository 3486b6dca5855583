// Independent references: OpenSSL libcrypto.
#pragma once
#include "common.h"
typedef struct evp_md_ctx_st EVP_MD_CTX;

namespace ref {
using vf::bytes;
using vf::cspan;

struct Digest {
  EVP_MD_CTX* c;
  explicit Digest(const char* name);
  Digest(const Digest& o);
  Digest& operator=(const Digest& o);
  ~Digest();
  void add(cspan d);
  bytes get() const;
};
bytes digest(const char* name, cspan d);
bytes hmac(const char* name, cspan key, cspan data);
bytes hkdf_extract(const char* name, cspan salt, cspan ikm);
bytes hkdf_expand(const char* name, cspan prk, cspan info, size_t len);
bytes aes_ecb(cspan key, cspan data);
std::string hexlow(cspan b);
} // namespace ref
