#include "rsabox.h"
#include <caligo/sha2.h>
#include <caligo/rsa.h>
namespace vf {
using namespace Caligo;
template <size_t N> struct Box final : RsaBox {
  rsa_public_key<N> pub; rsa_private_key<N> priv;
  Box(const Key& k) : pub(fromZ<N>(k.n), fromZ<N>(k.e)), priv(fromZ<N>(k.n), fromZ<N>(k.d)) {}
  size_t width() const override { return N; }
  Z rsaep(const Z& m) const override { return toZ(pub.rsaep(fromZ<N>(m))); }
  Z rsadp(const Z& m) const override { return toZ(priv.rsadp(fromZ<N>(m))); }
  template <size_t H> bytes pss(cspan msg, cspan salt) const { auto h = SHA2<H>(msg).data(); return priv.template signPssSignature<SHA2<H>, MGF1<SHA2<H>>>(h, salt); }
  bytes sign(int s, cspan msg, cspan salt) const override {
    switch (s) {
      case PKCS1_256: return priv.template signPkcs1_5Signature<SHA2<256>>(msg);
      case PKCS1_384: return priv.template signPkcs1_5Signature<SHA2<384>>(msg);
      case PKCS1_512: return priv.template signPkcs1_5Signature<SHA2<512>>(msg);
      case PSS_256: return pss<256>(msg, salt);
      case PSS_384: return pss<384>(msg, salt);
      default: return pss<512>(msg, salt);
    }
  }
  bool verify(int s, cspan msg, cspan sig) const override {
    switch (s) {
      case PKCS1_256: return pub.template validatePkcs1_5Signature<SHA2<256>>(msg, sig);
      case PKCS1_384: return pub.template validatePkcs1_5Signature<SHA2<384>>(msg, sig);
      case PKCS1_512: return pub.template validatePkcs1_5Signature<SHA2<512>>(msg, sig);
      case PSS_256: return pub.template validatePssSignature<SHA2<256>, MGF1<SHA2<256>>>(msg, sig);
      case PSS_384: return pub.template validatePssSignature<SHA2<384>, MGF1<SHA2<384>>>(msg, sig);
      default: return pub.template validatePssSignature<SHA2<512>, MGF1<SHA2<512>>>(msg, sig);
    }
  }
};
std::unique_ptr<RsaBox> RsaBox::make(const Key& k, size_t w) {
  switch (w) {
    case 512: return std::make_unique<Box<512>>(k);
    case 1024: return std::make_unique<Box<1024>>(k);
    case 2048: return std::make_unique<Box<2048>>(k);
    default: return std::make_unique<Box<4096>>(k);
  }
}
} // namespace vf
