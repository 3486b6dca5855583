// For objects that hold a position in a sequence.
#pragma once
#include "refs.h"
#include <map>
#include <memory>
#include <utility>

namespace vf {
// Carries on with another object that takes over this one's state by copying, moving or assignment (`other` is a spare one).
template <typename T> void relocate(std::unique_ptr<T>& p, std::unique_ptr<T> other, unsigned how) {
  switch (how % 4) {
    case 0: if constexpr (std::is_copy_constructible_v<T>) p = std::make_unique<T>(std::as_const(*p)); break;
    case 1: if constexpr (std::is_move_constructible_v<T>) p = std::make_unique<T>(std::move(*p)); break;
    case 2: if constexpr (std::is_copy_assignable_v<T>) { *other = std::as_const(*p); p = std::move(other); } break;
    default: if constexpr (std::is_move_assignable_v<T>) { *other = std::move(*p); p = std::move(other); }
  }
}
// Whether an object whose counter was set to n goes on exactly as one that has reached n by counting. (The counter is not
// part of the property; only when this holds is it used to come to large numbers.) fresh() makes an object, jump(object, n)
// sets its counter where there is one, and step(object) is the output for the next message.
template <typename F, typename J, typename S> bool jumps_work(F fresh, J jump, S step) {
  const std::vector<uint64_t> points = {0, 1, 3, 255, 256, 4095, 4096, 65535, 65536};
  std::map<uint64_t, bytes> want;
  auto a = fresh();
  for (uint64_t n = 0; n < 65539; n++) { bytes o = step(a); for (uint64_t p : points) if (n >= p && n <= p + 2) want[n] = o; }
  for (uint64_t p : points) for (int before : {0, 1, 5}) {
    auto b = fresh();
    while (before--) step(b);
    if (!jump(b, p)) return false;
    for (uint64_t n = p; n <= p + 2; n++) if (step(b) != want[n]) return false;
  }
  return true;
}
}
